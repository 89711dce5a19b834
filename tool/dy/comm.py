"""Value graphs of code that exchanges data between ranks.

One rank at a time is interpreted with symbolic array contents; every message it sends is recorded and every message it
receives is an unknown named by its sender, order and position. Messages are matched afterwards."""
import contextlib, itertools
from . import race
from .facts import kids
from .ast import args, callee_obj
from .vg import S, LV, Opq, Lam, Leaf, State, Unsup, TRUE, FALSE, base, num
from .host import Host, Abort, C, tstr

TYPES = {'double': 'MPI_DOUBLE', 'float': 'MPI_FLOAT'}


def vec(items, t='std::vector'):
    v = S({i: x for i, x in enumerate(items)})
    v.t = t
    return v


def rank_of(t):
    """number of dimensions of a view type"""
    return t.split('<', 1)[1].split(',')[0].split('>')[0].count('*')


class Comm(Host):
    def __init__(self, p, rank, size):
        super().__init__(p)
        self.extern = Comm.hook
        self.rank, self.size = rank, size
        self.sent = {}          # (destination, order) -> (values, tag)
        self.nrecv = {}         # source -> number of receives posted
        self.recvs = {}         # (source, order) -> (length, tag)
        self.requests = []
        self.oracle = None      # collective -> values
        self.maxsteps = 4000000

    def mpicomm(self):
        v = S()
        v.t = 'dyablo::MpiComm'
        v['mpi_comm_id'] = Opq('comm')
        v['mpi_comm_size'] = C(self.size)
        v['mpi_comm_rank'] = C(self.rank)
        return v

    # ---- views
    def part(self, v):
        if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'view' and v.key[1] is None:
            return None, ((),), (True,)
        return super().part(v)

    def table(self, items, t='Kokkos::View<unsigned int *>'):
        items = list(items)
        return self.view((len(items),), lambda i: items[i[0]], t)

    def contents(self, v):
        i, rg, kp = self.part(v)
        if i is None:
            return []
        return [self.views[i][1][x] for x in itertools.product(*rg)]

    def memory(self, v):
        """elements in memory order"""
        i, rg, kp = self.part(v)
        if i is None:
            return None, []
        sh = self.views[i][0]
        out = []
        for x in itertools.product(*[rg[d] for d in reversed(range(len(rg)))]):
            out.append(tuple(reversed(x)))
        pos = []
        for x in out:
            q, s = 0, 1
            for a, b in zip(x, sh):
                q += a * s
                s *= b
            pos.append(q)
        if any(b - a != 1 for a, b in zip(pos, pos[1:])):
            raise Abort('a message buffer whose elements are not contiguous in memory')
        return i, out

    def buffer(self, st, v):
        """what a pointer points to"""
        if isinstance(v, LV):
            m = self.load(st, v)
            if isinstance(m, Opq) and isinstance(m.key, tuple) and m.key[0] == 'ptr':
                return self.memory(m.src)
            return v
        if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'ptr':
            return self.memory(v.src)
        raise Unsup('buffer')

    def peek(self, st, v, count):
        b = self.buffer(st, v)
        if isinstance(b, LV):
            m = self.load(st, b)
            if isinstance(m, Leaf):
                m = {0: m}
            if not isinstance(m, S) and not isinstance(m, dict) or len([k for k in m if isinstance(k, int)]) < count:
                raise Abort('a message of %d elements from an array of %d' % (count, len(m) if isinstance(m, dict) else 0))
            return [m[k] for k in range(count)]
        if len(b[1]) < count:
            raise Abort('a message of %d elements from an array of %d' % (count, len(b[1])))
        return [self.views[b[0]][1][x] for x in b[1][:count]]

    def poke(self, st, v, vals, off=0):
        b = self.buffer(st, v)
        if isinstance(b, LV):
            m = self.load(st, b)
            if isinstance(m, Leaf) and len(vals) == 1:
                self.store(st, b, vals[0])
                return
            n = len([k for k in m if isinstance(k, int)])
            if off + len(vals) > n:
                raise Abort('%d elements received into an array of %d' % (off + len(vals), n))
            for k, x in enumerate(vals):
                self.store(st, b.ext(off + k), x)
            return
        if off + len(vals) > len(b[1]):
            raise Abort('%d elements received into an array of %d' % (off + len(vals), len(b[1])))
        for x, w in zip(b[1][off:], vals):
            self.views[b[0]][1][x] = w

    def newview(self, sh, t):
        return self.view(sh, lambda i: C(0), t)

    def construct(self, st, n, fr):
        t = base(n.get('t', '')) or n.get('cls', '')
        c = [x for x in kids(n) if x and x['k'] != 'DefArg']
        if (n.get('copy') or n.get('move')) and len(c) == 1:
            return self.val(st, c[0], fr)
        if t.startswith('Kokkos::View<'):
            if not c:
                return Opq(('view', None), t)
            if len(c) == 1 and self.isview(c[0]):
                v = self.val(st, c[0], fr)
                return v
            d = rank_of(t)
            a0 = self.ev(st, c[0], fr)
            if isinstance(a0, Opq) and isinstance(a0.key, tuple) and a0.key[0] == 'ptr':
                if self.integer(self.val(st, c[1], fr)) > len(self.contents(a0.src)):
                    raise Abort('a view larger than the memory behind it')
                return a0.src
            if '*' in c[0].get('t', '') and isinstance(a0, LV) and 'char' not in c[0].get('t', ''):
                k = self.integer(self.val(st, c[1], fr))
                return self.table(self.peek(st, a0, k), t)
            x = self.val(st, c[1], fr) if len(c) > 1 else None
            if isinstance(x, S) and 'dimension' in x:
                return self.newview([self.integer(x['dimension'][i]) for i in range(d)], t)
            dims = [self.integer(self.val(st, y, fr)) for y in c[1:]]
            if len(dims) < d:
                raise Unsup('view')
            return self.newview(dims[:d], t)
        if t.startswith('Kokkos::Layout') and len(c) == 8:
            v = S()
            v.t = t
            v['dimension'] = vec([self.val(st, x, fr) for x in c], 'unsigned long[8]')
            return v
        if t.startswith('std::vector<') and len(c) in (1, 2) and base(c[0].get('t', '')) in ('int', 'unsigned int', 'unsigned long', 'long'):
            k = self.integer(self.val(st, c[0], fr))
            e = t.split('<', 1)[1].rsplit(', std::allocator', 1)[0]
            if len(c) == 2:
                w = self.val(st, c[1], fr)
            else:
                w = Opq(('view', None), e) if e.startswith('Kokkos::View<') else None
            return vec([w if w is not None else self.elt(st, e, fr) for _ in range(k)], t)
        if t.startswith('Kokkos::TeamPolicy') and c:
            return Opq(('team', self.integer(self.val(st, c[0], fr))), t)
        if t.startswith('Kokkos::RangePolicy') and len(c) >= 2:
            lo, hi = [self.integer(self.val(st, x, fr)) for x in c[-2:]]
            return Opq(('range', lo, hi), t)
        return super().construct(st, n, fr)

    def elt(self, st, e, fr):
        if e in self.p.recs:
            return self.make(st, e, None, None, fr)
        if e.startswith('std::vector<'):
            return vec([], e)
        return C(0)

    @contextlib.contextmanager
    def atomically(self):
        if race.ON:
            race.ON.atomic += 1
        try:
            yield
        finally:
            if race.ON:
                race.ON.atomic -= 1

    def mkey(self, v):
        if isinstance(v, Leaf):
            return self.integer(v)
        return 'k' + self.text(v)

    def other(self, st, n, fr, nm, a, o):
        return None


def _it(key, l):
    q = Opq(('it', key), 'iterator')
    q.src = l
    return q


def hook(self, st, n, fr):
    k = n['k']
    fn = n.get('fn') or ''
    nm = fn.split('::')[-1]
    if k == 'CXXMemberCallExpr':
        nm = kids(n)[0].get('n') or nm
    nm = nm.split('<')[0]
    a = [x for x in args(n) if x['k'] != 'DefArg']
    o = callee_obj(n)
    if nm in self.hooks:
        r = self.hooks[nm](self, st, n, fr, a)
        if r is not None:
            return r
    if nm in self.nop:
        return Opq('none')
    r = self.other(st, n, fr, nm, a, o)
    if r is not None:
        return r
    if k == 'CXXOperatorCallExpr':
        c = kids(n)
        op = n.get('o')
        t1 = base(c[1].get('t', ''))
        if op == '()' and self.isview(c[1]):
            i, rg, kp = self.part(self.val(st, c[1], fr))
            x = tuple(self.integer(self.val(st, y, fr)) for y in c[2:])
            sh = [len(r) for r, q in zip(rg, kp) if q]
            if len(x) != len(sh) or any(not 0 <= u < w for u, w in zip(x, sh)):
                raise Abort('an access reaches element %s of an array of size %s' % (x, tuple(sh)))
            it = iter(x)
            y = tuple(r[next(it)] if q else r[0] for r, q in zip(rg, kp))
            return LV(('viewmem', i, y), (), n.get('t', 'double'))
        if op == '[]' and t1.startswith('std::map<'):
            l = self.lval(st, c[1], fr)
            x = self.mkey(self.val(st, c[2], fr))
            m = self.load(st, l)
            if x not in m:
                self.store(st, l.ext(x), self.elt(st, base(n.get('t', '')), fr))
            return l.ext(x, n.get('t', ''))
        if op == '[]' and t1.startswith(('std::vector<', 'std::array<', 'Kokkos::Array<')):
            l = self.ev(st, c[1], fr)
            m = self.load(st, l) if isinstance(l, LV) else l
            x = self.integer(self.val(st, c[2], fr))
            if isinstance(m, S) and x not in m:
                raise Abort('element %d of a vector of %d' % (x, len(m)))
            return l.ext(x, n.get('t', '')) if isinstance(l, LV) else m[x]
        if op == '->' and '_Rb_tree' in t1:
            it = self.val(st, c[1], fr)
            if it.key[1] is None:
                raise Abort('the end of a map is dereferenced')
            v = S()
            v.t = 'std::pair'
            v['first'] = C(it.key[1]) if isinstance(it.key[1], int) else tstr(it.key[1][1:])
            v['second'] = it.src.ext(it.key[1]) if isinstance(it.src, LV) else it.src[it.key[1]]
            return v
        if op in ('==', '!=') and '_Rb_tree' in t1:
            x, y = self.val(st, c[1], fr), self.val(st, c[2], fr)
            return TRUE if (x.key == y.key) == (op == '==') else FALSE
    if k == 'CXXMemberCallExpr' and o is not None:
        ot = base(o.get('t', ''))
        if ot.startswith('std::map<') and nm in ('find', 'at', 'count', 'end'):
            l = self.ev(st, o, fr)
            m = self.load(st, l) if isinstance(l, LV) else l
            if nm == 'end':
                return _it(None, l)
            x = self.mkey(self.val(st, a[0], fr))
            if nm == 'find':
                return _it(x if x in m else None, l)
            if nm == 'count':
                return C(int(x in m))
            if x not in m:
                raise Abort('map::at of an unknown key')
            return l.ext(x, n.get('t', '')) if isinstance(l, LV) else m[x]
        if ot.startswith('std::vector<'):
            l = self.ev(st, o, fr)
            if nm == 'data':
                return l
            m = self.load(st, l) if isinstance(l, LV) else l
            if not isinstance(m, S):
                raise Unsup('vector')
            if nm in ('begin', 'end', 'cbegin', 'cend'):
                q = Opq(('vit', nm.lstrip('c'), id(l)), 'iterator')
                q.src = m
                return q
            if nm == 'resize':
                z = self.integer(self.val(st, a[0], fr))
                e = m.t.split('<', 1)[1].rsplit(', std::allocator', 1)[0] if '<' in (m.t or '') else 'int'
                w = vec([m[i] if i in m else (self.val(st, a[1], fr) if len(a) > 1 else self.elt(st, e, fr)) for i in range(z)], m.t)
                self.store(st, l, w)
                return Opq('none')
            if nm == 'reserve':
                return Opq('none')
            if nm in ('back', 'front') and m:
                x = len(m) - 1 if nm == 'back' else 0
                return l.ext(x, n.get('t', '')) if isinstance(l, LV) else m[x]
            if nm == 'at':
                x = self.integer(self.val(st, a[0], fr))
                if x not in m:
                    raise Abort('vector::at outside of the vector')
                return l.ext(x, n.get('t', '')) if isinstance(l, LV) else m[x]
            if nm == 'emplace_back' and not a:
                e = base(ot.split('<', 1)[1].rsplit(', std::allocator', 1)[0])
                self.store(st, l.ext(len(m)), self.elt(st, e, fr))
                return Opq('none')
        if self.isview(o):
            v = self.val(st, o, fr)
            if nm == 'data':
                q = Opq(('ptr', v.key), 'pointer')
                q.src = v
                return q
            if nm == 'size':
                return C(len(self.contents(v)))
            if nm in ('extent', 'extent_int'):
                i, rg, kp = self.part(v)
                d = self.integer(self.val(st, a[0], fr))
                rg = [r for r, q in zip(rg, kp) if q]
                if i is None:
                    return C(0)
                return C(len(rg[d]) if d < len(rg) else 1)
            if nm == 'layout':
                i, rg, kp = self.part(v)
                sh = [len(r) for r, q in zip(rg, kp) if q]
                w = S()
                w.t = 'Kokkos::LayoutLeft'
                w['dimension'] = vec([C(x) for x in sh] + [C(1)] * (8 - len(sh)), 'unsigned long[8]')
                return w
            if nm == 'is_allocated':
                return FALSE if v.key == ('view', None) else TRUE
        if nm == 'league_rank':
            v = self.val(st, o, fr)
            return C(v.key[1])
    if nm == 'create_mirror_view' or nm == 'create_mirror':
        v = self.val(st, a[-1], fr)
        i, rg, kp = self.part(v)
        if i is None:
            return v
        return self.view([len(r) for r, q in zip(rg, kp) if q], lambda x: C(0), base(n.get('t', '')))
    if nm == 'create_mirror_view_and_copy':
        v = self.val(st, a[-1] if self.isview(a[-1]) else a[-2], fr)
        i, rg, kp = self.part(v)
        if i is None:
            return v
        sh = [len(r) for r, q in zip(rg, kp) if q]
        src = iter([self.views[i][1][x] for x in itertools.product(*rg)])
        return self.view(sh, lambda x: next(src), base(n.get('t', '')))
    if nm in ('realloc', 'resize') and fn.startswith('Kokkos::'):
        l = self.lval(st, a[0], fr)
        dims = [self.val(st, y, fr) for y in a[1:]]
        if len(dims) == 1 and isinstance(dims[0], S):
            dims = [dims[0]['dimension'][i] for i in range(rank_of(base(a[0].get('t', ''))))]
        dims = [self.integer(x) for x in dims]
        old = self.load(st, l)
        v = self.newview(dims, base(a[0].get('t', '')))
        if nm == 'resize' and old.key[1] is not None:
            for x, w in self.views[self.vid(old)][1].items():
                if x in self.views[self.vid(v)][1]:
                    self.views[self.vid(v)][1][x] = w
        self.store(st, l, v)
        return Opq('none')
    if nm == 'deep_copy' and len(a) == 2 and fn.startswith('Kokkos::'):
        d, s = self.part(self.val(st, a[0], fr)), self.val(st, a[1], fr)
        if not isinstance(s, Leaf):
            s = self.part(s)
            if d[0] is None or s[0] is None:
                if (d[0] is None) != (s[0] is None) and (self.size_of(d) or self.size_of(s)):
                    raise Abort('deep_copy between an array and one that is not allocated')
                return Opq('none')
    if nm in ('atomic_increment', 'atomic_inc', 'atomic_decrement'):
        l = self.lval(st, a[0], fr)
        with self.atomically():
            self.store(st, l, self.add(self.load(st, l), C(-1 if 'decr' in nm else 1)))
        return Opq('none')
    if nm in ('atomic_add', 'atomic_fetch_add', 'atomic_sub', 'atomic_fetch_sub'):
        l = self.lval(st, a[0], fr)
        v = self.val(st, a[1], fr)
        with self.atomically():
            old = self.load(st, l)
            if isinstance(old, Opq) or isinstance(v, Opq):
                self.store(st, l, Opq(('sum of a value that is not there yet',)))
            else:
                self.store(st, l, self.add(old, v) if 'add' in nm else self.sub(old, v))
        return old
    if nm == 'TeamVectorRange' or nm == 'TeamThreadRange' or nm == 'ThreadVectorRange':
        x = [self.integer(self.val(st, y, fr)) for y in a[1:]]
        return Opq(('range',) + ((0, x[0]) if len(x) == 1 else tuple(x)), 'policy')
    if nm == 'fence':
        return Opq('none')
    if nm in ('parallel_for', 'parallel_scan', 'parallel_reduce'):
        rng, lam, rest = None, None, []
        for y in a:
            v = self.ev(st, y, fr)
            q = self.lam(st, v)
            w = self.load(st, v) if isinstance(v, LV) and not q else v
            if q:
                lam = q
            elif isinstance(w, Opq) and isinstance(w.key, tuple) and w.key[0] in ('team', 'range') and rng is None:
                rng = w.key
            elif lam is None and isinstance(w, Leaf) and rng is None:
                rng = ('range', 0, self.integer(w))
            elif lam is not None:
                rest.append(v)
        if lam is None or rng is None:
            raise Unsup(nm)
        its = [Opq(('member', i), 'member') for i in range(rng[1])] if rng[0] == 'team' else [C(i) for i in range(rng[1], rng[2])]
        if nm == 'parallel_for':
            self.parallel(st, lam, its)
            return Opq('none')
        g = next((self.p.fns[x] for x in lam.node.get('fns', ()) if x in self.p.fns and self.p.fns[x].get('body')), None)
        acc = self.cell('acc')
        st.mem[acc] = C(0)
        if nm == 'parallel_scan':
            # the functor may be applied to any range before its final pass
            for fin in (FALSE, TRUE):
                st.mem[acc] = C(0)
                self.parallel(st, lam, its, lambda i: self.lamref(st, lam, g, [i, LV(acc, (), 'int'), fin]))
        else:
            self.parallel(st, lam, its, lambda i: self.lamref(st, lam, g, [i, LV(acc, (), 'int')]))
        if rest:
            if not isinstance(rest[0], LV):
                raise Unsup('reduction result')
            self.store(st, rest[0], st.mem[acc])
        return Opq('none')
    if nm == 'accumulate' and fn.startswith('std::') and len(a) == 3:
        b = self.val(st, a[0], fr)
        v = self.val(st, a[2], fr)
        for i in sorted(b.src):
            v = self.add(v, b.src[i])
        return v
    # ---- message passing
    if nm == 'mpi_type':
        t = (n.get('f') or '').split('mpi_type<')[1].split('>')[0]
        return Opq(('mpi_type', t), 'type')
    if k == 'CallExpr' and fn.startswith('MPI_') or fn.startswith('ompi_') or fn.startswith('::MPI_'):
        return self.mpi(st, n, fr, nm, a)
    if nm == 'mpi_op':
        return Opq('op')
    return Host.hook(self, st, n, fr)


def lamref(self, st, lam, g, vals):
    if g is None:
        raise Unsup('lambda body')
    env = dict(lam.env)
    for q, v in zip(g['params'], vals):
        if isinstance(v, LV):
            env[q['d']] = v
            continue
        c = self.cell('arg')
        st.mem[c] = v
        env[q['d']] = LV(c, (), q['t'])
    return self.body(st, g, env, lam.this)


def size_of(self, part):
    r = 1
    for q in part[1]:
        r *= len(q)
    return r


def mpi(self, st, n, fr, nm, a):
    I = lambda j: self.integer(self.val(st, a[j], fr))
    P = lambda j: self.ev(st, a[j], fr)
    if nm in ('MPI_Isend', 'MPI_Irecv', 'MPI_Send', 'MPI_Recv'):
        buf, cnt, peer, tag = P(0), I(1), I(3), I(4)
        if not 0 <= peer < self.size:
            raise Abort('%s to rank %d of %d' % (nm, peer, self.size))
        r = {'send': 'send' in nm.lower(), 'peer': peer, 'tag': tag, 'buf': buf, 'cnt': cnt, 'done': False}
        if r['send']:
            r['no'] = len([x for x in self.requests if x['send'] and x['peer'] == peer])
            self.peek(st, buf, cnt)
        else:
            r['no'] = self.nrecv.get(peer, 0)
            self.nrecv[peer] = r['no'] + 1
            self.poke(st, buf, [Opq(('read before the message arrived',))] * cnt)
        self.requests.append(r)
        if nm[4] == 'I':
            q = Opq(('request', len(self.requests) - 1), 'request')
            self.store(st, self.lval(st, a[6], fr), q)
        else:
            self.complete(st, r)
        return Opq('none')
    if nm in ('MPI_Waitall',):
        cnt, l = I(0), P(1)
        if cnt == 0:
            return Opq('none')
        for v in self.peek(st, l, cnt):
            if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'request':
                self.complete(st, self.requests[v.key[1]])
        return Opq('none')
    if nm == 'MPI_Alltoall':
        sb, sc, rb, rc = P(0), I(1), P(3), I(4)
        vals = self.peek(st, sb, sc * self.size)
        out = self.oracle(self, 'Alltoall', [vals[i * sc:(i + 1) * sc] for i in range(self.size)], [rc] * self.size)
        self.poke(st, rb, [x for q in out for x in q])
        return Opq('none')
    if nm == 'MPI_Alltoallv':
        sb, rb = P(0), P(4)
        sc, sd, rc, rd = [[self.integer(x) for x in self.peek(st, P(j), self.size)] for j in (1, 2, 5, 6)]
        tot = max([x + y for x, y in zip(sc, sd)])
        vals = self.peek(st, sb, tot)
        out = self.oracle(self, 'Alltoallv', [vals[x:x + y] for x, y in zip(sd, sc)], rc)
        for q, off in zip(out, rd):
            self.poke(st, rb, q, off)
        return Opq('none')
    raise Unsup(nm)


def complete(self, st, r):
    if r['done']:
        return
    r['done'] = True
    if r['send']:
        self.sent[(r['peer'], r['no'])] = (self.peek(st, r['buf'], r['cnt']), r['tag'])
    else:
        self.recvs[(r['peer'], r['no'])] = (r['cnt'], r['tag'])
        self.poke(st, r['buf'], [self.atom(('message', r['peer'], self.rank, r['no'], j)) for j in range(r['cnt'])])


Comm.hook = hook
Comm.lamref, Comm.size_of, Comm.mpi, Comm.complete = lamref, size_of, mpi, complete


def match(ranks):
    """the value behind every message element; a text when messages do not match"""
    env, bad = {}, []
    for g in ranks:
        for r in g.requests:
            if not r['done']:
                bad.append('rank %d never waits for a message %s rank %d' % (g.rank, 'to' if r['send'] else 'from', r['peer']))
        for (dst, no), (vals, tag) in g.sent.items():
            q = ranks[dst].recvs.get((g.rank, no))
            if q is None:
                bad.append('rank %d sends a message to rank %d that is never received' % (g.rank, dst))
            elif q[1] != tag:
                bad.append('rank %d sends to rank %d with another tag than it receives' % (g.rank, dst))
            elif q[0] != len(vals):
                bad.append('rank %d sends %d elements to rank %d, which receives %d' % (g.rank, len(vals), dst, q[0]))
            else:
                for j, v in enumerate(vals):
                    env[('message', g.rank, dst, no, j)] = v
        for (src, no) in g.recvs:
            if (g.rank, no) not in ranks[src].sent:
                bad.append('rank %d waits for a message of rank %d that is never sent' % (g.rank, src))
    return env, bad
