"""Value graphs of the code that builds, adapts and distributes the octree.

The octree of a rank is a table of octants; hash maps, collective operations and exchanges have their documented meaning. What other
ranks contribute is given by a model of the whole tree (class Forest), never by running them."""
import itertools, threading
from fractions import Fraction
from .facts import kids
from .ast import args, callee_obj, strip
from .comm import Comm, vec
from .host import Abort, C
from .vg import S, LV, Opq, Lam, Leaf, Node, State, Unsup, TRUE, FALSE, base, num, rconst

BITS = {'unsigned int': 32, 'unsigned long': 64, 'unsigned char': 8, 'unsigned short': 16, 'unsigned long long': 64}
SGN = {'int': 32, 'long': 64, 'signed char': 8, 'short': 16, 'char': 8}
HM = 'dyablo::AMRmesh_hashmap_new'
STO = 'dyablo::LightOctree_storage<Kokkos::HostSpace>'


class Amr(Comm):
    def __init__(self, p, rank, size):
        super().__init__(p, rank, size)
        self.maps = []
        self.coms = []
        self.extern = Amr.hook2
        self.maxsteps = 40000000
        self.exact = True           # hash maps hold no more than asked for
        self.onethread = False
        self.on = {}                # name -> callback for collectives and exchanges
        self.ut = {}

    # ---- integer types
    def wrap(self, v, t):
        t = self.ut.get(t) or self.ut.setdefault(t, base(t))
        b = BITS.get(t)
        s = SGN.get(t)
        if not (b or s) or not isinstance(v, Leaf) or isinstance(v.v, bool):
            return v
        c = num(v.v).const()
        if c is None:
            return v
        if b:
            return v if 0 <= c < 2 ** b else C(c % 2 ** b)
        if -2 ** (s - 1) <= c < 2 ** (s - 1):
            return v
        c = c % 2 ** s
        return C(c - 2 ** s if c >= 2 ** (s - 1) else c)

    def toint(self, v, t, e):
        return self.wrap(super().toint(v, t, e), t)

    def ev(self, st, n, fr):
        k = n['k']
        if k == 'CXXNullPtrLiteralExpr':
            return Opq(('null',))
        r = super().ev(st, n, fr)
        if isinstance(r, Leaf) and (k == 'BinaryOperator' and n['o'] in ('+', '-', '*', '<<', '~', '^') or k.endswith('CastExpr') or k == 'UnaryOperator'):
            return self.wrap(r, n.get('t', ''))
        return r

    def store(self, st, lv, v):
        if lv.cell[0] == 'umapmem':
            self.maps[lv.cell[1]]['val'][lv.cell[2]] = v
            return
        if isinstance(v, Leaf) and lv.t:
            v = self.wrap(v, lv.t)
        super().store(st, lv, v)

    def load(self, st, lv, t=''):
        if lv.cell[0] == 'umapmem':
            return self.maps[lv.cell[1]]['val'][lv.cell[2]]
        return super().load(st, lv, t)

    # ---- objects
    def plain(self, v):
        if isinstance(v, S):
            return tuple(self.plain(v[k]) for k in sorted(v, key=str))
        if isinstance(v, Leaf):
            return bool(v.v) if isinstance(v.v, bool) else self.integer(v)
        raise Unsup('key')

    def construct(self, st, n, fr):
        t = base(n.get('t', '')) or n.get('cls', '')
        c = [x for x in kids(n) if x and x['k'] != 'DefArg']
        if t.startswith('Kokkos::UnorderedMap<'):
            if len(c) == 1 and base(c[0].get('t', '')).startswith('Kokkos::UnorderedMap<'):
                return self.val(st, c[0], fr)
            cap = self.integer(self.val(st, c[0], fr)) if c else 0
            self.maps.append({'cap': cap if self.exact else 1000 + 2 * cap, 'key': [], 'val': [], 'idx': {}})
            return Opq(('umap', len(self.maps) - 1), t)
        if t == 'dyablo::ViewCommunicator' and not (n.get('copy') or n.get('move')):
            v = [self.val(st, x, fr) for x in c]
            if len(v) not in (2, 3):
                raise Unsup('communicator')
            self.coms.append(([self.integer(x) for x in self.contents(v[0])], [self.integer(x) for x in self.contents(v[1])]))
            return Opq(('vcomm', len(self.coms) - 1), t)
        if t.startswith(('Kokkos::Min<', 'Kokkos::Max<', 'Kokkos::Sum<', 'Kokkos::LOr<', 'Kokkos::LAnd<')) and len(c) == 1:
            q = Opq(('reducer', t.split('<')[0].split('::')[1], base(c[0].get('t', ''))), t)
            q.src = self.lval(st, c[0], fr)
            return q
        return super().construct(st, n, fr)

    def mesh(self, ndim, octs, ghosts, level_min, coarse, periodic, total, first, level_max, markers=None, ghostmap=None):
        """an AMRmesh_hashmap_new object holding the given octants (x, y, z, level)"""
        st = State()
        h = self.cell('pdata')
        if h[0] != 'new':
            h = ('new',) + tuple(h)
        pd = S()
        pd.t = HM + '::PData'
        pd['markers'] = self.table([C(x) for x in markers] if markers is not None else [C(0)] * len(octs), 'Kokkos::View<int *>')
        pd['level_min'], pd['level_max'] = C(level_min), C(level_max)
        gm = S()
        gm.t = HM + '::GhostMap_t'
        ss, si = ghostmap or ([0] * self.size, [])
        gm['send_sizes'] = self.table([C(x) for x in ss])
        gm['send_iOcts'] = self.table([C(x) for x in si])
        gm['send_cell_masks'] = Opq(('view', None), 'Kokkos::View<unsigned char *>')
        pd['ghostmap'] = gm
        st.mem[h] = pd
        m = S()
        m.t = HM
        m['storage'] = self.storage(ndim, octs, ghosts, level_min, coarse)
        m['periodic'] = self.arr3([TRUE if x else FALSE for x in periodic], 'Kokkos::Array<bool, 3>')
        m['mpi_comm'] = self.mpicomm()
        m['total_num_octs'], m['first_local_oct'] = C(total), C(first)
        m['pdata'] = LV(h, (), HM + '::PData')
        m['pmesh_epoch'] = C(1)
        c = self.cell('mesh')
        st.mem[c] = m
        return st, LV(c, (), HM)

    def arr3(self, x, t):
        a = S()
        a.t = t
        for d in range(3):
            a[d] = x[d]
        return a

    def storage(self, ndim, octs, ghosts, level_min, coarse):
        s = S()
        s.t = STO
        s['ndim'], s['numOctants'], s['numGhosts'], s['level_min'] = C(ndim), C(len(octs)), C(len(ghosts)), C(level_min)
        s['coarse_grid_size'] = self.arr3([C(x) for x in coarse], 'Kokkos::Array<unsigned int, 3>')
        al = list(octs) + list(ghosts)
        s['oct_data'] = self.view((len(al), 4), lambda i: C(al[i[0]][i[1]]), 'Kokkos::View<unsigned int **>')
        return s

    def octants(self, s, what='storage'):
        """(local octants, ghosts) held by a storage object"""
        v = s['oct_data']
        i, rg, kp = self.part(v)
        n, g = self.integer(s['numOctants']), self.integer(s['numGhosts'])
        if i is None:
            rows = []
        else:
            rows = [tuple(self.views[i][1][(a, b)] for b in rg[1]) for a in rg[0]]
        if len(rows) != n + g:
            raise Abort('a tree with %d octants and %d ghosts has a table of %d entries' % (n, g, len(rows)))
        out = [tuple(self.integer(x) if isinstance(x, Leaf) else None for x in r) for r in rows]
        return out[:n], out[n:]


def hook2(self, st, n, fr):
    k = n['k']
    fn = n.get('fn') or ''
    nm = fn.split('::')[-1]
    c = kids(n)
    if k == 'CXXMemberCallExpr':
        nm = c[0].get('n') or nm
    nm = nm.split('<')[0]
    a = [x for x in args(n) if x['k'] != 'DefArg']
    o = callee_obj(n)
    if nm == 'compute_morton_key' and 'dyablo' in fn and self.on.get('morton', True):
        v = [self.val(st, x, fr) for x in a]
        if all(isinstance(x, Leaf) for x in v) and len(v) in (2, 3):
            return C(morton([self.integer(x) for x in v]))
        if len(v) == 1 and isinstance(v[0], S) and v[0].t and 'index_t<' in v[0].t:
            d = v[0]['data']
            return C(morton([self.integer(d[i]) for i in range(len([q for q in d if isinstance(q, int)]))]))
    if k == 'CXXOperatorCallExpr' and n.get('o') in ('->', '*') and base(c[1].get('t', '')).startswith('std::unique_ptr<'):
        v = self.ev(st, c[1], fr)
        if isinstance(v, LV) and v.cell[0] != 'new':
            m = self.load(st, LV(v.cell, v.path[:-1])) if v.path else None
            if isinstance(m, S) and isinstance(m.get(v.path[-1]), LV):
                return m[v.path[-1]]
        if isinstance(v, LV):
            return v
    if k == 'CXXOperatorCallExpr' and n.get('o') == '=' and base(c[1].get('t', '')).startswith('std::unique_ptr<'):
        d = strip(c[1])
        b = self.ev(st, kids(d)[0], fr) if d['k'] == 'MemberExpr' and d.get('dk') == 'field' else None
        # the pointer itself, not what it points to
        l = b.ext(d['n'], d.get('t', '')) if isinstance(b, LV) else self.lval(st, c[1], fr)
        v = self.ev(st, c[2], fr)
        if isinstance(v, LV) and v.cell[0] != 'new':
            v = self.load(st, v)
        self.store(st, l, v)
        return l
    if nm == 'make_unique' and fn.startswith('std::'):
        t = base(n.get('t', ''))
        t = t[len('std::unique_ptr<'):].split(',')[0].rstrip('> ')
        ts = [base(x.get('t', '')).rstrip('* ') for x in a]
        fs = [f for i, f in self.p.fns.items() if f.get('cls') == t and f['n'] == t.split('::')[-1] and f.get('body') and len(f['params']) == len(a)
              and base(f['params'][0]['t']).replace('const ', '').rstrip('* ') == ts[0].replace('const ', '')] if a else []
        if len(fs) != 1:
            raise Unsup('make_unique<%s>' % t)
        v = S()
        v.t = t
        h = ('new',) + tuple(self.cell('made'))
        st.mem[h] = v
        self.run(st, fs[0], a, fr, LV(h, (), t))
        return LV(h, (), t)
    if k == 'CXXMemberCallExpr' and o is not None:
        ot = base(o.get('t', ''))
        if ot.startswith('Kokkos::UnorderedMap<'):
            m = self.maps[self.val(st, o, fr).key[1]]
            if nm == 'size':
                return C(len(m['key']))
            if nm == 'capacity':
                return C(m['cap'])
            if nm == 'rehash':
                m['cap'] = max(self.integer(self.val(st, a[0], fr)), len(m['key']))
                return TRUE
            if nm in ('clear',):
                m.update(key=[], val=[], idx={})
                return Opq('none')
            if nm in ('valid_at', 'key_at', 'value_at'):
                i = self.integer(self.val(st, a[0], fr))
                ok = 0 <= i < len(m['key'])
                if nm == 'valid_at':
                    return TRUE if ok else FALSE
                if not ok:
                    raise Abort('an entry of a hash map that does not exist is read')
                return m['key'][i] if nm == 'key_at' else LV(('umapmem', self.val(st, o, fr).key[1], i), (), n.get('t', ''))
            if nm in ('find', 'exists'):
                i = m['idx'].get(self.plain(self.val(st, a[0], fr)))
                if nm == 'exists':
                    return TRUE if i is not None else FALSE
                return C(2 ** 32 - 1 if i is None else i)
            if nm == 'insert':
                kv = self.val(st, a[0], fr)
                pk = self.plain(kv)
                vv = self.val(st, a[1], fr) if len(a) > 1 else C(0)
                r = S()
                r.t = 'insert_result'
                if pk in m['idx']:
                    r['what'], r['at'] = 'existing', C(m['idx'][pk])
                elif len(m['key']) >= m['cap']:
                    r['what'], r['at'] = 'failed', C(2 ** 32 - 1)
                else:
                    m['idx'][pk] = len(m['key'])
                    m['key'].append(kv)
                    m['val'].append(vv)
                    r['what'], r['at'] = 'success', C(m['idx'][pk])
                r['what'] = Opq(r['what'])
                return r
            raise Unsup('UnorderedMap::' + nm)
        if 'UnorderedMapInsertResult' in ot and nm in ('existing', 'success', 'failed', 'index'):
            r = self.val(st, o, fr)
            if nm == 'index':
                return r['at']
            return TRUE if r['what'].key == nm else FALSE
        if ot == 'dyablo::ViewCommunicator':
            q = self.val(st, o, fr)
            if isinstance(q, Opq) and q.key[0] == 'vcomm':
                if nm == 'getNumGhosts':
                    return C(self.on['ghosts'](self, st, self.coms[q.key[1]]))
                if nm == 'exchange_ghosts':
                    dim = int(n['f'].split('exchange_ghosts<')[1].split(',')[0].split('>')[0])
                    self.on['exchange'](self, st, self.coms[q.key[1]], dim, self.val(st, a[0], fr), self.val(st, a[1], fr))
                    return Opq('none')
        if ot == 'dyablo::MpiComm' and nm.startswith('MPI_') and nm not in ('MPI_Comm_rank', 'MPI_Comm_size'):
            v = [self.ev(st, x, fr) for x in a]
            return self.collective(st, nm, a, v, fr)
    if nm in ('floor', 'ceil', 'round') and len(a) == 1:
        v = self.val(st, a[0], fr)
        x = num(v.v).const() if isinstance(v, Leaf) else None
        if x is not None:
            x = x + Fraction(1, 2) if nm == 'round' and x >= 0 else x
            return C(x.numerator // x.denominator if nm in ('floor', 'round') else -(-x.numerator // x.denominator))
    if nm == 'pow' and len(a) == 2:
        v = [self.val(st, x, fr) for x in a]
        x = [num(y.v).const() if isinstance(y, Leaf) else None for y in v]
        if None not in x and x[1].denominator == 1 and 0 <= x[1] <= 64:
            return C(x[0] ** int(x[1]))
    if nm in ('getNumOctants', 'getNumGhosts') and o is not None and n.get('f') in self.p.fns:
        this = self.ev(st, o, fr)
        if not isinstance(this, LV):
            q = self.cell('tmp')
            st.mem[q] = this
            this = LV(q, (), o.get('t', ''))
        return self.run(st, self.p.fns[n['f']], a, fr, this)
    if nm in ('discover_ghosts', 'findNeighbors') and nm in self.on:
        return self.on[nm](self, st, [self.val(st, x, fr) for x in a])
    if nm in ('atomic_or', 'atomic_fetch_or') and len(a) == 2:
        l = self.lval(st, a[0], fr)
        v = self.val(st, a[1], fr)
        old = self.load(st, l)
        self.store(st, l, self.arith('|', old, v))
        return old
    if nm == 'copy' and fn.startswith('std::') and len(a) == 3:
        b, d = self.val(st, a[0], fr), self.ev(st, a[2], fr)
        if isinstance(b, Opq) and isinstance(b.key, tuple) and b.key[0] == 'vit':
            vals = [b.src[i] for i in sorted(x for x in b.src if isinstance(x, int))]
            if isinstance(d, Opq) and d.key[0] == 'vit':
                raise Unsup('copy')
            self.poke(st, d, vals)
            return Opq('none')
    if nm == 'fill' and len(a) >= 2 and self.isview(a[-2]):
        i, rg, kp = self.part(self.val(st, a[-2], fr))
        v = self.val(st, a[-1], fr)
        for x in itertools.product(*rg):
            self.views[i][1][x] = v
        return Opq('none')
    if nm == 'parallel_reduce':
        rng, lam, rest = None, None, []
        for y in a:
            v = self.ev(st, y, fr)
            q = self.lam(st, v)
            w = self.load(st, v) if isinstance(v, LV) and not q else v
            if q:
                lam = q
            elif isinstance(w, Opq) and isinstance(w.key, tuple) and w.key[0] in ('team', 'range') and rng is None:
                rng = w.key
            elif lam is None and isinstance(w, Leaf) and rng is None:
                rng = ('range', 0, self.integer(w))
            elif lam is not None:
                rest.append((v, w))
        if lam is None or rng is None or len(rest) != 1:
            raise Unsup(nm)
        v, w = rest[0]
        red, lim = 'Sum', None
        if isinstance(w, Opq) and isinstance(w.key, tuple) and w.key[0] == 'reducer':
            red, lim, v = w.key[1], w.key[2], w.src
        if not isinstance(v, LV):
            raise Unsup('reduction result')
        ini = {'Sum': C(0), 'LOr': FALSE, 'LAnd': TRUE}.get(red)
        if ini is None:
            b = BITS.get(lim) or SGN.get(lim)
            if not b:
                raise Unsup('reducer')
            ini = C((2 ** b - 1 if red == 'Min' else 0) if lim in BITS else (2 ** (b - 1) - 1 if red == 'Min' else -2 ** (b - 1)))
        g = next((self.p.fns[x] for x in lam.node.get('fns', ()) if x in self.p.fns and self.p.fns[x].get('body')), None)
        if 'reduce' in self.on:
            r = self.on['reduce'](self, st, lam, g, rng, v)
            if r:
                return Opq('none')
        # every iteration may run on a thread of its own, with an accumulator of its own; or all on one
        tot = ini
        for i in range(rng[1], rng[2]):
            if not self.onethread or i == rng[1]:
                acc = self.cell('acc')
                st.mem[acc] = ini
            self.parallel(st, lam, [C(i)], lambda x: self.lamref(st, lam, g, [x, LV(acc, (), lim or '')]))
            x = st.mem[acc]
            if self.onethread:
                tot = x
                continue
            if red == 'Sum':
                tot = self.add(tot, x)
            elif red in ('Min', 'Max'):
                tot = C((min if red == 'Min' else max)(self.integer(tot), self.integer(x)))
            else:
                tot = self.ite(tot, TRUE, x) if red == 'LOr' else self.ite(tot, x, FALSE)
        self.store(st, v, tot)
        return Opq('none')
    return Comm.hook(self, st, n, fr)


def collective(self, st, nm, a, v, fr):
    """MPI operations of the wrapper class: what the others contribute comes from the model"""
    I = lambda j: self.integer(self.load(st, v[j]) if isinstance(v[j], LV) else v[j])
    op = None
    for x, y in zip(a, v):
        t = base(x.get('t', ''))
        if 'MPI_Op_t' in t:
            ops = next((e for e in self.p.enums.values() if any((q[0] if isinstance(q, list) else q['n']) == 'LOR' for q in e['vals'])), None)
            w = self.load(st, y) if isinstance(y, LV) else y
            c = self.integer(w)
            op = next((q[0] if isinstance(q, list) else q['n']) for q in ops['vals'] if int(q[1] if isinstance(q, list) else q['v']) == c)
    if nm in ('MPI_Allreduce', 'MPI_Scan'):
        if I(2) != 1:
            raise Unsup(nm)
        mine = self.one(st, v[0])
        self.put(st, v[1], self.on['collective'](self, nm, op, mine))
        return Opq('none')
    if nm == 'MPI_Allgather':
        if I(2) != 1:
            raise Unsup(nm)
        mine = self.one(st, v[0])
        self.poke(st, v[1], self.on['collective'](self, nm, None, mine))
        return Opq('none')
    if nm == 'MPI_Allgatherv_inplace':
        k = I(1)
        vals = self.on['collective'](self, nm, (st, k), v[0])
        self.poke(st, v[0], vals)
        return Opq('none')
    raise Unsup(nm)


def one(self, st, l):
    if isinstance(l, LV):
        x = self.load(st, l)
        return x
    return self.peek(st, l, 1)[0]


def put(self, st, l, x):
    if isinstance(l, LV):
        self.store(st, l, x)
    else:
        self.poke(st, l, [x])


Amr.hook2, Amr.collective, Amr.one, Amr.put = hook2, collective, one, put


def morton(co):
    d = 3 if len(co) == 3 else 2
    r = 0
    for b in range(32):
        for i in range(len(co)):
            r |= ((co[i] >> b) & 1) << (d * b + i)
    return r


class Forest:
    """leaves of the whole tree in Z order, cut between ranks"""

    def __init__(self, ndim, leaves, level_min, coarse, periodic, level_max, cuts):
        self.ndim, self.level_min, self.coarse, self.periodic, self.level_max = ndim, level_min, coarse, periodic, level_max
        self.leaves = sorted(leaves, key=self.m)
        self.cuts = [0] + list(cuts) + [len(self.leaves)]
        self.size = len(self.cuts) - 1
        self.at = {o: i for i, o in enumerate(self.leaves)}

    def m(self, o):
        return morton(o[:3]) << 3 * (self.level_max - o[3])

    def n(self, d, lv):
        return self.coarse[d] << (lv - self.level_min)

    def owner(self, i):
        return next(r for r in range(self.size) if self.cuts[r] <= i < self.cuts[r + 1])

    def local(self, r):
        return self.leaves[self.cuts[r]:self.cuts[r + 1]]

    def neighbours(self, o):
        """{offset: [leaves]} of a leaf, as documented for findNeighbors"""
        out = {}
        rg = [(-1, 0, 1)] * self.ndim + [(0,)] * (3 - self.ndim)
        for off in itertools.product(*rg):
            if any(off):
                out[off] = self.at_offset(o, off)
        return out

    def at_offset(self, o, off):
        x, lv = list(o[:3]), o[3]
        for d in range(3):
            x[d] += off[d]
            if not 0 <= x[d] < self.n(d, lv):
                if not self.periodic[d]:
                    return []
                x[d] %= self.n(d, lv)
        for up in range(0, lv + 1):
            q = (x[0] >> up, x[1] >> up, x[2] >> up, lv - up)
            if q in self.at:
                return [q]
        # smaller leaves next to o
        out = []
        rg = [((0, 1) if off[d] == 0 else ((1,) if off[d] < 0 else (0,))) if d < self.ndim else (0,) for d in range(3)]
        for s in itertools.product(*rg[::-1]):
            q = tuple(2 * x[d] + s[2 - d] if d < self.ndim else x[d] for d in range(3)) + (lv + 1,)
            if q not in self.at:
                raise ValueError('not balanced: %s next to %s' % (q, o))
            out.append(q)
        return out

    def ghosts(self, r):
        """{rank: leaves of r that touch a leaf of that rank}"""
        send = {s: [] for s in range(self.size)}
        for i in range(self.cuts[r], self.cuts[r + 1]):
            o = self.leaves[i]
            rk = {self.owner(self.at[q]) for l in self.neighbours(o).values() for q in l} - {r}
            for s in rk:
                send[s].append(o)
        return send

    def received(self, r):
        """ghosts of a rank in the order they arrive"""
        return [o for s in range(self.size) if s != r for o in self.ghosts(s)[r]]


# ---- all ranks together
class World:
    """runs the ranks, one at a time, each up to the operations in which ranks wait for one another"""

    def __init__(self, size):
        self.size = size
        self.log = []
        self.turn = None
        self.cv = threading.Condition()
        self.dead = False

    def run(self, f):
        res, err = {}, {}
        state = {r: 'ready' for r in range(self.size)}

        def go(r):
            try:
                self.await_turn(r)
                res[r] = f(r, self.syncer(r, state))
            except BaseException as e:
                err[r] = e
            with self.cv:
                state[r] = 'done'
                self.turn = None
                self.cv.notify_all()
        old = threading.stack_size(256 * 1024 * 1024)
        th = [threading.Thread(target=go, args=(r,), daemon=True) for r in range(self.size)]
        for t in th:
            t.start()
        threading.stack_size(old)
        try:
            while any(state[r] != 'done' for r in range(self.size)) and not err:
                r = next((r for r in range(self.size) if state[r] == 'ready'), None)
                if r is None:
                    e = next(e for e in self.log if len(e) < self.size)
                    q, (nm, _) = min(e.items())
                    raise Abort('rank %d waits in %s, which rank %d does not reach' % (q, nm, min(set(range(self.size)) - set(e))))
                with self.cv:
                    self.turn = r
                    self.cv.notify_all()
                    while self.turn is not None:
                        self.cv.wait()
        finally:
            with self.cv:
                self.dead = True
                self.cv.notify_all()
        if err:
            raise err[min(err)]
        if any(len(e) < self.size for e in self.log):
            raise Abort('ranks end before others')
        return [res[r] for r in range(self.size)]

    def await_turn(self, r):
        with self.cv:
            while self.turn != r:
                if self.dead:
                    raise SystemExit
                self.cv.wait()

    def syncer(self, r, state):
        k = [0]

        def sync(name, mine):
            i = k[0]
            k[0] += 1
            if i == len(self.log):
                self.log.append({})
            e = self.log[i]
            e[r] = (name, mine)
            for q, (nm, _) in e.items():
                if nm != name:
                    raise Abort('rank %d calls %s when rank %d calls %s' % (r, name, q, nm))
            if len(e) == self.size:
                for q in state:
                    if state[q] == i:
                        state[q] = 'ready'
            else:
                with self.cv:
                    state[r] = i
                    self.turn = None
                    self.cv.notify_all()
                self.await_turn(r)
            return [e[q][1] for q in range(self.size)]
        return sync


def connect(g, sync, rank, size):
    """collective operations and exchanges of rank's engine with their meaning between the ranks of a World"""
    sizes = {}

    def plain(x):
        return x.v if isinstance(x, Leaf) and isinstance(x.v, bool) else g.integer(x)

    def counts(vc):
        k = id(vc)
        if k not in sizes:
            ss, si = vc
            if len(ss) != size:
                raise Abort('a communicator lists the numbers of messages to %d of %d ranks' % (len(ss), size))
            if sum(ss) > len(si):
                raise Abort('a communicator sends %d objects but lists %d' % (sum(ss), len(si)))
            sizes[k] = sync('ViewCommunicator', list(ss))
        return sizes[k]

    def ghosts(g, st, vc):
        return sum(c[rank] for c in counts(vc))

    def exchange(g, st, vc, dim, src, dst):
        cs = counts(vc)
        i, rg, _ = g.part(src)
        j, rh, _ = g.part(dst)
        if len(rg) != len(rh):
            raise Unsup('exchange')
        rest = [list(itertools.product(*(w[:dim] + w[dim + 1:]))) for w in (list(rg), list(rh))]
        at = lambda q, x: tuple(q[:dim]) + (x,) + tuple(q[dim:])
        rows, k = [], 0
        for q in range(size):
            l = []
            for o in vc[1][k:k + vc[0][q]]:
                if not 0 <= o < len(rg[dim]):
                    raise Abort('object %d of an array of %d is sent' % (o, len(rg[dim])))
                row = [g.views[i][1][at(x, rg[dim][o])] for x in rest[0]]
                l.append([plain(x) if isinstance(x, Leaf) else None for x in row])
            k += vc[0][q]
            rows.append(l)
        al = sync('exchange_ghosts<%d>' % dim, rows)
        got = [row for q in range(size) for row in al[q][rank]]
        if len(got) != len(rh[dim]):
            raise Abort('%d objects are received into an array of %d' % (len(got), len(rh[dim])))
        for o, row in zip(rh[dim], got):
            if len(row) != len(rest[1]):
                raise Abort('objects of %d values are received into objects of %d' % (len(row), len(rest[1])))
            for x, v in zip(rest[1], row):
                g.views[j][1][at(x, o)] = C(v)

    def coll(g, nm, op, mine):
        if nm == 'MPI_Allgatherv_inplace':
            st, k = op
            cs = sync(nm, k)
            d = sum(cs[:rank])
            l = [plain(x) for x in g.peek(st, mine, d + k)[d:]] if k else []
            return [C(x) for q in sync(nm + ' data', l) for x in q]
        l = sync('%s %s' % (nm, op or ''), plain(mine))
        if nm == 'MPI_Allgather':
            return [C(x) for x in l]
        if nm == 'MPI_Scan':
            l = l[:rank + 1]
        if op == 'SUM':
            return C(sum(l))
        if op in ('MAX', 'MIN'):
            return C((max if op == 'MAX' else min)(l))
        if op in ('LOR', 'LAND'):
            return TRUE if (any if op == 'LOR' else all)(l) else FALSE
        raise Unsup('%s %s' % (nm, op))
    g.on.update(ghosts=ghosts, exchange=exchange, collective=coll)
