"""Value graphs of host code that keeps named fields: standard containers, Kokkos views and the functions that move them.

Containers (map, set, vector) have their documented meaning with known keys; a view is a table of symbolic values. Control flow
must not depend on the values."""
import itertools
from . import race
from .facts import kids
from .ast import args, callee_obj
from .vg import VG, S, LV, Opq, Lam, Leaf, Node, State, Unsup, rconst, TRUE, FALSE, base, num


def C(x):
    return Leaf(rconst(x))


class Abort(Exception):
    pass


def tstr(x):
    return Opq(('str', x), 'std::string')


def mapof(d, t='std::map'):
    m = S({'k' + k: v for k, v in d.items()})
    m.t = t
    return m


class Host(VG):
    def __init__(self, p, octs=(2, 1), cells=2):
        super().__init__(p, extern=Host.hook)
        self.views = {}          # id -> (shape, {index: value})
        self.octs, self.cells = octs, cells
        self.hooks = {}
        self.prebuilt = {}
        self.nop = set()

    # ---- views
    def view(self, shape, f=lambda i: C(0), t='Kokkos::View'):
        i = len(self.views)
        self.views[i] = (tuple(shape), {x: f(x) for x in itertools.product(*[range(n) for n in shape])})
        return Opq(('view', i), t)

    def vid(self, v):
        if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'view':
            return v.key[1]
        raise Unsup('view')

    def integer(self, v):
        c = num(v.v).const() if isinstance(v, Leaf) and not isinstance(v.v, bool) else None
        if c is None or c.denominator != 1:
            raise Unsup('integer expected')
        return int(c)

    def part(self, v):
        """(view, index ranges, ranks kept)"""
        if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'subview':
            return v.key[1], v.key[2], v.key[3]
        i = self.vid(v)
        return i, tuple(range_(n) for n in self.views[i][0]), (True,) * len(self.views[i][0])

    def text(self, v):
        if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'str':
            return v.key[1]
        if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'ctor' and len(v.key) >= 3 and isinstance(v.key[2], tuple) and v.key[2][0] == 'str':
            return v.key[2][1]
        raise Unsup('text expected')

    def rangeitems(self, st, v, w):
        t = getattr(w, 't', '') or ''
        if isinstance(w, S) and t.startswith('std::map'):
            out = []
            for k in sorted(w):
                x = S()
                x.t = 'std::pair'
                x['first'] = tstr(k[1:])
                x['second'] = v.ext(k) if isinstance(v, LV) else w[k]
                out.append(x)
            return out
        if isinstance(w, S) and t.startswith('std::set'):
            return [x for _, x in sorted({self.text(x): x for x in w.values()}.items())]
        return None

    def isview(self, n):
        t = base(n.get('t', ''))
        return t.startswith('Kokkos::View<') or t.startswith('Kokkos::DualView<')

    def construct(self, st, n, fr):
        t = base(n.get('t', '')) or n.get('cls', '')
        if t in self.prebuilt:
            return self.prebuilt[t]
        c = [x for x in kids(n) if x and x['k'] != 'DefArg']
        if t.startswith('Kokkos::View<'):
            if not c:
                return Opq(('view', None), t)
            if len(c) == 1 and self.isview(c[0]):
                return self.val(st, c[0], fr)
            d = t.split('<')[1].split(',')[0].count('*')
            dims = []
            for x in c[1:]:
                v = self.val(st, x, fr)
                try:
                    dims.append(self.integer(v))
                except Unsup:
                    break
            if len(dims) >= d:
                return self.view(dims[:d], t=t)
            raise Unsup('view')
        if t.startswith(('std::map<', 'std::set<')) and not c:
            v = S()
            v.t = t
            return v
        if t.startswith('std::pair<') and len(c) == 2:
            v = S()
            v.t = t
            v['first'], v['second'] = self.val(st, c[0], fr), self.val(st, c[1], fr)
            return v
        if t.startswith(('std::basic_stringstream', 'std::basic_ostringstream')):
            return Opq('stream', t)
        return super().construct(st, n, fr)

    def lam(self, st, v):
        if isinstance(v, LV):
            v = st.mem.get(v.cell)
        return v if isinstance(v, Lam) else None

    def calllam(self, st, lam, vals):
        g = next((self.p.fns[x] for x in lam.node.get('fns', ()) if x in self.p.fns and self.p.fns[x].get('body')), None)
        if g is None:
            raise Unsup('lambda body')
        env = dict(lam.env)
        for q, v in zip(g['params'], vals):
            c = self.cell('arg')
            st.mem[c] = v
            env[q['d']] = LV(c, (), q['t'])
        return self.body(st, g, env, lam.this)

    def parallel(self, st, lam, its, call=None):
        """run the iterations of a parallel loop in order, following what they access"""
        lp = race.ON.loop(lam) if race.ON else None
        for i, x in enumerate(its):
            if lp:
                lp.start(i)
            call(x) if call else self.calllam(st, lam, [x])
        if lp:
            lp.end(self.samev)

    def samev(self, a, b):
        try:
            return self.equal(a, b)
        except (Unsup, AttributeError, TypeError):
            return False

    def store(self, st, lv, v):
        if lv.cell[0] == 'viewmem':
            if race.ON:
                race.ON.access('w', (id(self), lv.cell[1], lv.cell[2]), v)
            self.views[lv.cell[1]][1][lv.cell[2]] = v
            return
        super().store(st, lv, v)

    def load(self, st, lv, t=''):
        if lv.cell[0] == 'viewmem':
            if race.ON:
                race.ON.access('r', (id(self), lv.cell[1], lv.cell[2]))
            return self.views[lv.cell[1]][1][lv.cell[2]]
        return super().load(st, lv, t)

    def bounds(self, i, x, what):
        sh = self.views[i][0]
        if len(x) != len(sh) or any(not 0 <= a < b for a, b in zip(x, sh)):
            raise Abort('%s reaches element %s of an array of size %s' % (what, tuple(x), sh))

    # ---- hooks
    def hook(self, st, n, fr):
        k = n['k']
        fn = n.get('fn') or ''
        nm = fn.split('::')[-1]
        if k == 'CXXMemberCallExpr':
            nm = kids(n)[0].get('n') or nm
        nm = nm.split('<')[0]
        a = [x for x in args(n) if x['k'] != 'DefArg']
        o = callee_obj(n)
        if nm in self.hooks:
            r = self.hooks[nm](self, st, n, fr, a)
            if r is not None:
                return r
        if nm in self.nop:
            return Opq('none')
        if k == 'CXXOperatorCallExpr':
            c = kids(n)
            op = n.get('o')
            t1 = base(c[1].get('t', ''))
            if op == '<<':
                return Opq('stream')
            if op == '+' and 'basic_string' in n.get('t', ''):
                return Opq(('str', ''), 'std::string')
            if op in ('==', '!=') and '_Rb_tree' in t1:
                x, y = self.val(st, c[1], fr), self.val(st, c[2], fr)
                return TRUE if (x.key == y.key) == (op == '==') else FALSE
            if op in ('==', '!=') and 'basic_string' in t1:
                x, y = self.text(self.val(st, c[1], fr)), self.text(self.val(st, c[2], fr))
                return TRUE if (x == y) == (op == '==') else FALSE
            if op == '[]' and t1.startswith('std::map<'):
                l = self.lval(st, c[1], fr)
                x = 'k' + self.text(self.val(st, c[2], fr))
                m = self.load(st, l)
                if x not in m:
                    vt = base(n.get('t', ''))
                    self.store(st, l.ext(x), self.zero(st, vt, fr) if vt not in self.p.recs else self.make(st, vt, None, None, fr))
                return l.ext(x, n.get('t', ''))
            if op == '()' and self.isview(c[1]):
                i = self.vid(self.val(st, c[1], fr))
                x = tuple(self.integer(self.val(st, y, fr)) for y in c[2:])
                self.bounds(i, x, 'an access')
                return LV(('viewmem', i, x), (), 'double')
            if op == '()':
                lam = self.lam(st, self.ev(st, c[1], fr))
                if lam:
                    r = self.calllam(st, lam, [self.val(st, y, fr) for y in c[2:]])
                    return Opq('none') if r is None else r
            if op == '*' and '_Rb_tree' in t1:
                raise Unsup('iterator')
        if nm == 'parallel_for':
            x = [self.ev(st, y, fr) for y in a]
            lam = next((l for l in (self.lam(st, y) for y in x) if l), None)
            cnt = [self.integer(self.load(st, y) if isinstance(y, LV) else y) for y, e in zip(x, a) if e.get('t', '').split(' ')[-1] in ('long', 'int') or 'int' in base(e.get('t', ''))]
            if lam is None or len(cnt) != 1:
                raise Unsup('parallel_for')
            self.parallel(st, lam, [C(i) for i in range(cnt[0])])
            return Opq('none')
        if nm == 'foreach_particle':
            x = [self.ev(st, y, fr) for y in a]
            lam = next((l for l in (self.lam(st, y) for y in x) if l), None)
            if lam is None:
                raise Unsup('foreach_particle')
            pa = self.load(st, x[1]) if isinstance(x[1], LV) else x[1]
            i = self.vid(pa['particle_position'])
            self.parallel(st, lam, [C(j) for j in range(self.views[i][0][0])])
            return Opq('none')
        if nm == 'subview':
            i, rg, kp = self.part(self.val(st, a[0], fr))
            nr, nk = [], []
            if not all(kp):
                raise Unsup('subview of a subview')
            for y, r in zip(a[1:], rg):
                t = base(y.get('t', ''))
                if 'AUTO' in t or 'ALL' in t:
                    nr.append(r)
                    nk.append(True)
                    continue
                v = self.val(st, y, fr)
                if isinstance(v, S):
                    lo, hi = self.integer(v['first']), self.integer(v['second'])
                    if not 0 <= lo <= hi <= len(r):
                        raise Abort('a subview of columns %d to %d of an array of %d' % (lo, hi, len(r)))
                    nr.append(r[lo:hi])
                    nk.append(True)
                else:
                    x = self.integer(v)
                    if not 0 <= x < len(r):
                        raise Abort('a subview of column %d of an array of %d' % (x, len(r)))
                    nr.append(r[x:x + 1])
                    nk.append(False)
            return Opq(('subview', i, tuple(nr), tuple(nk)), 'Kokkos::View')
        if nm in ('make_pair',) and len(a) == 2:
            v = S()
            v.t = 'std::pair'
            v['first'], v['second'] = self.val(st, a[0], fr), self.val(st, a[1], fr)
            return v
        if nm == 'deep_copy' and len(a) == 2:
            d = self.part(self.val(st, a[0], fr))
            s = self.val(st, a[1], fr)
            if isinstance(s, Leaf):
                for x in itertools.product(*d[1]):
                    self.views[d[0]][1][x] = s
                return Opq('none')
            s = self.part(s)
            sd, ss = [[len(r) for r, q in zip(z[1], z[2]) if q] for z in (d, s)]
            if sd != ss:
                raise Abort('deep_copy from an array of %s to one of %s aborts' % (tuple(ss), tuple(sd)))
            src = [self.views[s[0]][1][x] for x in itertools.product(*s[1])]
            for x, v in zip(itertools.product(*d[1]), src):
                self.views[d[0]][1][x] = v
            return Opq('none')
        if nm == 'exchange_ghosts' and len(a) == 2 and 'ViewCommunicator' in fn:
            dim = int(n['f'].split('exchange_ghosts<')[1].split(',')[0].split('>')[0])
            return self.exchange(self.part(self.val(st, a[0], fr)), self.part(self.val(st, a[1], fr)), dim)
        if nm == 'allocate_ghosted_array':
            fm = self.val(st, a[1], fr)
            return self.array(self.integer(fm['id2index']['_nbfields']), fm['id2index'])
        if nm == 'getNumOctants' and o is not None:
            return C(self.octs[0])
        if nm == 'getNumGhosts' and o is not None and 'Communicator' not in base(o.get('t', '')):
            return C(self.octs[1])
        if k == 'CXXMemberCallExpr' and o is not None:
            ot = base(o.get('t', ''))
            if ot.startswith(('std::map<', 'std::set<', 'std::vector<')):
                l = self.ev(st, o, fr)
                m = self.load(st, l) if isinstance(l, LV) else l
                if not isinstance(m, S):
                    raise Unsup('container')
                ismap = ot.startswith('std::map<')
                key = lambda: 'k' + self.text(self.val(st, a[0], fr))
                if nm == 'size':
                    return C(len(m))
                if nm == 'empty':
                    return FALSE if m else TRUE
                if nm == 'end':
                    return Opq(('it', None), 'iterator')
                if nm in ('find', 'count', 'contains') and not ot.startswith('std::vector<'):
                    x = key()
                    inn = x in m if ismap else any(self.text(v) == x[1:] for v in m.values())
                    if nm == 'find':
                        return Opq(('it', x if inn else None), 'iterator')
                    return C(int(inn))
                if nm == 'at' and ismap:
                    x = key()
                    if x not in m:
                        raise Abort('map::at of an unknown name %s' % x[1:])
                    return l.ext(x, n.get('t', '')) if isinstance(l, LV) else m[x]
                if nm == 'erase':
                    x = key()
                    r = S({u: v for u, v in m.items() if (u != x if ismap else self.text(v) != x[1:])})
                    r.t = m.t
                    self.store(st, l, r)
                    return C(1)
                if nm == 'clear':
                    r = S()
                    r.t = m.t
                    self.store(st, l, r)
                    return Opq('none')
                if nm in ('insert', 'push_back', 'emplace', 'emplace_back') and len(a) == 1:
                    v = self.val(st, a[0], fr)
                    r = S(m)
                    r.t = m.t
                    if ismap:
                        r['k' + self.text(v['first'])] = v['second']
                    elif ot.startswith('std::set<'):
                        r['k' + self.text(v)] = v
                    else:
                        r[len(m)] = v
                    self.store(st, l, r)
                    return Opq('none')
            if nm == 'extent' and self.isview(o):
                v = self.val(st, o, fr)
                if v.key == ('view', None):
                    return C(0)
                i, rg, kp = self.part(v)
                d = self.integer(self.val(st, a[0], fr))
                rg = [r for r, q in zip(rg, kp) if q]
                return C(len(rg[d]) if d < len(rg) else 1)
            if nm == 'label' and self.isview(o):
                return tstr('label')
        return None

    def exchange(self, s, d, dim):
        """objects of the other ranks arrive in unknown order: object i of the target is some object of the source"""
        sd, ss = [[len(r) for r in z[1]] for z in (d, s)]
        if sd[:dim] + sd[dim + 1:] != ss[:dim] + ss[dim + 1:]:
            raise Abort('an exchange between arrays of %s and %s' % (tuple(ss), tuple(sd)))
        vals = {}
        for x in itertools.product(*[range(q) for q in sd]):
            y = list(x)
            y[dim] = x[dim] % max(1, ss[dim])
            src = self.views[s[0]][1][tuple(r[q] for r, q in zip(s[1], y))]
            vals[tuple(r[q] for r, q in zip(d[1], x))] = self.fun('moved', src) if isinstance(src, Leaf) and num(src.v).const() is None else src
        self.views[d[0]][1].update(vals)
        return Opq('none')

    def array(self, nf, fm=None, f=None):
        v = S()
        v.t = 'dyablo::AMRBlockForeachCell_CellArray_impl::CellArray_global_ghosted'
        v['U'] = self.view((self.cells, nf, self.octs[0]), (lambda i: f(i, False)) if f else lambda i: C(0))
        v['Ughost'] = self.view((self.cells, nf, self.octs[1]), (lambda i: f(i, True)) if f else lambda i: C(0))
        if fm is None:
            fm = S()
            fm.t = 'dyablo::id2index_t'
            fm['_nbfields'] = C(nf)
        v['fm'] = fm
        return v


def range_(n):
    return tuple(range(n))
