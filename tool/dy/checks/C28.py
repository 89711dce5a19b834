"""Cell indices: walking over blocks and octants."""
import itertools, os
from fractions import Fraction
from ..intg import IVG, C
from ..vg import S, LV, Leaf, Node, Opq, State, Unsup, rconst, num, FALSE, TRUE, base, Rat
from ..facts import kids
from ..ast import callee_obj, args
from .. import par

RULE = ('From a cell (i,j,k) of an octant, getNeighbor_ghost(offset) must return the cell at that offset in global cell coordinates: '
        'in the same block, in the same-size octant, in the larger octant that contains it, or the smaller cell next to the starting '
        'cell (periodic wrap included), or a boundary index that leads back to the cell inside and the offset; iteration and storage '
        'must number cells without gap or overlap; positions and cells must correspond.')
EXPLAIN = ('Integer value numbering of the index functions together with LightOctree_hashmap and LightOctree_storage over symbolic '
           'block sizes, cell and octant coordinates, offsets and levels; only the hash map and the coordinate array are modelled.')
TRUSTED = ['Kokkos::UnorderedMap returns what was inserted', 'the tree is 2:1 balanced and complete']
P = None
NS = 'dyablo::AMRBlockForeachCell_CellArray_impl::'


class Missing(Exception):
    pass


def fn(name, cls, *params):
    r = []
    for f in P.fns.values():
        if f['n'] == name and f.get('body') and (cls is None or f.get('cls', '') == cls or f.get('clsd', '') == cls) and '$' not in f['id']:
            if all(any(q in x['t'] for x in f['params']) for q in params):
                r.append(f)
    if len(r) != 1:
        raise Unsup('%d functions %s' % (len(r), name))
    return r[0]


def status(name):
    return consts(name)[name]


class Tree:
    """octants known to the abstract map: found by (level offset, coordinates)"""

    def __init__(self, g, ndim, rel, ghost):
        self.g, self.ndim, self.rel, self.ghost = g, ndim, rel, ghost
        self.ids = {}
        self.data = {}
        self.finds = []
        self.L = g.nat('level')
        self.lmin = g.nat('level_min')

    def key(self, lv, co):
        g = self.g
        d = num(g.sub(lv, self.L).v).const()
        if d is None:
            raise Unsup('level of a key')
        return (int(d),) + tuple(g.rkey(num(x.v)) if isinstance(x, Leaf) else None for x in co)

    def oct(self, lv, co, ghost=False):
        k = self.key(lv, co)
        if k not in self.ids:
            self.ids[k] = len(self.ids)
            self.data[self.ids[k], ghost] = (lv, co)
        i = self.ids[k]
        s = S()
        s.t = 'dyablo::LightOctree_base::OctantIndex'
        s['iOct'] = C(i)
        s['isGhost'] = TRUE if (i, True) in self.data else FALSE
        return s

    # hooks
    def h_find(self, g, st, n, fr, a):
        if 'UnorderedMap' not in (n.get('fn') or ''):
            return None
        k = g.val(st, a[0], fr)
        if not isinstance(k, S):
            raise Unsup('map key')
        self.finds.append(k)
        return C(1000 + len(self.finds) - 1)

    def at(self, g, st, a, fr):
        v = g.val(st, a[0], fr)
        c = num(v.v).const() if isinstance(v, Leaf) else None
        if c is None or c < 1000:
            raise Unsup('map position')
        return self.finds[int(c) - 1000]

    def exists(self, k):
        d = num(self.g.sub(k['level'], self.L).v).const()
        co = [k[x] for x in 'ijk']
        if d is None:
            raise Unsup('level of a key')
        if self.key(k['level'], co) in self.ids:
            return True
        return d == {'same': 0, 'larger': -1, 'smaller': 1}[self.rel]

    def h_valid(self, g, st, n, fr, a):
        if 'UnorderedMap' not in (n.get('fn') or ''):
            return None
        return TRUE if self.exists(self.at(g, st, a, fr)) else FALSE

    def h_value(self, g, st, n, fr, a):
        if 'UnorderedMap' not in (n.get('fn') or ''):
            return None
        k = self.at(g, st, a, fr)
        if not self.exists(k):
            raise Missing('an octant that does not exist is looked up: level %s, position (%s)' % (g.show(k['level']), ', '.join(g.show(k[x]) for x in 'ijk')))
        return self.oct(k['level'], [k[x] for x in 'ijk'], self.ghost)

    def h_call(self, g, st, n, fr, a):
        if 'View' not in (n.get('fn') or '') or len(a) != 3 and len(a) != 2:
            return None
        x = a[-2:]
        i, f = g.val(st, x[0], fr), g.val(st, x[1], fr)
        if not isinstance(i, Leaf) or not isinstance(f, Leaf):
            raise Unsup('octant data')
        r, fc = num(i.v), int(num(f.v).const())
        gh = False
        if r.const() is None:
            r = g.radd(r, num(g.nat('numOctants').v), -1)
            gh = True
        if r.const() is None or (int(r.const()), gh) not in self.data:
            raise Missing('coordinates of another octant are read')
        lv, co = self.data[int(r.const()), gh]
        names = ['ICORNERX', 'ICORNERY', 'ICORNERZ', 'ILEVEL']
        w = consts('ICORNERX')
        return ([co[0], co[1], co[2], lv])[[w[q] for q in names].index(fc)]

    def hooks(self):
        return {'find': self.h_find, 'valid_at': self.h_valid, 'value_at': self.h_value, 'operator()': self.h_call}

    def lightoctree(self, N, periodic, maxl=None):
        g = self.g
        st = S()
        st.t = 'dyablo::LightOctree_storage<Kokkos::HostSpace>'
        st['ndim'] = C(self.ndim)
        st['numOctants'] = g.nat('numOctants')
        st['numGhosts'] = g.nat('numGhosts')
        st['level_min'] = self.lmin
        cg = S()
        cg.t = 'Kokkos::Array<unsigned int, 3>'
        p2 = Leaf(g.pow2(num(g.sub(self.L, self.lmin).v)))
        for d in range(3):
            cg[d] = g.div(N[d], p2)
        st['coarse_grid_size'] = cg
        st['oct_data'] = Opq(('oct_data',), 'Kokkos::View<unsigned int **>')
        lm = S()
        lm.t = 'dyablo::LightOctree_hashmap'
        lm['storage'] = st
        lm['oct_map'] = Opq(('oct_map',), 'Kokkos::UnorderedMap')
        lm['min_level'] = self.lmin
        lm['max_level'] = maxl if maxl is not None else g.add(self.L, C(1))
        pr = S()
        pr.t = 'Kokkos::Array<bool, 3>'
        for d in range(3):
            pr[d] = TRUE if periodic[d] else FALSE
        lm['is_periodic'] = pr
        return lm


def consts(member):
    """values of the enumerators declared beside one"""
    for e in P.enums.values():
        d = {q[0] if isinstance(q, list) else q['n']: int(q[1] if isinstance(q, list) else q['v']) for q in e['vals']}
        if member in d:
            return d
    raise Unsup('enumerator ' + member)


# ---- classes of one axis
def axis(g, d, kind, par_, loc, rel):
    """symbolic situation along axis d -> dict(i, off, b, lc, N, o, new)"""
    x = 'xyz'[d]
    n = lambda k: g.nat(k + x)
    add, mul = g.add, g.mul
    two = lambda v: mul(C(2), v)
    r = {}
    p1, p2 = par_
    if kind[0] in ('low', 'high'):
        a = two(n('a'))
        m = C(1) if kind[1] == 1 else add(C(1 + p1), two(n('m')))
        b = add(add(two(m), two(a)), add(C(p2 - 1 if p2 else 1), two(n('r'))))
        # 2m + 2a - 1 + (0 or 1, + even)
        if p2 == 0:
            b = add(add(two(m), two(a)), add(C(-1), two(n('r'))))
        else:
            b = add(add(two(m), two(a)), two(n('r')))
        if kind[0] == 'low':
            r.update(i=a, off=g.neg(add(m, a)), o=-1, new=g.neg(m), m=m)
        else:
            r.update(i=g.sub(g.sub(b, C(1)), a), off=add(m, a), o=1, new=add(g.sub(b, C(1)), m), m=m)
        r['b'] = b
    elif kind[1] == 'upper':
        s, t = two(n('s')), add(C(p1), two(n('t')))
        c = add(add(C(1), s), t)
        r.update(i=c, off=C(0), o=0, new=c, b=add(add(C(2), two(s)), t), half=1)
    else:
        c = add(C(p1), two(n('c')))
        e = add(two(n('e')), C(1))
        i, off, e2 = c, C(0), C(0)
        if kind[1] == 'up':
            i, off, e2, c = c, e, e, add(c, e)
        elif kind[1] == 'down':
            i, off, e2 = add(c, e), g.neg(e), e
        k = two(c) if rel == 'smaller' else c
        r.update(i=i, off=off, o=0, new=c, b=add(add(k, two(e2)), add(C(1 + p2), two(n('r')))), half=0)
    q = two(n('q'))
    if loc == 'interior0':
        lc, N = add(q, C(2)), add(add(q, C(4)), two(n('N')))
    elif loc == 'interior1':
        lc, N = add(q, C(3)), add(add(q, C(6)), two(n('N')))
    elif loc == 'first':
        lc, N = C(0), add(q, C(2))
    elif loc == 'last':
        lc, N = add(q, C(1)), add(q, C(2))
    elif loc == 'only':
        lc, N = C(0), C(1)
    r.update(lc=lc, N=N, p={'interior0': 0, 'interior1': 1, 'first': 0, 'last': 1, 'only': 0}[loc], loc=loc, kind=kind)
    return r


def flat(g):
    """the unused axis of two-dimensional meshes"""
    return dict(i=C(0), off=C(0), o=0, new=C(0), b=C(1), half=0, lc=C(0), N=Leaf(g.pow2(num(g.sub(g.nat('level'), g.nat('level_min')).v))), p=0, loc='flat', kind=('in', 'flat'))


def wrapped(g, ax):
    w = g.add(ax['lc'], C(ax['o']))
    if ax['loc'] in ('first', 'only') and ax['o'] < 0:
        w = g.sub(ax['N'], C(1))
    if ax['loc'] in ('last', 'only') and ax['o'] > 0:
        w = C(0)
    return w


def cellindex(g, octv, i, b, st):
    s = S()
    s.t = NS + 'CellIndex'
    s['iOct'] = octv
    for d, x in enumerate('ijk'):
        s[x] = i[d]
        s['b' + 'xyz'[d]] = b[d]
    s['status'] = C(st)
    return s


def shape(g, b, lm):
    s = S()
    s.t = NS + 'CellArray_shape_ghosted'
    for d, x in enumerate('xyz'):
        s['b' + x] = b[d]
    s['lmesh'] = lm
    return s


def offset(o, t='Kokkos::Array<short, 3, void>'):
    s = S()
    s.t = t
    for d in range(3):
        s[d] = o[d]
    return s


def concrete(g, v, what):
    """a field of a computed index: one normal form, else undecided"""
    v = g.settle(v)
    if not isinstance(v, Leaf):
        raise Unsup('conditional ' + what)
    r = num(v.v)
    for q in (r.n, r.d):
        for m in q:
            for a, _ in m:
                k = g.atoms[a]
                if isinstance(k, tuple) and k and k[0] in ('trunc', 'floor', 'op%', 'op>>', 'idiv', 'abs'):
                    raise Unsup('%s: %s' % (what, k[0]))
    return v


def check_index(g, T, res, want, where):
    """want: (octant (level offset, coords), cell index per axis (list of admissible values), status)"""
    lvd, co, cells, stat = want
    if not isinstance(res, S) or 'iOct' not in res:
        raise Unsup('result')
    st = concrete(g, res['status'], 'status')
    if not g.equal(st, C(status(stat))):
        inv = {v: k for k, v in consts('LOCAL_TO_BLOCK').items()}
        return '%s: the result has status %s instead of %s' % (where, inv.get(int(num(st.v).const()), '?'), stat)
    oc = res['iOct']
    oi = num(concrete(g, oc['iOct'], 'octant').v).const()
    if oi is None:
        raise Unsup('octant')
    gh = oc['isGhost']
    gh = bool(gh.v if not isinstance(gh.v, Rat) else gh.v.const()) if isinstance(gh, Leaf) else None
    if (int(oi), gh) not in T.data:
        return '%s: the result is in a wrong octant' % where
    lv, c2 = T.data[int(oi), gh]
    if not g.equal(lv, g.add(T.L, C(lvd))) or not all(g.equal(u, v) for u, v in zip(c2, co)):
        return '%s: the result lies in the octant at (%s) of level %s instead of (%s) of level %s' % (
            where, ', '.join(g.show(v) for v in c2), g.show(lv), ', '.join(g.show(v) for v in co), g.show(g.add(T.L, C(lvd))))
    for d, x in enumerate('ijk'):
        v = concrete(g, res[x], 'index')
        if not any(g.equal(v, w) for w in cells[d]):
            return '%s: index %s of the result is %s instead of %s' % (where, x, g.show(v), ' or '.join(g.show(w) for w in cells[d]))
    return None


def half(g, v):
    """exact half of an even polynomial or of one less"""
    r = num(v.v)
    q = g.floorq(g.rdiv(r, rconst(2)))
    if q is None:
        raise Unsup('half of %s' % g.show(v))
    return Leaf(q), num(g.sub(v, g.mul(C(2), Leaf(q))).v).const()


def expect(g, ax, rel):
    """expected octant, index candidates"""
    w = wrapped(g, ax)
    same = g.sub(ax['new'], g.mul(C(ax['o']), ax['b']))
    if rel == 'same':
        return w, [same]
    if rel == 'larger':
        W, p = half(g, w)
        return W, [half(g, g.add(same, g.mul(C(int(p)), ax['b'])))[0]]
    g2 = g.mul(C(2), same)
    if ax['o'] < 0:
        cand, sub = [g.add(g2, C(1))], 1
        if ax['kind'][1] != 1:
            cand.append(g2)
    elif ax['o'] > 0:
        cand, sub = [g2], 0
        if ax['kind'][1] != 1:
            cand.append(g.add(g2, C(1)))
    else:
        cand, sub = [g2], ax['half']
    return g.add(g.mul(C(2), w), C(sub)), [g.sub(c, g.mul(C(sub), ax['b'])) for c in cand]


def neighbour(ndim, rel, classes, ghost):
    g = IVG(P)
    g.maxsteps = 3000000
    T = Tree(g, ndim, rel, ghost)
    g.hooks = T.hooks()
    ax = [axis(g, d, *classes[d], rel) if d < ndim else flat(g) for d in range(3)]
    o = [a['o'] for a in ax]
    lm = T.lightoctree([a['N'] for a in ax], (True, True, True))
    here = T.oct(T.L, [a['lc'] for a in ax])
    st = State()
    c = g.cell('this')
    st.mem[c] = cellindex(g, here, [a['i'] for a in ax], [a['b'] for a in ax], status('LOCAL_TO_BLOCK'))
    f = fn('getNeighbor_ghost', NS + 'CellIndex', 'CellArray_shape_ghosted')
    where = 'offset (%s) from cell (%s) of a block of (%s) cells, octant (%s), %s neighbour' % (
        ', '.join(g.show(a['off']) for a in ax), ', '.join(g.show(a['i']) for a in ax), ', '.join(g.show(a['b']) for a in ax),
        ', '.join(g.show(a['lc']) for a in ax), rel)
    try:
        res, s2, _ = g.apply(f, [offset([a['off'] for a in ax]), shape(g, [a['b'] for a in ax], lm)], LV(c, (), NS + 'CellIndex'), st)
    except Missing as e:
        return '%s: %s' % (where, e)
    if o == [0, 0, 0]:
        return check_index(g, T, res, (0, [a['lc'] for a in ax], [[a['new']] for a in ax], 'LOCAL_TO_BLOCK'), where)
    e = [expect(g, a, rel) for a in ax]
    lvd, stat = {'same': (0, 'SAME_SIZE'), 'larger': (-1, 'BIGGER'), 'smaller': (1, 'SMALLER')}[rel]
    return check_index(g, T, res, (lvd, [x[0] for x in e], [x[1] for x in e], stat), where)


def boundary(ndim, classes, periodic):
    """outside a non-periodic domain: a boundary index that leads back"""
    g = IVG(P)
    T = Tree(g, ndim, 'same', False)
    g.hooks = T.hooks()
    ax = [axis(g, d, *classes[d], 'same') if d < ndim else flat(g) for d in range(3)]
    out = any(not periodic[d] and (a['o'] < 0 and a['loc'] in ('first', 'only') or a['o'] > 0 and a['loc'] in ('last', 'only')) for d, a in enumerate(ax))
    lm = T.lightoctree([a['N'] for a in ax], periodic)
    here = T.oct(T.L, [a['lc'] for a in ax])
    st = State()
    c = g.cell('this')
    st.mem[c] = cellindex(g, here, [a['i'] for a in ax], [a['b'] for a in ax], status('LOCAL_TO_BLOCK'))
    f = fn('getNeighbor_ghost', NS + 'CellIndex', 'CellArray_shape_ghosted')
    where = 'offset (%s) from cell (%s) of octant (%s), periodic (%s)' % (', '.join(g.show(a['off']) for a in ax), ', '.join(g.show(a['i']) for a in ax),
                                                            ', '.join('%s of %s' % (g.show(a['lc']), g.show(a['N'])) for a in ax), ', '.join('xyz'[d] for d in range(3) if periodic[d]))
    try:
        res, s2, _ = g.apply(f, [offset([a['off'] for a in ax]), shape(g, [a['b'] for a in ax], lm)], LV(c, (), NS + 'CellIndex'), st)
    except Missing as e:
        return '%s: %s' % (where, e)
    if not isinstance(res, S):
        raise Unsup('result')
    bnd = num(concrete(g, res['status'], 'status').v).const() == status('BOUNDARY')
    if bnd != out:
        return '%s: the cell is %staken for one outside the domain' % (where, '' if bnd else 'not ')
    if not out:
        return None
    # back
    s2.mem[c] = res
    f = fn('getBoundaryPosAndOffset', NS + 'CellIndex')
    z = cellindex(g, here, [C(0)] * 3, [C(0)] * 3, 0)
    _, s3, cells = g.apply(f, [z, offset([C(0)] * 3)], LV(c, (), NS + 'CellIndex'), s2)
    inside, off = g.load(s3, cells[0]), g.load(s3, cells[1])
    for d, x in enumerate('ijk'):
        a = ax[d]
        w = C(0) if a['o'] < 0 else g.sub(a['b'], C(1)) if a['o'] > 0 else a['new']
        v = concrete(g, inside[x], 'inside')
        if not g.equal(v, w):
            return '%s: getBoundaryPosAndOffset finds %s = %s inside instead of %s' % (where, x, g.show(v), g.show(w))
        v = concrete(g, off[d], 'offset')
        if not g.equal(v, g.sub(a['new'], w)):
            return '%s: getBoundaryPosAndOffset finds the offset %s along %s instead of %s' % (where, g.show(v), 'xyz'[d], g.show(g.sub(a['new'], w)))
    bad = check_index(g, T, inside, (0, [a['lc'] for a in ax], [[g.settle(inside[x])] for x in 'ijk'], 'LOCAL_TO_BLOCK'), where)
    return bad


# ---- iteration and storage
def scan(g, order, x, b):
    """linear index of the digits x in the mixed radix of sizes b, fastest first"""
    r, w = C(0), C(1)
    for d in order:
        r = g.add(r, g.mul(x[d], w))
        if d < len(b):
            w = g.mul(w, b[d])
    return r


def digits(g):
    """i, j, k of a block and its sizes, known to be 0 <= i < bx"""
    x, b = [], []
    for d, c in enumerate('ijk'):
        i, r, w = g.nat(c), g.nat('r' + c), g.nat('b' + c)
        g.fact(w, g.add(g.add(i, r), C(1)))
        g.pos.add(list(w.v.n)[0][0][0])
        x.append(i)
        b.append(w)
    return x, b


ORDERS = [q + (3,) for q in itertools.permutations(range(3))]


def iterate(fid, group):
    """a loop over the cells of all octants reaches every cell exactly once"""
    f = P.fns[fid]
    why = None
    g0 = None
    for order in ORDERS:
        g = IVG(P)
        x, b = digits(g)
        o = g.nat('octant')
        first = g.nat('group_begin') if group else C(0)
        n, m = g.nat('numOctants'), g.nat('numGhosts')
        inside, seen = [], []
        idx = scan(g, order, x + [o], b)

        def loop(g, st, nd, fr, a):
            pol = [q for q in a[:2] if q.get('k') not in ('Lambda',)][-1]
            if 'RangePolicy' in pol.get('t', ''):
                e = kids(pol)
                while len(e) == 1 and 'RangePolicy' in (e[0].get('t') or ''):
                    e = kids(e[0])
                lo, hi = [g.val(st, q, fr) for q in e[:2]]
            else:
                lo, hi = C(0), g.val(st, pol, fr)
            lam = [q for q in a if q.get('k') == 'Lambda']
            if len(lam) != 1:
                raise Unsup('kernel body')
            inside.append((lo, hi))
            lv = g.val(st, lam[0], fr)
            h = g.p.fns[lam[0]['fns'][0]]
            env = dict(lv.env)
            for k, q in enumerate(h['params']):
                c = g.cell(q['n'])
                st.mem[c] = idx if k == 0 else C(0)
                env[q['d']] = LV(c, (), q['t'])
            g.body(st, h, env, lv.this)
            return C(0)

        def user(g, st, nd, fr, a):
            ob = callee_obj(nd)
            if ob is None or 'lambda' not in ob.get('t', '') and 'Function' not in ob.get('t', ''):
                return None
            v = g.ev(st, ob, fr)
            v = g.load(st, v) if isinstance(v, LV) and v.cell in st.mem else v
            if not isinstance(v, Opq) or v.key != ('f',):
                return None
            seen.append(g.val(st, a[0], fr))
            return C(0)
        g.hooks = {'parallel_for': loop, 'parallel_reduce': loop, 'operator()': user,
                   'getNumOctants': lambda g, st, nd, fr, a: n, 'getNumGhosts': lambda g, st, nd, fr, a: m}
        st = State()
        th = S()
        th.t = f.get('cls', '')
        if group:
            pd = S()
            pd.t = 'dyablo::AMRBlockForeachCell_group_impl::Patch::PData'
            pd['group_begin'] = first
            pd['nbOctsInGroup'] = n
            th['pdata'] = pd
        c = g.cell('this')
        st.mem[c] = th
        sh = S()
        sh.t = NS + 'CellArray_shape'
        for d, q in enumerate('xyz'):
            sh['b' + q] = b[d]
        vals = []
        for q in f['params']:
            if 'CellArray_shape' in q['t']:
                vals.append(sh)
            elif 'lambda' in q['t'] or 'Function' in q['t']:
                vals.append(Opq(('f',), q['t']))
            else:
                vals.append(Opq(('arg', q['n']), q['t']))
        g.apply(f, vals, LV(c, (), th.t), st)
        if len(inside) != 1 or len(seen) != 1:
            raise Unsup('%d kernels, %d visits' % (len(inside), len(seen)))
        lo, hi = inside[0]
        ghost = 'ghost' in f['n']
        total = g.mul(g.mul(g.mul(b[0], b[1]), b[2]), m if ghost else n)
        if not g.equal(lo, C(0)) or not g.equal(hi, total):
            return 'the kernel runs over %s .. %s and the iteration space has %s cells' % (g.show(lo), g.show(hi), g.show(total))
        v = seen[0]
        if not isinstance(v, S):
            raise Unsup('cell index')
        ok = True
        for nm, w in [('i', x[0]), ('j', x[1]), ('k', x[2])] + [('b' + q, b[d]) for d, q in enumerate('xyz')]:
            if not g.equal(g.settle(v[nm]), w):
                ok = False
                why = why or '%s of the cell is %s instead of %s' % (nm, g.show(v[nm]), g.show(w))
        oc = v['iOct']
        if not g.equal(oc['iOct'], g.add(first, o)):
            ok = False
            why = why or 'the octant of the cell is %s instead of %s' % (g.show(oc['iOct']), g.show(g.add(first, o)))
        gh = oc['isGhost']
        if not isinstance(gh, Leaf):
            raise Unsup('isGhost')
        if bool(gh.v.const() if isinstance(gh.v, Rat) else gh.v) != ghost:
            return 'the octants visited are %sghosts' % ('' if not ghost else 'not ')
        if not g.equal(v['status'], C(status('LOCAL_TO_BLOCK'))):
            return 'the cells visited do not have the status LOCAL_TO_BLOCK'
        if ok:
            return None
    return 'no numbering of the cells is inverted by the kernel: ' + why


def storage(fid):
    """at_ivar: one place per cell, field and octant, ghosts in the array of the ghosts"""
    f = P.fns[fid]
    out = []
    for ghost in ((False, True) if 'ghosted' in f.get('cls', '') else (False,)):
        g = IVG(P)
        x, b = digits(g)
        o, fld, n = g.nat('octant'), g.nat('field'), g.nat('nbOcts')
        r = g.nat('more')
        g.fact(n, g.add(g.add(o, r), C(1)))
        g.pos.add(list(n.v.n)[0][0][0])
        seen = []

        def at(g, st, nd, fr, a):
            ob = callee_obj(nd)
            v = g.ev(st, ob, fr) if ob is not None else None
            v = g.load(st, v) if isinstance(v, LV) else v
            if not isinstance(v, Opq) or v.key[0] != 'view':
                return None
            seen.append((v.key[1], [g.val(st, q, fr) for q in a[-3:]]))
            c = g.cell('value')
            st.mem[c] = C(0)
            return LV(c, (), 'double')
        g.hooks = {'operator()': at}
        oc = S()
        oc.t = 'dyablo::LightOctree_base::OctantIndex'
        oc['iOct'] = o
        oc['isGhost'] = TRUE if ghost else FALSE
        th = S()
        th.t = f.get('cls', '')
        for d, q in enumerate('xyz'):
            th['b' + q] = b[d]
        th['nbOcts'] = n
        th['U'] = Opq(('view', 'U'), 'Kokkos::View')
        th['Ughost'] = Opq(('view', 'Ughost'), 'Kokkos::View')
        st = State()
        c = g.cell('this')
        st.mem[c] = th
        g.apply(f, [cellindex(g, oc, x, b, 0), fld], LV(c, (), th.t), st)
        if len(seen) != 1:
            raise Unsup('%d accesses' % len(seen))
        w, (i, v, oo) = seen[0]
        if w != ('Ughost' if ghost else 'U'):
            return 'a cell of a %s octant is taken from the array %s' % ('ghost' if ghost else 'local', w)
        if not g.equal(g.settle(v), fld) or not g.equal(g.settle(oo), o):
            return 'field %s of octant %s is taken at field %s, octant %s' % (g.show(fld), g.show(o), g.show(v), g.show(oo))
        if not g.equal(i, scan(g, (0, 1, 2), x, b)):
            return 'cell (%s) is taken at position %s of the block, not %s' % (', '.join(g.show(q) for q in x), g.show(i), g.show(scan(g, (0, 1, 2), x, b)))
    return None


def groups(fid, q, rest):
    """the groups of octants cover every octant exactly once"""
    f = P.fns[fid]
    g = IVG(P)
    r = g.add(C(1), g.nat('r')) if rest else C(0)
    n = g.nat('group')
    g.fact(n, g.add(g.add(r, g.nat('s')), C(1)))
    g.pos.add(list(n.v.n)[0][0][0])
    tot = g.add(g.mul(C(q), n), r)
    seen = []

    def user(g, st, nd, fr, a):
        ob = callee_obj(nd)
        v = g.ev(st, ob, fr) if ob is not None else None
        v = g.load(st, v) if isinstance(v, LV) and v.cell in st.mem else v
        if not isinstance(v, Opq) or v.key != ('f',):
            return None
        seen.append(g.val(st, a[0], fr))
        return C(0)
    g.hooks = {'operator()': user, 'getNumOctants': lambda g, st, nd, fr, a: tot}
    cd = S()
    cd.t = 'dyablo::AMRBlockForeachCell_CData'
    cd['nbOctsPerGroup'] = n
    th = S()
    th.t = f.get('cls', '')
    th['cdata'] = cd
    st = State()
    c = g.cell('this')
    st.mem[c] = th
    vals = [Opq(('f',), x['t']) if 'lambda' in x['t'] or 'Function' in x['t'] else Opq(('arg', x['n']), x['t']) for x in f['params']]
    g.apply(f, vals, LV(c, (), th.t), st)
    at = C(0)
    for v in seen:
        pd = v['pdata'] if isinstance(v, S) and 'pdata' in v else None
        if pd is None:
            raise Unsup('patch')
        b, k = g.settle(pd['group_begin']), g.settle(pd['nbOctsInGroup'])
        if g.equal(k, C(0)):
            continue
        if not g.equal(b, at):
            return 'with %s octants in groups of %s a group starts at octant %s instead of %s' % (g.show(tot), g.show(n), g.show(b), g.show(at))
        s = g.weak(num(g.sub(n, k).v))
        if not isinstance(k, Leaf):
            raise Unsup('size of a group')
        if not g.nonnegr(num(g.sub(n, k).v)):
            return 'a group has %s octants, temporary arrays are for %s' % (g.show(k), g.show(n))
        at = g.add(at, k)
    if not g.equal(at, tot):
        return 'the groups cover %s of %s octants' % (g.show(at), g.show(tot))
    return None


# ---- indices of one array used with another
def convert(ndim, rel, classes, method):
    """an index of an array with ghosts read in an array without"""
    g = IVG(P)
    g.maxsteps = 3000000
    T = Tree(g, ndim, rel, False)
    g.hooks = T.hooks()
    ax = [axis(g, d, *classes[d], rel) if d < ndim else flat(g) for d in range(3)]
    o = [a['o'] for a in ax]
    lm = T.lightoctree([a['N'] for a in ax], (True, True, True))
    here = T.oct(T.L, [a['lc'] for a in ax])
    gh = []
    for d in range(3):
        a = ax[d]
        e = g.nat('g' + 'xyz'[d]) if d < ndim else C(0)
        # wide enough: g >= distance
        need = a['m'] if a['o'] else C(1 if d < ndim else 0)
        gh.append(g.add(e, need))
    st = State()
    src = cellindex(g, here, [g.add(a['new'], gh[d]) for d, a in enumerate(ax)], [g.add(a['b'], g.mul(C(2), gh[d])) for d, a in enumerate(ax)], status('LOCAL_TO_BLOCK'))
    f = fn(method, NS + 'CellArray_shape_ghosted')
    where = '%s of cell (%s) of a block of (%s) cells with (%s) ghosts, octant (%s), %s neighbour' % (
        method, ', '.join(g.show(src[x]) for x in 'ijk'), ', '.join(g.show(a['b']) for a in ax), ', '.join(g.show(x) for x in gh), ', '.join(g.show(a['lc']) for a in ax), rel)
    try:
        sh = shape(g, [a['b'] for a in ax], lm)
        c = g.cell('this')
        st.mem[c] = sh
        res, s2, _ = g.apply(f, [src], LV(c, (), NS + 'CellArray_shape_ghosted'), st)
    except Missing as e:
        return '%s: %s' % (where, e)
    if o == [0, 0, 0]:
        return check_index(g, T, res, (0, [a['lc'] for a in ax], [[a['new']] for a in ax], 'LOCAL_TO_BLOCK'), where)
    e = [expect(g, a, rel) for a in ax]
    lvd, stat = {'same': (0, 'SAME_SIZE'), 'larger': (-1, 'BIGGER'), 'smaller': (1, 'SMALLER')}[rel]
    cells = [x[1] for x in e]
    if rel == 'smaller' and method == 'convert_index_ghost':
        # the first of the smaller cells in the place of the cell
        cells = []
        for x, a in zip(e, ax):
            w = g.mul(C(2), g.sub(a['new'], g.mul(C(a['o']), a['b'])))
            sub = {-1: 1, 1: 0, 0: a.get('half', 0)}[a['o']]
            cells.append([g.sub(w, g.mul(C(sub), a['b']))])
    return check_index(g, T, res, (lvd, [x[0] for x in e], cells, stat), where)


def shrink(method, inside, more=()):
    """local arrays: same cell, other number of ghosts"""
    g = IVG(P)
    st = State()
    i, b, gi, go = [], [], [], []
    for d, x in enumerate('xyz'):
        c, r = g.nat('c' + x), g.nat('r' + x)
        b.append(g.add(g.add(c, r), C(1)))
        i.append(c)
        w, z = g.nat('g' + x), more[d] if more else 0
        gi.append(g.add(w, g.add(C(1), g.nat('s' + x))) if z > 0 else w)
        go.append(g.add(w, g.add(C(1), g.nat('s' + x))) if z < 0 else w)
    oc = S()
    oc.t = 'dyablo::LightOctree_base::OctantIndex'
    oc['iOct'], oc['isGhost'] = g.nat('octant'), FALSE
    f = fn(method, NS + 'CellArray_shape_local')
    res = []
    for d in ([None] if inside else [(d, s) for d in range(3) for s in (-1, 1)]):
        j = list(i)
        gg = list(gi)
        if d:
            q = g.nat('q')
            gg[d[0]] = g.add(g.add(go[d[0]], g.add(q, C(1))), g.nat('s'))      # further than the ghosts of the target
            j[d[0]] = g.neg(g.add(g.add(go[d[0]], q), C(1))) if d[1] < 0 else g.add(g.add(b[d[0]], go[d[0]]), q)
        src = cellindex(g, oc, [g.add(j[k], gg[k]) for k in range(3)], [g.add(b[k], g.mul(C(2), gg[k])) for k in range(3)], status('LOCAL_TO_BLOCK'))
        sh = S()
        sh.t = NS + 'CellArray_shape_local'
        for k, x in enumerate('xyz'):
            sh['b' + x] = g.add(b[k], g.mul(C(2), go[k]))
        s = State()
        c = g.cell('this')
        s.mem[c] = sh
        r, _, _ = g.apply(f, [src], LV(c, (), sh.t), s)
        where = '%s from %s to %s ghosts' % (method, ', '.join(g.show(x) for x in gg), ', '.join(g.show(x) for x in go))
        if not isinstance(r, S):
            raise Unsup('result')
        stt = num(concrete(g, r['status'], 'status').v).const()
        if d:
            if stt != status('INVALID'):
                return '%s: a cell outside the array is not reported as invalid' % where
            continue
        if stt != status('LOCAL_TO_BLOCK'):
            return '%s: a cell inside the array is not local' % where
        for k, x in enumerate('ijk'):
            if not g.equal(concrete(g, r[x], 'index'), g.add(i[k], go[k])):
                return '%s: index %s is %s instead of %s' % (where, x, g.show(r[x]), g.show(g.add(i[k], go[k])))
            if not g.equal(r['b' + 'xyz'[k]], sh['b' + 'xyz'[k]]):
                return '%s: the index has the block size of another array' % where
        if not g.equal(r['iOct']['iOct'], oc['iOct']):
            return '%s: the octant changes' % where
    return None


# ---- positions
def positions(ndim, depth, sub):
    """octant at a position; centre and size of a cell; cell at a position"""
    g = IVG(P)
    T = Tree(g, ndim, 'same', False)
    g.hooks = T.hooks()
    T.L = g.add(T.lmin, g.nat('above'))
    N, lc, i, b = [], [], [], []
    for d, x in enumerate('xyz'):
        if d >= ndim:
            lc.append(C(0)), i.append(C(0)), b.append(C(1))
            N.append(Leaf(g.pow2(num(g.sub(T.L, T.lmin).v))))
            continue
        c, w = g.nat('c' + x), g.nat('w' + x)
        lc.append(c)
        n = g.nat('N' + x)
        g.fact(n, g.add(g.add(c, w), C(1)))
        g.pos.add(list(n.v.n)[0][0][0])
        N.append(n)
        a, r = g.nat('i' + x), g.nat('r' + x)
        bb = g.nat('b' + x)
        g.fact(bb, g.add(g.add(a, r), C(1)))
        g.pos.add(list(bb.v.n)[0][0][0])
        i.append(a)
        b.append(bb)
    lm = T.lightoctree(N, (True,) * 3, maxl=g.add(T.L, C(depth)))
    here = T.oct(T.L, lc)
    st = State()
    c = g.cell('lmesh')
    st.mem[c] = lm
    lmv = LV(c, (), 'dyablo::LightOctree_hashmap')
    res = 0
    # any position inside the octant
    pos = S()
    pos.t = 'Kokkos::Array<double, 3, void>'
    for d, x in enumerate('xyz'):
        if d >= ndim:
            pos[d] = C(0)
            continue
        u, v, w = g.nat('u' + x), g.nat('v' + x), g.nat('t' + x)
        for q in (u, v):
            g.pos.add(list(q.v.n)[0][0][0])
        g.fact(w, g.add(u, v))
        g.pos.add(list(w.v.n)[0][0][0])
        s = sub >> d & 1
        k = 2 ** depth
        t = g.div(g.add(C(s * (k - 1)), g.div(u, w)), C(k))
        pos[d] = g.div(g.add(lc[d], t), N[d])
    f = fn('getiOctFromPos', 'dyablo::LightOctree_hashmap')
    where = 'position (%s)' % ', '.join(g.show(pos[d]) for d in range(3))
    try:
        r, _, _ = g.apply(f, [pos], lmv, st)
    except Missing as e:
        return where + ': %s' % e
    if not isinstance(r, S) or not g.equal(r['iOct'], here['iOct']):
        return '%s: the octant found is not the one that contains it' % where
    if depth:
        return None
    # cells
    cd = S()
    cd.t = 'dyablo::AMRBlockForeachCell_CData'
    cd['ndim'] = C(ndim)
    lo, hi = [], []
    for d, x in enumerate('xyz'):
        l, w = g.atom(x + 'min'), g.atom('L' + x, True)
        lo.append(l)
        hi.append(w)
        cd[x + 'min'] = l
        cd[x + 'max'] = g.add(l, w)
        cd['b' + x] = b[d]
    md = S()
    md.t = 'dyablo::AMRBlockForeachCell_CellMetaData'
    md['cdata'] = cd
    md['lmesh'] = lm
    st = State()
    c = g.cell('md')
    st.mem[c] = md
    mdv = LV(c, (), md.t)
    cell = cellindex(g, here, i, b, status('LOCAL_TO_BLOCK'))
    sz, st, _ = g.apply(fn('getCellSize', md.t), [cell], mdv, st)
    ce, st, _ = g.apply(fn('getCellCenter', md.t), [cell], mdv, st)
    for d in range(ndim):
        h = g.div(hi[d], g.mul(N[d], b[d]))
        if not g.equal(sz[d], h):
            return 'getCellSize: size along %s is %s instead of %s' % ('xyz'[d], g.show(sz[d]), g.show(h))
        w = g.add(lo[d], g.mul(h, g.add(g.add(g.mul(lc[d], b[d]), i[d]), C(Fraction(1, 2)))))
        if not g.equal(ce[d], w):
            return 'getCellCenter: %s of the centre is %s instead of %s' % ('xyz'[d], g.show(ce[d]), g.show(w))
    # the cell found from a position inside it
    p2 = S()
    p2.t = pos.t
    for d, x in enumerate('xyz'):
        if d >= ndim:
            p2[d] = lo[d]
            continue
        u, w = g.nat('u' + x), g.nat('t' + x)
        p2[d] = g.add(lo[d], g.mul(g.div(hi[d], g.mul(N[d], b[d])), g.add(g.add(g.mul(lc[d], b[d]), i[d]), g.div(u, w))))
    try:
        r, st, _ = g.apply(fn('getCellFromPos', md.t), [p2], mdv, st)
    except Missing as e:
        return 'getCellFromPos: %s' % e
    bad = check_index(g, T, r, (0, lc, [[x] for x in i], 'LOCAL_TO_BLOCK'), 'getCellFromPos of a position inside cell (%s)' % ', '.join(g.show(x) for x in i))
    if bad:
        return bad
    for d, x in enumerate('xyz'):
        if not g.equal(r['b' + x], b[d]):
            return 'getCellFromPos: wrong block size'
    return None


def wrap(f, a):
    try:
        return [('ok', f(*a))]
    except Unsup as e:
        return [('no', '%s %s: %s' % (f.__name__, a[:3], e))]


PAR = [(0, 0), (0, 1), (1, 0), (1, 1)]
LOC = ['interior0', 'interior1', 'first', 'last']
KINDS = [('low', 1), ('low', 2), ('in', 'here'), ('in', 'up'), ('in', 'down'), ('high', 1), ('high', 2)]


def classes1(rel):
    out = []
    for k in KINDS + ([('in', 'upper')] if rel == 'smaller' else []):
        for q in PAR if rel != 'same' else PAR[:1]:
            if k[0] != 'in' and k[1] == 1 and q[0]:
                continue
            for l in LOC + (['only'] if rel == 'same' else []):
                if l in ('first', 'last') and k[0] == 'in':
                    continue
                out.append((k, q, l))
    return out


def cross(k):
    return {'low': -1, 'high': 1, 'in': 0}[k[0][0]]


def valid(rel, cl):
    o = [cross(k) for k in cl]
    if rel != 'larger':
        return any(o) or rel == 'same'
    if not any(o):
        return False
    p = {'interior0': 0, 'interior1': 1, 'first': 0, 'last': 1, 'only': 0}
    return any(v < 0 and p[k[2]] == 0 or v > 0 and p[k[2]] == 1 for v, k in zip(o, cl))


def combos(rel, nd):
    """every class along one axis, with representatives along the others; all pairs of crossings"""
    out = []
    rep = [(('in', 'here'), (0, 1), 'interior1'), (('low', 1), (0, 0), 'interior0'), (('high', 2), (1, 1), 'interior1'), (('in', 'here'), (1, 0), 'interior0'),
           (('low', 2), (0, 1), 'first'), (('high', 1), (0, 0), 'last')]
    if rel == 'smaller':
        rep.append((('in', 'upper'), (1, 0), 'interior0'))
    for d in range(nd):
        for c in classes1(rel):
            for z, r in enumerate(itertools.product(range(len(rep)), repeat=nd - 1)):
                if nd == 3 and (r[0] + 2 * r[1] + len(out)) % 5:
                    continue
                r = [rep[x] for x in r]
                cl = list(r[:d]) + [c] + list(r[d:])
                if valid(rel, cl) and cl not in out:
                    out.append(cl)
    return out


def group(nd, rel, cls):
    res = []
    for i, cl in enumerate(cls):
        try:
            res.append(('ok', neighbour(nd, rel, cl, i % 2 == 1)))
        except Unsup as e:
            res.append(('no', str(e)))
    return res


def bgroup(nd, cls):
    res = []
    for cl in cls:
        for per in itertools.product((False, True), repeat=nd):
            try:
                res.append(('ok', boundary(nd, cl, tuple(per) + (True,) * (3 - nd))))
            except Unsup as e:
                res.append(('no', str(e)))
    return res


def run(p, ck):
    global P
    P = p
    t = []
    for nd in (2, 3):
        for rel in ('same', 'larger', 'smaller'):
            l = combos(rel, nd)
            n = 24
            for i in range(n):
                if l[i::n]:
                    t.append((('neighbour, %dD, %s' % (nd, rel), i), group, (nd, rel, l[i::n])))
        bk = [(('low', 1), (0, 0), 'first'), (('low', 2), (1, 0), 'first'), (('high', 1), (0, 0), 'last'), (('high', 2), (0, 1), 'last'), (('in', 'here'), (0, 0), 'interior0'),
              (('low', 1), (0, 0), 'interior0'), (('high', 1), (0, 0), 'interior1'), (('in', 'up'), (1, 0), 'interior1'), (('low', 1), (0, 0), 'only'), (('high', 1), (0, 0), 'only')]
        l = [list(c) for c in itertools.product(bk, repeat=nd) if any(cross(k) for k in c)]
        if nd == 3:
            l = [c for z, c in enumerate(l) if z % 3 == 0]
        n = 24 if nd == 3 else 4
        for i in range(n):
            t.append((('boundary, %dD' % nd, i), bgroup, (nd, l[i::n])))
    def one(name, f, *a):
        t.append(((name, len(t)), wrap, (f, a)))
    done = set()
    for f in sorted(p.fns.values(), key=lambda f: f['id']):
        if not f.get('body') or '$' in f['id']:
            continue
        c = f.get('cls', '')
        at = (f['file'], f['line'])
        if f['n'] in ('foreach_cell', 'foreach_ghost_cell', 'reduce_cell') and ('AMRBlockForeachCell' in c):
            if not any('parallel_' in (n.get('fn') or '') for n in p.nodes(f)):
                continue
            one('iteration: ' + c.split('::')[-1].split('<')[0] + '::' + f['n'] if 'Patch' in c and 'Manager' not in c else 'iteration: ForeachCell::' + f['n'], iterate, f['id'], 'Patch' in c and 'Manager' not in c)
        elif f['n'] == 'at_ivar' and 'CellArray' in c:
            one('storage', storage, f['id'])
        elif f['n'] == 'foreach_patch' and 'PatchManager' in c and 'impl<' not in c.split('PatchManager')[0]:
            for q in (0, 1, 2, 3):
                for rest in (False, True):
                    one('groups of octants', groups, f['id'], q, rest)
    for m in ('convert_index', 'convert_index_ghost'):
        for z in itertools.product((0, 1, -1), repeat=3):
            one('local arrays', shrink, m, True, z)
    one('local arrays', shrink, 'convert_index_ghost', False)
    for nd in (2, 3):
        for rel in ('same', 'larger', 'smaller'):
            rep = [(('in', 'here'), (0, 1), 'interior1'), (('low', 1), (0, 0), 'interior0'), (('high', 2), (1, 1), 'interior1')]
            for d in range(nd):
                for c in classes1(rel):
                    if c[0][0] == 'in' and c[0][1] not in ('here', 'upper'):
                        continue
                    for r in itertools.product(rep, repeat=nd - 1):
                        if nd == 3 and r[0] == r[1]:
                            continue
                        cl = list(r[:d]) + [c] + list(r[d:])
                        if c[0] == ('in', 'upper'):
                            continue
                        if valid(rel, cl):
                            for m in ('convert_index_ghost', 'convert_index_getNeighbor'):
                                one('conversion of indices, %dD, %s' % (nd, rel), convert, nd, rel, cl, m)
        for depth in (0, 1, 2):
            for sub in range(2 ** nd if depth else 1):
                one('positions, %dD' % nd, positions, nd, depth, sub)
    r = par.run(t)
    nd = 0
    tot = {}
    bad = {}
    why = {}
    for k, _, a in t:
        st, v = r[k]
        if st != 'ok':
            nd += 1
            why[str(v)] = why.get(str(v), 0) + 1
            continue
        for s, b in v:
            if s != 'ok':
                nd += 1
                why[b] = why.get(b, 0) + 1
                continue
            tot[k[0]] = tot.get(k[0], 0) + 1
            if b:
                bad.setdefault(k[0], []).append(b)
    if os.environ.get('DY_LIST'):
        print(why)
    for k, n in tot.items():
        ck.count(k, n)
        if k in bad:
            ck.bad(k, 'foreach_cell/AMRBlockForeachCell_CellArray.h', '%s (%d of %d situations)' % (bad[k][0], len(bad[k]), n))
        else:
            ck.ok(k, '%d situations' % n)
    ck.counts['not decided'] = nd
