"""Moving fields to an adapted mesh."""
import itertools, os
from fractions import Fraction
from ..grid import Grid, Mesh
from ..intg import IVG, C
from ..vg import S, LV, OS, Leaf, Opq, State, Unsup, num, FALSE, TRUE
from ..facts import kids
from ..ast import callee_obj
from .. import par, updates as U
from . import C28 as X
from .C28 import Missing, Tree, fn, status, cellindex, check_index

RULE = ('After the mesh is adapted every cell must hold, for every field, what the same cell, the parent cell or the mean of the child cells held '
        'before; the old cell must be the one at the same place for every block size, parity and octant position.')
EXPLAIN = ('Value numbering of MapUserData_mean::remap_aux over pairs of abstract meshes, and integer value numbering of '
           'CellIndexRemapper::get_old_cell together with LightOctree_hashmap over symbolic block sizes and coordinates.')
TRUSTED = ['Kokkos::UnorderedMap returns what was inserted', 'the mesh interface behaves as documented', 'real arithmetic', 'levels change by at most one']
P = None
FILE = 'amr/CellIndexRemapper.h'


# ---- which old cell
class Old(Tree):
    """the old mesh around one new octant: an octant d levels finer"""

    def exists(self, k):
        d = num(self.g.sub(k['level'], self.L).v).const()
        if d is None:
            raise Unsup('level of a key')
        return d == self.depth


def axis(g, d, kind, rel):
    """cell i of a block of b cells; octant lc of N"""
    x = 'xyz'[d]
    half, pi, pb, pl = kind
    n = lambda k: g.nat(k + x)
    two = lambda v: g.mul(C(2), v)
    a = {}
    if rel == 'smaller':
        if half == 0:
            i = g.add(C(pi), two(n('c')))
            b = g.add(g.add(two(i), C(1 + pb)), two(n('r')))
        else:
            t, u = n('t'), n('u')
            b = g.add(g.add(C(pb), two(t)), g.add(C(2), two(u)))
            i = g.add(g.add(C(pb + 1), two(t)), u)
    else:
        i = g.add(C(pi), two(n('c')))
        b = g.add(g.add(i, C(1 + pb)), two(n('r')))
    q = two(n('q'))
    a.update(i=i, b=b, half=half, lc=g.add(q, C(pl)), N=g.add(g.add(q, C(2)), two(n('N'))), pl=pl)
    return a


def oldcell(nd, rel, kinds, above):
    g = IVG(P)
    g.maxsteps = 3000000
    T = Old(g, nd, 'same', False)
    T.depth = {'same': 0, 'bigger': -1, 'smaller': 1}[rel]
    g.hooks = T.hooks()
    T.L = g.add(T.lmin, g.add(g.nat('above'), C(rel == 'bigger')))
    ax = [axis(g, d, kinds[d], rel) if d < nd else dict(X.flat(g), half=0, pl=0) for d in range(3)]
    lm = T.lightoctree([a['N'] for a in ax], (True, True, True), g.add(T.L, C(above)))
    T.data[900, False] = (T.L, [a['lc'] for a in ax])
    o = S()
    o.t = 'dyablo::LightOctree_base::OctantIndex'
    o['iOct'], o['isGhost'] = C(900), FALSE
    this = S()
    this.t = 'dyablo::CellIndexRemapper'
    this['lmesh_old'] = lm
    this['lmesh_new'] = lm
    st = State()
    c = g.cell('this')
    st.mem[c] = this
    cell = cellindex(g, o, [a['i'] for a in ax], [a['b'] for a in ax], status('LOCAL_TO_BLOCK'))
    where = '%s cell for cell (%s) of a block of (%s) cells, octant (%s)' % ({'same': 'old', 'bigger': 'larger old', 'smaller': 'first smaller old'}[rel],
        ', '.join(g.show(a['i']) for a in ax), ', '.join(g.show(a['b']) for a in ax), ', '.join(g.show(a['lc']) for a in ax))
    try:
        r, _, _ = g.apply(fn('get_old_cell', this.t), [cell], LV(c, (), this.t), st)
    except Missing as e:
        return '%s: %s' % (where, e)
    co, ce = [], []
    for d, a in enumerate(ax):
        if rel == 'same' or d >= nd:
            co.append(a['lc'])
            ce.append([a['i']])
        elif rel == 'bigger':
            co.append(g.div(g.sub(a['lc'], C(a['pl'])), C(2)))
            ce.append([X.half(g, g.add(a['i'], g.mul(C(a['pl']), a['b'])))[0]])
        else:
            co.append(g.add(g.mul(C(2), a['lc']), C(a['half'])))
            ce.append([g.sub(g.mul(C(2), a['i']), g.mul(C(a['half']), a['b']))])
    bad = check_index(g, T, r, (T.depth, co, ce, {'same': 'LOCAL_TO_BLOCK', 'bigger': 'BIGGER', 'smaller': 'SMALLER'}[rel]), where)
    if bad:
        return bad
    for d, x in enumerate('xyz'):
        if not g.equal(r['b' + x], ax[d]['b']):
            return where + ': wrong block size'
    return None


def group(nd, rel, l):
    res = []
    for k, ab in l:
        try:
            res.append(('ok', oldcell(nd, rel, k, ab)))
        except Unsup as e:
            res.append(('no', str(e)))
    return res


# ---- which value
NF = 3


def remap(new, old):
    """every field of every new cell"""
    def init(g, k, c):
        a, x = k[1].split('.')
        return g.atom((a, x, c))
    g = Grid(P, new, init)
    g.redkernels = True

    def h_old(g, st, n, fr, a):
        c = g.cellof(st, g.val(st, a[0], fr))
        pos, s = c[1], c[2]
        t = old.size(*pos)
        return g.cellv(old.low(pos, t), t, {2: 1, 1: 0}[t // s] if t >= s else -1)

    def h_n(g, st, n, fr, a):
        m, g.mesh = g.mesh, old
        try:
            c = g.cellof(st, g.val(st, callee_obj(n), fr))
            of = g.offs(st, a[0], fr)
            return g.leafat(tuple(v + d * c[2] for v, d in zip(c[1], of)), c[2], of)
        finally:
            g.mesh = m

    def h_all(g, st, n, fr, a):
        # no other rank: nothing scattered
        q = a[1]
        while q['k'] != 'UnaryOperator':
            q = kids(q)[0]
        g.store(st, g.lval(st, kids(q)[0], fr), C(0))
        return Opq('none')
    g.hooks = {'get_old_cell': h_old, 'getNeighbor_ghost': h_n, 'nbFields': lambda *a: C(NF), 'MPI_Allreduce': h_all}
    acc = [Opq(('acc',) + tuple((i, w + '.%d' % i) for i in range(NF)), 'accessor') for w in ('old', 'new')]
    f = fn('remap_aux', 'dyablo::MapUserData_mean')
    st = State()
    c = ('in', 'this')
    this = S()
    this.t = f['cls']
    this['foreach_cell'] = Opq('foreach_cell', 'dyablo::ForeachCell')
    this['lmesh_old'] = Opq('lmesh_old', 'dyablo::LightOctree')
    st.mem[c] = OS(Opq('this', f['cls']), this)
    g.apply(f, acc, LV(c, (), f['cls']), st)
    out = {}
    for c in new.cells():
        pos, s = c
        t = old.size(*pos)
        kind = 'unchanged' if t == s else 'refined' if t > s else 'coarsened'
        bad = None
        for i in range(NF):
            v = g.before(('U', 'new.%d' % i), c, len(g.kernels))
            if t >= s:
                w = g.atom(('old', str(i), (old.low(pos, t), t)))
            else:
                w = C(0)
                ch = [tuple(p + t * o for p, o in zip(pos, q)) for q in itertools.product((0, 1), (0, 1), (0, 1) if new.ndim == 3 else (0,))]
                for q in ch:
                    w = g.add(w, g.div(g.atom(('old', str(i), (old.low(q, t), t))), C(len(ch))))
            if not g.equal(v, w):
                bad = 'field %d of the cell at %s (size %d, old size %d) is %s instead of %s' % (i, pos[:new.ndim], s, t, g.show(v)[:200], g.show(w)[:200])
        if bad or kind not in out:
            out[kind] = out.get(kind) or bad
    return out


def run(p, ck):
    global P
    P = X.P = p
    t = []
    for nd in (2, 3):
        for rel in ('same', 'bigger', 'smaller'):
            k1 = list(itertools.product((0, 1) if rel == 'smaller' else (0,), (0, 1), (0, 1), (0, 1)))
            l = []
            for z, ks in enumerate(itertools.product(k1, repeat=nd)):
                if nd == 3 and (ks[0] != ks[1]) and (ks[1] != ks[2]) and z % 7:
                    continue
                l.append((list(ks), {'same': (0, 1, 2), 'bigger': (0, 1), 'smaller': (1, 2)}[rel][z % 2]))
            n = 16 if nd == 3 else 4
            for i in range(n):
                t.append((('old cell, %dD, %s' % (nd, rel), i), group, (nd, rel, l[i::n])))
    m = lambda nd, e, f: Mesh(nd, e, f)
    a2, b2 = (lambda x, y, z: 2 if x < 4 else 1), (lambda x, y, z: 2 if y < 4 else 1)
    a3, b3 = (lambda x, y, z: 2 if x < 4 else 1), (lambda x, y, z: 2 if z >= 4 else 1)
    t.append((('values, 2D', 0), remap, (m(2, (8, 8, 1), a2), m(2, (8, 8, 1), b2))))
    t.append((('values, 2D', 1), remap, (m(2, (8, 8, 1), lambda *x: 1), m(2, (8, 8, 1), lambda *x: 2))))
    t.append((('values, 3D', 0), remap, (m(3, (8, 4, 8), a3), m(3, (8, 4, 8), b3))))
    t.append((('values, 3D', 1), remap, (m(3, (4, 4, 4), lambda *x: 2), m(3, (4, 4, 4), lambda *x: 1))))
    r = par.run(t)
    tot, bad, why, nd = {}, {}, {}, 0
    for k, f, a in t:
        st, v = r[k]
        if st != 'ok':
            nd += 1
            why[str(v)] = why.get(str(v), 0) + 1
            continue
        if f is remap:
            for x, b in v.items():
                n = '%s, %s cells' % (k[0], x)
                tot[n] = tot.get(n, 0) + 1
                if b:
                    bad.setdefault(n, []).append(b)
            continue
        for s, b in v:
            if s != 'ok':
                nd += 1
                why[b] = why.get(b, 0) + 1
                continue
            tot[k[0]] = tot.get(k[0], 0) + 1
            if b:
                bad.setdefault(k[0], []).append(b)
    if os.environ.get('DY_LIST'):
        print(why)
    for k, n in tot.items():
        ck.count(k, n)
        if k in bad:
            ck.bad(k, 'amr/MapUserData_mean.cpp' if 'values' in k else FILE, '%s (%d of %d situations)' % (bad[k][0], len(bad[k]), n))
        else:
            ck.ok(k, '%d situations' % n)
    ck.counts['not decided'] = nd
