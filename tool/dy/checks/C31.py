"""Refinement criteria: octants are refined where the criterion asks for it, coarsened where every cell allows it."""
import os
from decimal import Decimal
from fractions import Fraction
from ..grid import Grid, Mesh, C
from ..vg import S, LV, OS, Opq, Leaf, Node, State, Unsup, num, Point, BadPoint
from .. import updates as U, par
from .C21 import one

RULE = ('The value graph of every mark_cells must give an octant REFINE iff the criterion of some of its cells is above the upper threshold, '
        'COARSEN iff all of them are at most at the lower one, and no marker that leaves [level_min, level_max].')
EXPLAIN = ('Value numbering of mark_cells over abstract meshes with symbolic states and thresholds: the marker of a cell is compared with the '
           'documented indicator at generic points, the combination of the cells of an octant and the clamping of its marker are read off.')
TRUSTED = ['the mesh interface behaves as documented', 'real arithmetic', 'Kokkos views start at zero']
P = None


def grid(m, init):
    g = Grid(P, m, init)
    g.iteabbr = True
    g.oct = {}
    g.exactcmp = True
    g.letlimit = 6
    pr = S()
    pr.t = 'dyablo::RiemannParams'
    for q in P.recs[pr.t]['fields']:
        pr[q['n']] = g.atom('params.' + q['n'], True) if q['t'] == 'double' else g.default('params.' + q['n'], q['t'])
    g.prebuilt = {pr.t: pr}
    g.conf = {('hydro', 'smallr'): C(0), ('hydro', 'smallp'): C(0), ('hydro', 'smallc'): C(0), ('mesh', 'ndim'): C(m.ndim)}
    return g


def evalv(q, g, v):
    while isinstance(v, Node):
        kind, r = g.conds[v.c]
        if not hasattr(r, 'n'):
            raise Unsup('condition')
        w = q.rat(r)
        v = v.hi if (w > 0 if kind == 'pos' else w >= 0 if kind == 'nneg' else w == 0) else v.lo
    return q.rat(num(v.v))


def mark(cls, m, init, helper):
    g = grid(m, init)
    name = 'dyablo::RefineCondition_helper<dyablo::%s_formula>' % cls if helper else 'dyablo::' + cls
    fs = [f for f in P.fns.values() if f['n'] == 'mark_cells' and name in (f.get('cls'), f.get('clsd')) and f.get('body') and '$' not in f['id']]
    if len(fs) != 1:
        raise Unsup('mark_cells of ' + cls)
    f = fs[0]
    st = State()
    this = U.configured(P, g, f, st)
    c = ('in', 'this')
    st.mem[c] = OS(Opq('this', f['cls']), this)
    g.apply(f, [Opq('U', 'dyablo::UserData'), Opq('scalar_data', 'dyablo::ScalarSimulationData')], LV(c, (), f['cls']), st)
    return g


def cellmark(g, cell):
    """marker the cell asks for"""
    for j in range(len(g.kernels)):
        g.ensure(j, cell)
    l = [(j, x) for (j, c), v in g.octmarks.items() if c == cell for x in v]
    if len(l) != 1:
        raise Unsup('%d markers of a cell' % len(l))
    return l[0]


def octant(g, cell):
    """how the markers of the cells become the marker of the octant"""
    out = {}
    j, (i, op, _) = cellmark(g, cell)
    out['the strongest request of the cells wins'] = None if op == 'max' else 'the markers of the cells are combined by %simum' % op
    v = None
    for k, before, after in g.oct[i]:
        if k <= j:
            if not isinstance(after, Leaf) or num(after.v).const() is None:
                raise Unsup('start value')
            v = int(num(after.v).const())
    out['octants start from COARSEN'] = None if v <= -1 else 'the marker of every octant starts from %d, so that no request to coarsen is ever granted' % v
    if len(g.octfinal) != 1 or g.octfinal[0][0] != i or g.octfinal[0][1] <= j:
        out['the mesh gets the markers'] = 'the markers are not handed to the mesh'
        return out
    out['the mesh gets the markers'] = None
    bad = None
    chain = [x for n, x in enumerate(g.oct[i]) if x[0] > j and n < g.octfinal[0][2]]
    for m in (-1, 0, 1):
        for lmin, lmax in ((1, 4), (3, 3), (0, 2)):
            for lev in range(0, 6):
                w = Decimal(m)
                for _, before, after in chain:
                    q = Point(g, 1)
                    for n, x in (('level', lev), ('level_min', lmin), ('level_max', lmax)):
                        if n in g.atomid:
                            q.v[g.atomid[n]] = Decimal(x)
                    if before is not None:
                        (mm, _), = num(before.v).n.items()
                        q.v[mm[0][0]] = w
                    w = evalv(q, g, after)
                want = 0 if m == 1 and lev >= lmax or m == -1 and lev <= lmin else m
                if w != want and bad is None:
                    bad = 'an octant of level %d that asks for %d with levels %d to %d gets %d' % (lev, m, lmin, lmax, w)
    out['markers stay within the levels'] = bad
    return out


def thresholds(g, mk, ind, lo, hi, n=12):
    """marker is REFINE above hi, else COARSEN up to lo, else NOCHANGE"""
    """the indicator is the largest of ind"""
    mk, ind = g.expand(mk), [g.expand(x) for x in (ind if isinstance(ind, list) else [ind])]
    ids = [g.atomid.get(('setting',) + k) for k in (lo, hi)]
    if None in ids:
        return 'the threshold %s/%s is not used' % (lo if ids[0] is None else hi)
    done = seed = 0
    while done < n and seed < 20 * n:
        seed += 1
        try:
            e = Decimal('0.001')
            for a, b in ((e, 2 * e), (-e, e), (-2 * e, -e), (e, -e)):
                # values are drawn in the order they are asked for: always the indicator first
                q = Point(g, seed)
                q.exact = True
                f = max(evalv(q, g, x) for x in ind)
                a, b = f + a, f + b
                if a <= 0 or b <= 0:
                    continue
                q.v[ids[0]], q.v[ids[1]] = a, b
                w = evalv(q, g, mk)
                want = 1 if f > b else -1 if f <= a else 0
                if w != want:
                    return 'marker %d where the indicator is %.6g with thresholds %.6g and %.6g (expected %d)' % (w, f, a, b, want)
        except BadPoint:
            continue
        done += 1
    if done < n:
        raise Unsup('no points')
    return None


def plain(g, k, c):
    return g.atom(('U', k[1], c), k[1] in ('rho', 'e_tot'))


def touching(m, cell):
    """leaves that share a face with the cell, per side"""
    (pos, s) = cell
    out = []
    for d in range(m.ndim):
        for sd in (-1, 1):
            l = set()
            rng = [range(pos[x], pos[x] + s) if x != d else [pos[d] + s if sd > 0 else pos[d] - 1] for x in range(3)]
            if m.ndim == 2:
                rng[2] = [0]
            for z in rng[2]:
                for y in rng[1]:
                    for x in rng[0]:
                        q = (x, y, z)
                        if not m.periodic and not m.inside(q):
                            continue
                        q = m.wrap(q)
                        t = m.size(*q)
                        l.add((m.low(q, t), t))
            out.append(l)
    return out


def gradient(m):
    out = {}
    g = mark('RefineCondition_pseudo_gradient', m, plain, True)
    out.update(octant(g, m.cells()[0]))
    bad = None
    for c in m.cells():
        _, (_, _, v) = cellmark(g, c)
        a = g.atom(('U', 'rho', c), True)
        f = [C(0)]
        for l in touching(m, c):
            for o in sorted(l):
                b = g.atom(('U', 'rho', o), True)
                f.append(g.div(g.absv(g.sub(a, b)), g.maxv(a, b)))
        bad = thresholds(g, v, f, ('amr', 'epsilon_coarsen'), ('amr', 'epsilon_refine'), 4)
        if bad:
            bad = 'cell at %s (size %d): %s' % (c[0][:m.ndim], c[1], bad)
            break
    out['marker of a cell'] = bad
    return out


def mass(m):
    g = mark('RefineCondition_mass', m, plain, True)
    c = m.cells()[0]
    out = octant(g, c)
    bad = None
    for c in m.cells():
        _, (_, _, v) = cellmark(g, c)
        f = g.atom(('U', 'rho', c), True)
        for d in range(m.ndim):
            f = g.mul(f, g.mul(C(c[1]), g.h[d]))
        bad = bad or thresholds(g, v, f, ('amr', 'mass_coarsen'), ('amr', 'mass_refine'))
    out['marker of a cell'] = bad
    return out


def downflows(m):
    g = mark('RefineCondition_downflows', m, plain, True)
    c = m.cells()[0]
    out = octant(g, c)
    _, (_, _, v) = cellmark(g, c)
    f = g.mul(g.atom(('setting', 'amr', 'downflow_sign'), True), g.div(g.atom(('U', 'rho_v' + 'xyz'[m.ndim - 1], c)), g.atom(('U', 'rho', c), True)))
    out['marker of a cell'] = thresholds(g, v, f, ('amr', 'velocity_coarsen'), ('amr', 'velocity_refine'))
    return out


def second(m, uniform=False):
    ptc = next(x for x in P.fns.values() if x['id'].startswith('dyablo::primToCons<3') and 'const dyablo::PrimHydroState &' in x['id'])
    cache = {}
    names = U.fieldnames(P, Grid(P, m, None), 'HydroState')
    mbi = U.members_by_index(P, Grid(P, m, None), 'HydroState')

    def init(g, k, c):
        if c not in cache:
            q = S()
            q.t = 'dyablo::PrimHydroState'
            for x in ('rho', 'p', 'u', 'v', 'w'):
                q[x] = C(0) if m.ndim == 2 and x == 'w' else g.atom((x, 0 if uniform else c), x in ('rho', 'p'))
            u, _, _ = g.apply(ptc, [q, g.atom(('setting', 'hydro', 'gamma0'), True)])
            cache[c] = {names[i]: u[mbi[i]] for i in names}
        return cache[c][k[1]]
    g = mark('RefineCondition_second_derivative_error', m, init, False)
    out = {}
    out.update(octant(g, m.cells()[0]))
    bad = None
    for c in m.cells():
        _, (_, _, v) = cellmark(g, c)
        f = [C(0)]
        if not uniform:
            for x in ('rho', 'p'):
                for d in range(m.ndim):
                    a = g.atom((x, c), True)
                    l, r = [], []
                    for sd in (-1, 1):
                        q = list(c[0])
                        q[d] += sd
                        (l if sd < 0 else r).append(g.atom((x, (m.wrap(q), 1)), True))
                    l, r = l[0], r[0]
                    fl, fr = g.sub(l, a), g.sub(r, a)
                    den = g.add(g.add(g.absv(fr), g.absv(fl)), g.mul(C(Fraction(1, 100)), g.add(g.add(l, r), g.mul(C(2), a))))
                    f.append(g.div(g.absv(g.add(fl, fr)), den))
        bad = thresholds(g, v, f, ('amr', 'error_min'), ('amr', 'error_max'), 4)
        if bad:
            bad = 'cell at %s: %s' % (c[0][:m.ndim], bad)
            break
    out['marker of a cell'] = bad
    return out


def run(p, ck):
    global P
    P = p
    t = []
    M = [('2D, one level', Mesh(2, (3, 3, 1), one)), ('3D, one level', Mesh(3, (3, 3, 3), one)),
         ('2D, refined corner', Mesh(2, (8, 8, 1), lambda x, y, z: 1 if x >= 4 and y >= 4 else 2)),
         ('2D, open boundaries', Mesh(2, (3, 3, 1), one, False))]
    for d in range(3):
        e = [2, 2, 2]
        e[d] = 8
        M.append(('3D, levels differ along ' + 'xyz'[d], Mesh(3, tuple(e), (lambda d: lambda *x: 2 if x[d] < 4 else 1)(d))))
    for n, m in M:
        t.append((('RefineCondition_pseudo_gradient', n), gradient, (m,)))
        t.append((('RefineCondition_mass', n), mass, (m,)))
        if 'one level' in n:
            t.append((('RefineCondition_downflows', n), downflows, (m,)))
            t.append((('RefineCondition_second_derivative_error', n), second, (m,)))
        t.append((('RefineCondition_second_derivative_error', 'uniform, ' + n), second, (m, True)))
    r = par.run(t)
    nd = 0
    for k, _, a in t:
        st, v = r[k]
        if st != 'ok':
            nd += 1
            if os.environ.get('DY_LIST'):
                print('undecided', k, v)
            continue
        for n, b in v.items():
            name = '%s, %s: %s' % (k[0], k[1], n)
            if b is None:
                ck.ok(name, 'holds as an identity')
            else:
                ck.bad(name, 'refine_condition/%s.cpp' % k[0], '%s (%s): %s' % (n, k[1], b))
    ck.counts['not decided'] = nd
