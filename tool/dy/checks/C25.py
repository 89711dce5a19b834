"""Boundary conditions act on the side they were set for."""
import os
from ..grid import Grid, Mesh, C
from ..vg import S, LV, Leaf, Opq, State, Unsup, num
from .. import updates as U, par
from .C21 import one, zero, bctype
from .C22 import prim

RULE = ('With the boundary settings of the six sides as configured values, the state the code assigns to a cell outside the domain must '
        'normalise to the state of its mirror cell, with exactly the normal momenta of the reflecting sides it lies behind reversed; and '
        'the user override of the boundary flux must be reached for exactly the cells, direction and side whose setting is user.')
EXPLAIN = ('Value numbering of the BoundaryConditions constructor, getBoundaryValue and the update functions on abstract non-periodic '
           'meshes, for every side, corner and distance and all assignments of types to the sides used.')
TRUSTED = ['CellIndex::getBoundaryPosAndOffset and getNeighbor behave as documented', 'real arithmetic']
P = None
SIDES = [(d, e) for d in range(3) for e in ('min', 'max')]


def key(d, e):
    return ('mesh', 'boundary_type_%s%s' % ('xyz'[d], e))


def ghost(fam, nd, types):
    """types: {(d, side): enumerator}; returns {position: problem}"""
    m = Mesh(nd, (5, 5, 5 if nd == 3 else 1), one, False)
    g = Grid(P, m, None)
    members = [q['n'] for q in P.recs['dyablo::Cons' + fam]['fields']]
    g.init = lambda g, k, c: g.atom('U.%s.%s' % (k, c))
    g.conf = {key(d, e): C(bctype(P, types[d, e])) for d, e in SIDES}
    rp = S()
    rp.t = 'dyablo::RiemannParams'
    g.prebuilt = {'dyablo::RiemannParams': rp}
    ctor = [f for f in P.fns.values() if f.get('clsd', f.get('cls')) == 'dyablo::BoundaryConditions' and f['n'] == 'BoundaryConditions' and f.get('body') and len(f['params']) == 1]
    fn = [f for f in P.fns.values() if f['n'] == 'getBoundaryValue' and f.get('body') and 'getBoundaryValue<%d, dyablo::%s, ' % (nd, fam) in f['id'] and '$' not in f['id']]
    if not ctor or not fn:
        raise Unsup('getBoundaryValue')
    st = State()
    c = ('in', 'bc')
    st.mem[c] = g.make(st, 'dyablo::BoundaryConditions')
    g.apply(ctor[0], [Opq('config', 'ConfigMap')], LV(c, (), 'dyablo::BoundaryConditions'), st)
    get = [f for f in P.fns.values() if f['n'] == 'getConservativeState' and f.get('body') and '$' not in f['id'] and 'getConservativeState<%d' % nd in f['id'] and 'Cons' + fam in f['id']]
    if not get:
        raise Unsup('getConservativeState')
    arr = Opq(('array', 0), '')

    def state(pos):
        u = S()
        u.t = 'dyablo::Cons' + fam
        for k in members:
            u[k] = C(0)
        r, s2, cells = g.apply(get[0], [arr, g.cellv(pos, 1), u], None, st.copy())
        return g.load(s2, cells[2])
    out = {}
    rng = range(-2, 7)
    for x in rng:
        for y in rng:
            for z in (rng if nd == 3 else (0,)):
                pos = (x, y, z)
                outside = [d for d in range(nd) if not 0 <= pos[d] < 5]
                if not outside or (len(outside) > 1 and any(pos[d] not in (-1, 5, 2) for d in range(nd))):
                    continue
                if len(outside) == 1 and any(pos[d] not in (2,) for d in range(nd) if d not in outside):
                    continue
                r, _, _ = g.apply(fn[0], [arr, g.cellv(pos, 1, 0, True), Opq('metadata', 'CellMetaData')], LV(c, (), 'dyablo::BoundaryConditions'), st.copy())
                ref = state(tuple(-1 - v if v < 0 else 9 - v if v >= 5 else v for v in pos))
                bad = None
                for k in members:
                    w = ref[k]
                    for d in outside:
                        e = 'min' if pos[d] < 0 else 'max'
                        if types[d, e] == 'BC_REFLECTING' and k == 'rho_' + 'uvw'[d]:
                            w = g.neg(w)
                    if not g.equal(r[k], w):
                        bad = '%s is %s instead of %s' % (k, g.show(r[k], 120), g.show(w, 120))
                        break
                side = ', '.join('%s%s' % ('xyz'[d], 'min' if pos[d] < 0 else 'max') for d in outside)
                out['cell %s behind %s' % (pos[:nd], side)] = bad
    return out


def user(cls, fam, fid, nd, d, e):
    """which cells reach overrideBoundaryFlux when side (d, e) is user and the others are reflecting"""
    m = Mesh(nd, (3, 3, 3 if nd == 3 else 1), one, False)
    conf = {key(a, b): C(bctype(P, 'BC_USER' if (a, b) == (d, e) else 'BC_ABSORBING')) for a, b in SIDES}
    rec = []

    def over(g, st, n, fr, a):
        x, y = g.val(st, a[-2], fr), g.val(st, a[-1], fr)
        dd = num(x.v).const()
        rec.append((g.running[-1][1], int(dd), num(y.v).const() != 0))
        return g.val(st, a[0], fr)

    def ghostcell(g, st, n, fr, a):
        # any user state serves: the state of the updated cell keeps the value graph small
        get = [f for f in P.fns.values() if f['n'] == 'getConservativeState' and f.get('body') and '$' not in f['id'] and 'getConservativeState<%d' % nd in f['id'] and 'Cons' + fam in f['id']]
        u = S()
        u.t = 'dyablo::Cons' + fam
        for q in P.recs['dyablo::Cons' + fam]['fields']:
            u[q['n']] = C(0)
        r, s2, cells = g.apply(get[0], [g.val(st, a[0], fr), g.cellv(tuple(min(max(v, 0), m.ext[i] - 1) for i, v in enumerate(g.running[-1][1][0])), 1), u], None, st.copy())
        return g.load(s2, cells[2])
    g = U.run(P, cls, fam, P.fns[fid], m, prim(nd), conf=conf, nofloor=True, hooks={'overrideBoundaryFlux': over, 'getUserdefBoundaryValue': ghostcell})
    want = set()
    for c in m.cells():
        U.result(g, 'rho_next', c)
        if c[0][d] == (0 if e == 'min' else 2):
            want.add((c, d, e == 'min'))
    got = set(rec)
    if got - want:
        c, dd, mn = sorted(got - want)[0]
        return 'the flux of cell %s is overridden as direction %s, side %s although only %s%s is user' % (c[0][:nd], 'xyz'[dd], 'min' if mn else 'max', 'xyz'[d], e)
    if want - got:
        c, dd, mn = sorted(want - got)[0]
        return 'the flux of cell %s at side %s%s is not overridden' % (c[0][:nd], 'xyz'[d], e)
    return None


def run(p, ck):
    global P
    P = p
    tasks = []
    R, A = 'BC_REFLECTING', 'BC_ABSORBING'
    pats = {'all reflecting': {s: R for s in SIDES}, 'all absorbing': {s: A for s in SIDES}}
    for s in SIDES:
        pats['reflecting on %s%s only' % ('xyz'[s[0]], s[1])] = {t: R if t == s else A for t in SIDES}
        pats['absorbing on %s%s only' % ('xyz'[s[0]], s[1])] = {t: A if t == s else R for t in SIDES}
    for fam in ('HydroState', 'MHDState', 'GLMMHDState'):
        for nd in (2, 3):
            for n, t in pats.items():
                if nd == 2 and ' z' in n:
                    continue
                tasks.append((('ghost', fam, nd, n), ghost, (fam, nd, t)))
    ups = U.updates(p)
    for cls, fam, f in ups:
        if cls == 'HydroUpdate_hancock':
            continue
        for nd in (2, 3):
            for d, e in SIDES[:2 * nd]:
                tasks.append((('user', cls, fam, nd, 'xyz'[d] + e), user, (cls, fam, f['id'], nd, d, e)))
    r = par.run(tasks)
    nd = 0
    for k, fn, a in tasks:
        st, v = r[k]
        name = ' '.join(map(str, k))
        if st != 'ok':
            nd += 1
            if os.environ.get('DY_LIST'):
                print('undecided', name, v)
        elif k[0] == 'ghost':
            for q, b in v.items():
                if b is None:
                    ck.ok('%s: %s' % (name, q), 'state is the mirrored one')
                else:
                    ck.bad('%s: %s' % (name, q), 'boundary_conditions/BoundaryConditions.h', 'getBoundaryValue<%d, %s>, %s: %s: %s' % (k[2], k[1], k[3], q, b))
        elif v is None:
            ck.ok(name, 'override reached exactly at its side')
        else:
            ck.bad(name, p.fns[a[2]]['file'], '%s<%s>::update in %dD: %s' % (k[1], k[2], k[3], v))
    ck.counts['not decided'] = nd
