"""Viscosity and heat conduction: diffusion of momentum and heat as in the equations they implement."""
import os
from fractions import Fraction
from ..grid import Mesh, C
from ..vg import Leaf, Unsup, num
from .. import updates as U, par
from .C21 import one, zero, prim2, total, bc, bctype
from .C22 import prim as uprim
from .C23 import Sym, S2, S3

RULE = ('The value graph of ParabolicUpdate_explicit::update for each term must satisfy: totals unchanged on periodic meshes; uniform '
        'temperature and velocity unchanged; images under axis exchange and reversal; and for quadratic profiles with symbolic '
        'coefficients exactly dt times the viscous force, viscous work or heat flux divergence of the continuous equations.')
EXPLAIN = ('Value numbering of constructor, update and both parabolic terms on abstract meshes with symbolic cell states, sizes and '
           'coefficients; all statements are identities between rational normal forms.')
TRUSTED = ['the mesh interface behaves as documented', 'real arithmetic']
P = None
TERMS = ('PARABOLIC_VISCOSITY', 'PARABOLIC_THERMAL_CONDUCTION')


def entry():
    f = [f for f in P.fns.values() if f['n'] == 'update' and 'ParabolicUpdate_explicit::' in f['id'] and f.get('body')]
    if len(f) != 1:
        raise Unsup('ParabolicUpdate_explicit::update')
    return f[0]


def step(term, m, prim, **kw):
    return U.run(P, '', 'HydroState', entry(), m, prim, extra=[C(bctype(P, term))], nofloor=True, **kw)


def change(g, n, c):
    r = U.result(g, n + '_next', c)
    a = g.atom(('unwritten', n + '_next', c))
    return g.sub(g.expand(r), a)


def conserve(term, m):
    g = step(term, m, prim2(m.ndim))
    out = {}
    for i, n in sorted(g.names.items()):
        tot = C(0)
        for c in m.cells():
            tot = g.add(tot, g.mul(C(c[1] ** m.ndim), change(g, n, c)))
        out['total of ' + n] = None if zero(g, tot) else 'the changes of all cells add up to ' + g.show(tot, 200)
        if n == 'rho' or term == TERMS[1] and n != 'e_tot':
            out[n + ' unchanged'] = None if all(zero(g, change(g, n, c)) for c in m.cells()) else 'changes'
    return out


def uniform(term, m, conf=None):
    up = uprim(m.ndim)

    def prim(g, k, c):
        # uniform temperature at any density, uniform velocity
        if k == 'rho':
            return g.atom('rho.%s' % (c,), True)
        if k == 'p':
            return g.mul(g.atom('T', True), g.atom('rho.%s' % (c,), True))
        return up(g, k, c)
    g = step(term, m, prim, conf=conf)
    out = {}
    for i, n in sorted(g.names.items()):
        bad = None
        for c in m.cells():
            d = change(g, n, c)
            if not zero(g, d):
                bad = 'cell at %s (size %d): changes by %s' % (c[0][:m.ndim], c[1], g.show(d, 200))
                break
        out[n + ' with uniform temperature and velocity'] = bad
    return out


def axes(term, m, syms, cells):
    pr = prim2(m.ndim)
    g = step(term, m, pr)
    out = {}
    for s in syms:
        m2 = s.mesh(m)

        def prim(h, k, c):
            k0, sg = s.comp(k)
            v = pr(h, k0, (s.pos(c[0], c[1], m2.ext), c[1]))
            return h.neg(v) if sg < 0 else v
        h = step(term, m2, prim, share=g, h=s.h)
        for i, n in sorted(h.names.items()):
            n0, sg = s.comp(n)
            bad = None
            for c in cells:
                w, r = change(g, n0, c), change(h, n, (s.back(c[0], c[1], m2.ext), c[1]))
                if sg < 0:
                    r = h.neg(r)
                if not zero(h, h.sub(r, w)):
                    bad = 'cell at %s (size %d) is not the image' % (c[0][:m.ndim], c[1])
                    break
            out['%s under %s' % (n, s.name)] = bad
    return out


def centre(g, c, nd):
    return [g.mul(C(Fraction(2 * c[0][d] + c[1], 2)), g.h[d]) for d in range(nd)]


def poly(g, name, x, deg):
    v = g.atom(name + '.0')
    nd = len(x)
    for i in range(nd):
        v = g.add(v, g.mul(g.atom('%s.%d' % (name, i + 1)), x[i]))
        if deg > 1:
            for j in range(i, nd):
                v = g.add(v, g.mul(g.atom('%s.%d%d' % (name, i + 1, j + 1)), g.mul(x[i], x[j])))
    return v


def d1(g, name, x, i):
    """exact first derivative of a linear profile"""
    return g.atom('%s.%d' % (name, i + 1))


def d2(g, name, i, j):
    i, j = min(i, j), max(i, j)
    v = g.atom('%s.%d%d' % (name, i + 1, j + 1))
    return g.mul(C(2), v) if i == j else v


VEL = 'uvw'


def force(nd):
    """viscous force on quadratic velocity profiles, independent of density and pressure"""
    m = Mesh(nd, (5, 5, 5 if nd == 3 else 1), one, False)
    c = ((2, 2, 2 if nd == 3 else 0), 1)

    def prim(g, k, cc):
        if k in VEL:
            return poly(g, k, centre(g, cc, nd), 2) if VEL.index(k) < nd else C(0)
        return g.atom('q.%s.%s' % (k, cc), True)
    g = step(TERMS[0], m, prim)
    mu = g.atom(('setting', 'viscosity', 'mu'), True)
    dt = g.atom('dt', True)
    out = {}
    for a in range(nd):
        want = C(0)
        for b in range(nd):
            want = g.add(want, d2(g, VEL[a], b, b))
            want = g.add(want, g.mul(C(Fraction(1, 3)), d2(g, VEL[b], a, b)))
        d = change(g, 'rho_v' + 'xyz'[a], c)
        e = g.sub(d, g.mul(g.mul(mu, dt), want))
        out['viscous force along ' + 'xyz'[a]] = None if zero(g, e) else 'momentum changes by %s instead of dt mu (lap u + grad div u / 3) = %s' % (g.show(d, 200), g.show(g.mul(g.mul(mu, dt), want), 200))
    return out


def work(nd):
    """viscous heating of a linear velocity profile"""
    m = Mesh(nd, (5, 5, 5 if nd == 3 else 1), one, False)
    c = ((2, 2, 2 if nd == 3 else 0), 1)

    def prim(g, k, cc):
        if k in VEL:
            return poly(g, k, centre(g, cc, nd), 1) if VEL.index(k) < nd else C(0)
        return g.atom('q.%s.%s' % (k, cc), True)
    g = step(TERMS[0], m, prim)
    mu = g.atom(('setting', 'viscosity', 'mu'), True)
    dt = g.atom('dt', True)
    D = [[d1(g, VEL[a], None, b) for b in range(nd)] for a in range(nd)]
    div = C(0)
    for a in range(nd):
        div = g.add(div, D[a][a])
    want = C(0)
    for a in range(nd):
        for b in range(nd):
            t = g.add(D[a][b], D[b][a])
            if a == b:
                t = g.sub(t, g.mul(C(Fraction(2, 3)), div))
            want = g.add(want, g.mul(t, D[a][b]))
    d = change(g, 'e_tot', c)
    e = g.sub(d, g.mul(g.mul(mu, dt), want))
    return {'viscous work': None if zero(g, e) else 'energy changes by %s instead of dt mu tau:grad u' % g.show(d, 200)}


def heat(nd):
    """heat diffusion of a quadratic temperature profile at any density"""
    m = Mesh(nd, (5, 5, 5 if nd == 3 else 1), one, False)
    c = ((2, 2, 2 if nd == 3 else 0), 1)

    def prim(g, k, cc):
        r = g.atom('rho.%s' % (cc,), True)
        if k == 'rho':
            return r
        if k == 'p':
            return g.mul(r, poly(g, 'T', centre(g, cc, nd), 2))
        return g.atom('q.%s.%s' % (k, cc)) if k in VEL and VEL.index(k) < nd else C(0)
    g = step(TERMS[1], m, prim)
    want = C(0)
    for b in range(nd):
        want = g.add(want, d2(g, 'T', b, b))
    want = g.mul(g.mul(g.atom('dt', True), g.atom(('setting', 'thermal_conduction', 'kappa'), True)), want)
    d = change(g, 'e_tot', c)
    return {'heat diffusion': None if zero(g, g.sub(d, want)) else 'energy changes by %s instead of dt kappa laplacian(T) = %s' % (g.show(d, 200), g.show(want, 200))}


def override(nd, d, e):
    """cells whose heat flux the user boundary hook replaces when only side (d, e) is user"""
    from .C25 import key, SIDES
    m = Mesh(nd, (3, 3, 3 if nd == 3 else 1), one, False)
    conf = {key(a, b): C(bctype(P, 'BC_USER' if (a, b) == (d, e) else 'BC_ABSORBING')) for a, b in SIDES}
    rec = []

    def over(g, st, n, fr, a):
        x, y = g.val(st, a[-2], fr), g.val(st, a[-1], fr)
        rec.append((g.running[-1][1], int(num(x.v).const()), num(y.v).const() != 0))
        return g.val(st, a[0], fr)

    def ghostcell(g, st, n, fr, a):
        from ..vg import S
        get = [f for f in P.fns.values() if f['n'] == 'getConservativeState' and f.get('body') and '$' not in f['id'] and 'getConservativeState<%d' % nd in f['id'] and 'ConsHydroState' in f['id']]
        u = S()
        u.t = 'dyablo::ConsHydroState'
        for q in P.recs[u.t]['fields']:
            u[q['n']] = C(0)
        r, s2, cells = g.apply(get[0], [g.val(st, a[0], fr), g.cellv(tuple(min(max(v, 0), m.ext[i] - 1) for i, v in enumerate(g.running[-1][1][0])), 1), u], None, st.copy())
        return g.load(s2, cells[2])
    g = step(TERMS[1], m, uprim(nd), conf=conf, hooks={'overrideBoundaryHeatFlux': over, 'getUserdefBoundaryValue': ghostcell})
    want = set()
    for c in m.cells():
        U.result(g, 'e_tot_next', c)
        if c[0][d] == (0 if e == 'min' else 2):
            want.add((c, d, e == 'min'))
    got = set(rec)
    name = 'user heat flux at %s%s' % ('xyz'[d], e)
    for s, t in ((got - want, 'overridden although that side is not user'), (want - got, 'not overridden')):
        if s:
            c, dd, mn = sorted(s)[0]
            return {name: 'the heat flux of cell %s in direction %s, side %s is %s' % (c[0][:nd], 'xyz'[dd], 'min' if mn else 'max', t)}
    return {name: None}


def run(p, ck):
    global P
    P = p
    t = []
    two, three = Mesh(2, (4, 4, 1), one), Mesh(3, (3, 3, 3), one)
    lv = {'x': Mesh(3, (8, 2, 2), lambda x, y, z: 2 if x < 4 else 1), 'y': Mesh(3, (2, 8, 2), lambda x, y, z: 2 if y < 4 else 1),
          'z': Mesh(3, (2, 2, 8), lambda x, y, z: 2 if z < 4 else 1), '2': Mesh(2, (8, 4, 1), lambda x, y, z: 2 if x < 4 else 1)}
    ab = bc(p, bctype(p, 'BC_ABSORBING'))
    for term in TERMS:
        s = term[10:].lower()
        t += [((s, 'conserved, 2D'), conserve, (term, two)), ((s, 'conserved, 3D'), conserve, (term, three)),
              ((s, 'uniform, 2D'), uniform, (term, two)), ((s, 'uniform, 3D'), uniform, (term, three)),
              ((s, 'uniform, open boundaries'), uniform, (term, Mesh(3, (3, 3, 3), one, False), ab)),
              ((s, 'axes, 2D'), axes, (term, Mesh(2, (5, 5, 1), one), S2, [((2, 2, 0), 1)])),
              ((s, 'axes, 3D'), axes, (term, Mesh(3, (5, 5, 5), one), S3, [((2, 2, 2), 1)]))]
        for k, m in lv.items():
            if term == TERMS[1]:
                t.append(((s, 'conserved, levels differ ' + k), conserve, (term, m)))
            t.append(((s, 'uniform, levels differ ' + k), uniform, (term, m)))
    for nd in (2, 3):
        t += [(('viscosity', 'force, %dD' % nd), force, (nd,)), (('viscosity', 'work, %dD' % nd), work, (nd,)),
              (('thermal_conduction', 'flux, %dD' % nd), heat, (nd,))]
        for d in range(nd):
            for e in ('min', 'max'):
                t.append((('thermal_conduction', 'user flux %s%s, %dD' % ('xyz'[d], e, nd)), override, (nd, d, e)))
    r = par.run(t)
    nd = 0
    file = {'viscosity': 'parabolic/ParabolicTerm_viscosity.h', 'thermal_conduction': 'parabolic/ParabolicTerm_thermal_conduction.h'}
    for k, _, _ in t:
        st, v = r[k]
        if st != 'ok':
            nd += 1
            if os.environ.get('DY_LIST'):
                print('undecided', k, v)
            continue
        for n, b in v.items():
            name = '%s: %s: %s' % (k[0], k[1], n)
            if b is None:
                ck.ok(name, 'holds as an identity')
            else:
                ck.bad(name, file[k[0]], '%s (%s): %s: %s' % (k[0], k[1], n, b))
    ck.counts['not decided'] = nd
