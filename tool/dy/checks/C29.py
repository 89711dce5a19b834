"""Self-gravity: the Poisson operator, the conjugate gradient iteration and the acceleration derived from the potential."""
import os
from fractions import Fraction
from ..grid import Grid, Mesh, C
from ..vg import S, LV, OS, Opq, Leaf, State, Unsup, num, TRUE, FALSE, Rat, rconst
from ..facts import kids
from .. import updates as U, par
from .C21 import one, zero, bctype
from .C25 import key, SIDES
from .C26 import poly, centre, d1, d2

RULE = ('The value graph of GravitySolver_cg::update_gravity_field must be that of a preconditioned conjugate gradient iteration on a '
        'symmetric discrete Poisson problem with the configured right-hand side, with every sum taken over all ranks, and the '
        'acceleration it stores must be minus the gradient of the potential.')
EXPLAIN = ('Value numbering of constructor and solver over abstract meshes with symbolic density and potential for zero, one and two '
           'iterations; the matrix is read off the linear normal forms; analytical solvers are compared with their formula.')
TRUSTED = ['the mesh interface behaves as documented', 'real arithmetic', 'MPI_Allreduce with MPI_SUM adds over all ranks']
P = None


def solver(cls='GravitySolver_cg'):
    f = [f for f in P.fns.values() if f['n'] == 'update_gravity_field' and cls in f['id'] and f.get('body') and '$' not in f['id'] and len(f['params']) == 2]
    if len(f) != 1:
        raise Unsup('%s::update_gravity_field' % cls)
    return f[0]


def solve(f, m, iters, rho, phi, conf, cut=False):
    g = Grid(P, m, None)
    g.iteabbr = True
    g.redkernels = True
    g.loops = iters
    g.glob = {}
    if cut:
        g.cuts = []
        g.looped = lambda: g.cuts.append(len(g.kernels))

    def reduce(g, st, n, fr, a):
        dst = [q for q in a[:3]]
        src = dst[0]
        ops = [q for q in a if 'MPI_SUM' in str(q) or 'SUM' in str(q.get('n', ''))]
        if not ops and not any('Sum' in str(q) or 'sum' in str(q).lower() for q in a[3:]):
            g.notsum = True

        def deref(q):
            while q['k'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr', 'CXXStaticCastExpr'):
                q = kids(q)[0]
            if q['k'] == 'UnaryOperator' and q.get('o') == '&':
                return g.lval(st, kids(q)[0], fr)
            raise Unsup('MPI_Allreduce of an array')
        v = g.load(st, deref(src))
        k = ('global', len(g.glob))
        x = g.atom(k)
        g.glob[k] = v
        g.store(st, deref(a[1]), x)
        return Opq('none')
    g.hooks = {'MPI_Allreduce': reduce}
    g.conf = dict(conf)
    for d, x in enumerate('xyz'):
        g.conf['mesh', x + 'min'] = C(0)
        g.conf['mesh', x + 'max'] = g.mul(C(m.ext[d]), g.h[d])
    g.scalars = {}

    def init(g, k, c):
        if not (isinstance(k, tuple) and k[0] == 'U'):
            raise Unsup('array read before it is written')
        pos, s = c
        if not m.inside(pos) or m.size(*pos) != s:
            raise Unsup('read of a cell that is not a leaf')
        if k[1] == 'rho':
            return rho(g, c)
        if k[1] == 'gphi':
            return phi(g, c)
        return g.atom(('unwritten', k[1], c))
    g.init = init
    st = State()
    this = U.configured(P, g, f, st)
    o = OS(Opq('this', f['cls']), this)
    c = ('in', 'this')
    st.mem[c] = o
    vals = [Opq('U', 'dyablo::UserData'), Opq('scalar_data', 'dyablo::ScalarSimulationData')]
    g.apply(f, vals, LV(c, (), f['cls']), st)
    return g


def result(g, n, c):
    return U.result(g, n, c)


def arho(g, c):
    return g.atom(('rho',) + c, True)


def aphi(g, c):
    return g.atom(('phi',) + c)


def conf0(m, t='BC_PERIODIC', extra=()):
    conf = {key(a, b): C(bctype(P, t)) for a, b in SIDES}
    conf.update(dict(extra))
    return conf


def atomid(g, v):
    (mm, _), = v.v.n.items()
    return mm[0][0]


def linear(g, v, atoms):
    """coefficients of a linear form in the given atoms; (coefficients, rest)"""
    v = g.expand(v)
    if not isinstance(v, Leaf):
        raise Unsup('conditional')
    r = num(v.v)
    ids = {atomid(g, a): k for k, a in atoms.items()}
    if any(i in ids for m in r.d for i, _ in m):
        raise Unsup('not linear')
    out, rest = {}, {}
    for mono, c in r.n.items():
        hit = [(i, e) for i, e in mono if i in ids]
        if not hit:
            rest[mono] = c
        elif len(hit) == 1 and hit[0][1] == 1:
            q = out.setdefault(ids[hit[0][0]], {})
            m2 = tuple(x for x in mono if x[0] != hit[0][0])
            q[m2] = q.get(m2, 0) + c
        else:
            raise Unsup('not linear')
    one_ = Rat(r.d)
    return {k: Leaf(g.rdiv(Rat(q), one_)) for k, q in out.items()}, Leaf(g.rdiv(Rat(rest), one_))


def vol(g, c):
    return g.mul(C(c[1] ** 3), g.mul(g.mul(g.h[0], g.h[1]), g.h[2]))


def raw(g, k, c, b):
    """value of an own array at kernel count b in terms of the values at the iteration before"""
    old = g.cuts
    g.cuts = [x for x in old if x < b]
    try:
        return g.gread(('mem', k, c, b))
    finally:
        g.cuts = old


def pure(g, q):
    """depends on the cell only"""
    r = num(q.v)
    h = {atomid(g, g.h[d]) for d in range(3)}
    return all(i in h for p in (r.n, r.d) for m in p for i, _ in m)


def uses(g, v, ids):
    st = [g.expand(v)]
    while st:
        x = st.pop()
        if isinstance(x, Leaf):
            if isinstance(x.v, Rat) and any(i in ids for p in (x.v.n, x.v.d) for mm in p for i, _ in mm):
                return True
        else:
            st += [x.hi, x.lo]
    return False


def analyse(m, bt, cosmo, iters=2):
    extra = {('cosmology', 'active'): TRUE if cosmo else FALSE}
    g = solve(solver(), m, iters, arho, aphi, conf0(m, bt, extra), True)
    out = {}
    cells = m.cells()
    cuts = g.cuts
    if len(cuts) != iters + 1:
        raise Unsup('%d conditions' % len(cuts))
    phis = {k: aphi(g, k) for k in cells}
    V = lambda c: vol(g, c)
    b0 = cuts[0]
    for c in cells:
        for j in range(b0):
            g.ensure(j, c)
    comps = sorted({k[0] for k in g.gmem if isinstance(k[0], tuple) and k[0][0] != 'U'}, key=str)
    # sums over all cells
    glob = {}
    for k, v in g.glob.items():
        hit = [lj for lk, lj in g.locals.items() if g.equal(v, g.atom(lk))]
        if len(hit) != 1:
            raise Unsup('a sum of something else')
        glob[k] = hit[0]
    if getattr(g, 'notsum', None):
        out['sums over the ranks'] = 'MPI_Allreduce without MPI_SUM'
    if any(g.redkind[v] != 'Sum' for v in glob.values()):
        out['sums over the cells'] = 'a reduction that is not a sum'
    loc = {atomid(g, g.atom(k)) for k in g.locals}
    memo = {}

    def contrib(k, c):
        j, i = glob[k]
        if (k, c) not in memo:
            g.ensure(j, c)
            memo[k, c] = g.sub(g.expand(g.contrib[j, i, c]), g.atom(('red', j, i)))
        return memo[k, c]

    def byc(want, cs):
        w = {}
        for k in g.glob:
            ok = True
            for c in cs:
                if c not in w:
                    w[c] = g.expand(want(c))
                if not zero(g, g.sub(contrib(k, c), w[c])):
                    ok = False
                    break
            if ok:
                return k
        return None
    bad = None
    for c in cells[:4]:
        for i, b in enumerate(cuts):
            for k in comps:
                if uses(g, raw(g, k, c, b), loc):
                    bad = 'a field depends on the sum over the cells of one rank only'
    for cnd in g.loopconds:
        if any(uses(g, Leaf(x), loc) for x in (g.conds[cnd.c][1],)):
            bad = 'the number of iterations depends on the sum over the cells of one rank only'
    out['sums are taken over all ranks'] = bad
    # roles of the fields
    c0 = cells[0]
    km = [k for k in g.glob if zero(g, g.sub(contrib(k, c0), g.mul(arho(g, c0), V(c0))))]
    if not km:
        out['mean density'] = 'no sum over the cells of density times volume'
        return out
    km = km[0]
    rhos = {k: arho(g, k) for k in cells}
    badm = None
    for c in cells:
        if not zero(g, g.sub(contrib(km, c), g.mul(rhos[c], V(c)))):
            badm = 'cell %s adds %s to the total mass instead of density times volume' % (c[0], g.show(contrib(km, c), 100))
    out['mean density'] = badm
    tot = C(m.ext[0] * m.ext[1] * m.ext[2])
    rm = g.div(g.atom(km), g.mul(tot, g.mul(g.mul(g.h[0], g.h[1]), g.h[2])))

    def rhs(c):
        if cosmo:
            return g.mul(g.mul(C(-6), g.atom('aexp', True)), g.mul(g.sub(g.div(rhos[c], rm), C(1)), V(c)))
        fp = g.atom(('setting', 'gravity', '4_pi_g'), True)
        return g.neg(g.mul(g.mul(fp, g.sub(rhos[c], rm)), V(c)))
    phi = [k for k in comps if g.equal(raw(g, k, c0, b0), phis[c0])]
    if len(phi) != 1:
        raise Unsup('the field of the potential')
    phi = phi[0]
    lin = {}
    for k in comps:
        if k != phi:
            try:
                lin[k] = linear(g, raw(g, k, c0, b0), phis)
            except Unsup:
                pass
    res = [k for k, (co, rest) in lin.items() if zero(g, g.sub(rest, rhs(c0)))]
    if len(res) != 1:
        out['right-hand side'] = 'no field starts with the source term %s; there are %s' % (g.show(rhs(c0), 160), ' and '.join(g.show(l[1], 160) for l in lin.values()))
        return out
    res = res[0]
    A, RS = {}, {}
    badb = None
    for c in cells:
        k, rest = linear(g, raw(g, res, c, b0), phis)
        A[c] = {x: g.neg(v) for x, v in k.items()}
        if not zero(g, g.sub(rest, rhs(c))):
            badb = badb or 'cell %s: the residual has the source term %s instead of %s' % (c[0], g.show(rest, 160), g.show(rhs(c), 160))
    out['right-hand side'] = badb
    bads = badr = badk = badw = None
    for c in cells:
        row = C(0)
        for x, v in A[c].items():
            row = g.add(row, v)
            w = A[x].get(c)
            if bads is None and (w is None or not zero(g, g.sub(v, w))):
                bads = 'the matrix is not symmetric: cells %s (size %d) and %s (size %d) are coupled by %s and %s' % (c[0], c[1], x[0], x[1], g.show(v, 90), g.show(w, 90) if w is not None else '0')
            if x != c and g.sign(num(v.v)) != -1:
                badk = badk or 'the coupling of cells %s and %s is %s (must be negative)' % (c[0], x[0], g.show(v, 90))
        rs = g.expand(row)
        if bt != 'BC_REFLECTING' and not zero(g, rs):
            badr = badr or 'cell %s: a uniform potential has the residual %s' % (c[0], g.show(rs, 120))
        if bt == 'BC_REFLECTING' and not (zero(g, rs) or g.sign(num(rs.v)) == 1):
            badr = badr or 'cell %s: boundary term %s' % (c[0], g.show(rs, 120))
    out['matrix is symmetric'] = bads
    out['couplings have one sign'] = badk
    out['uniform potential' if bt != 'BC_REFLECTING' else 'boundary terms'] = badr
    # preconditioner and first direction
    dr = badp = None
    M = {}
    for k in lin:
        if k == res:
            continue
        M = {}
        ok = True
        for c in cells:
            x, y = raw(g, res, c, b0), raw(g, k, c, b0)
            cx, cy = linear(g, x, phis)[0], linear(g, y, phis)[0]
            if c not in cx or c not in cy:
                ok = False
                break
            q = g.expand(g.div(cx[c], cy[c]))
            if not pure(g, q) or g.sign(num(q.v)) != 1 or not zero(g, g.sub(x, g.mul(q, y))):
                ok = False
                badp = 'cell %s: the first direction is not the residual times a positive factor of the cell' % (c[0],)
                break
            M[c] = q
        if ok:
            dr = k
            break
    out['preconditioner'] = None if dr else badp or 'no direction'
    if not dr:
        return out
    test = cells if len(cells) <= 30 else cells[::3]
    few = [test[0], test[len(test) // 2], test[-1]]
    # what an iteration starts from
    eps = g.atom(('setting', 'gravity', 'cg_eps'), True)
    kb = byc(lambda c: g.mul(rhs(c), rhs(c)), test)
    bt_ = None
    rz = None
    for it in range(iters + 1):
        b = cuts[it]
        r1 = {c: raw(g, res, c, b) for c in test}
        name = 'iteration %d: ' % it
        kr = byc(lambda c: g.mul(r1[c], r1[c]), test)
        rz2 = byc(lambda c: g.div(g.mul(r1[c], r1[c]), M[c]), test)
        if not kr or not kb:
            bt_ = bt_ or 'no sum over the cells of the square of the %s' % ('residual' if not kr else 'right-hand side')
        else:
            want = g.gt0(num(g.sub(g.div(g.atom(kr), g.atom(kb)), g.mul(eps, eps)).v))
            if not samecond(g, g.loopconds[it], want):
                bt_ = bt_ or 'the iteration stops on another condition than |r| <= CG_eps |b|'
        if it:
            at = lambda k, c: g.atom(('cell', k, c, cuts[it - 1]))
            Ad = {}
            for c in test:
                v = C(0)
                for x, w in A[c].items():
                    v = g.add(v, g.mul(w, at(dr, x)))
                Ad[c] = v
            pap = byc(lambda c: g.mul(at(dr, c), Ad[c]), test)
            if not pap:
                out[name + 'sums'] = 'no sum over the cells of direction times operator'
                return out
            al = g.div(g.atom(rz), g.atom(pap))
            f1 = {c: raw(g, phi, c, b) for c in test}
            d1_ = {c: raw(g, dr, c, b) for c in test}
            b1 = b2 = b3 = None
            for c in test:
                if not zero(g, g.sub(g.sub(f1[c], at(phi, c)), g.mul(al, at(dr, c)))):
                    b1 = b1 or 'cell %s: the potential does not advance by (r.z / p.Ap) p' % (c[0],)
                if not zero(g, g.sub(g.add(r1[c], g.mul(al, Ad[c])), at(res, c))):
                    b2 = b2 or 'cell %s: the residual does not change by - (r.z / p.Ap) A p' % (c[0],)
            out[name + 'potential'], out[name + 'residual'] = b1, b2
            if b2:
                return out
            if rz2:
                be = g.div(g.atom(rz2), g.atom(rz))
                for c in test:
                    if not zero(g, g.sub(d1_[c], g.add(g.div(r1[c], M[c]), g.mul(be, at(dr, c))))):
                        b3 = b3 or 'cell %s: the next direction is not z + (r.z next / r.z) p' % (c[0],)
                out[name + 'direction'] = b3
        if not rz2:
            out[name + 'sums'] = 'no sum over the cells of residual times preconditioned residual'
            return out
        rz = rz2
    out['stopping test'] = bt_
    # result
    bo = None
    for c in test:
        if not zero(g, g.sub(result(g, 'gphi', c), g.atom(('cell', phi, c, cuts[-1])))):
            bo = bo or 'cell %s: the potential stored is not that of the last iteration' % (c[0],)
    out['potential stored'] = bo
    return out


def samecond(g, a, b):
    """a condition x > 0 up to a positive factor"""
    if isinstance(a, Leaf) or isinstance(b, Leaf):
        return a is b
    x, y = g.conds[a.c][1], g.conds[b.c][1]
    if g.conds[a.c][0] != g.conds[b.c][0]:
        return False
    sa, sb = (a.hi is TRUE or getattr(a.hi, 'v', None) is True), (b.hi is TRUE or getattr(b.hi, 'v', None) is True)
    q = g.rdiv(x, y)
    q = g.expand(Leaf(q))
    # the sums of squares are positive
    r = num(q.v)
    ids = {i for p in (r.n, r.d) for m in p for i, _ in m}
    old = set(g.pos)
    g.pos |= {i for i in ids if isinstance(g.atoms[i], tuple) and g.atoms[i][0] == 'global'}
    try:
        s = g.sign(r)
    finally:
        g.pos = old
    return s == (1 if sa == sb else -1)


def accel(m, cells, deg, bt='BC_PERIODIC', along=None):
    """minus the gradient of polynomial potentials"""
    conf = conf0(m, bt, {('cosmology', 'active'): FALSE})

    def phi(g, c):
        x = centre(g, c, 3)
        if along is not None:
            return g.add(g.atom('p0'), g.mul(g.atom('p1'), x[along]))
        return poly(g, 'p', x, deg)
    g = solve(solver(), m, 0, arho, phi, conf)
    out = {}
    for c in cells:
        x = centre(g, c, 3)
        for d in range(3):
            if along is not None and d != along:
                continue
            v = result(g, 'g' + 'xyz'[d], c)
            if along is not None:
                w = g.neg(g.atom('p1'))
            else:
                w = d1(g, 'p', x, d)
                for j in range(3):
                    if deg > 1:
                        w = g.add(w, g.mul(d2(g, 'p', d, j), x[j]))
                w = g.neg(w)
            k = 'acceleration along ' + 'xyz'[d]
            if not zero(g, g.sub(v, w)):
                out[k] = 'cell %s (size %d): %s instead of %s' % (c[0], c[1], g.show(g.expand(v), 150), g.show(w, 120))
            else:
                out.setdefault(k, None)
        if not zero(g, g.sub(result(g, 'gphi', c), phi(g, c))):
            out['potential'] = 'cell %s: the potential changes' % (c[0],)
    return out


def mirror(bt, d):
    """acceleration next to the two sides of the domain: images of each other"""
    e = [1, 1, 1]
    e[d] = 4
    m = Mesh(3, tuple(e), one, False)
    conf = conf0(m, bt, {('cosmology', 'active'): FALSE})

    def of(flip):
        def phi(g, c):
            x = 3 - c[0][d] if flip else c[0][d]
            return g.atom(('phi', x))
        g = solve(solver(), m, 0, lambda g, c: g.atom('rho0', True), phi, conf)
        return g
    g = of(False)
    q = of(True)
    out = None
    for x in range(4):
        c = [0, 0, 0]
        c[d] = x
        a = g.expand(result(g, 'g' + 'xyz'[d], (tuple(c), 1)))
        c[d] = 3 - x
        b = q.expand(result(q, 'g' + 'xyz'[d], (tuple(c), 1)))
        # atoms are numbered alike only by name: compare the coefficients
        ca = linear(g, a, {k: g.atom(('phi', k)) for k in range(4)})
        cb = linear(q, b, {k: q.atom(('phi', k)) for k in range(4)})
        for k in range(4):
            u, v = ca[0].get(k, C(0)), cb[0].get(k, C(0))
            if g.show(u) != q.show(q.neg(v)):
                out = out or 'cell %d from the side counts the potential of cell %d by %s, on the other side by %s' % (x, k, g.show(u), q.show(v))
    return {'both sides alike': out}


def laplace(m, c):
    """residual of a quadratic potential without matter"""
    conf = conf0(m, 'BC_PERIODIC', {('cosmology', 'active'): FALSE})

    def phi(g, cc):
        return poly(g, 'p', centre(g, cc, 3), 2)
    g = solve(solver(), m, 0, arho, phi, conf)
    nk = len(g.kernels)
    g.ensure(0, c)
    for j in range(nk):
        g.ensure(j, c)
    want = C(0)
    for d in range(3):
        want = g.add(want, d2(g, 'p', d, d))
    want = g.mul(want, vol(g, c))
    atoms = {k: g.atom('p.%s' % k) for k in ('0', '1', '2', '3', '11', '12', '13', '22', '23', '33')}
    best = None
    for k in sorted({k[0] for k in g.gmem if isinstance(k[0], tuple) and k[0][0] != 'U'}, key=str):
        try:
            co, rest = linear(g, g.gread(('mem', k, c, nk)), atoms)
        except Unsup:
            continue
        v = C(0)
        for a, w in co.items():
            v = g.add(v, g.mul(w, atoms[a]))
        if zero(g, g.sub(v, want)):
            return {'exact on quadratic potentials': None}
        if not zero(g, rest):
            best = best or v
    return {'exact on quadratic potentials': 'the operator gives %s instead of volume times laplacian' % (g.show(best, 200) if best is not None else '?')}


def pointmass(nd):
    fs = [f for f in P.fns.values() if f['n'] == 'update_gravity_field' and 'point_mass' in f['id'] and f.get('body') and '$' not in f['id']]
    if len(fs) != 1:
        raise Unsup('point mass')
    f = fs[0]
    m = Mesh(nd, (4, 4, 4 if nd == 3 else 1), one)
    g = solve(f, m, 0, arho, aphi, {})
    c = ((1, 2, 3 if nd == 3 else 0), 1)
    x = centre(g, c, 3)
    s = lambda k: g.atom(('setting', 'gravity', k), True)
    r = [g.sub(x[d], s('point_mass_' + 'xyz'[d])) for d in range(3)]
    r2 = g.mul(s('softening'), s('softening'))
    for d in range(3):
        r2 = g.add(r2, g.mul(r[d], r[d]))
    out = {}
    for d in range(nd):
        v = result(g, 'g' + 'xyz'[d], c)
        e = g.add(v, g.div(g.mul(s('point_mass_gmass'), r[d]), g.mul(r2, g.sqrtv(r2))))
        out['point mass along ' + 'xyz'[d]] = None if zero(g, e) else 'the acceleration is %s' % g.show(g.expand(v), 200)
    return out


def run(p, ck):
    global P
    P = p
    three = Mesh(3, (3, 3, 3), one)
    lv = {'x': Mesh(3, (8, 2, 2), lambda x, y, z: 2 if x < 4 else 1), 'y': Mesh(3, (2, 8, 2), lambda x, y, z: 2 if y < 4 else 1),
          'z': Mesh(3, (2, 2, 8), lambda x, y, z: 2 if z < 4 else 1)}
    t = [(('one level', 'periodic'), analyse, (three, 'BC_PERIODIC', False, 2)), (('one level', 'cosmology'), analyse, (three, 'BC_PERIODIC', True, 1)),
         (('one level', 'open'), analyse, (Mesh(3, (3, 3, 3), one, False), 'BC_ABSORBING', False, 1)),
         (('one level', 'fixed'), analyse, (Mesh(3, (3, 3, 3), one, False), 'BC_REFLECTING', False, 1)),
         (('one level', 'laplacian'), laplace, (Mesh(3, (5, 5, 5), one), ((2, 2, 2), 1))),
         (('one level', 'acceleration'), accel, (Mesh(3, (5, 5, 5), one), [((2, 2, 2), 1)], 2))]
    for k, m in lv.items():
        t.append((('levels differ ' + k, 'periodic'), analyse, (m, 'BC_PERIODIC', False, 1)))
    for d in range(3):
        e = [2, 2, 2]
        e[d] = 16
        mm = Mesh(3, tuple(e), lambda x, y, z, d=d: 2 if (x, y, z)[d] < 8 else 1)
        m2 = Mesh(3, tuple(e), lambda x, y, z, d=d: 1 if (x, y, z)[d] < 8 else 2)
        for nm, me, at in (('coarse to fine', mm, ((4, 2), (6, 2), (8, 1), (9, 1))), ('fine to coarse', m2, ((6, 1), (7, 1), (8, 2), (10, 2)))):
            cs = []
            for v, sz in at:
                q = [0, 0, 0]
                q[d] = v
                cs.append((tuple(q), sz))
            t.append((('levels differ ' + 'xyz'[d], 'acceleration, ' + nm), accel, (me, cs, 1, 'BC_PERIODIC', d)))
        for bt in ('BC_ABSORBING', 'BC_REFLECTING'):
            t.append((('sides along ' + 'xyz'[d], bt), mirror, (bt, d)))
    for nd in (2, 3):
        t.append((('analytical', '%dD' % nd), pointmass, (nd,)))
    r = par.run(t)
    nd = 0
    for k, _, _ in t:
        st, v = r[k]
        if st != 'ok':
            nd += 1
            if os.environ.get('DY_LIST'):
                print('undecided', k, v)
            continue
        for n, b in v.items():
            name = '%s, %s: %s' % (k[0], k[1], n)
            if b is None:
                ck.ok(name, 'holds as an identity')
            else:
                ck.bad(name, 'gravity/GravitySolver_cg.cpp' if k[0] != 'analytical' else 'gravity/GravitySolver_point_mass.cpp', '%s (%s, %s): %s' % (n, k[0], k[1], b))
    ck.counts['not decided'] = nd
