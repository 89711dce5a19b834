"""Particles: deposited mass and interpolated acceleration."""
import os, itertools
from fractions import Fraction
from ..grid import Grid, Mesh, C
from ..vg import LV, Node, Opq, OS, State, Unsup, num
from .. import updates as U, par
from .C21 import one, zero

RULE = ('For a particle of symbolic mass, position inside its cell and velocity: the atomic additions to the projected density must '
        'sum to the particle mass (and, on one level, have the particle position as their centre of mass); a uniform acceleration '
        '(on one level: a linear one) must be felt exactly; positions must advance by dt times the velocity and wrap at the domain.')
EXPLAIN = ('Value numbering of the particle kernels on abstract meshes, for every octant of the cell the particle can lie in and '
           'same-size, smaller and larger neighbours across faces, edges and corners.')
TRUSTED = ['the mesh interface (CellIndex, getCellFromPos, ghost reduction) behaves as documented', 'real arithmetic', 'periodic domain']
P = None


def entry(cls):
    f = [f for f in P.fns.values() if f['n'] == 'update' and f.get('clsd') == 'dyablo::' + cls and f.get('body') and '$' not in f['id']]
    if len(f) != 1:
        raise Unsup(cls)
    return f[0]


def start(cls, m, init, hooks=None):
    f = entry(cls)
    g = Grid(P, m, None)
    g.conf = {}
    g.init = init
    g.letlimit = 6
    g.hooks = hooks or {}
    st = State()
    this = U.configured(P, g, f, st)
    c = ('in', 'this')
    st.mem[c] = OS(Opq('this', f['cls']), this)
    g.apply(f, [Opq('U', 'dyablo::UserData'), Opq('scalar_data', 'dyablo::ScalarSimulationData')], LV(c, (), f['cls']), st)
    if len(g.parts) != 1:
        raise Unsup('particle kernels')
    return g


def place(g, cell, sg):
    """particle at centre + sg a size, 0 <= a <= 1/2"""
    r = {}
    for d in range(3):
        a = g.mul(C(sg[d]), g.atom('a%d' % d, True))
        r['pos', d] = g.mul(g.h[d], g.add(C(Fraction(2 * cell[0][d] + cell[1], 2)), g.mul(C(cell[1]), a)))
    for k in ('mass', 'vx', 'vy', 'vz'):
        r[k, 0] = g.atom('P.' + k)
    return r


def field(g, k, c):
    return g.atom('%s.%s' % (k[1], c))


def cases():
    """(name, mesh, cell, signs)"""
    out = []
    for sg in itertools.product((1, -1), repeat=3):
        out.append(('one level', Mesh(3, (4, 4, 4), one), ((1, 1, 1), 1), sg))
    for k in itertools.product((0, 1), repeat=3):
        if not any(k):
            continue
        n = {1: 'face', 2: 'edge', 3: 'corner'}[sum(k)] + ' ' + ''.join('xyz'[d] for d in range(3) if k[d])

        def fine(x, y, z, k=k):
            return 1 if all(v >= 4 for v, b in zip((x, y, z), k) if b) else 2

        def fine2(x, y, z, k=k):
            return 1 if all(v < 2 for v, b in zip((x, y, z), k) if b) else 2

        def coarse(x, y, z, k=k):
            return 2 if all(v >= 4 for v, b in zip((x, y, z), k) if b) else 1
        out.append(('smaller neighbours across %s, upper side' % n, Mesh(3, (8, 8, 8), fine), ((2, 2, 2), 2), (1, 1, 1)))
        out.append(('smaller neighbours across %s, lower side' % n, Mesh(3, (8, 8, 8), fine2), ((2, 2, 2), 2), (-1, -1, -1)))
        out.append(('larger neighbours across %s, upper side' % n, Mesh(3, (8, 8, 8), coarse), ((3, 3, 3), 1), (1, 1, 1)))
        out.append(('larger neighbours across %s, lower side' % n, Mesh(3, (8, 8, 8), coarse), ((0, 0, 0), 1), (-1, -1, -1)))
    return out


def density(cls, m, cell, sg):
    g = start(cls, m, field)
    init = place(g, cell, sg)
    s2 = g.particle(0, cell, init)
    vol = C(1)
    for d in range(3):
        vol = g.mul(vol, g.h[d])
    tot, mom = C(0), [C(0)] * 3
    flat = m.size is one
    for key, c, v in g.deposits:
        if key != ('U', 'rho_g'):
            return {'deposit': 'particle mass is added to %s' % (key,)}
        if not m.inside(c[0]) or m.size(*c[0]) != c[1] or m.low(c[0], c[1]) != tuple(c[0]):
            return {'deposit': 'particle mass is added to %s, which is not a cell of the mesh' % (c,)}
        w = g.mul(g.expand(v), g.mul(C(c[1] ** 3), vol))
        tot = g.add(tot, w)
        for d in range(3):
            mom[d] = g.add(mom[d], g.mul(w, g.mul(g.h[d], C(Fraction(2 * c[0][d] + c[1], 2)))))
    M = init['mass', 0]
    out = {'deposited mass': None if zero(g, g.sub(tot, M)) else 'cells receive the mass %s instead of the particle mass' % g.show(tot, 200)}
    if flat and 'CIC' in cls:
        for d in range(3):
            out['centre of mass along ' + 'xyz'[d]] = None if zero(g, g.sub(mom[d], g.mul(M, init['pos', d]))) else 'the deposit is not centred on the particle: %s' % g.show(mom[d], 200)
    g0 = g.gread(('mem', ('U', 'rho_g'), cell, len(g.kernels)))
    out['density before projection'] = None if g.equal(g0, g.atom('rho.%s' % (cell,))) else 'starts from %s instead of rho' % g.show(g0, 100)
    for k, v in init.items():
        out['particle %s%s kept' % (k[0], 'xyz'[k[1]] if k[0] == 'pos' else '')] = None if g.equal(s2.mem[('part',) + k], v) else 'changes'
    for l in g.lookups:
        for d in range(3):
            out['cell looked up at the particle position ' + 'xyz'[d]] = None if g.equal(l[d], init['pos', d]) else 'the cell is looked up at %s' % g.show(l[d], 100)
    return out


def wrapped(fm):
    """fmod, recorded; the value is that of a particle that stayed inside"""
    def f(g, st, n, fr, a):
        x, y = g.val(st, a[0], fr), g.val(st, a[1], fr)
        fm.append((x, y))
        return g.sub(x, y)

    def fl(g, st, n, fr, a):
        fm.append((g.val(st, a[0], fr), None))
        return C(0)
    return {'fmod': f, 'floor': fl, 'remainder': fl, 'fmodf': f}


def leaves(v):
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Node):
            todo += [x.hi, x.lo]
        else:
            out.append(x)
    return out


def move(cls, m, cell, sg):
    fm = []
    flat = m.size is one
    vel = cls.endswith('tracers_move')

    def fld(g, k, c):
        if flat and not vel:
            # linear acceleration
            v = g.atom(k[1] + '.0')
            for d in range(3):
                if cls.startswith('ParticleUpdate_CIC'):
                    v = g.add(v, g.mul(g.atom('%s.%d' % (k[1], d + 1)), g.mul(g.h[d], C(Fraction(2 * c[0][d] + c[1], 2)))))
            return v
        return g.atom(k[1] + ('.%s' % (c,) if vel else '.0'))
    g = start(cls, m, fld, wrapped(fm))
    init = place(g, cell, sg)
    s2 = g.particle(0, cell, init)
    out = {}
    L = [g.sub(g.atom(('setting', 'mesh', 'xyz'[d] + 'max'), True), g.atom(('setting', 'mesh', 'xyz'[d] + 'min'), True)) for d in range(3)]
    cond = False
    dt = g.atom('dt', True)
    for d in range(3):
        x = 'xyz'[d]
        if vel:
            v = g.div(g.atom('rho_v%s.%s' % (x, cell)), g.atom('rho.%s' % (cell,)))
            out['velocity kept ' + x] = None if g.equal(s2.mem[('part', 'v' + x, 0)], init['v' + x, 0]) else 'changes'
        else:
            acc = g.atom('g%s.0' % x)
            if flat and cls.startswith('ParticleUpdate_CIC'):
                for e in range(3):
                    acc = g.add(acc, g.mul(g.atom('g%s.%d' % (x, e + 1)), init['pos', e]))
            v = g.add(init['v' + x, 0], g.mul(dt, acc))
            got = g.expand(s2.mem[('part', 'v' + x, 0)])
            out['velocity ' + x] = None if zero(g, g.sub(got, v)) else 'the velocity becomes %s instead of %s' % (g.show(got, 200), g.show(v, 100))
        w = g.add(init['pos', d], g.mul(dt, v))
        got = g.expand(s2.mem[('part', 'pos', d)])
        ok = zero(g, g.sub(got, w))
        if not ok and isinstance(got, Node):
            # wrapping written with conditions: the position itself, or moved by the extent of the domain
            cond = True
            ls = [g.sub(l, w) for l in leaves(got)]
            ok = any(zero(g, l) for l in ls) and all(any(zero(g, e) for e in (l, g.sub(l, L[d]), g.add(l, L[d]))) for l in ls)
        out['position ' + x] = None if ok else 'the position becomes %s instead of %s' % (g.show(got, 200), g.show(w, 100))
    if not vel and not cond:
        ok = len(fm) == 3 and all(y is None or any(g.equal(y, l) for x, y in fm) for x, y in fm for l in L)
        if all(y is None for x, y in fm) and fm:
            ok = True
        out['periodic wrap'] = None if ok else 'positions are not wrapped by the extent of the domain'
    return out


def run(p, ck):
    global P
    P = p
    t = []
    for name, m, cell, sg in cases():
        key = '%s, octant %s' % (name, ''.join('+' if s > 0 else '-' for s in sg))
        for cls in ('ParticleUpdate_CIC_density', 'ParticleUpdate_NGP_density'):
            if 'CIC' in cls or name == 'one level':
                t.append(((cls, key), density, (cls, m, cell, sg)))
        for cls in ('ParticleUpdate_CIC_move', 'ParticleUpdate_NGP_move', 'ParticleUpdate_tracers_move'):
            if 'CIC' in cls or name == 'one level':
                t.append(((cls, key), move, (cls, m, cell, sg)))
    r = par.run(t)
    nd = 0
    for k, _, a in t:
        st, v = r[k]
        if st != 'ok':
            nd += 1
            if os.environ.get('DY_LIST'):
                print('undecided', k, v)
            continue
        for n, b in v.items():
            name = '%s: %s: %s' % (k[0], k[1], n)
            if b is None:
                ck.ok(name, 'holds as an identity')
            else:
                ck.bad(name, 'particles/%s.cpp' % k[0], '%s::update (%s): %s: %s' % (k[0], k[1], n, b))
    ck.counts['not decided'] = nd
