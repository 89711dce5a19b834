"""Gravity accelerates matter as configured."""
import os
from fractions import Fraction
from ..grid import Mesh, C
from ..vg import Leaf, Unsup, num
from .. import updates as U, par
from .C21 import one, zero
from .C22 import prim, report

RULE = ('On a uniform state in a uniform gravitational acceleration g (constant setting or stored field), the value graph of one '
        'update must give: density unchanged, momentum changed by dt rho g component by component, total energy changed by the work '
        'dt rho u.g (to first order in dt), magnetic field unchanged; with gravity off, nothing changes.')
EXPLAIN = ('Whole-program value numbering of constructor and update() of every finite-volume scheme with the gravity settings as symbols; '
           'compared with the source term of the momentum and energy equations.')
TRUSTED = ['the mesh interface behaves as documented', 'Riemann solvers return the physical mass flux for equal states (property C13)', 'real arithmetic, floors zero']
P = None


def gval(p, name):
    for e in p.enums.values():
        for n, v in e['vals']:
            if n == name:
                return v
    raise Unsup(name)


def second(g, v):
    """at least of second order in the time step"""
    if not isinstance(v, Leaf):
        return second(g, v.hi) and second(g, v.lo)
    r = num(v.v)
    i = g.atomid.get('dt')
    if any(a == i for m in r.d for a, _ in m):
        return False
    return all(dict(m).get(i, 0) >= 2 for m in r.n)


def job(cls, fam, fid, m, kind):
    nd = m.ndim
    conf = {('gravity', 'gravity_type'): C(gval(P, kind))}

    def init(g, nm, cell):
        if nm in ('gx', 'gy', 'gz') and kind != 'GRAVITY_CST_SCALAR' and kind != 'GRAVITY_NONE':
            return g.atom('field.' + nm)
        return g.atom(('unwritten', nm, cell))
    g = U.run(P, cls, fam, P.fns[fid], m, prim(nd), conf=conf, init=init, physical=True, nofloor=True)
    q = lambda k: prim(nd)(g, k, None)
    gs = []
    for d in range(nd):
        n = 'g' + 'xyz'[d]
        gs.append(C(0) if kind == 'GRAVITY_NONE' else g.atom(('setting', 'gravity', n), True) if kind == 'GRAVITY_CST_SCALAR' else g.atom('field.' + n))
    dt, rho = g.scalar('dt'), q('rho')
    work = C(0)
    for d in range(nd):
        work = g.add(work, g.mul(g.mul(dt, rho), g.mul(gs[d], q('uvw'[d]))))
    want = {'rho': C(0), 'e_tot': work, 'Bx': C(0), 'By': C(0), 'Bz': C(0)}
    for d in range(nd):
        want['rho_v' + 'xyz'[d]] = g.mul(g.mul(dt, rho), gs[d])
    out = {}
    c = m.cells()[len(m.cells()) // 2]
    for i, n in sorted(g.names.items()):
        if n not in want:
            continue
        try:
            r = U.result(g, n + '_next', c)
            if not U.written(g, r):
                out[n] = 'is never written'
                continue
            d = g.sub(g.expand(r), g.expand(U.result(g, n, c)))
            out[n] = None if zero(g, g.sub(d, want[n])) or n == 'e_tot' and second(g, g.sub(d, want[n])) else 'changes by %s, not by %s' % (g.show(d, 200), g.show(want[n]))
        except Unsup as e:
            out[n] = 'undecided %s' % e
    return out


def run(p, ck):
    global P
    P = p
    tasks = []
    ups = U.updates(p)
    for kind in ('GRAVITY_NONE', 'GRAVITY_CST_SCALAR', 'GRAVITY_FIELD', 'GRAVITY_CST_FIELD'):
        for nd in (2, 3):
            m = Mesh(nd, (3, 3, 3 if nd == 3 else 1), one)
            for cls, fam, f in ups:
                tasks.append((('%dD, %s' % (nd, kind), cls, fam), job, (cls, fam, f['id'], m, kind)))
    report(ck, tasks, par.run(tasks), 'does not apply gravity as configured')
    ck.counts['updates'] = len(ups)
