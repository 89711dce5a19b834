"""A uniform flow stays uniform."""
import os
from ..grid import Mesh, C
from ..vg import Leaf, Unsup, num
from .. import updates as U, par
from .C21 import one, bc, bctype, zero

RULE = ('With the same symbolic state in every cell, the value graph of each field after update() must normalise to the value '
        'before it, in every cell of abstract meshes that contain same-size, larger and smaller neighbours and open boundaries.')
EXPLAIN = ('Whole-program value numbering of HydroUpdate_*::update over abstract meshes with one symbolic state per mesh: every slope must '
           'vanish, every reconstruction must return the state itself and the weights of all face fluxes must cancel.')
TRUSTED = ['the mesh interface (CellIndex, ForeachCell, ghost exchange) behaves as documented', 'Riemann solver symmetries (property C13)', 'real arithmetic']
P = None


def prim(nd):
    def f(g, k, c):
        if nd == 2 and k == 'w':
            return C(0)
        return g.atom('q.' + k, k in ('rho', 'p'))
    return f


def job(cls, fam, fid, m, conf):
    g = U.run(P, cls, fam, P.fns[fid], m, prim(m.ndim), conf=conf, nofloor=True)
    out = {}
    for i, n in sorted(g.names.items()):
        if n == 'psi':
            continue
        for c in m.cells():
            if n in out and out[n] is not None:
                break
            try:
                r = U.result(g, n + '_next', c)
                if not U.written(g, r):
                    continue
                d = g.sub(g.expand(r), g.expand(U.result(g, n, c)))
                out[n] = None if zero(g, d) else 'cell at %s (size %d): changes by %s' % (c[0][:m.ndim], c[1], g.show(d, 250))
            except Unsup as e:
                out[n] = 'undecided %s' % e
    return out


def meshes(tier):
    q = [('2D, one level', Mesh(2, (4, 4, 1), one), False),
         ('3D, one level', Mesh(3, (3, 3, 3), one), False),
         ('2D, refined corner', Mesh(2, (8, 8, 1), lambda x, y, z: 1 if x >= 4 and y >= 4 else 2), False),
         ('3D, levels differ along x', Mesh(3, (8, 2, 2), lambda x, y, z: 2 if x < 4 else 1), False),
         ('3D, levels differ along y', Mesh(3, (2, 8, 2), lambda x, y, z: 2 if y < 4 else 1), False),
         ('3D, levels differ along z', Mesh(3, (2, 2, 8), lambda x, y, z: 2 if z < 4 else 1), False),
         ('2D, open boundaries', Mesh(2, (4, 4, 1), one, False), True),
         ('3D, open boundaries', Mesh(3, (3, 3, 3), one, False), True)]
    if tier == 'thorough':
        q += [('3D, refined corner', Mesh(3, (8, 8, 8), lambda x, y, z: 1 if x >= 4 and y >= 4 and z >= 4 else 2), False)]
    return q


def run(p, ck):
    global P
    P = p
    tier = os.environ.get('VERIF_TIER', 'quick')
    tasks = []
    ups = U.updates(p)
    k = bctype(p, 'BC_ABSORBING')
    for name, m, op in meshes(tier):
        for cls, fam, f in ups:
            conf = bc(p, k) if op else None
            tasks.append(((name, cls, fam), job, (cls, fam, f['id'], m, conf)))
    tasks.sort(key=lambda t: -len(t[2][3].cells()) * (3 if t[2][3].ndim == 3 else 1))
    report(ck, tasks, par.run(tasks), 'changes a uniform state')
    ck.counts['updates'] = len(ups)


def report(ck, tasks, r, text):
    nd = 0
    for (name, cls, fam), _, a in tasks:
        st, v = r[(name, cls, fam)]
        key = '%s<%s> %s' % (cls, fam, name)
        if st != 'ok':
            nd += 1
            if os.environ.get('DY_LIST'):
                print('undecided', key, v)
            continue
        for n, d in v.items():
            if d is None:
                ck.ok(key + ' ' + n, 'normal forms agree')
            elif d.startswith('undecided'):
                nd += 1
                if os.environ.get('DY_LIST'):
                    print('undecided', key, n, d)
            else:
                ck.bad('%s:%s' % (key, n), ck.prog.fns[a[2]]['file'], '%s::update for %s %s (%s): %s, %s' % (cls, fam, text, name, n, d))
    ck.counts['not decided'] = nd
