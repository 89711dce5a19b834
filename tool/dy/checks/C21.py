"""Totals of the conserved quantities."""
import os
from ..grid import Mesh, C
from ..vg import S, Leaf, Node, Unsup, BadPoint, num, same
from .. import updates as U, par

RULE = ('The value graph of one whole update step (every kernel of update(), all cells of an abstract mesh holding '
        'independent symbolic states; Riemann flux uninterpreted, with the symmetries C13 establishes) is normalised, and '
        'the sum over cells of volume x (new - old) must be the zero normal form for every conserved field.')
EXPLAIN = ('Whole-program value numbering of HydroUpdate_* ::update over abstract meshes: the mesh interface is given its documented '
           'meaning, all other code is inlined from the source; fluxes telescope iff both cells of a face use the same normal form '
           'with weights in the ratio of their volumes.')
TRUSTED = ['the mesh interface (CellIndex, ForeachCell, ghost exchange) behaves as documented', 'Riemann solver symmetries (property C13)', 'real arithmetic']

P = None


def prim2(nd):
    def prim(g, k, c):
        if nd == 2 and k == 'w':
            return C(0)
        return g.atom('q.%s.%s' % (k, c), k in ('rho', 'p'))
    return prim


def zero(g, v):
    """is the diagram the zero function"""
    if isinstance(v, Leaf):
        if not num(v.v).n:
            return True
        return all(abs(q.rat(num(v.v))) < 1e-40 for q in g.points(8))
    return zero(g, v.hi) and zero(g, v.lo)


def total(g, m, n, cells):
    tot = C(0)
    for c in cells:
        r = U.result(g, n + '_next', c)
        if not U.written(g, r):
            continue
        d = g.sub(g.expand(r), g.expand(U.result(g, n, c)))
        tot = g.add(tot, g.mul(C(c[1] ** m.ndim), d))
    return tot


def job(cls, fam, fid, m, fields, conf):
    f = P.fns[fid]
    g = U.run(P, cls, fam, f, m, prim2(m.ndim), conf=conf)
    out = {}
    for i, n in sorted(g.names.items()):
        if fields and n not in fields or n == 'psi':
            continue
        try:
            t = total(g, m, n, m.cells())
            out[n] = None if zero(g, t) else g.show(t, 300)
        except Unsup as e:
            out[n] = 'undecided %s' % e
    return out


def bc(p, k):
    """settings: the given boundary type on every side"""
    return {('mesh', 'boundary_type_%s%s' % (d, e)): C(k) for d in 'xyz' for e in ('min', 'max')}


def bctype(p, name):
    for e in p.enums.values():
        for n, v in e['vals']:
            if n == name:
                return v
    raise Unsup(name)


# meshes: (name, mesh, needs a scheme that is conservative across levels)
def one(x, y, z):
    return 1


def meshes(tier):
    q = [('2D periodic, one level', Mesh(2, (4, 4, 1), one), 'all'),
         ('3D periodic, one level', Mesh(3, (3, 3, 3), one), 'all'),
         ('2D periodic, levels differ along x', Mesh(2, (8, 4, 1), lambda x, y, z: 2 if x < 4 else 1), 'amr'),
         ('2D periodic, levels differ along y', Mesh(2, (4, 8, 1), lambda x, y, z: 2 if y < 4 else 1), 'amr'),
         ('3D periodic, levels differ along x', Mesh(3, (8, 2, 2), lambda x, y, z: 2 if x < 4 else 1), 'amr'),
         ('3D periodic, levels differ along y', Mesh(3, (2, 8, 2), lambda x, y, z: 2 if y < 4 else 1), 'amr'),
         ('3D periodic, levels differ along z', Mesh(3, (2, 2, 8), lambda x, y, z: 2 if z < 4 else 1), 'amr'),
         ('2D reflecting walls, one level', Mesh(2, (4, 4, 1), one, False), 'wall'),
         ('3D reflecting walls, one level', Mesh(3, (3, 3, 3), one, False), 'wall')]
    if tier == 'thorough':
        q += [('3D periodic, levels differ along x, wide', Mesh(3, (8, 4, 4), lambda x, y, z: 2 if x < 4 else 1), 'amr'),
              ('3D periodic, levels differ along z, wide', Mesh(3, (4, 4, 8), lambda x, y, z: 2 if z < 4 else 1), 'amr'),
              ('2D periodic, refined corner', Mesh(2, (8, 8, 1), lambda x, y, z: 1 if x >= 4 and y >= 4 else 2), 'amr')]
    return q


AMR = ('HydroUpdate_euler', 'HydroUpdate_RK2', 'HydroUpdate_hancock_oneneighbor')


def run(p, ck):
    global P
    P = p
    tier = os.environ.get('VERIF_TIER', 'quick')
    tasks = []
    ups = U.updates(p)
    for name, m, kind in meshes(tier):
        for cls, fam, f in ups:
            fields, conf = None, None
            if kind == 'amr' and cls not in AMR:
                continue
            if kind == 'wall':
                if fam != 'HydroState':
                    continue
                k = bctype(p, 'BC_REFLECTING')
                fields, conf = ('rho', 'e_tot'), bc(p, k)
            tasks.append(((name, cls, fam), job, (cls, fam, f['id'], m, fields, conf)))
    tasks.sort(key=lambda t: -len(t[2][3].cells()) * (3 if t[2][3].ndim == 3 else 1))
    r = par.run(tasks)
    nd = 0
    for (name, cls, fam), _, a in tasks:
        st, v = r[(name, cls, fam)]
        key = '%s<%s> %s' % (cls, fam, name)
        if st != 'ok':
            nd += 1
            if os.environ.get('DY_LIST'):
                print('undecided', key, v)
            continue
        for n, d in v.items():
            if d is None:
                ck.ok(key + ' ' + n, 'sum of volume x change of %s is 0' % n)
            elif d.startswith('undecided'):
                nd += 1
            else:
                ck.bad('%s:%s' % (key, n), P.fns[a[2]]['file'],
                       '%s::update for %s does not keep the total of %s (%s): the changes of all cells add up to %s' % (cls, fam, n, name, d))
    ck.counts['not decided'] = nd
    ck.counts['updates'] = len(ups)
