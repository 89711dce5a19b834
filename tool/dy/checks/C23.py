"""No direction is special: exchanging axes or mirroring an axis commutes with the update."""
import os
from ..grid import Mesh, C
from ..vg import Leaf, Unsup, num
from .. import updates as U, par
from .C21 import one, bc, bctype, zero
from .C22 import report

RULE = ('The value graphs of update() on an abstract mesh and on its image under an exchange of two axes (or the reversal of one), '
        'with the input states transformed alike, must have the same normal forms up to that transformation.')
EXPLAIN = ('Whole-program value numbering of HydroUpdate_*::update on pairs of abstract meshes related by a symmetry; all cells carry '
           'independent symbolic states and the cell sizes hx, hy, hz are independent symbols.')
TRUSTED = ['the mesh interface (CellIndex, ForeachCell, ghost exchange) behaves as documented', 'Riemann solver symmetries (property C13)', 'real arithmetic']
P = None
VEC = {'u': 0, 'v': 1, 'w': 2, 'Bx': 0, 'By': 1, 'Bz': 2, 'rho_vx': 0, 'rho_vy': 1, 'rho_vz': 2}
VECS = (('u', 'v', 'w'), ('Bx', 'By', 'Bz'), ('rho_vx', 'rho_vy', 'rho_vz'))


class Sym:
    """perm: axis d of the image is axis perm[d] of the original; flip: reversed axes (of the image)"""

    def __init__(self, name, perm, flip=(), h=None):
        self.name, self.perm, self.flip = name, perm, flip
        self.h = h or ['xyz'[perm[d]] for d in range(3)]

    def comp(self, k):
        """component k of the image: (component of the original, sign)"""
        for v in VECS:
            if k in v:
                d = v.index(k)
                return v[self.perm[d]], (-1 if d in self.flip else 1)
        return k, 1

    def pos(self, pos, s, ext):
        """position in the original of the image cell pos"""
        q = [0, 0, 0]
        for d in range(3):
            v = pos[d]
            if d in self.flip:
                v = ext[d] - v - s
            q[self.perm[d]] = v
        return tuple(q)

    def back(self, pos, s, ext):
        """image position of an original cell (ext: image extents)"""
        q = [0, 0, 0]
        for d in range(3):
            v = pos[self.perm[d]]
            if d in self.flip:
                v = ext[d] - v - s
            q[d] = v
        return tuple(q)

    def mesh(self, m):
        ext = tuple(m.ext[self.perm[d]] for d in range(3))

        def size(x, y, z):
            return m.size(*self.pos((x, y, z), 1, ext))
        return Mesh(m.ndim, ext, size, m.periodic)


def base_prim(nd):
    def f(g, k, c):
        if nd == 2 and k == 'w':
            return C(0)
        return g.atom('q.%s.%s' % (k, c), k in ('rho', 'p'))
    return f


def job(cls, fam, fid, m, syms, cells, conf, noexp=True, only=None):
    f = P.fns[fid]
    pr = base_prim(m.ndim)
    g = U.run(P, cls, fam, f, m, pr, conf=conf, noexp=noexp)
    want = {}
    for i, n in sorted(g.names.items()):
        for c in cells:
            want[n, c] = U.result(g, n + '_next', c)
    out = {}
    for s in syms:
        m2 = s.mesh(m)

        def prim(h, k, c):
            k0, sg = s.comp(k)
            v = pr(h, k0, (s.pos(c[0], c[1], m2.ext), c[1]))
            return h.neg(v) if sg < 0 else v
        h = U.run(P, cls, fam, f, m2, prim, conf=conf, share=g, h=s.h, noexp=noexp)
        for i, n in sorted(h.names.items()):
            if only and n not in only:
                continue
            n0, sg = s.comp(n)
            for c in cells:
                key = '%s under %s' % (n, s.name)
                if out.get(key) is not None:
                    continue
                try:
                    r = U.result(h, n + '_next', (s.back(c[0], c[1], m2.ext), c[1]))
                    w = want[n0, c]
                    if not U.written(h, r) or not U.written(g, w):
                        continue
                    if sg < 0:
                        r = h.neg(r)
                    if h.equal(r, w) or zero(h, h.sub(h.expand(r), h.expand(w))):
                        out[key] = None
                    else:
                        out[key] = 'cell at %s (size %d): %s is not the image of %s' % (c[0][:m.ndim], c[1], h.show(r, 150), h.show(w, 150))
                except Unsup as e:
                    out[key] = 'undecided %s' % e
    return out


S2 = [Sym('exchange of x and y', (1, 0, 2)), Sym('reversal of x', (0, 1, 2), (0,)), Sym('reversal of y', (0, 1, 2), (1,)), Sym('another extent along the unused axis', (0, 1, 2), (), ['x', 'y', 'other'])]
S3 = [Sym("exchange of x and y", (1, 0, 2)), Sym("exchange of x and z", (2, 1, 0)), Sym("reversal of x", (0, 1, 2), (0,)), Sym("reversal of z", (0, 1, 2), (2,))]


def meshes(tier):
    q = [('2D, one level', Mesh(2, (5, 5, 1), one), S2, [((2, 2, 0), 1)]),
         ('3D, one level', Mesh(3, (5, 5, 5), one), S3[:3] if tier != 'thorough' else S3, [((2, 2, 2), 1)]),
         ('2D, levels differ', Mesh(2, (8, 4, 1), lambda x, y, z: 2 if x < 4 else 1), S2, [((0, 0, 0), 2), ((2, 0, 0), 2), ((4, 1, 0), 1), ((7, 2, 0), 1)]),
         ]
    return q


def run(p, ck):
    global P
    P = p
    tier = os.environ.get('VERIF_TIER', 'quick')
    tasks = []
    ups = U.updates(p)
    for name, m, syms, cells in meshes(tier):
        for cls, fam, f in ups:
            tasks.append(((name, cls, fam), job, (cls, fam, f['id'], m, syms, cells, None)))
    for cls, fam, f in ups:
        if fam == 'GLMMHDState':
            tasks.append((('2D, one level, with damping of psi', cls, fam), job, (cls, fam, f['id'], Mesh(2, (5, 5, 1), one), S2[:1], [((2, 2, 0), 1)], None, False, ('psi',))))
    tasks.sort(key=lambda t: -len(t[2][3].cells()) * (3 if t[2][3].ndim == 3 else 1))
    report(ck, tasks, par.run(tasks), 'treats a direction differently')
    ck.counts['updates'] = len(ups)
