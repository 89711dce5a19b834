"""Questions to the octree."""
import itertools, os, random
from fractions import Fraction as Fr
from ..amr import Amr, Forest, World, connect, HM
from ..comm import vec
from ..host import Abort, C
from ..vg import S, LV, Leaf, Opq, State, Unsup, TRUE, FALSE, num
from .. import par
from .C10 import forest, show, ghostmap
from .C37 import report

RULE = ('LightOctree must answer for the tree it was built from: the neighbours of every octant in every direction (same size, coarser, all smaller ones that touch), '
        'the boundaries of the domain, the octant at a position, the rank that owns a position, and the position, size and level of every octant and ghost.')
EXPLAIN = ('Value numbering of the constructor of LightOctree_hashmap and of its member functions, with the octants and ghosts of every rank of a family of trees; '
           'the answers are compared with a model of the whole tree.')
TRUSTED = ['Kokkos::UnorderedMap, views and parallel patterns behave as documented']
P = None
LT = 'dyablo::LightOctree_hashmap'
OI = 'dyablo::LightOctree_base::OctantIndex'


def member(n):
    r = [f for f in P.fns.values() if f['n'] == n and f.get('cls') == LT and f.get('body')]
    if len(r) != 1:
        raise Unsup('%d functions %s' % (len(r), n))
    return r[0]


def ctor():
    r = [f for k, f in P.fns.items() if f['n'] == 'LightOctree_hashmap' and f.get('cls') == LT and f.get('body') and '(const %s *' % HM in k]
    if len(r) != 1:
        raise Unsup('%d constructors' % len(r))
    return r[0]


def octidx(i, ghost):
    x = S()
    x.t = OI
    x['iOct'], x['isGhost'] = C(i), TRUE if ghost else FALSE
    return x


class Tree:
    def __init__(self, F, r, sync):
        g = self.g = Amr(P, r, F.size)
        connect(g, sync, r, F.size)
        self.F, self.r = F, r
        self.loc, self.gh = F.local(r), F.received(r)
        s = F.ghosts(r)
        at = {o: i for i, o in enumerate(self.loc)}
        st, this = g.mesh(F.ndim, self.loc, self.gh, F.level_min, F.coarse, F.periodic, len(F.leaves), F.cuts[r], F.level_max,
                          None, ([len(s[q]) for q in range(F.size)], [at[o] for q in range(F.size) for o in s[q]]))
        v = S()
        v.t = LT
        c = g.cell('lmesh')
        st.mem[c] = v
        self.this = LV(c, (), LT)
        _, st, _ = g.apply(ctor(), [this, C(F.level_min), C(F.level_max)], self.this, st)
        if st.dead:
            raise Abort('the constructor aborts')
        self.st = st

    def ask(self, fn, *a):
        v, st, _ = self.g.apply(member(fn), list(a), self.this, self.st)
        if st.dead:
            raise Abort('%s aborts' % fn)
        return v

    def off(self, o):
        return self.g.arr3([C(x) for x in o], 'Kokkos::Array<signed char, 3>')

    def pos(self, x):
        return self.g.arr3([C(v) for v in x], 'Kokkos::Array<double, 3>')

    def at(self, v):
        """the octant an OctantIndex stands for"""
        i = self.g.integer(v['iOct'])
        l = self.gh if v['isGhost'].v is True else self.loc
        if not 0 <= i < len(l):
            raise Abort('%s %d is named, there are %d' % ('ghost' if l is self.gh else 'octant', i, len(l)))
        return l[i]

    def name(self, o):
        return octidx(self.loc.index(o), False) if o in self.loc else octidx(self.gh.index(o), True)

    def vec3(self, v):
        out = []
        for d in range(3):
            c = num(v[d].v).const()
            if c is None:
                raise Unsup('position')
            out.append(c)
        return out


def corner(F, o):
    return [Fr(o[d], F.n(d, o[3])) if d < F.ndim or F.ndim == 3 else Fr(0) for d in range(3)]


def size(F, o):
    return [Fr(1, F.n(d, o[3])) for d in range(3)]


def outside(F, o, off):
    return any(not F.periodic[d] and not 0 <= o[d] + off[d] < F.n(d, o[3]) for d in range(F.ndim))


def neighbours(T):
    F = T.F
    offs = [o + (0,) * (3 - F.ndim) for o in itertools.product((-1, 0, 1), repeat=F.ndim) if any(o)]
    n = 0
    for o in T.loc:
        for off in offs:
            l = T.ask('findNeighbors', T.name(o), T.off(off))
            k = T.g.integer(l['m_size'])
            if not 0 <= k <= 4:
                return n, '%d neighbours are listed' % k
            got = [T.at(l['m_neighbors'][i]) for i in range(k)]
            want = F.at_offset(o, off)
            if sorted(got) != sorted(want):
                return n, 'rank %d finds %s beside the octant %s in direction %s instead of %s' % (T.r, show(got) or 'nothing', show([o]), off, show(want) or 'nothing')
            b = T.ask('isBoundary', T.name(o), T.off(off))
            if not isinstance(b, Leaf) or not isinstance(b.v, bool):
                raise Unsup('isBoundary')
            if b.v != outside(F, o, off):
                return n, 'the direction %s of the octant %s is%s taken to leave the domain' % (off, show([o]), '' if b.v else ' not')
            n += 1
    return n, None


def metric(T):
    F = T.F
    n = 0
    for o in T.loc + T.gh:
        i = T.name(o)
        c, s, m = T.vec3(T.ask('getCorner', i)), T.vec3(T.ask('getSize', i)), T.vec3(T.ask('getCenter', i))
        for d in range(F.ndim):
            if c[d] != corner(F, o)[d] or s[d] != size(F, o)[d] or m[d] != c[d] + s[d] / 2:
                return n, 'the octant %s has corner %s, size %s and centre %s along %s' % (show([o]), c[d], s[d], m[d], 'xyz'[d])
        if F.ndim == 2 and (c[2] != 0 or m[2] != 0):
            return n, 'an octant of a two-dimensional tree lies at z = %s, %s' % (c[2], m[2])
        if T.g.integer(T.ask('getLevel', i)) != o[3]:
            return n, 'the octant %s has level %s' % (show([o]), T.g.integer(T.ask('getLevel', i)))
        n += 1
    for what, want in (('getNdim', F.ndim), ('getNumOctants', len(T.loc)), ('getNumGhosts', len(T.gh))):
        if T.g.integer(T.ask(what)) != want:
            return n, '%s gives %s instead of %s' % (what, T.g.integer(T.ask(what)), want)
        n += 1
    return n, None


def points(F, o, k):
    """positions inside of an octant: near its corners and its centre"""
    c, s = corner(F, o), size(F, o)
    e = Fr(1, 1000)
    tests = [(Fr(1, 2),) * 3] + [t for t in itertools.product((e, 1 - e), repeat=F.ndim)]
    for t in tests[:1] + tests[1 + k % 2::2]:
        yield [c[d] + s[d] * t[d] if d < F.ndim else Fr(0) for d in range(3)]


def positions(T):
    F = T.F
    n = 0
    for k, o in enumerate(T.loc + T.gh):
        for x in points(F, o, k):
            got = T.at(T.ask('getiOctFromPos', T.pos(x)))
            if got != o:
                return n, 'rank %d finds the octant %s at (%s), which lies in %s' % (T.r, show([got]), ', '.join('%.4f' % v for v in x), show([o]))
            n += 1
        got = T.at(T.ask('getiOctFromCoordinates', *[C(v) for v in o])) if o[3] < 16 else o
        if got != o:
            return n, 'rank %d finds the octant %s at the coordinates of %s' % (T.r, show([got]), show([o]))
    return n, None


def owners(T):
    F = T.F
    n = 0
    for k, o in enumerate(F.leaves):
        for x in points(F, o, k):
            got = T.g.integer(T.ask('getDomainFromPos', T.pos(x)))
            if got != F.owner(k):
                return n, 'rank %d takes the position (%s) to belong to rank %d, but it lies in the octant %s of rank %d' % (T.r, ', '.join('%.4f' % v for v in x), got, show([o]), F.owner(k))
            n += 1
    return n, None


def uptodate(F, r, sync, stale):
    """getLightOctree() on a mesh that has changed, or not, since the octree was built"""
    g = Amr(P, r, F.size)
    connect(g, sync, r, F.size)
    st, this = g.mesh(F.ndim, F.local(r), F.received(r), F.level_min, F.coarse, F.periodic, len(F.leaves), F.cuts[r], F.level_max)
    cls = 'dyablo::AMRmesh_impl<%s>' % HM
    fs = [f for k, f in P.fns.items() if f['n'] == 'getLightOctree' and k.startswith(cls + '::') and f.get('body')]
    if len(fs) != 1:
        raise Unsup('getLightOctree')
    m = S(st.mem[this.cell])
    m.t = cls
    m['level_min'], m['level_max'] = C(F.level_min), C(F.level_max)
    old = S()
    old.t = LT
    old['storage'] = g.storage(F.ndim, F.local(r), F.received(r), F.level_min, F.coarse)
    old['storage']['old'] = TRUE
    h = ('new',) + tuple(g.cell('old'))
    st.mem[h] = old
    m['lmesh'] = LV(h, (), LT)
    m['pmesh_epoch'], m['lmesh_epoch'] = C(4), C(3 if stale else 4)
    st.mem[this.cell] = m
    v, st, _ = g.apply(fs[0], [], LV(this.cell, (), cls), st)
    if st.dead:
        raise Abort('getLightOctree aborts')
    m = st.mem[this.cell]
    now = g.load(st, m['lmesh'])
    again = 'old' in now['storage']
    if g.integer(m['lmesh_epoch']) != g.integer(m['pmesh_epoch']):
        return 1, 'the octree given out is not marked as that of the present mesh'
    if again == stale:
        return 1, 'the octree is %s when the mesh has %schanged' % ('not built again' if again else 'built again', '' if stale else 'not ')
    if stale:
        if [g.integer(now['min_level']), g.integer(now['max_level'])] != [F.level_min, F.level_max]:
            return 1, 'the octree is built for the levels %s, %s instead of %s, %s' % (g.integer(now['min_level']), g.integer(now['max_level']), F.level_min, F.level_max)
        loc, gh = g.octants(now['storage'])
        if loc != F.local(r) or gh != F.received(r):
            return 1, 'the octree is built from other octants'
    return 1, None


def scenarios():
    T, N, X = (True,) * 3, (False,) * 3, (True, False, False)
    Y, Z = (False, True, False), (False, False, True)
    out = []

    def add(name, ndim, coarse, lmin, ref, per, lmax, cutss):
        for cuts in cutss:
            out.append(('%s, %s, ranks cut at %s' % (name, 'periodic' if per == T else 'not periodic' if per == N else 'periodic along ' + '/'.join('xyz'[d] for d in range(3) if per[d]),
                                                     ','.join(map(str, cuts)) or 'none'), forest(ndim, coarse, lmin, ref, per, lmax, cuts)))
    for per in (T, N, X, Y):
        add('square with small octants', 2, (4, 4, 1), 2, [(1, 1, 0, 2), (2, 1, 0, 2), (0, 0, 0, 2), (3, 3, 0, 2)], per, 4, [[2, 7, 15]])
    add('square, three levels', 2, (2, 2, 1), 1, [(0, 0, 0, 1), (1, 0, 0, 1), (0, 1, 0, 1), (1, 1, 0, 1), (1, 1, 0, 2), (1, 2, 0, 2)], N, 3, [[4, 6, 10], [6, 6, 12]])
    add('one octant split', 2, (1, 1, 1), 0, [(0, 0, 0, 0)], N, 2, [[1, 2, 3], [4, 4], []])
    add('two octants in a periodic domain', 2, (2, 1, 1), 1, [(1, 0, 0, 1)], T, 3, [[1], []])
    add('grid 5x3', 2, (5, 3, 1), 3, [(4, 2, 0, 3), (0, 0, 0, 3)], X, 5, [[3, 9, 17]])
    add('grid 3x6', 2, (3, 6, 1), 3, [(2, 5, 0, 3)], Y, 4, [[5, 11]])
    add('cube', 3, (2, 2, 2), 1, [(1, 1, 1, 1)], T, 3, [[5, 10]])
    add('cube', 3, (2, 2, 2), 1, [(1, 1, 1, 1), (0, 1, 0, 1)], N, 3, [[4, 4, 11]])
    add('grid 3x1x4', 3, (3, 1, 4), 2, [(1, 0, 3, 2)], Z, 4, [[3, 8, 12]])
    add('grid 1x3x2', 3, (1, 3, 2), 2, [(0, 2, 1, 2)], Y, 3, [[4]])
    add('grid 2x3x1', 3, (2, 3, 1), 2, [(1, 0, 0, 2)], X, 3, [[2, 9]])
    return out


def job(name, F, what):
    out = []
    qs = {'neighbours': (neighbours, 'findNeighbors'), 'octants': (metric, 'getCorner'), 'positions': (positions, 'getiOctFromPos'), 'owners': (owners, 'getDomainFromPos'), 'stale': (None, 'findNeighbors'), 'fresh': (None, 'findNeighbors')}
    q, anchor = qs[what]
    f = None
    key = '%s: %s' % (what, name)
    try:
        f = member(anchor)
        if what in ('stale', 'fresh'):
            res = World(F.size).run(lambda r, sync: uptodate(F, r, sync, what == 'stale'))
        else:
            res = World(F.size).run(lambda r, sync: q(Tree(F, r, sync)))
        bad = next((b for _, b in res if b), None)
        return [('%s (%d questions)' % (key, sum(n for n, _ in res)) if not bad else key, bad, f, None)]
    except Unsup as e:
        return [(key, None, f, str(e))]
    except Abort as e:
        return [(key, str(e), f, None)]


def run(p, ck):
    global P
    P = p
    jobs = []
    for w, F in scenarios():
        for q in ('neighbours', 'octants', 'positions', 'owners'):
            jobs.append(('%s %s' % (w, q), job, (w, F, q)))
    for w, F in scenarios()[:1]:
        for q in ('stale', 'fresh'):
            jobs.append(('%s %s' % (w, q), job, (w, F, q)))
    report(ck, jobs, par.run(jobs))
