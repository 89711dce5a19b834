"""Octants and ranks: the initial mesh and load balancing."""
import itertools, os, random
from ..amr import Amr, Forest, World, connect, morton, HM
from ..comm import vec
from ..host import Abort, C
from ..vg import S, Leaf, Opq, State, Unsup, TRUE, FALSE
from .. import par
from .C10 import forest, show, ghostmap
from .C37 import report

RULE = ('The constructor of the mesh and loadBalance() must give the ranks consecutive parts of the octants in Z order, together all octants, in even shares (up to '
        'the groups of octants that stay together), with their ghosts, numbering and intervals, and the list of exchanges must bring data of the old octants to '
        'the new ones in order.')
EXPLAIN = ('Value numbering of AMRmesh_hashmap_new::private_init and ::loadBalance on every rank, with collective operations and exchanges of their meaning '
           'between the ranks, for a family of trees and partitions; the outcome is compared with a model of the whole tree. Morton keys are tabulated.')
TRUSTED = ['Kokkos::UnorderedMap, views and parallel patterns behave as documented', 'the exchange functions and the MPI wrapper (decided by C34)']
P = None


def method(n):
    r = [f for f in P.fns.values() if f['n'] == n and f.get('cls') == HM and f.get('body')]
    if len(r) != 1:
        raise Unsup('%d functions %s' % (len(r), n))
    return r[0]


def final(g, st, this, r, size, old_epoch):
    m = g.load(st, this)
    loc, gh = g.octants(m['storage'])
    s = m['storage']
    pd = g.load(st, m['pdata'])
    gm = pd['ghostmap']
    cnt = lambda v: [g.integer(x) for x in g.contents(v)]
    return {'loc': loc, 'gh': gh, 'first': g.integer(m['first_local_oct']), 'total': g.integer(m['total_num_octs']),
            'coarse': [g.integer(s['coarse_grid_size'][d]) for d in range(3)], 'min': g.integer(s['level_min']), 'ndim': g.integer(s['ndim']),
            'mk': cnt(pd['markers']), 'epoch': g.integer(m['pmesh_epoch']) != old_epoch, 'send': (cnt(gm['send_sizes']), cnt(gm['send_iOcts']))}


def judge(F0, res, moved):
    """what is wrong with the state of all ranks; the tree is that of F0"""
    al = [o for x in res for o in x['loc']]
    if al != F0.leaves:
        miss, more = [o for o in F0.leaves if o not in al], [o for o in al if al.count(o) > 1 or o not in F0.at]
        if miss or more:
            return 'octants %s' % ' and '.join(w for w in (miss and 'missing: ' + show(miss), more and 'too many: ' + show(sorted(set(more)))) if w)
        return 'the octants are not in Z order: ' + ' | '.join(show(x['loc']) for x in res)
    cuts = list(itertools.accumulate(len(x['loc']) for x in res))[:-1]
    F = Forest(F0.ndim, F0.leaves, F0.level_min, F0.coarse, F0.periodic, F0.level_max, cuts)
    for r, x in enumerate(res):
        if x['first'] != F.cuts[r]:
            return 'rank %d numbers its first octant %d instead of %d' % (r, x['first'], F.cuts[r])
        if x['total'] != len(al):
            return 'rank %d counts %d octants in all instead of %d' % (r, x['total'], len(al))
        if x['coarse'] != list(F0.coarse) or x['min'] != F0.level_min or x['ndim'] != F0.ndim:
            return 'the coarse grid changes on rank %d' % r
        if x['mk'] != [0] * len(x['loc']):
            return 'rank %d has the markers %s for %d octants' % (r, x['mk'], len(x['loc']))
        if moved and not x['epoch']:
            return 'the octants of rank %d change without a new epoch' % r
        if sorted(x['gh']) != sorted(F.received(r)):
            return 'rank %d has the ghosts %s instead of %s' % (r, show(sorted(x['gh'])), show(sorted(F.received(r))))
        k = 0
        order = []
        for q in range(F.size):
            ss, si = res[q]['send']
            d = sum(ss[:r])
            order += [res[q]['loc'][i] for i in si[d:d + ss[r]]]
        if order != x['gh']:
            return 'the ghosts of rank %d are %s, but exchanges bring it the data of %s' % (r, show(x['gh']), show(order))
    return None


def run_init(ndim, coarse, lmin, per, size, lmax):
    leaves = [(x, y, z, lmin) for x in range(coarse[0]) for y in range(coarse[1]) for z in range(coarse[2])]
    F0 = Forest(ndim, leaves, lmin, coarse, per, lmax, [])
    f = method('private_init')

    def one(r, sync):
        g = Amr(P, r, size)
        connect(g, sync, r, size)
        st, this = g.mesh(ndim, [], [], lmin, coarse, per, len(leaves), 0, lmax)
        _, st2, _ = g.apply(f, [C(ndim), g.arr3([C(x) for x in coarse], 'Kokkos::Array<unsigned int, 3>')], this, st)
        if st2.dead:
            raise Abort('rank %d aborts' % r)
        return final(g, st2, this, r, size, None)
    res = World(size).run(one)
    bad = judge(F0, res, False)
    n = [len(x['loc']) for x in res]
    if not bad and max(n) - min(n) > 1:
        bad = 'the ranks begin with %s octants' % n
    return bad


def run_lb(F, level):
    f = method('loadBalance')

    def one(r, sync):
        g = Amr(P, r, F.size)
        connect(g, sync, r, F.size)
        s = F.ghosts(r)
        at = {o: i for i, o in enumerate(F.local(r))}
        st, this = g.mesh(F.ndim, F.local(r), F.received(r), F.level_min, F.coarse, F.periodic, len(F.leaves), F.cuts[r], F.level_max,
                          [1] * len(F.local(r)), ([len(s[q]) for q in range(F.size)], [at[o] for q in range(F.size) for o in s[q]]))
        m, st2, _ = g.apply(f, [C(level)], this, st)
        if st2.dead:
            raise Abort('rank %d aborts' % r)
        x = final(g, st2, this, r, F.size, 1)
        x['map'] = ([g.integer(v) for v in g.contents(m['send_sizes'])], [g.integer(v) for v in g.contents(m['send_iOcts'])])
        return x
    res = World(F.size).run(one)
    bad = judge(F, res, True)
    if bad:
        return bad
    for r, x in enumerate(res):
        if sum(x['map'][0]) != len(F.local(r)):
            return 'rank %d sends %d of its %d octants' % (r, sum(x['map'][0]), len(F.local(r)))
        order = []
        for q in range(F.size):
            ss, si = res[q]['map']
            d = sum(ss[:r])
            order += [F.local(q)[i] for i in si[d:d + ss[r]]]
        if order != x['loc']:
            return 'the data exchanged for load balancing bring rank %d those of %s, but it holds %s' % (r, show(order), show(x['loc']))
    # shares
    grp = lambda o: F.m(o) >> 3 * level
    cut = 0
    prev = 0
    for r in range(1, F.size):
        prev, cut = cut, cut + len(res[r - 1]['loc'])
        ideal = len(F.leaves) * r // F.size
        if level == 0 and cut != ideal:
            return 'rank %d begins at octant %d of %d instead of %d' % (r, cut, len(F.leaves), ideal)
        split = grp(F.leaves[cut - 1]) == grp(F.leaves[cut])
        if split and grp(F.leaves[prev]) != grp(F.leaves[cut]):
            return 'octants that must stay together (%s, %s) are put on the ranks %d and %d' % (show([F.leaves[cut - 1]]), show([F.leaves[cut]]), r - 1, r)
        if cut > ideal or any(grp(F.leaves[i]) != grp(F.leaves[ideal]) for i in range(cut, ideal)):
            return 'rank %d begins at octant %d instead of the beginning of the group of octant %d' % (r, cut, ideal)
    return None


def scenarios():
    T, N, X = (True,) * 3, (False,) * 3, (True, False, False)
    out = []
    for ndim, coarse, lmin, per, size in (
            (2, (4, 4, 1), 2, T, 1), (2, (4, 4, 1), 2, T, 3), (2, (4, 4, 1), 2, N, 4), (2, (2, 2, 1), 1, X, 2), (2, (8, 8, 1), 3, N, 5),
            (2, (3, 2, 1), 2, T, 4), (2, (5, 6, 1), 3, N, 4), (2, (1, 3, 1), 2, T, 2), (2, (4, 3, 1), 2, N, 5), (2, (6, 4, 1), 3, T, 3),
            (3, (2, 2, 2), 1, T, 3), (3, (2, 2, 2), 1, N, 8), (3, (4, 4, 4), 2, N, 3), (3, (4, 4, 4), 2, X, 5), (3, (3, 1, 2), 2, T, 3), (3, (2, 3, 4), 2, N, 4), (3, (4, 4, 2), 2, T, 3),
            (3, (4, 2, 4), 2, N, 2), (3, (2, 4, 4), 2, N, 3)):
        out.append(('initial grid %dx%dx%d, %s, %d ranks' % (coarse + ('periodic' if per == T else 'not periodic' if per == N else 'periodic along x', size)), run_init, (ndim, coarse, lmin, per, size, lmin + 2)))

    def add(name, ndim, coarse, lmin, ref, per, lmax, cutss, levels):
        for cuts in cutss:
            for lv in levels:
                out.append(('%s, %d ranks cut at %s, %d levels together' % (name, len(cuts) + 1, ','.join(map(str, cuts)), lv), run_lb, (forest(ndim, coarse, lmin, ref, per, lmax, cuts), lv)))
    add('square with small octants', 2, (4, 4, 1), 2, [(1, 1, 0, 2), (2, 1, 0, 2), (0, 0, 0, 2), (3, 3, 0, 2)], T, 3, [[2, 7, 15], [20, 22, 25], [1, 1, 1], [7, 14, 21]], (0, 1, 2))
    add('square, three levels', 2, (2, 2, 1), 1, [(0, 0, 0, 1), (1, 0, 0, 1), (0, 1, 0, 1), (1, 1, 0, 1), (1, 1, 0, 2), (1, 2, 0, 2)], N, 4, [[4, 6, 10], [1, 20], []], (0, 1, 2, 3))
    add('grid 5x3', 2, (5, 3, 1), 3, [(4, 2, 0, 3), (0, 0, 0, 3)], N, 4, [[3, 9], [20]], (0, 1, 2))
    add('cube with small octants', 3, (2, 2, 2), 1, [(1, 1, 1, 1), (0, 1, 0, 1)], T, 3, [[5, 17], [1, 2, 3], [10, 10]], (0, 1, 2))
    add('grid 3x1x4', 3, (3, 1, 4), 2, [(1, 0, 3, 2)], X, 3, [[3, 8, 12], [18]], (0, 1))
    return out


def job(name, how, a):
    f = None
    try:
        f = method('private_init' if how is run_init else 'loadBalance')
        return [(name, how(*a), f, None)]
    except Unsup as e:
        return [(name, None, f, str(e))]
    except Abort as e:
        return [(name, str(e), f, None)]


# ---- Morton keys
def keys():
    out = []
    for n in (2, 3):
        B = 32 if n == 2 else 21
        co = [tuple(1 << b if i == d else 0 for i in range(n)) for d in range(n) for b in range(B)]
        R = random.Random(5)
        co += [tuple(R.randrange(2 ** B) for _ in range(n)) for _ in range(20)] + [(0,) * n, (2 ** B - 1,) * n]
        for f in P.fns.values():
            if f['n'] == 'compute_morton_key' and f.get('body'):
                t = [q['t'] for q in f['params']]
                if len(t) == n and n > 1 or len(t) == 1 and 'index_t<%d>' % n in t[0]:
                    out.append((f, n, co, len(t)))
    return out


def job_key(f, n, co, k):
    what = 'Morton keys of %d coordinates (%s): %d keys' % (n, 'index_t' if k == 1 else 'numbers', len(co))
    try:
        for c in co:
            g = Amr(P, 0, 1)
            g.on['morton'] = False
            a = [C(x) for x in c]
            if k == 1:
                v = S()
                v.t = 'dyablo::index_t<%d>' % n
                v['data'] = S()
                v['data'].t = 'unsigned int[%d]' % n
                for i, x in enumerate(a):
                    v['data'][i] = x
                a = [v]
            r, _, _ = g.apply(f, a, None, State())
            if g.integer(r) != morton(c) & (2 ** 64 - 1):
                return [(what, 'the key of %s is %s instead of %s' % (c, g.integer(r), morton(c)), f, None)]
    except Unsup as e:
        return [(what, None, f, str(e))]
    except Abort as e:
        return [(what, str(e), f, None)]
    return [(what, None, f, None)]


def job_extract(f, n, co, d):
    what = 'coordinate %d of Morton keys of %d coordinates: %d keys' % (d, n, len(co))
    try:
        for c in co:
            g = Amr(P, 0, 1)
            r, _, _ = g.apply(f, [C(n), C(morton(c))], None, State())
            if g.integer(r) != c[d]:
                return [(what, 'coordinate %d of the key of %s is %s' % (d, c, g.integer(r)), f, None)]
    except Unsup as e:
        return [(what, None, f, str(e))]
    except Abort as e:
        return [(what, str(e), f, None)]
    return [(what, None, f, None)]


def run(p, ck):
    global P
    P = p
    jobs = [(s[0], job, s) for s in scenarios()]
    ks = keys()
    for f, n, co, k in ks:
        jobs.append(('k%d/%d' % (n, k), job_key, (f, n, co, k)))
    for n in (2, 3):
        co = next(c for _, m, c, _ in ks if m == n)
        for d in range(n):
            f = [f for i, f in p.fns.items() if f['n'] == 'morton_extract_coord' and f.get('body') and 'morton_extract_coord<%d>' % d in i]
            if f:
                jobs.append(('x%d/%d' % (n, d), job_extract, (f[0], n, co, d)))
    report(ck, jobs, par.run(jobs))
