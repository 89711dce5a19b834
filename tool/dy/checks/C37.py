"""Ghost octants of a rank."""
import itertools, os, random
from ..amr import Amr, Forest, STO
from ..comm import vec
from ..host import Abort, C
from ..vg import S, Leaf, Opq, State, Unsup, TRUE, FALSE
from .. import par
from .C10 import forest, show

RULE = ('discover_ghosts() must list, for every other rank, exactly the octants of this rank that touch one of that rank (faces, edges, corners, periodic '
        'images), each once, with masks that name a face on the side of every octant it touches.')
EXPLAIN = ('Value numbering of the function discover_ghosts with the octants of one rank of a tree, the intervals of all ranks, hash maps that hold as many '
           'entries as asked for or more; the lists are compared with a model of the whole tree.')
TRUSTED = ['Kokkos::UnorderedMap, views and parallel patterns behave as documented', 'Morton keys (decided by C36)']
P = None


def fn():
    r = [f for k, f in P.fns.items() if f['n'] == 'discover_ghosts' and f.get('body') and 'discover_ghosts(const dyablo::LightOctree_storage<' in k]
    if len(r) != 1:
        raise Unsup('%d functions discover_ghosts' % len(r))
    return r[0]


def faces(g):
    e = next((e for e in P.enums.values() if any((q[0] if isinstance(q, list) else q['n']) == 'XL' for q in e['vals']) and 'GhostMap' in e.get('id', e.get('n', ''))), None)
    e = e or next(e for e in P.enums.values() if any((q[0] if isinstance(q, list) else q['n']) == 'XL' for q in e['vals']))
    d = {(q[0] if isinstance(q, list) else q['n']): int(q[1] if isinstance(q, list) else q['v']) for q in e['vals']}
    return [(d[a + 'L'], d[a + 'R']) for a in 'XYZ']


def masks(F, r):
    """{(octant, rank): list of sets of faces, one of each must be named}"""
    out = {}
    for o in F.local(r):
        for off, l in F.neighbours(o).items():
            for q in l:
                s = F.owner(F.at[q])
                if s != r:
                    out.setdefault((o, s), []).append({(d, off[d]) for d in range(3) if off[d]})
    return out


def intervals(F, how, lm):
    sh = lambda o: F.m(o) >> 3 * (F.level_max - lm)
    iv = []
    for q in range(F.size):
        l = F.local(q)
        iv.append(sh(l[0]) if l else None)
    top = F.m(max(F.leaves, key=F.m)) + 8 ** (F.level_max - max(F.leaves, key=F.m)[3])
    iv.append(2 ** 64 - 1 if how != 'init' else top >> 3 * (F.level_max - lm))
    for q in range(F.size - 1, -1, -1):
        if iv[q] is None:
            iv[q] = iv[q + 1]
    iv[0] = 0
    if how == 'wide':
        # intervals may start in the gap before their first octant
        for q in range(1, F.size):
            l = F.leaves[F.cuts[q] - 1]
            end = sh(l) + 8 ** (lm - l[3])
            iv[q] = max(end, iv[q - 1])
    return iv


def run_rank(F, r, how, exact, lm, one=False):
    g = Amr(P, r, F.size)
    g.exact = exact
    g.onethread = one
    st = State()
    sto = g.storage(F.ndim, F.local(r), [], F.level_min, F.coarse)
    per = g.arr3([TRUE if x else FALSE for x in F.periodic], 'Kokkos::Array<bool, 3>')
    iv = intervals(F, how, lm)
    m, st2, _ = g.apply(fn(), [sto, vec(C(x) for x in iv), C(lm), per, g.mpicomm()], None, st)
    if st2.dead:
        raise Abort('the function aborts')
    if not isinstance(m, S):
        raise Unsup('no map of ghosts')
    cnt = lambda v: [g.integer(x) for x in g.contents(m[v])]
    size, octs, mk = cnt('send_sizes'), cnt('send_iOcts'), cnt('send_cell_masks')
    loc = F.local(r)
    want = F.ghosts(r)
    if len(size) != F.size:
        return 'the list of numbers of ghosts has %d entries for %d ranks' % (len(size), F.size)
    if sum(size) != len(octs) or len(mk) != len(octs):
        return '%d octants and %d masks are listed, but the numbers add up to %d' % (len(octs), len(mk), sum(size))
    need = masks(F, r)
    fc = faces(g)
    k = 0
    for s in range(F.size):
        part = octs[k:k + size[s]]
        if any(not 0 <= x < len(loc) for x in part):
            return 'an octant that does not exist is sent to rank %d' % s
        got = [loc[x] for x in part]
        if len(set(got)) != len(got):
            return 'rank %d sends an octant twice to rank %d: %s' % (r, s, show(got))
        miss, more = set(want[s]) - set(got), set(got) - set(want[s])
        if miss:
            return 'rank %d does not send %s to rank %d, which holds %s' % (r, show(sorted(miss)), s, show(sorted({q for o in miss for l in F.neighbours(o).values() for q in l if F.owner(F.at[q]) == s})))
        if more:
            return 'rank %d sends %s to rank %d, which holds nothing beside it' % (r, show(sorted(more)), s)
        for o, x in zip(got, mk[k:k + size[s]]):
            have = {(d, (-1, 1)[e]) for d in range(3) for e in (0, 1) if x >> fc[d][e] & 1}
            for n in need[(o, s)]:
                if not n & have:
                    return 'the octant %s of rank %d touches rank %d on the side %s, but its mask names only %s' % (show([o]), r, s, sorted(n), sorted(have))
        k += size[s]
    return None


def scenarios():
    T, N = (True,) * 3, (False,) * 3
    X, Z = (True, False, False), (False, False, True)
    out = []

    def add(name, ndim, coarse, lmin, ref, per, lmax, cutss, hows=('exact',), exact=(True,)):
        for cuts in cutss:
            for how in hows:
                for ex in exact:
                    F = forest(ndim, coarse, lmin, ref, per, lmax, cuts)
                    lm = lmin if how == 'init' else lmax
                    out.append(('%s, %s, %d ranks cut at %s, %s intervals%s' % (
                        name, 'periodic' if all(per[:ndim]) else 'not periodic' if not any(per[:ndim]) else 'periodic along %s' % '/'.join('xyz'[d] for d in range(3) if per[d]),
                        F.size, ','.join(map(str, cuts)), how, '' if ex else ', large hash map'), F, how, ex, lm))
    # two dimensions
    for per in (T, N, X, (False, True, False)):
        add('square 4x4', 2, (4, 4, 1), 2, [], per, 2, [[4, 8, 12], [3, 9]], ('init',))
    add('grid 3x2', 2, (3, 2, 1), 2, [], T, 4, [[1, 4], [2, 2, 3]], ('init', 'exact'))
    add('grid 5x3', 2, (5, 3, 1), 3, [], N, 3, [[4, 9]], ('init',))
    ref = [(1, 1, 0, 2), (2, 1, 0, 2), (2, 3, 0, 3), (0, 0, 0, 2)]
    for per in (T, N):
        add('square with small octants', 2, (4, 4, 1), 2, [(1, 1, 0, 2), (2, 1, 0, 2), (0, 0, 0, 2)], per, 4, [[2, 7, 15], [10]], ('exact', 'wide'), (True, False))
    add('square, three levels', 2, (2, 2, 1), 1, [(0, 0, 0, 1), (1, 0, 0, 1), (0, 1, 0, 1), (1, 1, 0, 1), (1, 1, 0, 2)], N, 3, [[4, 6, 10], [1, 5]], ('exact',))
    add('one octant split', 2, (1, 1, 1), 0, [(0, 0, 0, 0)], T, 3, [[1, 2, 3], [0, 3], [4]], ('exact',))
    # three dimensions
    add('cube 2x2x2', 3, (2, 2, 2), 1, [], T, 3, [[4], [1, 6]], ('init', 'exact'))
    for per in (N, X, Z, T):
        add('cube with small octants', 3, (2, 2, 2), 1, [(1, 1, 1, 1), (0, 1, 0, 1)], per, 3, [[5, 17]], ('exact',))
    add('cube with one split corner', 3, (2, 2, 2), 1, [(1, 0, 0, 1)], N, 2, [[8], [3, 8], [8, 9]], ('exact',))
    add('cube 3x3x3', 3, (3, 3, 3), 2, [], N, 2, [[9, 18]], ('init',))
    add('grid 3x1x4', 3, (3, 1, 4), 2, [(1, 0, 3, 2)], Z, 4, [[3, 8, 12]], ('exact', 'wide'))
    add('grid 3x1x4', 3, (3, 1, 4), 2, [(2, 0, 0, 2)], (False, True, False), 3, [[3, 8, 12]], ('exact',))
    add('grid 4x2x1', 3, (4, 2, 1), 2, [(0, 1, 0, 2)], (True, False, True), 3, [[2, 9]], ('exact',))
    return out


def job(name, F, how, ex, lm):
    out = []
    try:
        f = fn()
    except Unsup as x:
        return [(name, None, None, str(x))]
    for r in range(F.size):
        try:
            x = run_rank(F, r, how, ex, lm) or run_rank(F, r, how, ex, lm, True)
        except Unsup as e:
            out.append(('%s, rank %d' % (name, r), None, f, str(e)))
            continue
        except Abort as e:
            x = 'rank %d: %s' % (r, e)
        out.append(('%s, rank %d' % (name, r), x, f, None))
    return out


def run(p, ck):
    global P
    P = p
    jobs = [(s[0], job, s) for s in scenarios()]
    r = par.run(jobs)
    report(ck, jobs, r)


def report(ck, jobs, r):
    nd, why = 0, {}
    for key, _, _ in jobs:
        kind, v = r[key]
        if kind != 'ok':
            nd += 1
            why[str(v)] = why.get(str(v), 0) + 1
            continue
        for what, bad, f, und in v:
            if und:
                nd += 1
                why[und] = why.get(und, 0) + 1
                continue
            ck.count('scenarios')
            if bad:
                ck.bad(what, '%s:%s' % (f['file'], f['line']), '%s: %s' % (what, bad))
            else:
                ck.ok(what)
    if os.environ.get('DY_LIST'):
        print(why)
    ck.counts['not decided'] = nd
