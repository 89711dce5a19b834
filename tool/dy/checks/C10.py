"""Adaptation of the octree."""
import itertools, os, random
from ..amr import Amr, Forest, HM, STO, morton
from ..comm import vec
from ..host import Abort, C
from ..vg import S, LV, Leaf, Opq, State, Unsup, TRUE, FALSE
from .. import par

RULE = ('adapt() must give the coarsest tree in which every octant marked for refinement is split, neighbouring octants (faces, edges, corners, periodic '
        'images) differ by at most one level, and octants are merged only when all siblings allow it; each rank must end with its part of that tree in Z '
        'order, its ghosts, the right global numbering and intervals, and empty markers.')
EXPLAIN = ('Value numbering of AMRmesh_hashmap_new::adapt with the octant tables of one rank at a time; what other ranks contribute follows from a model of the '
           'whole tree. The rule for one octant is tabulated for every direction, level difference and pair of markers; the loop, the exchange and the '
           'construction of the new tree for a family of trees, partitions and markers.')
TRUSTED = ['Kokkos::UnorderedMap, views and parallel patterns behave as documented', 'the exchange functions (decided by C34)', 'discover_ghosts is given its meaning (decided by C37)']
P = None


class Bad(Exception):
    pass


def fn():
    r = [f for f in P.fns.values() if f['n'] == 'adapt' and f.get('cls') == HM and f.get('body')]
    if len(r) != 1:
        raise Unsup('%d functions adapt' % len(r))
    return r[0]


# ---- model
def demand(F, mk, i, gh=None):
    """marker of leaf i after looking once at its neighbours"""
    o = F.leaves[i]
    m = mk[i]
    if m == -1:
        for s in siblings(F, o):
            j = F.at.get(s)
            if j is None or mk[j] > -1:
                m = 0
    for l in F.neighbours(o).values():
        for q in l:
            j = F.at[q]
            m = max(m, q[3] - o[3] + mk[j] - 1)
    return m


def siblings(F, o):
    b = tuple(x // 2 * 2 for x in o[:3])
    for s in itertools.product(*[(0, 1) if d < F.ndim else (0,) for d in range(3)]):
        q = tuple(b[d] + s[d] if d < F.ndim else o[d] for d in range(3)) + (o[3],)
        if q != o:
            yield q


def rounds(F, mk):
    """markers after each exchange, and who changed them"""
    seq, ch = [list(mk)], []
    while True:
        cur = list(seq[-1])
        new = list(cur)
        flags = []
        for r in range(F.size):
            loc = list(cur)
            any_ = False
            while True:
                up = {i: demand(F, loc, i) for i in range(F.cuts[r], F.cuts[r + 1])}
                up = {i: v for i, v in up.items() if v != loc[i]}
                if not up:
                    break
                any_ = True
                for i, v in up.items():
                    loc[i] = v
            for i in range(F.cuts[r], F.cuts[r + 1]):
                new[i] = loc[i]
            flags.append(any_)
        ch.append(flags)
        if not any(flags):
            return seq, ch
        seq.append(new)


def result(F, mk):
    """leaves of each rank after applying the markers"""
    out = []
    for r in range(F.size):
        l = []
        for i in range(F.cuts[r], F.cuts[r + 1]):
            o = F.leaves[i]
            if mk[i] == 0:
                l.append(o)
            elif mk[i] == 1:
                for s in itertools.product(*[(0, 1) if d < F.ndim else (0,) for d in (2, 1, 0)]):
                    l.append(tuple(2 * o[d] + s[2 - d] if d < F.ndim else o[d] for d in range(3)) + (o[3] + 1,))
            elif all(o[d] % 2 == 0 for d in range(3)):
                l.append(tuple(x // 2 for x in o[:3]) + (o[3] - 1,))
        out.append(l)
    return out


def forest(ndim, coarse, level_min, refine, periodic, level_max, cuts):
    lv = {(x, y, z, level_min) for x in range(coarse[0]) for y in range(coarse[1]) for z in range(coarse[2])}
    for o in refine:
        lv.remove(o)
        for s in itertools.product(*[(0, 1) if d < ndim else (0,) for d in range(3)]):
            lv.add(tuple(2 * o[d] + s[d] if d < ndim else o[d] for d in range(3)) + (o[3] + 1,))
    return Forest(ndim, lv, level_min, coarse, periodic, level_max, cuts)


def show(l):
    return ' '.join('(%s)' % ','.join(str(x) for x in o[:3]) + '@%s' % o[3] for o in l)


def ghostmap(g, F, r, l=None):
    s = F.ghosts(r)
    l = l or F.local(r)
    at = {o: i for i, o in enumerate(l)}
    m = S()
    m.t = HM + '::GhostMap_t'
    m['send_sizes'] = g.table([C(len(s[q])) for q in range(F.size)])
    m['send_iOcts'] = g.table([C(at[o]) for q in range(F.size) for o in s[q]])
    m['send_cell_masks'] = g.table([C(63) for q in range(F.size) for o in s[q]], 'Kokkos::View<unsigned char *>')
    return m


def run_rank(F, mk, r):
    """adapt on rank r; None, or what is wrong"""
    seq, ch = rounds(F, mk)
    new = result(F, seq[-1])
    cuts = list(itertools.accumulate(len(x) for x in new))[:-1]
    G = Forest(F.ndim, [o for l in new for o in l], F.level_min, F.coarse, F.periodic, F.level_max, cuts)
    for i in range(F.size):
        if G.local(i) != new[i]:
            raise Unsup('model')
    g = Amr(P, r, F.size)
    sizes = F.ghosts(r)
    at = {o: i for i, o in enumerate(F.local(r))}
    st, this = g.mesh(F.ndim, F.local(r), F.received(r), F.level_min, F.coarse, F.periodic, len(F.leaves), F.cuts[r], F.level_max,
                      mk[F.cuts[r]:F.cuts[r + 1]], ([len(sizes[s]) for s in range(F.size)], [at[o] for s in range(F.size) for o in sizes[s]]))
    rec = {'x': 0, 'lor': 0, 'disc': None, 'sent': None, 'ar': 0}
    bad = []
    newmap = lambda vc: rec['disc'] is not None and vc == rec['map']

    def nghosts(g, st, vc):
        return len(G.received(r)) if newmap(vc) else len(F.received(r))

    def exchange(g, st, vc, dim, src, dst):
        i, rg, kp = g.part(src)
        j, rh, kq = g.part(dst)
        if len(rg) == 1:
            gh = F.received(r)
            v = seq[min(rec['x'], len(seq) - 1)]
            rec['x'] += 1
            al = [g.views[i][1][x] for x in itertools.product(*rg)]
            rec['sent'] = [al[q] for q in vc[1]]
            if dim != 0 or len(rh[0]) != len(gh):
                raise Abort('%d markers of ghosts received into an array of %d' % (len(gh), len(rh[0])))
            for q, o in zip(rh[0], gh):
                g.views[j][1][(q,)] = C(v[F.at[o]])
            return
        if len(rg) == 2:
            if not newmap(vc):
                raise Bad('octants are exchanged with the ghosts of the old tree')
            gh = G.received(r)
            mine = [tuple(g.integer(g.views[i][1][(a, b)]) for b in rg[1]) for a in rg[0]]
            if mine != new[r]:
                bad.append('rank %d sends its ghosts from the octants %s instead of %s' % (r, show(mine), show(new[r])))
            if dim != 0 or len(rh[0]) != len(gh):
                raise Abort('%d ghosts received into an array of %d' % (len(gh), len(rh[0])))
            for q, o in zip(rh[0], gh):
                for b in rh[1]:
                    g.views[j][1][(q, b)] = C(o[b])
            return
        raise Unsup('exchange')

    def collective(g, nm, op, mine):
        if nm == 'MPI_Allreduce' and op == 'LOR':
            k = rec['lor']
            rec['lor'] += 1
            m = mine.v if isinstance(mine.v, bool) else g.integer(mine) != 0
            oth = k < len(ch) and any(f for q, f in enumerate(ch[k]) if q != r)
            return TRUE if m or oth else FALSE
        if nm == 'MPI_Allreduce' and op in ('SUM', 'MAX'):
            if op == 'MAX':
                raise Unsup('reduction')
            return g.add(mine, C(sum(len(l) for q, l in enumerate(new) if q != r)))
        if nm == 'MPI_Scan' and op == 'SUM':
            return g.add(mine, C(sum(len(l) for l in new[:r])))
        if nm == 'MPI_Allgather':
            return [mine if q == r else C(F.m(l[0]) if l else 0) for q, l in enumerate(new)]
        raise Unsup('%s %s' % (nm, op))

    def discover(g, st, a):
        sto = a[0]
        if not isinstance(sto, S) or len(a) < 4:
            raise Unsup('discover_ghosts')
        iv = [g.integer(a[1][i]) for i in range(len([q for q in a[1] if isinstance(q, int)]))]
        lm = g.integer(a[2])
        per = [bool(a[3][d].v) for d in range(3)]
        loc, gh = g.octants(sto)
        if loc != new[r]:
            bad.append('rank %d looks for the ghosts of the octants %s instead of %s' % (r, show(loc), show(new[r])))
        if per != list(F.periodic):
            bad.append('rank %d looks for ghosts with periodicity %s instead of %s' % (r, per, list(F.periodic)))
        for q, l in enumerate(new):
            for o in l:
                sh = 3 * (lm - o[3])
                a0 = morton(o[:3])
                lo, hi = (a0 << sh, ((a0 + 1) << sh) - 1) if sh >= 0 else (a0 >> -sh, a0 >> -sh)
                # the part of an octant that precedes every octant of the next rank
                if not iv[q] <= lo or q + 1 < len(new) and not lo < iv[q + 1]:
                    bad.append('rank %d takes the octant %s of rank %d to lie outside of the interval [%d, %d) of that rank' % (r, show([o]), q, iv[q], iv[q + 1]))
        rec['disc'] = iv
        m = ghostmap(g, G, r, new[r])
        rec['map'] = ([g.integer(x) for x in g.contents(m['send_sizes'])], [g.integer(x) for x in g.contents(m['send_iOcts'])])
        return m

    g.on.update(ghosts=nghosts, exchange=exchange, collective=collective, discover_ghosts=discover)
    _, st2, _ = g.apply(fn(), [TRUE], this, st)
    if st2.dead:
        raise Abort('adapt aborts')
    if bad:
        return bad[0]
    m = g.load(st2, this)
    loc, gh = g.octants(m['storage'])
    if loc != new[r]:
        return 'rank %d ends with the octants %s instead of %s' % (r, show(loc), show(new[r]))
    if gh != G.received(r):
        return 'rank %d ends with the ghosts %s instead of %s' % (r, show(gh), show(G.received(r)))
    if rec['disc'] is None and F.size > 1:
        return 'rank %d does not look for its new ghosts' % r
    if g.integer(m['first_local_oct']) != sum(len(l) for l in new[:r]):
        return 'rank %d numbers its first octant %s instead of %d' % (r, g.integer(m['first_local_oct']), sum(len(l) for l in new[:r]))
    if g.integer(m['total_num_octs']) != len(G.leaves):
        return 'rank %d counts %s octants in all instead of %d' % (r, g.integer(m['total_num_octs']), len(G.leaves))
    s = m['storage']
    if [g.integer(s['coarse_grid_size'][d]) for d in range(3)] != list(F.coarse) or g.integer(s['level_min']) != F.level_min or g.integer(s['ndim']) != F.ndim:
        return 'the coarse grid of the tree changes'
    pd = g.load(st2, m['pdata'])
    mm = [g.integer(x) for x in g.contents(pd['markers'])]
    if mm != [0] * len(new[r]):
        return 'rank %d keeps the markers %s for its %d new octants' % (r, mm, len(new[r]))
    if g.integer(m['pmesh_epoch']) == 1:
        return 'the tree changes without a new epoch'
    if F.size > 1:
        want = [C(seq[-1][F.at[o]]) for q in range(F.size) for o in sizes[q]]
        if rec['sent'] is None or any(g.integer(x) != g.integer(y) for x, y in zip(rec['sent'], want)):
            return 'the last markers that rank %d sends to the others are %s, but it applies %s' % (r, [g.integer(x) for x in rec['sent'] or []], [g.integer(x) for x in want])
    return None


# ---- the rule for one octant
def table(ndim, off, par_):
    """octant 0 and what lies in one direction: every level difference and pair of markers"""
    out = []
    f = fn()
    flat = 3 - ndim
    p = tuple(4 + par_[d] if d < ndim else 0 for d in range(3))
    pre = [tuple(p[d] + (1, -1)[p[d] % 2] * s[d] if d < ndim else 0 for d in range(3)) for s in itertools.product((0, 1), repeat=ndim)
           for s in [tuple(s) + (0,) * flat]]
    sib = {tuple(q[d] - p[d] for d in range(3)) for q in pre} - {(0, 0, 0)}
    L = 4
    for dl in (-1, 0, 1):
        if off in sib and dl < 0:
            continue
        nn = 1 if dl < 1 else 2 ** (ndim - sum(1 for x in off if x))
        for m, mn, ghost, which in itertools.product((-1, 0, 1), (-1, 0, 1), (False, True), range(nn)):
            if which != (m + 2 * mn + ghost) % nn and not (mn == 1 and m == 0 and not ghost):
                continue
            want = m
            if m == -1 and off in sib and dl + mn > -1:
                want = 0
            want = max(want, dl + mn - 1)
            if want > 1:
                continue
            out.append((L, dl, m, mn, ghost, which, nn, want, p, off, sib))
    return out, f


def run_entry(ndim, e):
    f = fn()
    L, dl, m, mn, ghost, which, nn, want, p, off, sib = e
    g = Amr(P, 0, 2)
    q = tuple(p[d] + off[d] for d in range(3))
    nb = tuple(x * 2 if dl > 0 else x // 2 if dl < 0 else x for x in q) + (L + dl,)
    # 0: the octant; 1: a sibling; then the neighbours
    octs = [p + (L,), tuple(p[d] // 2 * 2 for d in range(3)) + (L,)]
    ns = []
    for k in range(nn):
        isg = ghost and k == which
        ns.append((isg, mn if k == which else -1))
    loc, gh = list(octs), []
    mk, gm = [m, -1], []
    ids = []
    for isg, v in ns:
        if isg:
            ids.append((len(gh), True))
            gh.append(nb)
            gm.append(v)
        else:
            ids.append((len(loc), False))
            loc.append(nb)
            mk.append(v)
    coarse = tuple(64 if d < ndim else 1 for d in range(3))
    st, this = g.mesh(ndim, loc, gh, L - 2, (16, 16, 16 if ndim == 3 else 1), (True,) * 3, len(loc), 0, L + 3, mk, ([0, 0], []))

    def nlist(l):
        v = S()
        v.t = 'dyablo::LightOctree_base::NeighborList'
        v['m_size'] = C(len(l))
        w = S()
        w.t = 'Kokkos::Array<dyablo::LightOctree_base::OctantIndex, 4>'
        for k in range(4):
            x = S()
            x.t = 'dyablo::LightOctree_base::OctantIndex'
            i, b = l[k] if k < len(l) else (0, False)
            x['iOct'], x['isGhost'] = C(i), TRUE if b else FALSE
            w[k] = x
        v['m_neighbors'] = w
        return v

    def neighbours(g, st, a):
        i, o = a[0], tuple(g.integer(a[1][d]) for d in range(3))
        if i['isGhost'].v is True:
            raise Unsup('neighbours of a ghost')
        j = g.integer(i['iOct'])
        if not any(o) or any(abs(x) > 1 for x in o):
            raise Bad('neighbours at the offset %s are asked for' % (o,))
        if j != 0:
            # others agree with anything
            return nlist([(j, False)])
        if o == off:
            return nlist(ids)
        return nlist([(1, False)] if o in sib else [])

    res = {}

    class Stop(Exception):
        pass

    def discover(g, st, a):
        res['octs'] = g.octants(a[0])[0]
        raise Stop()

    def exchange(g, st, vc, dim, src, dst):
        j, rh, kq = g.part(dst)
        for x, v in zip(rh[0], gm):
            g.views[j][1][(x,)] = C(v)

    def collective(g, nm, op, mine):
        if nm == 'MPI_Allreduce' and op == 'LOR':
            return mine
        if nm == 'MPI_Allgather':
            return [mine, C(0)]
        raise Unsup(nm)
    g.on.update(ghosts=lambda *a: len(gh), exchange=exchange, collective=collective, findNeighbors=neighbours, discover_ghosts=discover)
    g.prebuilt['dyablo::LightOctree_hashmap'] = hashmap(g, st, this)
    try:
        g.apply(f, [TRUE], this, st)
    except Stop:
        pass
    if 'octs' not in res:
        raise Unsup('new tree')
    first = res['octs'][0] if res['octs'] else None
    ev = all(x % 2 == 0 for x in p)
    exp = {1: tuple(2 * p[d] if d < ndim else 0 for d in range(3)) + (L + 1,), 0: p + (L,), -1: tuple(x // 2 for x in p) + (L - 1,)}
    if want == -1 and not ev:
        # merged: nothing is left of it
        ok = not any(o == exp[0] or o == exp[1] for o in res['octs'])
    else:
        ok = exp[want] in res['octs'] and not any(exp[w] in res['octs'] for w in (0, 1) if w != want)
    if not ok:
        return 'an octant marked %+d%s beside a%s octant of level %+d marked %+d in direction %s must be %s, but the new tree starts with %s' % (
            m, ', with siblings marked -1,' if m == -1 else '', ' ghost' if ghost else 'n', dl, mn, off, {1: 'refined', 0: 'kept', -1: 'merged'}[want], show(res['octs'][:2]))
    return None


def hashmap(g, st, this):
    m = g.load(st, this)
    h = S()
    h.t = 'dyablo::LightOctree_hashmap'
    h['storage'] = m['storage']
    h['oct_map'] = Opq(('oct_map',), 'Kokkos::UnorderedMap')
    h['min_level'], h['max_level'] = m['storage']['level_min'], C(9)
    h['is_periodic'] = m['periodic']
    return h


def job_table(ndim, off, par_):
    out = []
    try:
        es, f = table(ndim, off, par_)
    except Unsup as x:
        return [('rule %dD' % ndim, None, None, str(x))]
    bad = None
    n = 0
    for e in es:
        try:
            r = run_entry(ndim, e)
            n += 1
        except Unsup as x:
            return [('the rule for an octant (%dD)' % ndim, None, f, str(x))]
        except (Bad, Abort) as x:
            r = str(x)
        if r:
            bad = r
            break
    return [('the rule for an octant (%dD), direction %s, parity %s: %d entries' % (ndim, off, par_, n), bad, f, None)]


def scenarios():
    out = []
    T, N = (True,) * 3, (False,) * 3

    def add(name, ndim, coarse, lmin, ref, per, lmax, cutss, marks):
        for cuts in cutss:
            F = forest(ndim, coarse, lmin, ref, per, lmax, cuts)
            for w, mk in marks(F):
                out.append((name + (', %d ranks, ' % F.size) + w, F, mk))
    rnd = lambda F, k, w: [('pattern %d' % i, [random.Random(77 * i + len(F.leaves)).choices((-1, 0, 1), w)[0] if F.leaves[j][3] > F.level_min else
                                             random.Random(91 * i + j).choices((0, 1), (3, 1))[0] for j in range(len(F.leaves))]) for i in range(k)]

    def rmark(F, k, w):
        res = []
        for i in range(k):
            R = random.Random(1000 * i + len(F.leaves) + F.ndim)
            res.append(('pattern %d' % i, [R.choices((-1, 0, 1), w)[0] if o[3] > F.level_min else R.choices((0, 1), (4, 1))[0] for o in F.leaves]))
        return res

    def plain(F):
        z = [0] * len(F.leaves)
        yield 'nothing marked', z
        yield 'all refined', [1] * len(F.leaves)
        yield 'all small octants merged', [-1 if o[3] > F.level_min else 0 for o in F.leaves]
        big = max(o[3] for o in F.leaves)
        yield 'smallest octants merged', [-1 if o[3] == big else 0 for o in F.leaves]
        one = list(z)
        one[max(range(len(F.leaves)), key=lambda i: (F.leaves[i][3], -i))] = 1
        yield 'one of the smallest refined', one
        mix = [-1 if o[3] > F.level_min else 0 for o in F.leaves]
        mix[max(range(len(F.leaves)), key=lambda i: (F.leaves[i][3], i))] = 1
        yield 'all merged but one refined', mix
        last = [-1 if o[3] == big else 0 for o in F.leaves]
        k = [i for i, o in enumerate(F.leaves) if o[3] == big]
        last[k[-1]] = 0
        yield 'merged but for one sibling', last
    # two dimensions
    ref = [(0, 0, 0, 1)]
    add('square', 2, (2, 2, 1), 1, ref, T, 5, [[], [4], [3, 6]], plain)
    add('square', 2, (2, 2, 1), 1, ref, N, 5, [[], [3, 5]], plain)
    add('square', 2, (2, 2, 1), 1, ref, N, 5, [[2, 7]], lambda F: rmark(F, 6, (3, 2, 1)))
    ref = [(1, 1, 0, 2), (2, 1, 0, 2), (1, 2, 0, 2), (2, 2, 0, 2), (3, 3, 0, 3)]
    add('grid 4x4', 2, (4, 4, 1), 2, ref, T, 5, [[], [5, 12, 21]], lambda F: itertools.chain(plain(F), rmark(F, 4, (4, 1, 1))))
    add('grid 3x2', 2, (3, 2, 1), 2, [(2, 1, 0, 2)], N, 4, [[], [3]], plain)
    add('grid 3x2', 2, (3, 2, 1), 2, [(0, 0, 0, 2)], T, 4, [[2, 5]], plain)
    # a group of siblings that ends on other ranks
    add('one octant split', 2, (1, 1, 1), 0, [(0, 0, 0, 0)], T, 3, [[1, 2, 3], [2]], plain)
    # three dimensions
    add('cube', 3, (2, 2, 2), 1, [(1, 1, 1, 1)], N, 4, [[], [9, 13]], plain)
    add('cube', 3, (2, 2, 2), 1, [(0, 0, 0, 1)], T, 4, [[5]], plain)
    add('grid 3x1x2', 3, (3, 1, 2), 2, [(2, 0, 1, 2)], N, 4, [[4, 6]], plain)
    return out


def job(name, F, mk):
    out = []
    try:
        f = fn()
    except Unsup as x:
        return [(name, None, None, str(x))]
    for r in range(F.size):
        try:
            x = run_rank(F, mk, r)
        except Unsup as e:
            out.append(('%s, rank %d' % (name, r), None, f, str(e)))
            continue
        except (Bad, Abort) as e:
            x = 'rank %d: %s' % (r, e)
        out.append(('%s, rank %d' % (name, r), x, f, None))
    return out


def run(p, ck):
    global P
    P = p
    jobs = []
    for ndim in (2, 3):
        offs = [tuple(o) + (0,) * (3 - ndim) for o in itertools.product((-1, 0, 1), repeat=ndim) if any(o)]
        for k, o in enumerate(offs):
            pars = list(itertools.product((0, 1), repeat=ndim))
            jobs.append(('t%d%s' % (ndim, o), job_table, (ndim, o, pars[k % len(pars)] + (0,) * (3 - ndim))))
            jobs.append(('u%d%s' % (ndim, o), job_table, (ndim, o, pars[(3 * k + 1) % len(pars)] + (0,) * (3 - ndim))))
    for i, (w, F, mk) in enumerate(scenarios()):
        jobs.append((w, job, (w, F, mk)))
    r = par.run(jobs)
    nd, why = 0, {}
    for key, _, _ in jobs:
        kind, v = r[key]
        if kind != 'ok':
            nd += 1
            why[str(v)] = why.get(str(v), 0) + 1
            continue
        for what, bad, f, und in v:
            if und:
                nd += 1
                why[und] = why.get(und, 0) + 1
                continue
            ck.count('scenarios')
            if bad:
                ck.bad(what, '%s:%s' % (f['file'], f['line']), '%s: %s' % (what, bad))
            else:
                ck.ok(what)
    if os.environ.get('DY_LIST'):
        print(why)
    ck.counts['not decided'] = nd
