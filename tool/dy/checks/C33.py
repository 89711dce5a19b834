"""Named fields and particle attributes keep their values."""
import itertools, os
from ..host import Host, Abort, C, mapof, tstr
from ..vg import S, LV, Leaf, Opq, State, Unsup, num
from ..ast import callee_obj
from .. import par

RULE = ('From every consistent state of the field store (any assignment of names to columns, any unused columns) every operation of UserData must '
        'leave each other name its values, give new names zeros, and leave a consistent state; accessors must reach the column of the name asked for.')
EXPLAIN = ('Value numbering of the methods of UserData, UserData_fields, UserData_particles and MapUserData_mean::remap over all states of up to three '
           'names in up to four columns with symbolic values: one step from every consistent state, hence any history.')
TRUSTED = ['standard containers and Kokkos views behave as documented', 'ViewCommunicator moves whole objects along the distributed dimension']
P = None
NAMES = ('a', 'b', 'c')
UD = 'dyablo::UserData'


class Bad(Exception):
    pass


def fn(name, cls, nparams=None):
    r = [f for f in P.fns.values() if f['n'] == name and f.get('body') and f.get('cls', '') == cls and '$' not in f['id'] and (nparams is None or len(f['params']) == nparams)]
    if len(r) != 1:
        raise Unsup('%d functions %s' % (len(r), name))
    return r[0]


def states(names=NAMES, mmax=4):
    """(columns of the names, allocated columns, largest number of columns so far)"""
    for m in range(mmax + 1):
        for k in range(min(m, len(names)) + 1):
            for sub in itertools.combinations(names, k):
                for cols in itertools.permutations(range(m), k):
                    for mx in (m, m + 1):
                        if m == mmax and mx > m:
                            continue
                        yield dict(zip(sub, cols)), m, mx


def pick(n, l):
    l = list(l)
    return l if len(l) <= n else l[::max(1, len(l) // n)]


class World:
    def __init__(self, cols, m, mx):
        self.g = g = Host(P)
        g.hooks = {'at_ivar': self.h_at, 'getShape': lambda *a: Opq('shape'), 'remap_aux': self.h_remap}
        g.nop = {'start', 'stop'}
        self.cols, self.m = cols, m
        self.remaps = []
        uf = S()
        uf.t = 'dyablo::UserData_fields'
        uf['foreach_cell'] = Opq('foreach_cell', 'dyablo::ForeachCell')
        self.src = {}

        def init(i, ghost):
            return g.atom(('column', i[1], 'ghost' if ghost else 'local', i[0], i[2]))
        uf['fields'] = g.array(m, None, init)
        ix = {}
        for n, c in cols.items():
            q = S()
            q.t = 'dyablo::UserData_fields::field_index_t'
            q['index'] = C(c)
            ix[n] = q
        uf['field_index'] = mapof(ix, 'std::map<')
        uf['max_field_count'] = C(mx)
        # particles: the same columns
        pc = S()
        pc.t = 'dyablo::UserData_particles::ParticleContainer'
        pd = S()
        pd.t = 'dyablo::ParticleData'
        pd['particle_position'] = g.view((2, 3), lambda i: g.atom(('position', i)), 'Kokkos::View<double **')
        pd['particle_data'] = g.view((2, m), lambda i: g.atom(('attribute', i[1], i[0])), 'Kokkos::View<double **')
        fm = S()
        fm.t = 'dyablo::id2index_t'
        fm['_nbfields'] = C(m)
        pd['fm'] = fm
        pc['particles'] = pd
        pc['name'] = tstr('P')
        pc['foreach_particle'] = Opq('foreach_particle', 'dyablo::ForeachParticle')
        pc['attribute_index'] = mapof({n: C(c) for n, c in cols.items()}, 'std::map<')
        pc['max_particle_count'] = C(mx)
        up = S()
        up.t = 'dyablo::UserData_particles'
        up['foreach_particle'] = Opq('foreach_particle', 'dyablo::ForeachParticle')
        up['particle_containers'] = mapof({'P': pc}, 'std::map<')
        ud = S()
        ud.t = UD
        ud['fields'], ud['particles'] = uf, up
        self.st = State()
        self.c = g.cell('this')
        self.st.mem[self.c] = ud

    def h_at(self, g, st, n, fr, a):
        o = callee_obj(n)
        if o is None or 'CellArray' not in o.get('t', ''):
            return None
        arr = g.val(st, o, fr)
        cell = g.val(st, a[0], fr).key
        i = g.vid(arr['Ughost' if cell[3] else 'U'])
        x = (cell[1], g.integer(g.val(st, a[1], fr)), cell[2])
        g.bounds(i, x, 'the accessor')
        return LV(('viewmem', i, x), (), 'double')

    def h_remap(self, g, st, n, fr, a):
        self.remaps.append((g.val(st, a[0], fr), g.val(st, a[1], fr)))
        return Opq('none')

    def call(self, name, *a, cls=UD):
        r, st, _ = self.g.apply(fn(name, cls, len(a)), list(a), LV(self.c, (), cls), self.st)
        self.st = st
        if st.dead:
            raise Abort('%s aborts' % name)
        return r

    def ud(self):
        return self.st.mem[self.c]

    # contents by name
    def fields(self):
        uf = self.ud()['fields']
        g = self.g
        U, G = g.vid(uf['fields']['U']), g.vid(uf['fields']['Ughost'])
        nf = g.integer(uf['fields']['fm']['_nbfields'])
        for i, x in ((U, 0), (G, 1)):
            sh = g.views[i][0]
            if sh != (g.cells, nf, g.octs[x]):
                raise Bad('the %s array has the size %s instead of %s' % ('ghost' if x else 'local', sh, (g.cells, nf, g.octs[x])))
        out, used = {}, {}
        for k, v in uf['field_index'].items():
            c = g.integer(v['index'])
            if not 0 <= c < nf:
                raise Bad('field %s is in column %d of %d' % (k[1:], c, nf))
            if c in used:
                raise Bad('fields %s and %s share column %d' % (used[c], k[1:], c))
            used[c] = k[1:]
            out[k[1:]] = ({(x, o): g.views[U][1][x, c, o] for x in range(g.cells) for o in range(g.octs[0])},
                          {(x, o): g.views[G][1][x, c, o] for x in range(g.cells) for o in range(g.octs[1])})
        if g.integer(uf['max_field_count']) < nf or g.integer(uf['max_field_count']) < len(out):
            raise Bad('max_field_count is smaller than the number of columns')
        return out

    def attributes(self):
        g = self.g
        pc = self.ud()['particles']['particle_containers']['kP']
        d = pc['particles']
        D, X = g.vid(d['particle_data']), g.vid(d['particle_position'])
        np_ = g.views[X][0][0]
        nf = g.integer(d['fm']['_nbfields'])
        if g.views[D][0] != (np_, nf):
            raise Bad('the particle data has the size %s instead of %s' % (g.views[D][0], (np_, nf)))
        out, used = {}, {}
        for k, v in pc['attribute_index'].items():
            c = g.integer(v)
            if not 0 <= c < nf:
                raise Bad('attribute %s is in column %d of %d' % (k[1:], c, nf))
            if c in used:
                raise Bad('attributes %s and %s share column %d' % (used[c], k[1:], c))
            used[c] = k[1:]
            out[k[1:]] = {i: g.views[D][1][i, c] for i in range(np_)}
        return out, {x: v for x, v in g.views[X][1].items()}

    def want(self, name, f=lambda x: x, ghosts=True):
        g, c = self.g, self.cols[name]
        r = []
        for gh in (0, 1):
            r.append({(x, o): f(g.atom(('column', c, 'ghost' if gh else 'local', x, o))) for x in range(g.cells) for o in range((2, 1)[gh])})
        return tuple(r)

    def wanta(self, name):
        return {i: self.g.atom(('attribute', self.cols[name], i)) for i in range(2)}

    def same(self, a, b):
        return a.keys() == b.keys() and all(self.g.equal(a[k], b[k]) for k in a)

    def zero(self, d):
        return all(self.g.equal(v, C(0)) for v in d.values())


def setof(l, t='std::set<'):
    v = S()
    v.t = t
    for x in l:
        v['k' + x] = tstr(x)
    return v


def infos(l, t):
    v = S()
    v.t = 'std::vector<'
    for i, (n, k) in enumerate(l):
        q = S()
        q.t = t
        q['name'], q['id'] = tstr(n), C(k)
        v[i] = q
    return v


def check(w, keep, new=()):
    f = w.fields()
    if set(f) != set(keep) | set(new):
        raise Bad('the fields are %s instead of %s' % (sorted(f), sorted(set(keep) | set(new))))
    for n, v in keep.items():
        for i, x in enumerate(('', ' of ghosts')):
            if not w.same(f[n][i], v[i]):
                raise Bad('field %s does not keep its values%s' % (n, x))
    for n in new:
        if not w.zero(f[n][0]) or not w.zero(f[n][1]):
            raise Bad('the new field %s is not zero' % n)


def check_a(w, keep, new=()):
    f, x = w.attributes()
    if set(f) != set(keep) | set(new):
        raise Bad('the attributes are %s instead of %s' % (sorted(f), sorted(set(keep) | set(new))))
    for n, v in keep.items():
        if not w.same(f[n], v):
            raise Bad('attribute %s does not keep its values' % n)
    for n in new:
        if not w.zero(f[n]):
            raise Bad('the new attribute %s is not zero' % n)
    if not w.same(x, {(i, d): w.g.atom(('position', (i, d))) for i in range(2) for d in range(3)}):
        raise Bad('the particles move')


def ops(cols, m, mx):
    """(name, action) of one step from a state"""
    have = sorted(cols)
    free = [n for n in NAMES if n not in cols] + ['d']
    out = []

    def add(n, f):
        out.append((n, f))
    keep = lambda w, drop=(): {n: w.want(n) for n in have if n not in drop}
    keepa = lambda w, drop=(): {n: w.wanta(n) for n in have if n not in drop}
    for k in (1, 2):
        for l in itertools.combinations(free, k):
            def f(w, l=l):
                w.call('new_fields', setof(l))
                check(w, keep(w), l)
            add('new_fields', f)
    for s in have:
        for d in NAMES:
            if d == s:
                continue

            def f(w, s=s, d=d):
                w.call('move_field', tstr(d), tstr(s))
                k = keep(w, (s, d))
                k[d] = w.want(s)
                check(w, k)

            def fa(w, s=s, d=d):
                w.call('move_ParticleAttribute', tstr('P'), tstr(d), tstr(s))
                k = keepa(w, (s, d))
                k[d] = w.wanta(s)
                check_a(w, k)
            add('move_field', f)
            add('move_ParticleAttribute', fa)

        def f(w, s=s):
            w.call('delete_field', tstr(s))
            check(w, keep(w, (s,)))

        def fa(w, s=s):
            w.call('delete_ParticleAttribute', tstr('P'), tstr(s))
            check_a(w, keepa(w, (s,)))
        add('delete_field', f)
        add('delete_ParticleAttribute', fa)

        def f(w, s=s):
            r = w.call('getField', tstr(s))
            g = w.g
            i = g.vid(r['U'])
            if g.views[i][0] != (g.cells, 1, g.octs[0]) or not w.same({(x, o): v for (x, _, o), v in g.views[i][1].items()}, w.want(s)[0]):
                raise Bad('getField does not return the values of field %s' % s)
            check(w, keep(w))

        def fa(w, s=s):
            r = w.call('getParticleAttribute', tstr('P'), tstr(s))
            g = w.g
            i = g.vid(r['particle_data'])
            if g.views[i][0] != (2, 1) or not w.same({x: v for (x, _), v in g.views[i][1].items()}, w.wanta(s)):
                raise Bad('getParticleAttribute does not return the values of attribute %s' % s)
            check_a(w, keepa(w))
        add('getField', f)
        add('getParticleAttribute', fa)
    for n in free:
        def fa(w, n=n):
            w.call('new_ParticleAttribute', tstr('P'), tstr(n))
            check_a(w, keepa(w), (n,))
        add('new_ParticleAttribute', fa)

    def f(w):
        for n in NAMES:
            r = w.call('has_field', tstr(n))
            if not w.g.equal(r, C(int(n in have))) and getattr(r, 'v', None) is not (n in have):
                raise Bad('has_field(%s) is wrong' % n)
        r = w.call('getEnabledFields')
        if sorted(w.g.text(x) for x in r.values()) != have:
            raise Bad('getEnabledFields returns the wrong names')
        if w.g.integer(w.call('nbFields')) != len(have):
            raise Bad('nbFields is wrong')
        check(w, keep(w))
    add('has_field, getEnabledFields, nbFields', f)
    # accessors
    for l in itertools.permutations(have):
        for sub in range(1, len(l) + 1):
            if sub < len(l) and list(l[:sub]) != sorted(l[:sub], reverse=True):
                continue

            def f(w, l=l[:sub]):
                ids = [5 - 2 * i for i in range(len(l))]
                acc = w.call('getAccessor', infos(list(zip(l, ids)), 'dyablo::UserData_fields::FieldAccessor_FieldInfo'))
                access(w, acc, list(l), ids)
                check(w, keep(w))

            def fa(w, l=l[:sub]):
                ids = [5 - 2 * i for i in range(len(l))]
                acc = w.call('getParticleAccessor', tstr('P'), infos(list(zip(l, ids)), 'dyablo::UserData_particles::ParticleAccessor_AttributeInfo'))
                g = w.g
                c = g.cell('acc')
                w.st.mem[c] = acc
                for i, n in enumerate(l):
                    for m_, x in (('at', ids[i]), ('at_ivar', i)):
                        for q in range(2):
                            r, s2, _ = g.apply(fn(m_, acc.t, 2), [C(q), C(x)], LV(c, (), acc.t), w.st)
                            r = g.load(s2, r) if isinstance(r, LV) else r
                            if not g.equal(r, w.wanta(n)[q]):
                                raise Bad('%s(%s) of a particle accessor does not reach attribute %s' % (m_, 'its id' if m_ == 'at' else i, n))
                check_a(w, keepa(w))
            add('getAccessor', f)
            add('getParticleAccessor', fa)
    # mesh changes
    if have:
        def f(w):
            w.g.octs = (3, 2)
            w.call('exchange_loadbalance', Opq('comm', 'dyablo::ViewCommunicator'))
            got = w.fields()
            if sorted(got) != have:
                raise Bad('load balancing changes the set of fields')
            for n in have:
                src = w.want(n)[0]
                if not w.same(got[n][0], {(x, o): w.g.fun('moved', src[x, o % 2]) for x in range(w.g.cells) for o in range(3)}):
                    raise Bad('after load balancing field %s holds other values' % n)
        add('exchange_loadbalance', f)

        def f(w):
            w.g.octs = (3, 2)
            o = S()
            o.t = 'dyablo::MapUserData_mean'
            o['foreach_cell'] = Opq('foreach_cell', 'dyablo::ForeachCell')
            c = w.g.cell('map')
            w.st.mem[c] = o
            _, w.st, _ = w.g.apply(fn('remap', o.t, 1), [LV(w.c, (), UD)], LV(c, (), o.t), w.st)
            if w.st.dead:
                raise Abort('remap aborts')
            got = w.fields()
            if sorted(got) != have:
                raise Bad('remapping changes the set of fields')
            if len(w.remaps) != 1:
                raise Bad('fields are remapped %d times' % len(w.remaps))
            a, b = w.remaps[0]
            g = w.g
            nf = g.integer(a['fm_ivar']['_nbfields'])
            if nf != len(have):
                raise Bad('%d of %d fields are remapped' % (nf, len(have)))
            seen = set()
            ix = {g.integer(v['index']): k[1:] for k, v in w.ud()['fields']['field_index'].items()}
            inv = {v: k for k, v in cols.items()}
            for i in range(nf):
                x, y = g.integer(a['fm_active'][i]), g.integer(b['fm_active'][i])
                if inv.get(x) is None or inv.get(x) != ix.get(y):
                    raise Bad('the values of field %s are remapped to field %s' % (inv.get(x), ix.get(y)))
                seen.add(inv[x])
            if seen != set(have):
                raise Bad('only the fields %s are remapped' % sorted(seen))
            # the accessors look at the old and the new arrays
            for z, o in ((a, 2), (b, 3)):
                if g.views[g.vid(z['fields']['U'])][0][2] != o:
                    raise Bad('remapping reads the new arrays or writes the old ones')
        add('remap', f)

        def fa(w):
            g = w.g
            g.hooks['get_distribute_communicator'] = lambda *a: Opq('comm', 'dyablo::ViewCommunicator')
            g.hooks['getNumGhosts'] = lambda g, st, n, fr, a: C(3) if callee_obj(n) is not None and 'Communicator' in callee_obj(n).get('t', '') else None
            w.call('distributeParticles', tstr('P'))
            got, pos = w.attributes()
            for n in have:
                src = w.wanta(n)
                if n not in got or not w.same(got[n], {i: g.fun('moved', src[i % 2]) for i in range(3)}):
                    raise Bad('after distributeParticles attribute %s holds other values' % n)
            if not w.same(pos, {(i, d): g.fun('moved', g.atom(('position', (i % 2, d)))) for i in range(3) for d in range(3)}):
                raise Bad('distributeParticles does not move the positions along')
        add('distributeParticles', fa)
    return out


def access(w, acc, l, ids):
    g = w.g
    c = g.cell('acc')
    w.st.mem[c] = acc
    t = 'dyablo::UserData_fields::FieldAccessor'
    for i, n in enumerate(l):
        for m_, x in (('at', ids[i]), ('at_ivar', i)):
            for gh in (0, 1):
                for ce in range(g.cells):
                    for o in range(g.octs[gh]):
                        r, s2, _ = g.apply(fn(m_, t, 2), [Opq(('cell', ce, o, bool(gh)), 'CellIndex'), C(x)], LV(c, (), t), w.st)
                        r = g.load(s2, r) if isinstance(r, LV) else r
                        if not g.equal(r, w.want(n)[gh][ce, o]):
                            raise Bad('%s(%s) of an accessor does not reach field %s' % (m_, 'its id' if m_ == 'at' else i, n))
    r, _, _ = g.apply(fn('nbFields', t, 0), [], LV(c, (), t), w.st)
    if g.integer(r) != len(l):
        raise Bad('nbFields() of an accessor is wrong')


def group(l):
    res = []
    for cols, m, mx in l:
        for name, f in ops(cols, m, mx):
            w = World(cols, m, mx)
            where = 'from columns %s of %d' % (', '.join('%s=%d' % x for x in sorted(cols.items())) or 'without fields', m)
            try:
                f(w)
                res.append((name, None))
            except (Bad, Abort) as e:
                res.append((name, '%s: %s' % (where, e)))
            except Unsup as e:
                res.append((name, Unsup(str(e))))
            except (KeyError, TypeError, AttributeError) as e:
                res.append((name, Unsup('%s: %s' % (type(e).__name__, e))))
    return res


def run(p, ck):
    global P
    P = p
    l = list(states())
    n = 32
    t = [(i, group, (l[i::n],)) for i in range(n)]
    r = par.run(t)
    tot, bad, why, nd = {}, {}, {}, 0
    for i in range(n):
        st, v = r[i]
        if st != 'ok':
            nd += 1
            why[str(v)] = why.get(str(v), 0) + 1
            continue
        for name, b in v:
            if isinstance(b, Exception):
                nd += 1
                why[name + ': ' + str(b)] = why.get(name + ': ' + str(b), 0) + 1
                continue
            tot[name] = tot.get(name, 0) + 1
            if b:
                bad.setdefault(name, []).append(b)
    if os.environ.get('DY_LIST'):
        print(why)
    for k, c in tot.items():
        ck.count(k, c)
        f = 'amr/MapUserData_mean.cpp' if k == 'remap' else 'UserData_particles.h' if 'article' in k else 'UserData_fields.h'
        if k in bad:
            ck.bad(k, f, '%s: %s (%d of %d steps)' % (k, bad[k][0], len(bad[k]), c))
        else:
            ck.ok(k, '%d steps' % c)
    ck.counts['not decided'] = nd
