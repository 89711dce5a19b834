"""The iterations of parallel loops do not depend on one another."""
import importlib, os
from .. import par, race, shared

RULE = ('No iteration of a parallel loop may access an element that another iteration of the same loop writes, unless all accesses are atomic; '
        'a kernel over cells must not read at other cells a field that it writes, nor write at other cells.')
EXPLAIN = ('The value-numbering engines execute every kernel of the update, transport, gravity, particle, refinement, remapping, container and communication '
           'code on abstract meshes, particles and message patterns; the elements each iteration reads, writes and updates atomically are recorded and intersected. '
           'For every functor of the program, a dataflow from the iteration variable finds the elements of captured arrays written by several iterations.')
TRUSTED = ['Kokkos orders kernels of one execution space one after the other', 'atomic operations of Kokkos are atomic']

# which abstract situations of which check are followed, and how many of them (every n-th)
SOURCES = (('C21', lambda k: 'levels differ along z' in k[0] or '2D periodic, one level' in k[0], 1), ('C22', lambda k: 'refined' in k[0] or 'open' in k[0] or '3D, one' in k[0], 1),
           ('C24', lambda k: True, 1), ('C26', lambda k: 'conserved' in k[1] or 'open' in k[1], 1),
           ('C27', lambda k: True, 12), ('C29', lambda k: True, 1), ('C30', lambda k: True, 1), ('C31', lambda k: True, 1),
           ('C32', lambda k: 'values' in k[0], 1), ('C33', lambda k: True, 8), ('C34', lambda k: True, 8))


class Stop(Exception):
    pass


def tasks(name, p):
    """the analysis tasks of another check"""
    m = importlib.import_module('.' + name, __package__)
    got = []

    def take(t, *a, **k):
        got.extend(t)
        raise Stop()

    class Null:
        counts = {}
        prog = p
        tier = 'quick'

        def ok(self, *a):
            pass
        bad = count = require = assume = ok
    old = par.run
    par.run = take
    tier = os.environ.pop('VERIF_TIER', None)
    try:
        m.run(p, Null())
    except Stop:
        pass
    finally:
        par.run = old
        if tier:
            os.environ['VERIF_TIER'] = tier
    return got


def follow(p, fn, a):
    race.ON = race.Recorder(p)
    try:
        fn(*a)
        ok = None
    except Exception as e:
        ok = '%s: %s' % (type(e).__name__, e)
    f = race.ON.finish()
    return f, race.ON.kernels, race.ON.accesses, ok


def run(p, ck):
    t = []
    for name, want, n in SOURCES:
        l = [x for x in tasks(name, p) if want(x[0])]
        l = l[::n]
        t += [((name,) + (k if isinstance(k, tuple) else (k,)), follow, (p, fn, a)) for k, fn, a in l]
    r = par.run(t)
    ker, found, nd, acc = {}, {}, 0, 0
    for k, v in r.items():
        st, v = v
        if st != 'ok':
            nd += 1
            continue
        f, kn, ac, ok = v
        if ok:
            nd += 1
            if os.environ.get('DY_LIST'):
                print('undecided', k, ok)
        acc += ac
        for x, c in kn.items():
            ker[x] = ker.get(x, 0) + c
        for x, b in f.items():
            found.setdefault(x, b)
    for x, c in sorted(ker.items()):
        if x not in found:
            ck.ok('kernel at ' + x, '%d iterations followed' % c)
    for x, b in found.items():
        f, line = x.rsplit(':', 1)
        ck.bad('kernel in %s: %s' % (f, b), x, b)
    kernels, writes, bad = shared.scan(p)
    hit = {}
    for label, e, why in bad:
        hit.setdefault((label, e), why)
    for label in sorted(kernels):
        if not any(k[0] == label for k in hit):
            ck.ok('writes of the functor at ' + label, '%d' % kernels[label])
    for (label, e), why in hit.items():
        ck.bad('functor in %s: iterations write %s without an atomic operation: %s' % (label.rsplit(':', 1)[0], e, why), label, e)
    ck.counts['accesses followed'] = acc
    ck.counts['functors'] = len(kernels)
    ck.counts['writes to shared arrays'] = writes
    ck.counts['not decided'] = nd
