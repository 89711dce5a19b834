"""Time step: every limit is respected on every rank, the end time is hit, triggers fire when due."""
import os
from decimal import Decimal
from ..grid import Grid, Mesh, C
from ..vg import S, LV, OS, Opq, Leaf, Node, State, Unsup, num, TRUE, FALSE, Point, BadPoint
from ..facts import kids, walk
from ..ast import args, callee_obj
from .. import updates as U, par
from .C21 import one, zero, bctype

RULE = ('The value graph of every Compute_dt must set dt to the smallest over all ranks of the Courant factor over the largest rate of '
        'its cells or particles, with the documented rate; the time loop takes the smallest of all of them, cut to the end time; the '
        'triggers and the clock follow their definition.')
EXPLAIN = ('Value numbering of constructors, compute_dt, the reductions and IterationHandler with symbolic states, cell sizes, settings '
           'and clock; rates are compared as functions at generic points of the value graphs.')
TRUSTED = ['the mesh interface behaves as documented', 'real arithmetic', 'Kokkos reducers and MPI operations do what their names say']
P = None


def method(cls, name, nargs=2):
    f = [f for f in P.fns.values() if f['n'] == name and 'dyablo::' + cls in (f.get('cls'), f.get('clsd')) and f.get('body') and '$' not in f['id'] and len(f['params']) == nargs]
    if len(f) != 1:
        raise Unsup('%s::%s' % (cls, name))
    return f[0]


def grid(m, conf, init, exact=False):
    g = Grid(P, m, None)
    g.iteabbr = True
    g.redkernels = True
    g.exactcmp = exact
    g.scalarmem = {}
    g.conf = dict(conf)
    for d, x in enumerate('xyz'):
        g.conf['mesh', x + 'min'] = C(0)
        g.conf['mesh', x + 'max'] = g.mul(C(m.ext[d]), g.h[d])
    g.init = init
    return g


def call(g, f, cls, st=None):
    st = st or State()
    this = U.configured(P, g, f, st)
    c = ('in', 'this')
    st.mem[c] = OS(Opq('this', f['cls']), this)
    g.apply(f, [Opq('U', 'dyablo::UserData'), Opq('scalar_data', 'dyablo::ScalarSimulationData')], LV(c, (), f['cls']), st)
    return g


def agree(g, a, b, fix=(), n=40, tol='1e-40'):
    """same function, sampled at generic points with some atoms fixed"""
    a, b = g.expand(a), g.expand(b)

    def at(q, v):
        while isinstance(v, Node):
            kind, r = g.conds[v.c]
            if not hasattr(r, 'n'):
                raise Unsup('condition')
            w = q.rat(r)
            v = v.hi if (w > 0 if kind == 'pos' else w >= 0 if kind == 'nneg' else w == 0) else v.lo
        return q.rat(num(v.v))
    done = seed = 0
    while done < n and seed < 20 * n:
        seed += 1
        q = Point(g, seed)
        for k, v in fix:
            q.v[k] = Decimal(v)
        try:
            x, y = at(q, a), at(q, b)
        except BadPoint:
            continue
        done += 1
        if abs(x - y) > Decimal(tol) * (abs(x) + abs(y) + 1):
            return False
    if done < n:
        raise Unsup('no points')
    return True


def idof(g, v):
    (mm, _), = num(v.v).n.items()
    return mm[0][0]


def limit(g, cfl, rate, cell, tol='1e-40'):
    """dt = min over ranks of cfl / max over cells of the rate"""
    out = {}
    if 'dt' not in g.scalarmem:
        return {'sets dt': 'never sets dt'}
    dt = g.expand(g.scalarmem['dt'])
    locs = list(g.locals)
    if len(locs) != 1 or len(g.glob) != 1:
        raise Unsup('%d sums, %d exchanges' % (len(locs), len(g.glob)))
    lk = locs[0]
    (gk, (v, op)), = g.glob.items()
    loc, glo = g.atom(lk), g.atom(gk)
    v = g.expand(v)
    want = g.div(cfl, loc)
    if agree(g, dt, glo):
        ok = agree(g, v, want) and op == 'MIN'
    elif agree(g, v, loc):
        ok = agree(g, dt, g.div(cfl, glo)) and op == 'MAX'
    else:
        ok = False
    out['smallest over the ranks'] = None if ok else 'dt is %s where the %s over the ranks is taken of %s' % (g.show(dt), op, g.show(v))
    j, i = g.locals[lk]
    out['largest over the cells'] = None if g.redkind[j, i] == 'Max' else 'the rates of the cells are combined by ' + g.redkind[j, i]
    if isinstance(j, int):
        g.ensure(j, cell)
    con = g.contrib[j, i, cell]
    red = g.atom(('red', j, i))
    bad = None
    for val in (0, 5, 10 ** 6):
        if not agree(g, con, g.maxv(red, rate), [(idof(g, red), val)], tol=tol):
            bad = 'a cell contributes %s instead of the larger of the rate so far and %s' % (g.show(g.expand(con), 200), g.show(rate, 200))
            break
    out['rate'] = bad
    return out


def hydro(fam, name, nd):
    m = Mesh(nd, (2, 2, 2 if nd == 3 else 1), one)
    cell = m.cells()[-1]
    f = method('Compute_dt_hydro', 'compute_dt')
    h = Grid(P, m, None)
    names = U.fieldnames(P, h, fam)
    mbi = U.members_by_index(P, h, fam)
    cons = {}
    gam = 'gamma0'
    ptc = next(x for x in P.fns.values() if x['id'].startswith('dyablo::primToCons<3') and 'const dyablo::Prim%s &' % fam in x['id'])

    def prim(g):
        q = S()
        q.t = 'dyablo::Prim' + fam
        for k in [x['n'] for x in P.recs[q.t]['fields']]:
            q[k] = C(0) if nd == 2 and k == 'w' else g.atom('q.' + k, k in ('rho', 'p'))
        return q

    def init(g, k, c):
        nm = k[1]
        if not cons:
            u, _, _ = g.apply(ptc, [prim(g), g.atom(('setting', 'hydro', 'gamma0'), True)])
            cons.update({names[i]: u[mbi[i]] for i in names if i in mbi})
        if nm not in cons:
            raise Unsup('field ' + nm)
        return cons[nm]
    g = grid(m, {('hydro', 'update'): Opq(('str', name))}, init)
    call(g, f, 'Compute_dt_hydro')
    q = prim(g)
    gamma = g.atom(('setting', 'hydro', 'gamma0'), True)
    cs2 = g.div(g.mul(gamma, q['p']), q['rho'])
    cs = g.sqrtv(cs2)
    rate = C(0)
    for d in range(nd):
        rate = g.add(rate, g.div(g.add(cs, g.absv(q['uvw'[d]])), g.h[d]))
    if fam == 'MHDState':
        B = [q['B' + x] for x in 'xyz']
        B2 = C(0)
        for b in B:
            B2 = g.add(B2, g.mul(b, b))
        a2 = g.mul(gamma, q['p'])
        for d in range(nd):
            # fast magnetosonic speed: 2 rho c^2 = a + B2 + sqrt((a + B2)^2 - 4 a Bd^2)
            s = g.add(a2, B2)
            cf = g.sqrtv(g.div(g.add(s, g.sqrtv(g.sub(g.mul(s, s), g.mul(C(4), g.mul(a2, g.mul(B[d], B[d])))))), g.mul(C(2), q['rho'])))
            rate = g.maxv(rate, g.div(g.add(cf, g.absv(q['uvw'[d]])), g.h[d]))
    return limit(g, g.atom(('setting', 'dt', 'hydro_cfl'), True), rate, cell)


def parabolic(nd, tc, visc):
    m = Mesh(nd, (2, 2, 2 if nd == 3 else 1), one)
    f = method('Compute_dt_parabolic', 'compute_dt')
    conf = {}
    if tc:
        conf['thermal_conduction', 'update'] = Opq(('str', 'ParabolicUpdate_explicit'))
    if visc:
        conf['viscosity', 'update'] = Opq(('str', 'ParabolicUpdate_explicit'))

    def init(g, k, c):
        raise Unsup('reads a field')
    g = grid(m, conf, init)
    call(g, f, 'Compute_dt_parabolic')
    rate = C(0)
    for on, k in ((tc, ('thermal_conduction', 'kappa')), (visc, ('viscosity', 'mu'))):
        if on:
            for d in range(nd):
                rate = g.maxv(rate, g.div(g.atom(('setting',) + k, True), g.mul(g.h[d], g.h[d])))
    return limit(g, g.atom(('setting', 'dt', 'parabolic_cfl'), True), rate, m.cells()[-1])


def particle(nd):
    m = Mesh(nd, (2, 2, 2 if nd == 3 else 1), one)
    f = method('Compute_dt_particle_velocity', 'compute_dt')

    def init(g, k, c):
        raise Unsup('reads a field')
    g = grid(m, {}, init)
    call(g, f, 'Compute_dt_particle_velocity')
    if len(g.parts) != 1:
        raise Unsup('particle loops')
    cell = m.cells()[-1]
    pv = {('v' + 'xyz'[d], 0): g.atom('v' + 'xyz'[d]) for d in range(3)}
    pv.update({('pos', d): g.atom('p' + 'xyz'[d]) for d in range(3)})
    g.particle(0, cell, pv)
    bad = None
    for d in range(nd):
        if not g.lookups or not isinstance(g.lookups[-1], S) or not g.equal(g.lookups[-1][d], g.atom('p' + 'xyz'[d])):
            bad = 'the cell size is not that at the position of the particle'
    out = {'cell of the particle': bad}
    hm = g.h[0]
    v2 = C(0)
    for d in range(nd):
        if d:
            hm = g.maxv(hm, g.h[d], -1)
        w = pv['v' + 'xyz'[d], 0]
        v2 = g.add(v2, g.mul(w, w))
    # the speed is regularised by a tiny constant
    rate = g.div(g.sqrtv(v2), hm)
    lim = limit(g, g.atom(('setting', 'dt', 'particle_cfl'), True), rate, cell, '1e-8')
    out.update(lim)
    return out


# ---- clock and triggers
def handler(g, st, fields):
    t = 'dyablo::IterationHandler'
    v = S()
    v.t = t
    for q in P.recs[t]['fields']:
        if q['n'] in fields:
            v[q['n']] = fields[q['n']]
    c = ('in', 'this')
    st.mem[c] = OS(Opq('this', t), v)
    return LV(c, (), t)


def clock():
    m = Mesh(2, (2, 2, 1), one)
    out = {}
    init = lambda g, k, c: C(0)
    g = grid(m, {}, init, True)
    st = State()
    th = handler(g, st, {'use_t_end': TRUE, 't_end_var': Opq(('str', 'time')), 't_end': g.atom('t_end'), 't_end_epsilon': C(0)})
    sd = Opq('scalar_data', 'dyablo::ScalarSimulationData')
    f = method('IterationHandler', 'correct_dt_end', 1)
    _, st2, _ = g.apply(f, [sd], th, st)
    dt = st2.mem.get(('scalar', 'dt'), g.atom('dt', True))
    left = g.sub(g.atom('t_end'), g.atom('time', True))
    out['the last step ends at tEnd'] = None if agree(g, dt, g.maxv(g.atom('dt', True), left, -1)) else 'dt becomes %s' % g.show(dt)
    g = grid(m, {}, init, True)
    st = State()
    th = handler(g, st, {'use_t_end': FALSE, 't_end_var': Opq(('str', 'time')), 't_end': g.atom('t_end'), 't_end_epsilon': C(0)})
    _, st2, _ = g.apply(f, [sd], th, st)
    dt = st2.mem.get(('scalar', 'dt'), g.atom('dt', True))
    out['dt without an end time'] = None if zero(g, g.sub(dt, g.atom('dt', True))) else 'dt becomes %s' % g.show(dt)
    g = grid(m, {}, init, True)
    st = State()
    th = handler(g, st, {})
    _, st2, _ = g.apply(method('IterationHandler', 'next_iter', 1), [sd], th, st)
    for k, w in (('iter', g.add(g.atom('iter', True), C(1))), ('time', g.add(g.atom('time', True), g.atom('dt', True))), ('dt', g.atom('dt', True))):
        v = st2.mem.get(('scalar', k), g.atom(k, True))
        out['clock: ' + k] = None if zero(g, g.sub(v, w)) else '%s becomes %s' % (k, g.show(v))
    # end of the run
    for end, use in ((True, True), (False, True), (True, False), (False, False)):
        g = grid(m, {}, init, True)
        st = State()
        ie = g.atom('iter_end', True) if end else C(-1)
        th = handler(g, st, {'use_t_end': TRUE if use else FALSE, 't_end_var': Opq(('str', 'time')), 't_end': g.atom('t_end'), 't_end_epsilon': C(0), 'iter_end': ie})
        r, _, _ = g.apply(method('IterationHandler', 'stop_criterion', 1), [sd], th, st)
        a = g.notb(g.gt0(num(g.sub(ie, g.atom('iter', True)).v))) if end else FALSE
        b = g.notb(g.gt0(num(g.sub(g.atom('t_end'), g.atom('time', True)).v))) if use else FALSE
        w = g.ite(a, TRUE, b) if hasattr(g, 'ite') else None
        out['end of the run, %s%s' % ('nstepmax' if end else 'no nstepmax', ', tEnd' if use else '')] = None if samebool(g, r, a, b) else 'stops when %s' % g.show(r)
    return out


def loopmin():
    """the block that asks every kernel: dt becomes the smallest answer, before the end-of-run correction"""
    call_ = 'dyablo::Compute_dt::compute_dt'
    best = None
    for f in P.fns.values():
        if f.get('body') and not f['id'].startswith(call_):
            for n in walk(f['body']):
                if n['k'] == 'CompoundStmt':
                    inner = [x for x in walk(n) if x.get('fn') == call_]
                    loops = [x for x in kids(n) if x['k'] in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt')]
                    if inner and any(y.get('fn') == call_ for x in loops for y in walk(x)):
                        size = sum(1 for _ in walk(n))
                        if best is None or size < best[0]:
                            best = (size, f, n)
    if best is None:
        raise Unsup('no loop over the time step kernels')
    _, f, body = best
    out = {}
    for nk in (1, 2, 3):
        g = grid(Mesh(2, (2, 2, 1), one), {}, lambda g, k, c: C(0))

        def kernel(g, st, n, fr, a):
            o = g.ev(st, callee_obj(n), fr)
            o = g.load(st, o) if isinstance(o, LV) else o
            while isinstance(o, Opq) and o.key[0] == 'call':
                o = Opq(o.key[2])
            if not isinstance(o, Opq) or o.key[0] != 'dtkernel':
                raise Unsup('time step kernel')
            g.store(st, LV(('scalar', 'dt'), (), 'double'), g.atom('dt.%d' % o.key[1], True))
            return Opq('none')
        g.hooks['compute_dt'] = kernel
        g.hooks['correct_dt_end'] = lambda g, st, n, fr, a: end.append(st.mem.get(('scalar', 'dt'))) or Opq('none')
        g.hooks['max'] = lambda g, st, n, fr, a: g.atom('huge', True) if 'numeric_limits' in (n.get('fn') or '') else None
        g.hooks['infinity'] = g.hooks['max']
        end = []
        st = State()
        v = S({k: Opq(('dtkernel', k)) for k in range(nk)})
        v.t = 'std::vector'
        lst = [x['n'] for x in P.recs[f['cls']]['fields'] if 'std::unique_ptr<dyablo::Compute_dt,' in x['t']]
        this = S({lst[0]: v})
        this.t = f['cls']
        for x in P.recs[f['cls']]['fields']:
            if x['n'] not in this and ('Timers' in x['t'] or 'MultiTypeMap' in x['t'] or 'UserData' in x['t'] or 'IterationHandler' in x['t']):
                this[x['n']] = Opq(x['n'], x['t'])
        c = ('in', 'this')
        st.mem[c] = OS(Opq('this', f['cls']), this)
        _, st2, _ = g.apply({'id': 'block', 'n': 'block', 'params': [], 'body': body, 'cls': f['cls'], 'rt': 'void'}, [], LV(c, (), f['cls']), st)
        got = end[-1] if end and end[-1] is not None else st2.mem.get(('scalar', 'dt'), C(0))
        want = g.atom('dt.0', True)
        for i in range(1, nk):
            want = g.maxv(want, g.atom('dt.%d' % i, True), -1)
        big = [(g.atomid['huge'], 10 ** 9)] if 'huge' in g.atomid else []
        out['smallest of %d kernels' % nk] = None if agree(g, got, want, big) else 'dt becomes %s' % g.show(got)
    calls = [n for q in P.fns.values() if q.get('body') for n in walk(q['body']) if n.get('fn') == 'dyablo::IterationHandler::correct_dt_end']
    out['cut to the end time'] = None if calls else 'correct_dt_end is never called'
    return out


def samebool(g, r, a, b):
    """r = a or b at generic points"""
    for seed in range(60):
        q = Point(g, seed)
        for k in ('iter', 'iter_end', 'time', 't_end', 'val', 'last', 'interval'):
            i = g.atomid.get(k)
            if i is not None:
                q.v[i] = Decimal(q.r.randint(1, 4))

        def ev(v):
            while isinstance(v, Node):
                kind, x = g.conds[v.c]
                w = q.rat(x)
                v = v.hi if (w > 0 if kind == 'pos' else w >= 0 if kind == 'nneg' else w == 0) else v.lo
            return bool(v.v) if isinstance(v.v, bool) else num(v.v).n != {}
        try:
            if ev(r) != (ev(a) or ev(b)):
                return False
        except BadPoint:
            continue
    return True


def trigger(t):
    m = Mesh(2, (2, 2, 1), one)
    out = {}
    sd = Opq('scalar_data', 'dyablo::ScalarSimulationData')
    cls = 'Interval_trigger<%s>' % t
    f = method(cls, 'trigger', 1)
    for on in (True, False):
        g = grid(m, {}, lambda g, k, c: C(0), True)
        st = State()
        v = S({'var': Opq(('str', 'val')), 'enabled': TRUE if on else FALSE, 'interval': g.atom('interval', True), 'last_trigger': g.atom('last')})
        v.t = 'dyablo::' + cls
        c = ('in', 'this')
        st.mem[c] = OS(Opq('this', v.t), v)
        r, st2, _ = g.apply(f, [sd], LV(c, (), v.t), st)
        last = st2.mem[c]['last_trigger']
        val, it, la = g.atom('val', True), g.atom('interval', True), g.atom('last')
        due = g.notb(g.gt0(num(g.sub(it, g.sub(val, la)).v))) if on else FALSE
        k = '%s: ' % t + ('on' if on else 'off')
        out[k + ', fires when due'] = None if samebool(g, r, due, FALSE) else 'fires when %s' % g.show(r)
        # after firing, the last multiple of the interval that was passed
        ok = True
        for seed in range(60):
            q = Point(g, seed)
            q.exact = True
            vals = {'val': q.r.randint(1, 40), 'interval': q.r.randint(1, 7)}
            vals['last'] = vals['interval'] * q.r.randint(0, max(0, vals['val'] // vals['interval']))
            for n, w in vals.items():
                q.v[g.atomid[n]] = Decimal(w)
            fl = Decimal(vals['val'] // vals['interval'])

            def ev(x):
                while isinstance(x, Node):
                    kind, y = g.conds[x.c]
                    w = q.rat(y)
                    x = x.hi if (w > 0 if kind == 'pos' else w >= 0 if kind == 'nneg' else w == 0) else x.lo
                return q.rat(num(x.v))
            fired = on and vals['val'] - vals['last'] >= vals['interval']
            want = fl * vals['interval'] if fired else Decimal(vals['last'])
            if ev(last) != want:
                ok = False
        out[k + ', remembers'] = None if ok else 'the last trigger becomes %s' % g.show(last)
    return out


def run(p, ck):
    global P
    P = p
    t = []
    for nd in (2, 3):
        for fam, name in (('HydroState', 'HydroUpdate_hancock'), ('HydroState', 'HydroUpdate_euler'), ('MHDState', 'MHDUpdate_hancock'), ('MHDState', 'MHDUpdate_RK2')):
            t.append((('Compute_dt_hydro', '%dD, %s' % (nd, name)), hydro, (fam, name, nd)))
        for tc in (True, False):
            for v in (True, False):
                if tc or v:
                    t.append((('Compute_dt_parabolic', '%dD, %s' % (nd, ' and '.join(x for x, y in (('conduction', tc), ('viscosity', v)) if y))), parabolic, (nd, tc, v)))
        t.append((('Compute_dt_particle_velocity', '%dD' % nd), particle, (nd,)))
    t.append((('IterationHandler', 'clock'), clock, ()))
    t.append((('DyabloTimeLoop', 'step'), loopmin, ()))
    t.append((('Interval_trigger', 'int'), trigger, ('int',)))
    t.append((('Interval_trigger', 'double'), trigger, ('double',)))
    r = par.run(t)
    nd = 0
    for k, _, a in t:
        st, v = r[k]
        if st != 'ok':
            nd += 1
            if os.environ.get('DY_LIST'):
                print('undecided', k, v)
            continue
        for n, b in v.items():
            name = '%s, %s: %s' % (k[0], k[1], n)
            if b is None:
                ck.ok(name, 'holds as an identity')
            else:
                ck.bad(name, 'compute_dt/%s.cpp' % k[0] if k[0].startswith('Compute') else 'DyabloTimeLoop.h', '%s (%s, %s): %s' % (n, k[0], k[1], b))
    ck.counts['not decided'] = nd
