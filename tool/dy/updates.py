"""The finite-volume update classes over an abstract mesh (grid.py)."""
from fractions import Fraction
from .grid import Grid, Mesh, C
from .vg import S, LV, Opq, Leaf, Rat, State, Unsup, rconst, TRUE, FALSE, num

FAMS = {'HydroState': ('HydroState', ['rho', 'p', 'u', 'v', 'w']),
        'MHDState': ('MHDState', ['rho', 'p', 'u', 'v', 'w', 'Bx', 'By', 'Bz']),
        'GLMMHDState': ('GLMMHDState', ['rho', 'p', 'u', 'v', 'w', 'Bx', 'By', 'Bz', 'psi'])}


def updates(p):
    """(class, state family, function) of every finite-volume update"""
    import re
    out = []
    for f in p.fns.values():
        if '$' in f['id'] or not f.get('body'):
            continue
        m = re.match(r'^dyablo::(\w+)<dyablo::(\w+)>::update\(dyablo::UserData &', f['id'])
        if m and m.group(2) in FAMS:
            out.append((m.group(1), m.group(2), f))
    return out


def fieldnames(p, g, fam):
    """names and indices of the conservative fields, from getFieldsInfo"""
    t = 'dyablo::Cons' + fam
    f = next((x for x in p.fns.values() if x['id'].startswith(t + '::getFieldsInfo(')), None)
    if f is None:
        raise Unsup('getFieldsInfo')
    r, st, _ = g.apply(f, [])
    names = {}
    for k, e in sorted(r.items()):
        vals = [e[q] for q in e]
        names[int(num(vals[1].v).const())] = g.text(vals[0])
    return names


def run(p, cls, fam, f, mesh, prim, gamma=None, init=None, share=None, h=None, noexp=False, conf=None, physical=False, nofloor=False, hooks=None, extra=()):
    """prim(g, name, cell) -> primitive input. Returns the grid after the update was registered."""
    g = Grid(p, mesh, None)
    if share is not None:
        for k in ('atoms', 'atomid', 'pos', 'nonneg', 'funs', 'conds', 'condid', 'assume', 'sqrt', 'letkey', 'fkey', 'ckey'):
            setattr(g, k, getattr(share, k))
        g.h = {d: g.atom('h' + 'xyz'[d], True) for d in range(3)}
    if h:
        g.h = {d: g.atom('h' + h[d], True) for d in range(3)}
    g.iteabbr = True
    g.noexp = noexp
    g.hooks = hooks or {}
    g.physical = physical
    g.letlimit = 6
    g.prim = prim
    g.fam = fam
    gam = g.add(C(1), g.atom('gamma0-1', True))
    names = fieldnames(p, g, fam)
    t = 'dyablo::Cons' + fam
    members = [q['n'] for q in p.recs[t]['fields']]
    ptc = next(x for x in p.fns.values() if x['id'].startswith('dyablo::primToCons<%d>(' % mesh.ndim) and 'Prim' + fam in x['id'] or
               x['id'].startswith('dyablo::primToCons<%d' % mesh.ndim) and 'const dyablo::Prim%s &' % fam in x['id'])
    cache = {}

    def cons(g, key, cell):
        if not (isinstance(key, tuple) and key[0] == 'U'):
            raise Unsup('array read before it is written')
        nm = key[1]
        if nm not in names.values():
            if init:
                return init(g, nm, cell)
            return g.atom(('unwritten', nm, cell))
        pos, s = cell
        if not mesh.inside(pos) or mesh.size(*pos) != s or mesh.low(pos, s) != tuple(pos):
            raise Unsup('read of a cell that is not a leaf: %s' % (cell,))
        if cell not in cache:
            q = S()
            q.t = 'dyablo::Prim' + fam
            for k in [x['n'] for x in p.recs[q.t]['fields']]:
                q[k] = prim(g, k, cell)
            u, _, _ = g.apply(ptc, [q, gam])
            cache[cell] = u
        ix = next(i for i, n in names.items() if n == nm)
        return g.short(cache[cell][members_by_index(p, g, fam)[ix]])
    g.init = cons
    g.names = names
    st = State()
    pr = S()
    pr.t = 'dyablo::RiemannParams'
    for q in p.recs['dyablo::RiemannParams']['fields']:
        pr[q['n']] = g.atom('params.' + q['n'], True) if q['t'] == 'double' else g.default('params.' + q['n'], q['t'])
    pr['gamma0'] = gam
    g.prebuilt = {'dyablo::RiemannParams': pr}
    g.conf = dict(conf or {})
    if nofloor:
        pr['smallr'] = pr['smallp'] = C(0)
    this = configured(p, g, f, st, extra)
    from .vg import OS
    o = OS(Opq('this', f['cls']), this)
    c = ('in', 'this')
    st.mem[c] = o
    U, sd = Opq('U', 'dyablo::UserData'), Opq('scalar_data', 'dyablo::ScalarSimulationData')
    g.apply(f, [U, sd], LV(c, (), f['cls']), st)
    return g


def configured(p, g, f, st, extra=()):
    """the component as its constructor leaves it, settings taken from g.conf"""
    cls = f.get('clsd') or f['cls']
    short = cls.split('<')[0].split('::')[-1]
    cs = [x for x in p.fns.values() if x.get('clsd') == cls and '$' not in x['id'] and x['n'].split('<')[0] == short and x.get('body') and len(x['params']) == 3 + len(extra)]
    if len(cs) != 1:
        raise Unsup('constructor of ' + cls)
    v = g.make(st, cls)
    c = ('in', 'new')
    st.mem[c] = v
    g.apply(cs[0], [Opq('config', 'ConfigMap'), Opq('foreach_cell', 'ForeachCell'), Opq('timers', 'Timers')] + list(extra), LV(c, (), cls), st)
    v = st.mem[c]
    r = S(v)
    r.t = cls
    return r


_mbi = {}


def members_by_index(p, g, fam):
    """conservative member stored at each field index: read off setConservativeState"""
    if fam in _mbi:
        return _mbi[fam]
    t = 'dyablo::Cons' + fam
    en = {}
    for e in p.enums.values():
        for c in e.get('consts', e.get('c', ())):
            pass
    f = next(x for x in p.fns.values() if x['id'].startswith('dyablo::setConservativeState<3') and t in x['id'])
    u = S()
    u.t = t
    mem = [q['n'] for q in p.recs[t]['fields']]
    h = Grid(p, Mesh(3, (1, 1, 1), lambda x, y, z: 1), None)
    h.init = lambda g, k, c: C(0)
    for m in mem:
        u[m] = h.atom(m)
    st = State()
    r, st, _ = h.apply(f, [Opq(('array', 0), ''), h.cellv((0, 0, 0), 1), u], None, st)
    out = {}
    for k, v in st.mem.items():
        if k[0] == 'mem':
            for m in mem:
                if h.equal(v, u[m]):
                    out[k[1][1]] = m
    _mbi[fam] = out
    return out


def result(g, name, cell):
    """value of a field after the update"""
    return g.gread(('mem', ('U', name), cell, len(g.kernels)))


def written(g, v):
    return not (isinstance(v, Leaf) and len(v.v.n) == 1 and any(g.atoms[a][0] == 'unwritten' for m in v.v.n for a, _ in m))
