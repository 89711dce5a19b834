import re
from fractions import Fraction
from ..facts import kids, walk, AnalysisError
from ..ast import strip, args, expr, CTORS
from ..vg import VG, Leaf, Rat, rconst, S, LV, State, Unsup, Opq, base, arr_len, num

RULE = ('value numbering of the state functions: primitive/conservative conversions are inverse, loading after storing is '
        'the identity and every variable has its own slot, exchanging a component twice is the identity and exchanges '
        'exactly the normal component (velocity and magnetic field) with x, arithmetic acts member by member')
EXPLAIN = ('every function of states/*.h, template instantiations included, is reduced to a normal form (exact rational '
           'functions of its inputs under decision diagrams) and compositions are compared with the identity or with the '
           'member-wise specification; all inputs are covered because the comparison is between normal forms')
TRUSTED = ('exact arithmetic stands for floating point: rounding is not decided',)

FAM = ('Hydro', 'MHD', 'GLMMHD')
VEC = {'Prim': [('u', 'v', 'w')], 'Cons': [('rho_u', 'rho_v', 'rho_w')]}
B = ('Bx', 'By', 'Bz')
FIELDNAME = {'rho_vx': 'rho_u', 'rho_vy': 'rho_v', 'rho_vz': 'rho_w'}   # name on disk / in UserData -> member


def Z():
    return Leaf(rconst(0))


def find(p, q, pred=lambda f: True):
    return [f for f in p.byq.get(q, []) if f.get('body') and pred(f)]


def ty(f, i):
    return base(f['params'][i]['t']) if i < len(f['params']) else ''


def at_hook(vg, st, n, fr):
    """array element access of any array class: a memory cell named by array, cell and slot"""
    if n['k'] == 'CXXMemberCallExpr' and kids(n)[0].get('n') == 'at' and len(args(n)) == 2:
        from ..ast import callee_obj
        o = vg.ev(st, callee_obj(n), fr)
        o = vg.load(st, o) if isinstance(o, LV) else o
        i = vg.val(st, args(n)[0], fr)
        v = vg.val(st, args(n)[1], fr)
        return LV(('ext', 'at', vg.key(o), vg.key(i), vg.key(v)), (), 'double')
    return None


def run(p, ck):
    n = 0
    undecided = []

    def guard(key, fn, where):
        nonlocal n
        try:
            r = fn()
        except Unsup as e:
            undecided.append('%s: %s' % (key, e))
            return
        n += 1
        if r:
            ck.bad(key, where, r)
        else:
            ck.ok(key)

    def eq(vg, a, b, what):
        return None if vg.equal(a, b) else '%s: %s' % (what, vg.diff(a, b))

    # --- conversions
    conv = {}
    for name in ('consToPrim', 'primToCons'):
        for f in find(p, 'dyablo::' + name):
            t = ty(f, 0)
            nd = int(f['ta'][0]) if f.get('ta') and f['ta'][0].isdigit() else 0
            conv[(name, t, nd)] = f
    for fam in FAM:
        P, C = 'dyablo::Prim%sState' % fam, 'dyablo::Cons%sState' % fam
        for nd in (2, 3):
            a, b = conv.get(('consToPrim', C, nd)), conv.get(('primToCons', P, nd))
            if not a or not b:
                continue
            w = '%s:%s' % (a['file'], a['line'])

            def cp():
                vg = VG(p)
                U = vg.sym('U', C)
                if nd == 2:
                    U = U.put('rho_w', Z())
                g = vg.atom('gamma')
                Q, _, _ = vg.apply(a, [U, g])
                R, _, _ = vg.apply(b, [Q, g])
                return eq(vg, R, U, 'primToCons(consToPrim(U)) is not U')

            def pc():
                vg = VG(p)
                Q = vg.sym('Q', P)
                if nd == 2:
                    Q = Q.put('w', Z())
                g = vg.atom('gamma')
                U, _, _ = vg.apply(b, [Q, g])
                R, _, _ = vg.apply(a, [U, g])
                return eq(vg, R, Q, 'consToPrim(primToCons(Q)) is not Q')

            def energy():
                # sum of kinetic, magnetic and internal energy, momentum = density * velocity
                vg = VG(p)
                Q = vg.sym('Q', P)
                if nd == 2:
                    Q = Q.put('w', Z())
                g = vg.atom('gamma')
                U, _, _ = vg.apply(b, [Q, g])
                A, M, D = vg.add, vg.mul, vg.div
                h = Leaf(rconst(Fraction(1, 2)))
                e = A(D(Q['p'], vg.sub(g, Leaf(rconst(1)))), M(h, M(Q['rho'], A(A(M(Q['u'], Q['u']), M(Q['v'], Q['v'])), M(Q['w'], Q['w'])))))
                if 'Bx' in Q:
                    e = A(e, M(h, A(A(M(Q['Bx'], Q['Bx']), M(Q['By'], Q['By'])), M(Q['Bz'], Q['Bz']))))
                ref = S(U)
                ref['rho'] = Q['rho']
                ref['e_tot'] = e
                for m, v in zip(('rho_u', 'rho_v', 'rho_w'), 'uvw'):
                    ref[m] = M(Q['rho'], Q[v])
                for m in B + ('psi',):
                    if m in U:
                        ref[m] = Q[m]
                return eq(vg, U, ref, 'primToCons(Q) is not density, momentum, total energy and field of Q')
            guard('convert:%s:%d:cons-prim-cons' % (fam, nd), cp, w)
            guard('convert:%s:%d:prim-cons-prim' % (fam, nd), pc, w)
            guard('convert:%s:%d:definition' % (fam, nd), energy, w)
    # --- exchange of components
    swaps = {}
    for f in find(p, 'dyablo::swapComponents'):
        swaps[ty(f, 0)] = f
    for t, f in sorted(swaps.items()):
        kind = 'Prim' if '::Prim' in t else 'Cons'
        w = '%s:%s' % (f['file'], f['line'])
        vecs = [v for v in VEC[kind] + [B] if any(x['n'] == v[0] for x in p.recs[t]['fields'])]
        for c in range(3):
            def sw():
                vg = VG(p)
                q = vg.sym('q', t)
                r, _, _ = vg.apply(f, [q, Leaf(rconst(c))])
                ref = q
                for v in vecs:
                    ref = ref.put(v[0], q[v[c]]).put(v[c], q[v[0]])
                return eq(vg, r, ref, 'swapComponents(q, %s) does not exchange exactly the x and %s components' % ('I' + 'XYZ'[c], 'xyz'[c]))

            def tw():
                vg = VG(p)
                q = vg.sym('q', t)
                r, _, _ = vg.apply(f, [q, Leaf(rconst(c))])
                r, _, _ = vg.apply(f, [r, Leaf(rconst(c))])
                return eq(vg, r, q, 'swapping %s twice does not give the state back' % ('I' + 'XYZ'[c]))
            guard('swap:%s:%s' % (t, 'xyz'[c]), sw, w)
            guard('swap:%s:%s:twice' % (t, 'xyz'[c]), tw, w)
    # --- load and store
    slots = {}
    for what, kind in (('Primitive', 'Prim'), ('Conservative', 'Cons')):
        gets = {}
        for f in find(p, 'dyablo::get%sState' % what):
            gets.setdefault((ty(f, 2), f['ta'][0]), []).append(f)
        sets = {}
        for f in find(p, 'dyablo::set%sState' % what):
            sets.setdefault((ty(f, 2), f['ta'][0]), []).append(f)
        for (t, nd), fs in sorted(sets.items()):
            for f in fs:
                def written():
                    vg = VG(p, extern=at_hook)
                    u = vg.sym('u', t)
                    A, I = Opq('A'), Opq('I')
                    _, st, _ = vg.apply(f, [A, I, u])
                    m = {}
                    for cell, v in st.mem.items():
                        if cell[0] == 'ext' and cell[1] == 'at':
                            if cell[2] != 'A' or cell[3] != 'I':
                                return 'stores into another array or cell than the one given'
                            s = cell[4]
                            who = [k for k in u if vg.equal(u[k], v)]
                            if len(who) != 1:
                                return 'stores something else than one member in slot %s: %s' % (s, vg.show(v))
                            if who[0] in m:
                                return 'stores member %s twice' % who[0]
                            m[who[0]] = s
                    want = set(u) - ({'w', 'rho_w'} if nd == '2' else set())
                    if set(m) != want:
                        return 'stores members %s, not %s' % (sorted(m), sorted(want))
                    if len(set(m.values())) != len(m):
                        return 'two members share one slot'
                    sl = slots.setdefault(t, {})
                    for k, s in m.items():
                        if sl.setdefault(k, s) != s:
                            return 'member %s is stored in different slots by different instantiations' % k
                    return None
                guard('store:%s:%s' % (t, nd), written, '%s:%s' % (f['file'], f['line']))
            for g in gets.get((t, nd), []):
                f = fs[0]

                def back():
                    vg = VG(p, extern=at_hook)
                    u = vg.sym('u', t)
                    if nd == '2':
                        u = u.put('rho_w' if 'rho_w' in u else 'w', Z())
                    A, I = Opq('A'), Opq('I')
                    _, st, _ = vg.apply(f, [A, I, u])
                    _, st, cs = vg.apply(g, [A, I, vg.sym('r', t)], None, st)
                    return eq(vg, vg.load(st, cs[2]), u, 'loading after storing does not give the state back')
                guard('load-store:%s:%s' % (t, nd), back, '%s:%s' % (g['file'], g['line']))
        for (t, nd), gs in sorted(gets.items()):
            for g in gs:
                def reads():
                    vg = VG(p, extern=at_hook)
                    A, I = Opq('A'), Opq('I')
                    _, st, cs = vg.apply(g, [A, I, vg.sym('r', t)])
                    r = vg.load(st, cs[2])
                    for k, v in r.items():
                        if nd == '2' and k in ('w', 'rho_w'):
                            if not vg.equal(v, Z()):
                                return 'two-dimensional state has a non-zero %s' % k
                            continue
                        s = slots.get(t, {}).get(k)
                        if s is None:
                            a = v.v.n if isinstance(v, Leaf) else {}
                            if not (isinstance(v, Leaf) and len(a) == 1):
                                return 'member %s is not loaded from one slot: %s' % (k, vg.show(v))
                            continue
                        x = vg.atom(('ext', 'at', 'A', 'I', s))
                        if not vg.equal(v, x):
                            return 'member %s is loaded from %s, but stored elsewhere' % (k, vg.show(v))
                    return None
                guard('load:%s:%s' % (t, nd), reads, '%s:%s' % (g['file'], g['line']))
    # --- field name <-> slot <-> member (conservative variables live in named fields)
    for fam in FAM:
        t = 'dyablo::Cons%sState' % fam
        fs = [f for f in p.byq.get(t + '::getFieldsInfo', []) if f.get('body')]
        sl = slots.get(t)
        if not fs or not sl:
            continue
        f = fs[0]
        pairs = {}
        for x in p.nodes(f):
            if x['k'] == 'InitListExpr' or x['k'] in CTORS:
                c = [strip(y) for y in kids(x)]
                if len(c) == 2:
                    a, b = c
                    a = name_of(a)
                    if a and 'v' in b and b.get('dk') == 'enum':
                        pairs[a] = int(b['v'])
        if not pairs:
            undecided.append('names of ' + t)
            continue
        bykey = {}
        for k, s in sl.items():
            bykey[s] = k
        vg = VG(p)
        for nm, v in sorted(pairs.items()):
            n += 1
            mem = bykey.get(vg.key(Leaf(rconst(v))))
            want = FIELDNAME.get(nm, nm)
            key = 'names:%s:%s' % (t, nm)
            if mem != want:
                ck.bad(key, '%s:%s' % (f['file'], f['line']), 'field "%s" is bound to the slot of member %s' % (nm, mem))
            else:
                ck.ok(key)
        for k in sl:
            if k not in {FIELDNAME.get(x, x) for x in pairs}:
                ck.bad('names:%s:missing:%s' % (t, k), '%s:%s' % (f['file'], f['line']), 'member %s has no named field' % k)
    # --- arithmetic
    OPS = ('+', '-', '*', '/')
    for f in p.fns.values():
        m = re.match(r'^dyablo::operator([-+*/])(=?)$', f['q'])
        if not m or not f.get('body') or len(f['params']) != 2:
            continue
        t0, t1 = ty(f, 0), ty(f, 1)

        def isst(t):
            return (t.startswith('dyablo::') and t.endswith('State') and t in p.recs) or (arr_len(t) and arr_len(t)[0] == 'double')
        if not (isst(t0) or isst(t1)):
            continue
        o, comp = m.group(1), m.group(2)

        def op():
            vg = VG(p)
            l, r = vg.sym('l', t0), vg.sym('r', t1)
            res, st, cs = vg.apply(f, [l, r])
            out = vg.load(st, cs[0]) if comp else res
            F = {'+': vg.add, '-': vg.sub, '*': vg.mul, '/': vg.div}[o]
            ref = S()
            for k in (l if isinstance(l, S) else r):
                ref[k] = F(l[k] if isinstance(l, S) else l, r[k] if isinstance(r, S) else r)
            return eq(vg, out, ref, 'operator%s%s is not member-wise' % (o, comp))
        guard('arith:%s%s:%s:%s' % (o, comp, t0, t1), op, '%s:%s' % (f['file'], f['line']))
    # --- GLM state seen as MHD state
    for f in find(p, 'dyablo::GLMToMHD'):
        def glm():
            vg = VG(p)
            q = vg.sym('q', ty(f, 0))
            r, _, _ = vg.apply(f, [q])
            for k in r:
                if not vg.equal(r[k], q[k]):
                    return 'member %s becomes %s' % (k, vg.show(r[k]))
            return None
        guard('glm-to-mhd', glm, '%s:%s' % (f['file'], f['line']))
    ck.assume += ['not decided: ' + u for u in undecided[:20]]
    ck.count('not decided', len(undecided))
    ck.require('normal forms compared', n, 60)


def name_of(n):
    n = strip(n)
    if n['k'] in CTORS:
        c = [x for x in kids(n) if x['k'] != 'DefArg']
        return name_of(c[0]) if len(c) == 1 else None
    return n['v'] if n['k'] == 'StringLiteral' else None
