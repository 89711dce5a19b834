import re
from fractions import Fraction
from ..facts import kids, walk, AnalysisError
from ..vg import VG, Leaf, Node, Rat, rconst, S, LV, State, Unsup, Opq, base, arr_len, num, TRUE

RULE = ('value numbering of every Riemann solver: with equal states on both sides the flux is the physical flux of that '
        'state; the two transverse directions are treated alike; mirroring the problem mirrors the flux; when all waves '
        'move one way the flux is that of the upwind state')
EXPLAIN = ('each solver and wrapper is reduced to a decision diagram over its wave-speed tests with rational-function leaves; '
           'the diagram for transformed inputs is compared with the transformed diagram, leaf by leaf under the orderings '
           'of the wave speeds that can occur')
TRUSTED = ('exact arithmetic stands for floating point', 'density and pressure floors are inactive (set to zero) in the comparison',
           'left-going waves are never faster to the right than the right-going ones')
MEMB = {'Hydro': ('rho', 'e_tot', 'rho_u', 'rho_v', 'rho_w'),
        'MHD': ('rho', 'e_tot', 'rho_u', 'rho_v', 'rho_w', 'Bx', 'By', 'Bz')}
LEG = {'rho': 0, 'p': 1, 'e_tot': 1, 'u': 2, 'rho_u': 2, 'v': 3, 'rho_v': 3, 'w': 4, 'rho_w': 4}


def C(x):
    return Leaf(rconst(x))


def physical(vg, q, g, mhd):
    A, D, M, Q = vg.add, vg.sub, vg.mul, vg.div
    h = C(Fraction(1, 2))
    r, P, u, v, w = [q[k] for k in ('rho', 'p', 'u', 'v', 'w')]
    E = A(Q(P, D(g, C(1))), M(h, M(r, A(A(M(u, u), M(v, v)), M(w, w)))))
    pt = P
    if mhd:
        bx, by, bz = q['Bx'], q['By'], q['Bz']
        b2 = A(A(M(bx, bx), M(by, by)), M(bz, bz))
        E = A(E, M(h, b2))
        pt = A(P, M(h, b2))
    F = S()
    F['rho'] = M(r, u)
    F['rho_u'] = A(M(r, M(u, u)), pt)
    F['rho_v'] = M(r, M(u, v))
    F['rho_w'] = M(r, M(u, w))
    F['e_tot'] = M(A(E, pt), u)
    if mhd:
        for a, b in (('rho_u', bx), ('rho_v', by), ('rho_w', bz)):
            F[a] = D(F[a], M(bx, b))
        F['e_tot'] = D(F['e_tot'], M(bx, A(A(M(bx, u), M(by, v)), M(bz, w))))
        F['Bx'] = C(0)
        F['By'] = D(M(by, u), M(bx, v))
        F['Bz'] = D(M(bz, u), M(bx, w))
    return F


class Solver:
    """one solver function: how to call it"""

    def __init__(self, p, f):
        self.p, self.f = p, f
        ts = [base(q['t']) for q in f['params']]
        self.ts = ts
        self.st = ts[0]
        m = re.match(r'dyablo::Prim(\w+)State$', ts[0])
        self.fam = m.group(1) if m else 'Hydro'
        self.leg = arr_len(ts[0])
        self.mhd = self.fam != 'Hydro'
        self.ct = ts[0] if self.leg else 'dyablo::Cons%sState' % self.fam
        self.members = [k for k in MEMB['MHD' if self.mhd else 'Hydro'] if not self.leg or LEG[k] < self.leg[1]]

    def state(self, vg, name):
        q = vg.sym(name, 'dyablo::PrimHydroState' if self.leg else self.st, (name + '.rho', name + '.p'))
        if self.leg and self.leg[1] == 4:
            q = q.put('w', C(0))
        return q

    def call(self, vg, ql, qr, rtype=None):
        par = vg.sym('par', 'dyablo::RiemannParams')
        g1 = vg.atom('gamma-1', True)
        self.g = vg.add(g1, C(1))
        par = par.put('gamma0', self.g)
        for k in ('smallr', 'smallp', 'smallc', 'smalle', 'smallpp'):
            par = par.put(k, C(0))
        if rtype is not None:
            par = par.put('riemannSolverType', C(rtype))
        if self.leg:
            def conv(q):
                v = S()
                v.t = self.st
                for k in ('rho', 'p', 'u', 'v', 'w'):
                    if LEG[k] < self.leg[1]:
                        v[LEG[k]] = q[k]
                return v
            al, ar = conv(ql), conv(qr)
        else:
            al, ar = ql, qr
        vals = []
        nst = 0
        for q in self.f['params']:
            t = base(q['t'])
            if t == self.st and nst < 2:
                vals.append(al if nst == 0 else ar)
                nst += 1
            elif t == 'dyablo::RiemannParams':
                vals.append(par)
            elif t == self.ct:
                vals.append(vg.sym('flux0', t))
            elif t == 'double' and not q['t'].endswith('&') and self.fam == 'MHD' and self.f['rt'] == 'void':
                # normal field at the interface
                vals.append(vg.mul(vg.add(ql['Bx'], qr['Bx']), C(Fraction(1, 2))))
            else:
                vals.append(vg.atom(q['n'] if q['n'] == 'dt' else 'arg:' + q['t'], t == 'double' and not q['t'].endswith('&')))
        r, st, cells = vg.apply(self.f, vals)
        if base(self.f['rt']) == self.ct:
            fl = r
        else:
            fl = next(vg.load(st, c) for c, q in zip(cells, self.f['params']) if base(q['t']) == self.ct and (self.ct != self.st or q['t'].endswith('&') and not q['t'].startswith('const')))
        if self.leg:
            o = S()
            for k in self.members:
                o[k] = fl[LEG[k]]
            fl = o
        pout = None
        for c, q in zip(cells, self.f['params']):
            if q['t'] == 'double &':
                pout = vg.load(st, c)
        return fl, pout


def mirror(vg, q):
    r = q.put('u', vg.neg(q['u']))
    if 'Bx' in q:
        r = r.put('Bx', vg.neg(q['Bx']))
    return r


PARITY = {'rho': -1, 'e_tot': -1, 'rho_u': 1, 'rho_v': -1, 'rho_w': -1, 'Bx': 1, 'By': -1, 'Bz': -1}


def conds(x, out):
    if isinstance(x, Node):
        out.add(x.c)
        conds(x.hi, out)
        conds(x.lo, out)


def restrict(vg, x, asg):
    while isinstance(x, Node):
        if x.c not in asg:
            a, b = restrict(vg, x.hi, asg), restrict(vg, x.lo, asg)
            from ..vg import mk
            return mk(x.c, a, b)
        x = x.hi if asg[x.c] else x.lo
    return x


def waves(vg, e):
    """conditions of the energy flux that test wave speeds, ordered from the left-most to the right-most wave;
    None when they cannot be ordered"""
    cs = set()
    conds(e, cs)
    out = []
    for c in sorted(cs):
        k, x = vg.conds[c]
        if k != 'pos':
            continue                       # a parameter
        if not any(isinstance(vg.atoms[a], tuple) and vg.atoms[a][0] in ('let', 'sqrt', 'abs') for q in (x.n, x.d) for m in q for a, _ in m):
            continue                       # test of an input (sign of a field component)
        out.append(c)
    return out


def run(p, ck):
    sol = []
    for f in p.fns.values():
        if re.match(r'riemann', f['n']) and f.get('body') and not f.get('parent') and len(f['params']) >= 3:
            s = Solver(p, f)
            if base(f['params'][0]['t']) == base(f['params'][1]['t']) and (s.leg or s.st.startswith('dyablo::Prim')):
                sol.append(s)
    rt = {}
    for e in p.enums.values():
        for v in e['vals']:
            if v[0].startswith('RIEMANN_'):
                rt[v[0]] = int(v[1])
    undecided = []
    n = 0
    for s in sol:
        f = s.f
        w = '%s:%s' % (f['file'], f['line'])
        types = [None]
        if s.fam == 'GLMMHD':
            types = [rt[x] for x in ('RIEMANN_FIVE_WAVES', 'RIEMANN_HLLD') if x in rt]
        for t in types:
            key = '%s(%s)%s' % (f['n'], ','.join(x.split('::')[-1] for x in s.ts), '' if t is None else ':%d' % t)

            def guard(what, fn):
                nonlocal n
                try:
                    r = fn()
                except Unsup as e:
                    undecided.append('%s %s: %s' % (what, key, e))
                    return
                if r == 'skip':
                    undecided.append('%s %s' % (what, key))
                    return
                n += 1
                (ck.bad(what + ':' + key, w, r) if r else ck.ok(what + ':' + key))

            def consistent():
                vg = VG(p)
                q = s.state(vg, 'q')
                fl, pout = s.call(vg, q, q, t)
                ref = physical(vg, q, s.g, s.mhd)
                for k in s.members:
                    if k == 'Bx' and s.fam == 'GLMMHD':
                        z, _ = s.call(vg, q.put('psi', C(0)), q.put('psi', C(0)), t)
                        if not vg.equal(z['Bx'], C(0)):
                            return 'with equal states and psi = 0 the flux of Bx is %s, not 0' % vg.show(z['Bx'])
                        continue
                    if not vg.equal(fl[k], ref[k]):
                        return 'with equal states on both sides the flux of %s is %s, not the physical flux %s' % (k, vg.show(fl[k]), vg.show(ref[k]))
                if 'psi' in fl:
                    ch = vg.div(vg.atom('par.ch'), vg.atom('dt'))
                    r = vg.mul(vg.mul(ch, ch), q['Bx'])
                    if not vg.equal(fl['psi'], r):
                        return 'with equal states the flux of psi is %s, not (ch/dt)^2 Bx' % vg.show(fl['psi'])
                if pout is not None and not vg.equal(pout, q['p']):
                    return 'with equal states the interface pressure is %s, not the pressure' % vg.show(pout) if not s.mhd else None
                return None
            guard('consistent', consistent)

            def transverse():
                vg = VG(p)
                vg.letlimit = 3
                a, b = s.state(vg, 'l'), s.state(vg, 'r')
                fl, _ = s.call(vg, a, b, t)

                def swap(q):
                    q = q.put('v', q['w']).put('w', q['v'])
                    # note: q was rebound
                    return q

                def sw(q):
                    r = q.put('v', q['w']).put('w', q['v'])
                    if 'By' in q:
                        r = r.put('By', q['Bz']).put('Bz', q['By'])
                    return r
                fs, _ = s.call(vg, sw(a), sw(b), t)
                m = {'rho_v': 'rho_w', 'rho_w': 'rho_v', 'By': 'Bz', 'Bz': 'By'}
                for k in s.members:
                    if not vg.same2(fs[m.get(k, k)], fl[k]):
                        return 'exchanging the transverse directions changes the flux of %s: %s against %s' % (k, vg.show(fl[k]), vg.show(fs[m.get(k, k)]))
                return None
            def flipped():
                vg = VG(p)
                vg.letlimit = 3
                a, b = s.state(vg, 'l'), s.state(vg, 'r')
                fl, _ = s.call(vg, a, b, t)
                for comp in ('v', 'w'):
                    def fp(q):
                        r = q.put(comp, vg.neg(q[comp]))
                        m = {'v': 'By', 'w': 'Bz'}[comp]
                        if m in q:
                            r = r.put(m, vg.neg(q[m]))
                        return r
                    fs, _ = s.call(vg, fp(a), fp(b), t)
                    odd = {'v': ('rho_v', 'By'), 'w': ('rho_w', 'Bz')}[comp]
                    for k in s.members:
                        x = vg.neg(fs[k]) if k in odd else fs[k]
                        if not vg.same2(x, fl[k]):
                            return 'reversing the transverse direction %s changes the flux of %s: %s against %s' % (comp, k, vg.show(fl[k]), vg.show(x))
                return None
            if 'rho_w' in s.members:
                guard('transverse', transverse)
                guard('transverse reversed', flipped)

            def mirrored():
                vg = VG(p)
                vg.letlimit = 3
                a, b = s.state(vg, 'l'), s.state(vg, 'r')
                fl, _ = s.call(vg, a, b, t)
                fm, _ = s.call(vg, mirror(vg, b), mirror(vg, a), t)
                rep = vg.unify()
                fl = {k: vg.canon(v, rep) for k, v in fl.items()}
                fm = {k: vg.canon(v, rep) for k, v in fm.items()}
                ws = waves(vg, fl['e_tot'])
                if ws is None:
                    return 'skip'
                ok = orderings(vg, ws)
                if ok is None:
                    return 'skip'
                rho = fl['rho']
                for asg in ok:
                    asg = dict(asg)
                    fr = restrict(vg, rho, asg)
                    for k in s.members:
                        x = restrict(vg, fl[k], asg)
                        y = restrict(vg, fm[k], asg)
                        y = y if PARITY[k] > 0 else vg.neg(y)
                        if not vg.same2(x, y):
                            return 'the flux of %s of the mirrored problem is not the mirrored flux (waves %s): %s against %s' % (
                                k, ''.join('>' if asg[c] else '<' for c in ws), vg.show(x), vg.show(y))
                return None
            if s.fam != 'GLMMHD':
                guard('mirror', mirrored)

            def upwind():
                vg = VG(p)
                vg.letlimit = 3
                a, b = s.state(vg, 'l'), s.state(vg, 'r')
                if 'Bx' in a:
                    b = b.put('Bx', a['Bx'])      # normal field continuous
                fl, pout = s.call(vg, a, b, t)
                ws = waves(vg, fl['e_tot'])
                if not ws or len(ws) < 3:
                    return 'skip'
                ok = orderings(vg, ws)
                if ok is None:
                    return 'skip'
                for side, q in ((True, a), (False, b)):
                    asg = dict(ok[0 if side else -1])
                    ref = physical(vg, q, s.g, s.mhd)
                    # the flow itself then moves to that side
                    cs = set()
                    conds(vg.gt0(ref['rho'].v), cs)
                    d = vg.gt0(ref['rho'].v)
                    if isinstance(d, Node):
                        asg[d.c] = (d.hi is TRUE) == side
                    for k in s.members:
                        x = restrict(vg, fl[k], asg)
                        if not vg.same2(x, ref[k]):
                            return 'when every wave moves to the %s the flux of %s is %s, not that of the %s state' % (
                                'right' if side else 'left', k, vg.show(x), 'left' if side else 'right')
                return None
            if s.fam != 'GLMMHD':
                guard('upwind', upwind)
            def jump():
                # across every wave left (right) of the contact the flux jumps by the wave's speed times the jump of the
                # conserved state; the state behind the wave follows from the fluxes and must have that flux
                vg = VG(p)
                vg.letlimit = 3
                a, b = s.state(vg, 'l'), s.state(vg, 'r')
                if s.mhd:
                    # mirroring covers the other sign of the normal field
                    b0 = vg.atom('normal field', True)
                    a, b = a.put('Bx', b0), b.put('Bx', b0)
                fl, _ = s.call(vg, a, b, t)
                ws = waves(vg, fl['e_tot'])
                ok = orderings(vg, ws) if ws else None
                if ok is None or len(ok) != len(ws) + 1 or len(ws) % 2 == 0 or len(ws) < 3:
                    return 'skip'
                A, D, M, Q = vg.add, vg.sub, vg.mul, vg.div
                half = len(ws) // 2
                for side, q, regs in (('left', a, ok[:half + 1]), ('right', b, ok[:half:-1])):
                    F0 = physical(vg, q, s.g, s.mhd)
                    U = {'rho': q['rho'], 'rho_u': M(q['rho'], q['u']), 'rho_v': M(q['rho'], q['v']), 'rho_w': M(q['rho'], q['w'])}
                    E = A(Q(q['p'], D(s.g, C(1))), M(C(Fraction(1, 2)), A(M(U['rho_u'], q['u']), A(M(U['rho_v'], q['v']), M(U['rho_w'], q['w'])))))
                    if s.mhd:
                        U['By'], U['Bz'] = q['By'], q['Bz']
                        E = A(E, M(C(Fraction(1, 2)), A(M(q['Bx'], q['Bx']), A(M(q['By'], q['By']), M(q['Bz'], q['Bz'])))))
                    U['e_tot'] = E
                    for nb, asg in zip(regs, regs[1:]):
                        c, = [c for c in ws if nb[c] != asg[c]]
                        sp = Leaf(vg.conds[c][1])
                        if ok[0][c] is False:      # stored test has the other orientation
                            sp = vg.neg(sp)
                        F = {k: restrict(vg, fl[k], asg) for k in s.members}
                        d = vg.gt0(F['rho'].v) if isinstance(F['rho'], Leaf) else None
                        if isinstance(d, Node):    # the flow goes to the far side of the contact
                            rep = vg.unify()
                            rc, neg = rep[d.c]
                            pos = (d.hi is TRUE) == (side == 'left')
                            for c2, (r2, n2) in rep.items():
                                if r2 == rc:
                                    asg = {**asg, c2: pos if neg == n2 else not pos}
                            F = {k: restrict(vg, fl[k], asg) for k in s.members}
                        U = {k: vg.short(A(v, Q(D(F[k], F0[k]), sp))) for k, v in U.items() if k in F}
                        u = vg.short(Q(F['rho'], U['rho']))
                        v = Q(U['rho_v'], U['rho'])
                        w = Q(U['rho_w'], U['rho']) if 'rho_w' in U else C(0)
                        P = D(F['rho_u'], M(F['rho'], u))
                        exp = {'rho': U['rho_u'], 'rho_v': M(F['rho'], v), 'e_tot': M(A(U['e_tot'], P), u)}
                        if 'rho_w' in U:
                            exp['rho_w'] = M(F['rho'], w)
                        if s.mhd:
                            bx = q['Bx']
                            P = A(P, M(bx, bx))
                            exp['rho_v'] = D(exp['rho_v'], M(bx, U['By']))
                            exp['rho_w'] = D(exp['rho_w'], M(bx, U['Bz']))
                            exp['By'] = D(M(U['By'], u), M(bx, v))
                            exp['Bz'] = D(M(U['Bz'], u), M(bx, w))
                            exp['e_tot'] = D(M(A(U['e_tot'], P), u), M(bx, A(A(M(bx, u), M(U['By'], v)), M(U['Bz'], w))))
                        for k, y in exp.items():
                            if not vg.same2(F[k], y):
                                return 'behind wave %d from the %s the flux of %s is not the one the jump condition across that wave requires' % (
                                    regs.index(nb) + 1, side, k)
                        F0 = F
                return None
            if s.fam != 'GLMMHD':
                guard('jump', jump)
    ck.assume += ['not decided: ' + u for u in undecided[:30]]
    ck.count('not decided', len(undecided))
    ck.count('solvers', len(sol))
    ck.require('normal forms compared', n, 5)


def orderings(vg, ws):
    """truth assignments of the wave tests that can occur: a wave further right is never slower. The order of the
    waves is found from their speeds for a uniform state; None when it cannot be established"""
    if not ws:
        return [{}]
    if len(ws) == 1:
        return [{ws[0]: True}, {ws[0]: False}]

    def uni(r):
        # right state := left state
        sub = {}

        def at(i):
            k = vg.atoms[i]
            if isinstance(k, str):
                return vg.atom(('l.' + k[2:]) if k.startswith('r.') else k, i in vg.pos).v
            name, xs = k
            if not isinstance(xs, tuple) or not all(isinstance(x, Rat) for x in xs):
                return Rat({((i, 1),): Fraction(1)})
            ys = [uni(x) for x in xs]
            if name == 'sqrt':
                return vg.sqrtv(Leaf(ys[0])).v
            if name == 'abs':
                return vg.absv(Leaf(ys[0])).v
            if name == 'let':
                return ys[0]
            return vg.fatom(name, tuple(ys))

        def poly(q):
            t = rconst(0)
            for m, c in q.items():
                z = rconst(c)
                for a, e in m:
                    if a not in sub:
                        sub[a] = at(a)
                    for _ in range(e):
                        z = vg.rmul(z, sub[a])
                t = vg.radd(t, z)
            return t
        return vg.rdiv(poly(r.n), poly(r.d))
    u = vg.atom('l.u').v
    dev = {}
    for c in ws:
        try:
            d = vg.radd(uni(vg.conds[c][1]), u, -1)
        except Unsup:
            return None
        s = vg.sign(d)
        if s is None:
            s = vg.weak(d)
        flip = False
        if s is None:
            # orientation of the stored test may be reversed
            d2 = vg.radd(rconst(0), vg.radd(uni(vg.conds[c][1]), u), -1)
            s2 = vg.sign(d2)
            s2 = vg.weak(d2) if s2 is None else s2
            if s2 is None:
                return None
            s, flip, d = s2, True, d2
        fast = any('gamma-1' in names(vg, a) for m in d.n for a, _ in m)
        dev[c] = (s * (2 if fast else 1), flip)
    order = sorted(ws, key=lambda c: dev[c][0])
    out = []
    lev = sorted({dev[c][0] for c in ws})
    for k in range(len(lev) + 1):
        # waves lev[k:] move right (speed > 0), lev[:k] move left; tests of one wave agree
        asg = {}
        for i, c in enumerate(order):
            right = lev.index(dev[c][0]) >= k
            asg[c] = right != dev[c][1]
        out.append(asg)
    return out


def names(vg, a, seen=None):
    k = vg.atoms[a]
    if isinstance(k, str):
        return {k}
    out = set()
    if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], tuple):
        for x in k[1]:
            if isinstance(x, Rat):
                for q in (x.n, x.d):
                    for m in q:
                        for b, _ in m:
                            out |= names(vg, b)
    return out
