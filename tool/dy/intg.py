"""Integer value numbering: indices, block sizes and mesh coordinates as polynomials over integer atoms.

Adds to vg.py exact floor division, remainder, shifts by symbolic amounts and the wrap of unsigned comparisons, decided by the
sign of polynomials over atoms known to be non-negative (facts such as 0 <= i < bx are expressed by writing bx = i + 1 + r)."""
from fractions import Fraction
from .facts import kids
from .ast import args, callee_obj
from .vg import VG, S, LV, Opq, Leaf, Node, Rat, Unsup, rconst, TRUE, FALSE, base, num, pdiv

UNS = ('unsigned int', 'unsigned long', 'unsigned char', 'unsigned short', 'unsigned long long', 'uint32_t', 'uint64_t', 'size_t')


def C(x):
    return Leaf(rconst(x))


class IVG(VG):
    def __init__(self, p, hooks=None):
        super().__init__(p, extern=IVG.hook)
        self.subst = {}          # atom id -> Rat, facts for sign tests
        self.hooks = hooks or {}

    def nat(self, key):
        """integer atom >= 0"""
        x = self.atom(key)
        (m, _), = x.v.n.items()
        self.nonneg.add(m[0][0])
        return x

    def fact(self, x, y):
        """x (an atom) equals y in sign tests"""
        (m, _), = x.v.n.items()
        self.subst[m[0][0]] = y.v

    def expandf(self, r):
        for _ in range(4):
            if not any(a in self.subst for q in (r.n, r.d) for m in q for a, _ in m):
                return r
            r = self.rdiv(self.sub1(r.n), self.sub1(r.d))
        return r

    def sub1(self, q):
        out = rconst(0)
        for m, c in q.items():
            t = rconst(c)
            for a, e in m:
                x = self.subst.get(a) or Rat({((a, 1),): Fraction(1)})
                for _ in range(e):
                    t = self.rmul(t, x)
            out = self.radd(out, t)
        return out

    def sign(self, r):
        s = super().sign(r)
        if s is None and self.subst:
            s = super().sign(self.expandf(r))
        return s

    def weak(self, r):
        s = super().weak(r)
        if s is None and self.subst:
            s = super().weak(self.expandf(r))
        return s

    def gt0(self, r):
        """integers: x > 0 and x < 0 are separate conditions"""
        s = self.sign(r)
        if s is not None:
            return TRUE if s > 0 else FALSE
        w = self.weak(r)
        if w == -1:
            return FALSE
        if w == 1:
            return self.notb(self.eq0(r))
        lead = abs(r.n[min(r.n)])
        return self.cond('pos', Rat({m: v / lead for m, v in r.n.items()}, r.d))

    def ge0(self, r):
        return self.notb(self.gt0(self.radd(rconst(0), r, -1)))

    def settle(self, v):
        """value of a conditional whose branches agree where the condition holds as an equality"""
        if not isinstance(v, Node):
            return v
        hi, lo = self.settle(v.hi), self.settle(v.lo)
        k, x = self.conds[v.c]
        if k == 'zero' and isinstance(hi, Leaf) and isinstance(lo, Leaf) and isinstance(hi.v, Rat) and isinstance(lo.v, Rat):
            d = self.radd(hi.v, lo.v, -1)
            if not d.n or pdiv(d.n, x.n) is not None:
                return lo
        return v

    def nonnegr(self, r):
        return not r.n or self.sign(r) in (0, 1) or self.weak(r) in (0, 1)

    def posr(self, r):
        return self.sign(r) == 1

    def floorq(self, x):
        """floor of a rational expression, None when not decided"""
        c = x.const()
        if c is not None:
            return rconst(c.numerator // c.denominator)
        one = rconst(1)
        cand = []
        d = x.d
        dc = d[()] if list(d) == [()] else None
        if dc is not None:
            q = {}
            for m, v in x.n.items():
                v = v / dc
                w = v.numerator // v.denominator
                if w:
                    q[m] = Fraction(w)
            cand.append(Rat(q))
        elif len(d) == 1:
            (dm, dv), = d.items()
            q = {}
            for m, v in x.n.items():
                t = pdiv({m: v}, d)
                if t is not None and all(u.denominator == 1 for u in t.values()):
                    for a, b in t.items():
                        q[a] = q.get(a, 0) + b
            cand.append(Rat(q))
        else:
            q = pdiv(x.n, d)
            if q is not None:
                cand.append(Rat(q))
        out = []
        for b in cand + [rconst(0)]:
            for k in (0, 1, -1, 2, -2):
                q = self.radd(b, rconst(k))
                if self.nonnegr(self.radd(x, q, -1)) and self.posr(self.radd(self.radd(q, one), x, -1)):
                    return q
        return None

    def trunc(self, x):
        x = num(x)
        if self.nonnegr(x):
            q = self.floorq(x)
        else:
            m = self.radd(rconst(0), x, -1)
            q = self.floorq(m) if self.nonnegr(m) else None
            q = self.radd(rconst(0), q, -1) if q is not None else None
        return q if q is not None else super().trunc(x)

    def div(self, a, b, integer=False):
        if not integer:
            return super().div(a, b)

        def f(x, y):
            x, y = num(x), num(y)
            if x.const() is not None and y.const():
                return num(super(IVG, self).div(Leaf(x), Leaf(y), True).v)
            t = self.trunc(self.rdiv(x, y))
            return t
        return self.ap(f, a, b)

    def arith(self, o, a, b, ta='', tb=''):
        if o in ('%', '<<', '>>') and isinstance(a, (Leaf, Node)) and isinstance(b, (Leaf, Node)):
            def f(x, y):
                x, y = num(x), num(y)
                if x.const() is not None and y.const() is not None:
                    return num(super(IVG, self).arith(o, Leaf(x), Leaf(y), ta, tb).v)
                if o == '%':
                    q = self.trunc(self.rdiv(x, y))
                    if any(isinstance(self.atoms[i], tuple) and self.atoms[i][0] == 'trunc' for m in q.n for i, _ in m):
                        # parity of a product with an even constant factor is handled by trunc; otherwise unknown
                        return self.fatom('op%', (x, y))
                    return self.radd(x, self.rmul(q, y), -1)
                if o == '<<':
                    return self.rmul(x, self.pow2(y))
                q = self.floorq(self.rdiv(x, self.pow2(y)))
                return q if q is not None else self.fatom('op>>', (x, y))
            return self.ap(f, a, b)
        return super().arith(o, a, b, ta, tb)

    def pow2(self, y):
        c = y.n.get((), Fraction(0)) if list(y.d) == [()] else Fraction(0)
        if list(y.d) == [()]:
            c = c / y.d[()]
        if c.denominator != 1:
            c = Fraction(0)
        k = Fraction(2) ** int(c)
        z = self.radd(y, rconst(c), -1)
        if not z.n:
            return rconst(k)
        if len(z.n) == 1 and list(z.n.values())[0] < 0:
            return self.rdiv(rconst(k), self.pow2(self.radd(rconst(0), z, -1)))
        r = self.fatom('pow2', (z,))
        (m, _), = r.n.items()
        self.pos.add(m[0][0])
        return self.rmul(rconst(k), r)

    def binop(self, st, n, fr):
        if n['o'] in ('<', '>', '<=', '>='):
            a, b = kids(n)
            if base(a.get('t', '')) in UNS or base(b.get('t', '')) in UNS:
                x, y = self.val(st, a, fr), self.val(st, b, fr)
                if isinstance(x, Leaf) and isinstance(y, Leaf):
                    nx, ny = self.sign(num(x.v)) == -1, self.sign(num(y.v)) == -1
                    if nx != ny:
                        # a negative value converted to unsigned is larger than any index
                        return TRUE if nx == (n['o'] in ('>', '>=')) else FALSE
                    # known order
                    d = self.radd(num(x.v), num(y.v), -1)
                    m = self.radd(rconst(0), d, -1)
                    o = n['o']
                    if o == '>=' and self.nonnegr(d) or o == '<=' and self.nonnegr(m):
                        return TRUE
                    if o == '<' and self.nonnegr(d) or o == '>' and self.nonnegr(m):
                        return FALSE
        return super().binop(st, n, fr)

    def hook(self, st, n, fr):
        name = (n.get('fn') or (kids(n)[0].get('n') if kids(n) else '') or '').split('::')[-1]
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, n, fr, args(n))
            if r is not None:
                return r
        if name in ('floor', 'ceil') and len(args(n)) == 1:
            v = self.val(st, args(n)[0], fr)

            def f(x):
                x = num(x)
                if name == 'ceil':
                    x = self.radd(rconst(0), x, -1)
                q = self.floorq(x)
                if q is None:
                    return self.fatom(name, (x,))
                return q if name == 'floor' else self.radd(rconst(0), q, -1)
            return self.ap(f, v)
        if name in ('pow',) and len(args(n)) == 2:
            x, y = self.val(st, args(n)[0], fr), self.val(st, args(n)[1], fr)
            if isinstance(x, Leaf) and isinstance(y, Leaf) and num(x.v).const() == 2:
                return Leaf(self.pow2(num(y.v)))
        return None
