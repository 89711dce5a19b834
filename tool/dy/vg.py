"""Value numbering of kernels.

Every expression of a function is mapped to a normal form: a decision diagram over comparison conditions whose
leaves are rational functions (exact polynomials over atoms: inputs, memory cells, square roots, ...). Two
expressions with the same normal form denote the same value for all inputs, whatever way they are written (helpers
are inlined, constant loops unrolled, products expanded). No inputs are chosen and nothing is executed; code the
normal form cannot express raises Unsup and is reported as not decided."""
from fractions import Fraction
from decimal import Decimal, getcontext
from .facts import kids, walk
from .ast import strip, args, callee_obj, CTORS, expr


getcontext().prec = 120
EPS = Decimal(10) ** -60


class Unsup(Exception):
    pass


# ------------------------------------------------------------------ polynomials: {((atom,exp),...): Fraction}
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(x, y):
    if not x:
        return y
    if not y:
        return x
    d = dict(x)
    for a, e in y:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


PMAX = [60000]


def pmul(a, b):
    if len(a) * len(b) > PMAX[0]:
        raise Unsup('expression too large')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


def pdiv(a, b):
    """exact quotient a/b or None"""
    if not a:
        return {}
    if len(b) == 1:
        (m, c), = b.items()
        inv = tuple((x, -e) for x, e in m)
        r = {}
        for n, d in a.items():
            k = mmul(n, inv)
            if any(e < 0 for _, e in k):
                return None
            r[k] = d / c
        return r

    def key(m):
        return (sum(e for _, e in m), m)
    order = lambda m: [(-x, e) for x, e in m]
    # lexicographic leading term
    gens = sorted({x for p in (a, b) for m in p for x, _ in m})

    def lk(m):
        d = dict(m)
        return tuple(d.get(g, 0) for g in gens)
    lb = max(b, key=lk)
    cb = b[lb]
    inv = tuple((x, -e) for x, e in lb)
    q = {}
    r = dict(a)
    steps = 0
    while r:
        steps += 1
        if steps > 4000:
            return None
        lr = max(r, key=lk)
        k = mmul(lr, inv)
        if any(e < 0 for _, e in k):
            return None
        c = r[lr] / cb
        q[k] = q.get(k, 0) + c
        for m, d in b.items():
            mm = mmul(m, k)
            v = r.get(mm, 0) - c * d
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return q


class Rat:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        d = ONE if d is None else d
        if not n:
            d = ONE
        elif len(d) == 1:
            (m, c), = d.items()
            if c != 1 or m:
                # common monomial
                com = None
                for k in n:
                    dk = dict(k)
                    cur = {x: min(e, dk.get(x, 0)) for x, e in (m if com is None else com.items())}
                    com = cur
                com = tuple((x, -e) for x, e in sorted((com or {}).items()) if e)
                n = {mmul(k, com): v / c for k, v in n.items()}
                d = {mmul(m, com): Fraction(1)}
        else:
            q = pdiv(n, d)
            if q is not None:
                n, d = q, ONE
            else:
                q = pdiv(d, n) if len(n) > 1 else None
                if q is not None:
                    n, d = ONE, q
                else:
                    c = d[max(d)]
                    if c != 1:
                        n = {k: v / c for k, v in n.items()}
                        d = {k: v / c for k, v in d.items()}
                    # common monomial factor
                    com = None
                    for k in list(n) + list(d):
                        dk = dict(k)
                        com = dk if com is None else {x: min(e, dk.get(x, 0)) for x, e in com.items() if dk.get(x, 0)}
                        if not com:
                            break
                    if com:
                        inv = tuple(sorted((x, -e) for x, e in com.items()))
                        n = {mmul(k, inv): v for k, v in n.items()}
                        d = {mmul(k, inv): v for k, v in d.items()}
        self.n, self.d = n, d

    def __eq__(self, o):
        if not isinstance(o, Rat):
            return False
        if self.n == o.n and self.d == o.d:
            return True
        return not padd(pmul(self.n, o.d), pmul(o.n, self.d), -1)

    def const(self):
        if not self.n:
            return Fraction(0)
        if self.d == ONE and len(self.n) == 1 and () in self.n:
            return self.n[()]
        return None


def rconst(x):
    x = Fraction(x)
    return Rat({(): x} if x else {})


# ------------------------------------------------------------------ decision diagrams
class Leaf:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Node:
    __slots__ = ('c', 'hi', 'lo')

    def __init__(self, c, hi, lo):
        self.c, self.hi, self.lo = c, hi, lo


TRUE, FALSE = Leaf(True), Leaf(False)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Leaf) and isinstance(b, Leaf):
        return type(a.v) == type(b.v) and a.v == b.v
    if isinstance(a, Node) and isinstance(b, Node):
        return a.c == b.c and same(a.hi, b.hi) and same(a.lo, b.lo)
    return False


def mk(c, hi, lo):
    return hi if same(hi, lo) else Node(c, hi, lo)


class S(dict):
    """structure or array value: field name / index -> value; t: type name"""
    t = None

    def put(self, k, v):
        r = S(self)
        r.t = self.t
        r[k] = v
        return r


class Opq:
    def __init__(self, key, t=''):
        self.key, self.t = key, t

    def __eq__(self, o):
        return isinstance(o, Opq) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'Opq(%s)' % (self.key,)


class Lam:
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class LV:
    def __init__(self, cell, path=(), t=''):
        self.cell, self.path, self.t = cell, path, t

    def ext(self, x, t=''):
        return LV(self.cell, self.path + (x,), t)


SCALAR = ('double', 'float', 'int', 'unsigned int', 'bool', 'long', 'unsigned long', 'unsigned char', 'signed char', 'char',
          'unsigned short', 'short', 'long long', 'unsigned long long')
INTS = tuple(x for x in SCALAR if x not in ('double', 'float', 'bool'))


def base(t):
    t = t.strip()
    if t.endswith('&&'):
        t = t[:-2].strip()
    if t.endswith('&'):
        t = t[:-1].strip()
    if t.startswith('const '):
        t = t[6:]
    if t.endswith(' const'):
        t = t[:-6]
    return t


class State:
    def __init__(self, mem=None):
        self.mem = mem if mem is not None else {}
        self.dead = False

    def copy(self):
        return State(dict(self.mem))


class VG:
    def __init__(self, p, positive=(), inline=None, extern=None):
        self.p = p
        self.atoms = []           # id -> key
        self.atomid = {}
        self.pos = set()          # atoms known positive
        self.nonneg = set()
        self.funs = {}            # function name -> [(args, atom id)]
        self.loops = None         # iterations of loops with undecided bounds
        self.loopconds = []
        self.conds = []           # id -> (kind, payload)
        self.condid = {}
        self.assume = {}          # cond id -> bool
        self.sqrt = {}            # atom id -> Rat
        self.cellno = 0
        self.inlinable = inline
        self.extern = extern
        self.depth = 0
        self.steps = 0
        self.maxsteps = 300000
        self.fresh = 0
        self.log = []             # calls of interest
        self.letlimit = None      # abbreviate stored values with more terms than this
        self.letkey = {}
        self.iteabbr = False      # abbreviate stored conditional values as well
        self.fkey = {}
        self.ckey = {}

    # ---- atoms
    def atom(self, key, pos=False):
        i = self.atomid.get(key)
        if i is None:
            i = self.atomid[key] = len(self.atoms)
            self.atoms.append(key)
            if pos:
                self.pos.add(i)
        return Leaf(Rat({((i, 1),): Fraction(1)}))

    def fatom(self, name, a):
        """application of an uninterpreted function to rationals"""
        k = (name,) + tuple(self.rkey(x) for x in a)
        i = self.fkey.get(k)
        if i is not None:
            return Rat({((i, 1),): Fraction(1)})
        l = self.funs.setdefault(name, [])
        for x, i in (l if len(l) < 200 else ()):
            if len(x) == len(a) and all(u == v for u, v in zip(x, a)):
                self.fkey[k] = i
                return Rat({((i, 1),): Fraction(1)})
        i = self.fkey[k] = len(self.atoms)
        self.atoms.append((name, a))
        l.append((a, i))
        return Rat({((i, 1),): Fraction(1)})

    def sign(self, r):
        """1: positive, 0: zero, -1: negative, None unknown"""
        if not r.n:
            return 0
        sn, sd = self.psign(r.n), self.psign(r.d)
        if sn is None or sd is None:
            return None
        return sn * sd

    def psign(self, q):
        def mono(m):
            strict = True
            for a, e in m:
                if a in self.pos:
                    continue
                if e % 2 == 0 or a in self.nonneg:
                    strict = False
                    continue
                return None
            return strict
        for s in (1, -1):
            strict = False
            ok = True
            for m, c in q.items():
                z = mono(m)
                if z is None or c * s < 0:
                    ok = False
                    break
                strict |= z
            if ok and strict:
                return s
        return None

    # ---- diagram operations
    def ap(self, f, *xs):
        """apply f on leaves"""
        xs = [x if isinstance(x, (Leaf, Node)) else self.need(x) for x in xs]
        cs = [x.c for x in xs if isinstance(x, Node)]
        if not cs:
            r = f(*[x.v for x in xs])
            return r if isinstance(r, (Leaf, Node)) else Leaf(r)
        self.tick()
        c = min(cs)
        hi = self.ap(f, *[x.hi if isinstance(x, Node) and x.c == c else x for x in xs])
        lo = self.ap(f, *[x.lo if isinstance(x, Node) and x.c == c else x for x in xs])
        return self.ite1(c, hi, lo)

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsup('too many steps')

    def need(self, x):
        raise Unsup('scalar expected: %r' % (x,))

    def ite1(self, c, hi, lo):
        """c: condition id; keeps the variable order"""
        if c in self.assume:
            return hi if self.assume[c] else lo
        t = [x.c for x in (hi, lo) if isinstance(x, Node)]
        if not t or min(t) > c:
            return mk(c, hi, lo)
        self.tick()
        m = min(t)
        if m == c:
            return mk(c, hi.hi if isinstance(hi, Node) and hi.c == c else hi, lo.lo if isinstance(lo, Node) and lo.c == c else lo)
        g = lambda x, b: (x.hi if b else x.lo) if isinstance(x, Node) and x.c == m else x
        return mk(m, self.ite1(c, g(hi, True), g(lo, True)), self.ite1(c, g(hi, False), g(lo, False)))

    def ite(self, b, x, y):
        """b: boolean diagram; x, y: any values"""
        if x is y:
            return x
        if isinstance(b, Leaf):
            return x if b.v else y
        if isinstance(x, (Leaf, Node)) and isinstance(y, (Leaf, Node)):
            return self.ite1(b.c, self.ite(b.hi, x, y), self.ite(b.lo, x, y))
        if isinstance(x, S) and isinstance(y, S):
            r = S()
            r.t = x.t
            for k in list(x) + [k for k in y if k not in x]:
                if k in x and k in y:
                    r[k] = self.ite(b, x[k], y[k])
                else:
                    r[k] = x.get(k, y.get(k))
            return r
        if isinstance(x, Opq) and x == y:
            return x
        if x is None:
            return y
        if y is None:
            return x
        if isinstance(x, LV) and isinstance(y, LV) and x.cell == y.cell and x.path == y.path:
            return x
        if isinstance(x, Opq) and isinstance(y, Opq):
            return Opq(('ite', self.bkey(b), x.key, y.key), x.t)
        raise Unsup('merge of %s and %s' % (type(x).__name__, type(y).__name__))

    def bkey(self, b):
        if isinstance(b, Leaf):
            return b.v if not isinstance(b.v, Rat) else self.rkey(b.v)
        return (b.c, self.bkey(b.hi), self.bkey(b.lo))

    def rkey(self, r):
        return (tuple(sorted(r.n.items())), tuple(sorted(r.d.items())))

    def cond(self, kind, payload):
        """diagram of an elementary condition"""
        key = (kind, self.rkey(payload) if isinstance(payload, Rat) else payload)
        i = self.ckey.get(key)
        if i is None:
            for i, (k, x) in enumerate(self.conds if len(self.conds) < 200 else ()):
                if k == kind and x == payload:
                    break
            else:
                i = len(self.conds)
                self.conds.append((kind, payload))
            self.ckey[key] = i
        if i in self.assume:
            return TRUE if self.assume[i] else FALSE
        return Node(i, TRUE, FALSE)

    def weak(self, r):
        """1: never negative, -1: never positive"""
        if not r.n:
            return 0
        sd = self.psign(r.d)
        if sd is None:
            return None
        for s in (1, -1):
            if all(c * s > 0 and all(a in self.pos or a in self.nonneg or e % 2 == 0 for a, e in m) for m, c in r.n.items()):
                return s * sd
        return None

    exactcmp = False  # tell x > 0 from x >= 0

    def gt0(self, r):
        s = self.sign(r)
        if s is not None:
            return TRUE if s > 0 else FALSE
        c = r.const()
        if c is not None:
            return TRUE if c > 0 else FALSE
        if self.weak(r) == -1:
            return FALSE
        # x > 0 and -x > 0 share one orientation (the case x == 0 goes with x > 0 being false)
        lead = r.n[min(r.n)]
        if not self.iteabbr:
            lead = 1 if lead > 0 else -1
        if lead > 0:
            return self.cond('pos', r if lead == 1 else Rat({m: v / lead for m, v in r.n.items()}, r.d))
        neg = Rat({m: v / lead for m, v in r.n.items()}, r.d)
        if self.exactcmp:
            return self.notb(self.cond('nneg', neg))
        # -x > 0 : x < 0 ; the measure-zero case x == 0 is merged with x > 0 being false
        b = self.cond('pos', neg)
        return self.notb(b)

    def ge0(self, r):
        return self.gt0(r) if self.sign(r) != 0 else TRUE

    def notb(self, b):
        if isinstance(b, Leaf):
            return FALSE if b.v else TRUE
        return Node(b.c, self.notb(b.hi), self.notb(b.lo))

    def eq0(self, r):
        c = r.const()
        if c is not None:
            return TRUE if c == 0 else FALSE
        if self.sign(r) in (1, -1):
            return FALSE
        lead = r.n[min(r.n)]
        r2 = Rat({m: v / lead for m, v in r.n.items()}, r.d)
        return self.cond('zero', r2)

    # ---- arithmetic
    def reduce(self, r):
        """sqrt(x)^2 -> x"""
        if not self.sqrt:
            return r

        def poly(q):
            out = None
            plain = {}
            for m, c in q.items():
                if any(a in self.sqrt and e >= 2 for a, e in m):
                    t = Rat({(): c})
                    for a, e in m:
                        if a in self.sqrt and e >= 2:
                            for _ in range(e // 2):
                                t = self.rmul(t, self.sqrt[a])
                            if e % 2:
                                t = self.rmul(t, Rat({((a, 1),): Fraction(1)}))
                        else:
                            t = self.rmul(t, Rat({((a, e),): Fraction(1)}))
                    out = t if out is None else self.radd(out, t)
                else:
                    plain[m] = c
            if out is None:
                return None
            return self.radd(out, Rat(plain))
        n, d = poly(r.n), poly(r.d)
        if n is None and d is None:
            return r
        n = n if n is not None else Rat(r.n)
        d = d if d is not None else Rat(r.d)
        return self.rdiv(n, d)

    def radd(self, a, b, s=1):
        if a.d == b.d:
            return Rat(padd(a.n, b.n, s), a.d)
        q = pdiv(a.d, b.d)
        if q is not None:
            return Rat(padd(a.n, pmul(b.n, q), s), a.d)
        q = pdiv(b.d, a.d)
        if q is not None:
            return Rat(padd(pmul(a.n, q), b.n, s), b.d)
        return Rat(padd(pmul(a.n, b.d), pmul(b.n, a.d), s), pmul(a.d, b.d))

    def rmul(self, a, b):
        if not a.n or not b.n:
            return rconst(0)
        if a.d == b.n:
            return self.reduce(Rat(a.n, b.d))
        if b.d == a.n:
            return self.reduce(Rat(b.n, a.d))
        return self.reduce(Rat(pmul(a.n, b.n), pmul(a.d, b.d)))

    def rdiv(self, a, b):
        if not b.n:
            raise Unsup('division by zero')
        return self.rmul(a, Rat(b.d, b.n))

    def add(self, a, b):
        return self.ap(lambda x, y: self.radd(num(x), num(y)), a, b)

    def sub(self, a, b):
        return self.ap(lambda x, y: self.radd(num(x), num(y), -1), a, b)

    def mul(self, a, b):
        return self.ap(lambda x, y: self.rmul(num(x), num(y)), a, b)

    def div(self, a, b, integer=False):
        def f(x, y):
            x, y = num(x), num(y)
            if integer:
                u, v = x.const(), y.const()
                if u is not None and v:
                    q = abs(u) // abs(v)
                    return rconst(q if (u >= 0) == (v > 0) else -q)
                if v == 1:
                    return x
                return self.fatom('idiv', (x, y))
            return self.rdiv(x, y)
        return self.ap(f, a, b)

    def neg(self, a):
        return self.ap(lambda x: Rat({m: -v for m, v in num(x).n.items()}, num(x).d), a)

    def absv(self, a):
        def f(x):
            x = num(x)
            s = self.sign(x)
            if s is None:
                s = self.weak(x)
            if s is not None:
                return x if s >= 0 else self.radd(rconst(0), x, -1)
            s = x.n[min(x.n)]
            if not self.iteabbr:
                s = 1 if s > 0 else -1
            if s != 1:
                x = Rat({m: v / s for m, v in x.n.items()}, x.d)
            r = self.fatom('abs', (x,))
            (m, _), = r.n.items()
            self.nonneg.add(m[0][0])
            return r if s in (1, -1) else Rat({m: abs(s)})
        return self.ap(f, a)

    def maxv(self, a, b, s=1):
        d = self.sub(a, b)
        half = Leaf(rconst(Fraction(1, 2)))
        h = self.mul(self.absv(d), half)
        m = self.mul(self.add(a, b), half)
        r = self.add(m, h) if s > 0 else self.sub(m, h)
        return r

    def sqrtv(self, a):
        def f(x):
            x = num(x)
            c = x.const()
            if c is not None and c >= 0:
                import math
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return rconst(Fraction(n, d))
            # perfect square of a monomial
            if len(x.n) == 1 and len(x.d) == 1:
                (m, cc), = x.n.items()
                (m2, _), = x.d.items()
                if cc == 1 and all(e % 2 == 0 and a in self.pos for a, e in m + m2):
                    return Rat({tuple((a, e // 2) for a, e in m): Fraction(1)}, {tuple((a, e // 2) for a, e in m2): Fraction(1)})
            r = self.fatom('sqrt', (x,))
            (m, _), = r.n.items()
            i = m[0][0]
            self.sqrt[i] = x
            if self.sign(x) == 1:
                self.pos.add(i)
            else:
                self.nonneg.add(i)
            return r
        return self.ap(f, a)

    def fun(self, name, *a):
        def f(*xs):
            return self.fatom(name, tuple(num(x) for x in xs))
        return self.ap(f, *a)

    # ---- memory
    def cell(self, what='t'):
        self.cellno += 1
        return (what, self.cellno)

    def default(self, key, t):
        t = base(t)
        if t in SCALAR or t in self.p.enums or t.endswith('VarIndex'):
            if t == 'bool':
                return self.cond('bool', key)
            return self.atom(key)
        return Opq(key, t)

    def field(self, v, k, t):
        if isinstance(v, S):
            if k in v:
                return v[k]
            return self.default(('unset', v.t, k), t)
        if isinstance(v, Opq):
            return self.default((v.key, k), t)
        if isinstance(v, LV):
            return LV(v.cell, v.path + (k,), t)
        raise Unsup('field %s of %s' % (k, type(v).__name__))

    def load(self, st, lv, t=''):
        if lv.cell in st.mem:
            v = st.mem[lv.cell]
            pt = ''
        else:
            if not lv.path:
                return self.default(lv.cell, t or lv.t)
            v = Opq(lv.cell)
        for i, k in enumerate(lv.path):
            last = i == len(lv.path) - 1
            v = self.field(v, k, (t or lv.t) if last else '')
        return v

    def short(self, v):
        """abbreviate large values: an atom standing for the (scale-normalised) expression"""
        if self.letlimit is None or isinstance(v, Opq):
            return v
        if isinstance(v, Node):
            if self.iteabbr:
                return self.shortite(v)
            hi, lo = self.short(v.hi), self.short(v.lo)
            return v if hi is v.hi and lo is v.lo else mk(v.c, hi, lo)
        if isinstance(v, S) and self.iteabbr:
            r = None
            for k, x in v.items():
                y = self.short(x)
                if y is not x:
                    if r is None:
                        r = type(v)(v) if type(v) is S else v.put(k, y)
                        r.t = v.t
                    r[k] = y
            return v if r is None else r
        if not isinstance(v, Leaf) or not isinstance(v.v, Rat):
            return v
        x = v.v
        if len(x.n) + len(x.d) <= self.letlimit:
            return v
        s = x.n[min(x.n)]
        if not self.iteabbr:
            s = 1 if s > 0 else -1
        if s != 1:
            x = Rat({m: c / s for m, c in x.n.items()}, x.d)
        k = self.rkey(x)
        i = self.letkey.get(k)
        if i is None:
            i = self.letkey[k] = len(self.atoms)
            self.atoms.append(('let', (x,)))
            g = self.sign(x)
            if g == 1:
                self.pos.add(i)
            elif self.weak(x) == 1:
                self.nonneg.add(i)
        return Leaf(Rat({((i, 1),): Fraction(s)}))

    def expand(self, v):
        """replace abbreviations of unconditional values by their definition (outermost level, repeatedly)"""
        if isinstance(v, Node):
            return mk(v.c, self.expand(v.hi), self.expand(v.lo))
        r = num(v.v)
        for _ in range(60):
            def lets(q):
                return {a for m in q for a, _ in m if isinstance(self.atoms[a], tuple) and self.atoms[a][0] == 'let'}
            if not lets(r.n) and not lets(r.d):
                return Leaf(r)

            def sub(q):
                out = rconst(0)
                groups = {}
                for m, c in q.items():
                    k = tuple((a, e) for a, e in m if isinstance(self.atoms[a], tuple) and self.atoms[a][0] == 'let')
                    groups.setdefault(k, {})[tuple(x for x in m if x not in k)] = c
                for k, rest in groups.items():
                    t = Rat(rest)
                    for a, e in k:
                        for _ in range(e):
                            t = self.rmul(t, self.atoms[a][1][0])
                    out = self.radd(out, t)
                return out
            r = self.rdiv(sub(r.n), sub(r.d)) if lets(r.d) else self.rdiv(sub(r.n), Rat(r.d))
        raise Unsup('abbreviation depth')

    def shortite(self, v):
        """abbreviate a conditional value"""
        leaves = []

        def go(x):
            if isinstance(x, Node):
                go(x.hi)
                go(x.lo)
            else:
                leaves.append(x.v)
        go(v)
        if not all(isinstance(x, Rat) for x in leaves):
            return v
        s = next(x.n[min(x.n)] for x in leaves if x.n)
        if s != 1:
            v = self.ap(lambda x: Rat({m: c / s for m, c in x.n.items()}, x.d), v)
        k = self.bkey(v)
        i = self.letkey.get(k)
        if i is None:
            i = self.letkey[k] = len(self.atoms)
            self.atoms.append(('ited', v))
            if all(self.sign(x) == 1 for x in leaves):
                self.pos.add(i)
        return Leaf(Rat({((i, 1),): Fraction(s)}))

    # ---- generic point: decides equality of normal forms that contain abbreviations
    def point(self, seed):
        return Point(self, seed)

    def points(self, n=2):
        if getattr(self, '_pts', None) is None or self._pts[0] != len(self.atoms) or len(self._pts[1]) < n:
            out = []
            for s in range(60 + n):
                q = Point(self, s)
                try:
                    for i in range(len(self.atoms)):
                        q.atom(i)
                except BadPoint:
                    continue
                out.append(q)
                if len(out) == n:
                    break
            if not out:
                raise Unsup('no generic point')
            self._pts = (len(self.atoms), out)
        return self._pts[1]

    def ident(self, a, b):
        if a.n == b.n and a.d == b.d:
            return True
        return all(q.near(q.rat(a), q.rat(b)) for q in self.points())

    def unify(self):
        """condition -> (representative, negated)"""
        rep = {}
        seen = []
        q = self.points()[0]
        for i, (k, x) in enumerate(self.conds):
            rep[i] = (i, False)
            if not isinstance(x, Rat):
                continue
            v = q.rat(x)
            for j, kj, w in seen:
                if k == kj and q.near(v, w):
                    rep[i] = (j, False)
                    break
                if k == kj and q.near(v, -w):
                    rep[i] = (j, k == 'pos')
                    break
            else:
                seen.append((i, k, v))
        return rep

    def canon(self, x, rep):
        if not isinstance(x, Node):
            return x
        c, neg = rep[x.c]
        hi, lo = self.canon(x.hi, rep), self.canon(x.lo, rep)
        if neg:
            hi, lo = lo, hi
        if (c, neg) == (x.c, False) and hi is x.hi and lo is x.lo:
            return x
        return self.ite(Node(c, TRUE, FALSE), hi, lo)

    def same2(self, a, b):
        """equality of scalar diagrams that may contain abbreviations"""
        rep = self.unify()
        a, b = self.canon(a, rep), self.canon(b, rep)
        d = self.ap(lambda x, y: (x == y) if isinstance(x, bool) and isinstance(y, bool) else self.ident(num(x), num(y)), a, b)
        return isinstance(d, Leaf) and d.v is True

    def store(self, st, lv, v):
        v = self.short(v)
        def put(old, path):
            if not path:
                return v
            if not isinstance(old, S):
                n = S()
                if isinstance(old, Opq):
                    n.t = old.t
                    n = OS(old, n)
                old = n
            return old.put(path[0], put(old.get(path[0]) if path[0] in old else (self.field(old, path[0], '') if isinstance(old, OS) else None), path[1:]))
        old = st.mem.get(lv.cell)
        if lv.path and old is None:
            old = Opq(lv.cell, lv.t)
        st.mem[lv.cell] = put(old, lv.path)

    # ---- records
    def make(self, st, t, inits=None, f=None, fr=None):
        """value of a record aggregate"""
        r = self.p.recs.get(t)
        v = S()
        v.t = t
        if r is None:
            return None
        for i, fl in enumerate(r['fields']):
            if inits is not None and i < len(inits):
                v[fl['n']] = inits[i]
            elif fl.get('init'):
                v[fl['n']] = self.val(st, fl['init'], fr)
            elif base(fl['t']) in self.p.recs:
                v[fl['n']] = self.make(st, base(fl['t']), None, f, fr)
            else:
                self.fresh += 1
                v[fl['n']] = self.default(('uninit', self.fresh), fl['t'])
        return v

    # ---- expressions
    def val(self, st, n, fr):
        """rvalue"""
        v = self.ev(st, n, fr)
        if isinstance(v, LV):
            v = self.load(st, v, n.get('t', ''))
        return v

    def lval(self, st, n, fr):
        v = self.ev(st, n, fr)
        if isinstance(v, LV):
            return v
        c = self.cell('tmp')
        st.mem[c] = v
        return LV(c, (), n.get('t', ''))

    def boolv(self, st, n, fr):
        v = self.val(st, n, fr)
        if isinstance(v, (Leaf, Node)):
            return self.ap(lambda x: x if isinstance(x, bool) else self.notb(self.eq0(x)), v)
        raise Unsup('condition %s' % expr(n))

    def ev(self, st, n, fr):
        self.tick()
        k = n['k']
        if k in ('DefArg', 'DefInit', 'ExprWithCleanups', 'ParenExpr', 'SubstNonTypeTemplateParmExpr', 'ConstantExpr'):
            return self.ev(st, kids(n)[0], fr)
        if k.endswith('CastExpr'):
            ck = n.get('ck')
            t = base(n.get('t', ''))
            src = kids(n)
            if not src:
                if 'cv' in n:
                    return Leaf(rconst(n['cv']))
                raise Unsup(k)
            if ck in ('LValueToRValue',):
                return self.val(st, src[0], fr)
            if t in SCALAR or t in self.p.enums:
                v = self.val(st, src[0], fr)
                s = base(src[0].get('t', ''))
                if s in ('double', 'float') and t not in ('double', 'float', 'bool'):
                    return self.ap(lambda x: (self.trunc(x)), v)
                return v
            return self.ev(st, src[0], fr)
        if k == 'FloatingLiteral':
            return Leaf(rconst(Fraction(n['v'])) if '.' in n['v'] or 'e' in n['v'] or n['v'].lstrip('-').isdigit() else self.need(n['v']))
        if k == 'StringLiteral':
            return Opq(('str', n['v']))
        if k == 'CXXBoolLiteralExpr':
            return TRUE if int(n['v']) else FALSE
        if k == 'CXXThisExpr':
            return fr['this']
        if 'cv' in n and k not in ('CXXConstructExpr', 'InitListExpr') and not n.get('lv'):
            if base(n.get('t', '')) == 'bool':
                return TRUE if int(n['cv']) else FALSE
            return Leaf(rconst(n['cv']))
        if k == 'IntegerLiteral':
            return Leaf(rconst(n['v']))
        if k == 'DeclRefExpr':
            dk = n.get('dk')
            if dk == 'enum':
                return Leaf(rconst(n['v']))
            if dk in ('local', 'param', 'global'):
                d = n.get('d')
                if d in fr['env']:
                    return fr['env'][d]
                if 'cv' in n:
                    return Leaf(rconst(n['cv']))
                for v in (self.p.vars if dk == 'global' else ()):
                    if v['v'].get('d') == d and v['v'].get('init') and v['v'].get('t', '').startswith('const'):
                        return self.val(st, v['v']['init'], fr)
                return LV(('var', d), (), n.get('t', ''))
            raise Unsup('reference %s' % n.get('n'))
        if k == 'MemberExpr':
            c = n.get('c') or []
            if n.get('dk') != 'field':
                raise Unsup('member %s' % n['n'])
            b = self.ev(st, c[0], fr)
            if n.get('arrow') and not isinstance(b, LV):
                pass
            if isinstance(b, LV):
                # bound reference member?
                cur = self.load(st, b, '') if b.cell in st.mem else None
                if isinstance(cur, S) and isinstance(cur.get(n['n']), LV):
                    return cur[n['n']]
                return b.ext(n['n'], n.get('t', ''))
            return self.field(b, n['n'], n.get('t', ''))
        if k == 'ArraySubscriptExpr':
            a, b = kids(n)
            return self.index(st, self.ev(st, a, fr), self.val(st, b, fr), n.get('t', ''))
        if k == 'BinaryOperator':
            return self.binop(st, n, fr)
        if k == 'CompoundAssignOperator':
            a, b = kids(n)
            l = self.lval(st, a, fr)
            v = self.arith(n['o'][:-1], self.load(st, l, a.get('t', '')), self.val(st, b, fr), a.get('t', ''), b.get('t', ''))
            self.store(st, l, v)
            return l
        if k == 'UnaryOperator':
            o = n['o'].replace('post', '')
            a = kids(n)[0]
            if o == '-':
                return self.neg(self.val(st, a, fr))
            if o == '+':
                return self.val(st, a, fr)
            if o == '!':
                return self.ap(lambda x: not x, self.boolv(st, a, fr))
            if o in ('++', '--'):
                l = self.lval(st, a, fr)
                v = self.load(st, l, a.get('t', ''))
                w = self.add(v, Leaf(rconst(1 if o == '++' else -1)))
                self.store(st, l, w)
                return v if 'post' in n['o'] else l
            if o in ('*', '&'):
                return self.ev(st, a, fr)
            raise Unsup('unary %s' % o)
        if k == 'ConditionalOperator':
            c, a, b = kids(n)
            cv = self.boolv(st, c, fr)
            if isinstance(cv, Leaf):
                return self.ev(st, a if cv.v else b, fr)
            s1, s2 = st.copy(), st.copy()
            x, y = self.val(s1, a, fr), self.val(s2, b, fr)
            self.merge(st, cv, s1, s2)
            return self.ite(cv, self.asnum(x), self.asnum(y))
        if k == 'Lambda':
            env = dict(fr['env'])
            for cp in n.get('caps', ()):
                if isinstance(cp, dict) and cp.get('d') in env and not cp.get('ref') and not cp.get('init'):
                    e = env[cp['d']]
                    if isinstance(e, LV) and not self.is_lambda(st, e):
                        c = self.cell('cap')
                        st.mem[c] = self.load(st, e, cp.get('t', '') or e.t)
                        env[cp['d']] = LV(c, (), e.t)
            return Lam(n, env, fr['this'])
        if k == 'InitListExpr':
            return self.initlist(st, n, fr)
        if k == 'CXXNewExpr' and len(kids(n)) == 1 and base(n.get('t', '')).rstrip('* ') == base(kids(n)[0].get('t', '')):
            c = self.cell('new')
            st.mem[c] = self.val(st, kids(n)[0], fr)
            return LV(c, (), base(kids(n)[0].get('t', '')))
        if k in ('ImplicitValueInitExpr', 'CXXScalarValueInitExpr'):
            t = base(n.get('t', ''))
            if t == 'bool':
                return FALSE
            if t in SCALAR or t in self.p.enums:
                return Leaf(rconst(0))
            return self.zero(st, t, fr)
        if k in CTORS:
            return self.construct(st, n, fr)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.call(st, n, fr)
        raise Unsup('expression kind %s' % k)

    def is_lambda(self, st, e):
        return isinstance(st.mem.get(e.cell), Lam)

    def trunc(self, x):
        x = num(x)
        c = x.const()
        if c is not None:
            return rconst(int(c))
        return self.fatom('trunc', (x,))

    def toint(self, v, t, e):
        """a floating point value stored in an integer"""
        if base(t) in INTS and base(e.get('t', '')) in ('double', 'float', 'const double', 'const float') and isinstance(v, (Leaf, Node)):
            return self.ap(lambda x: self.trunc(x), v)
        return v

    def zero(self, st, t, fr):
        if t in self.p.recs:
            v = S()
            v.t = t
            for fl in self.p.recs[t]['fields']:
                if fl.get('init'):
                    v[fl['n']] = self.val(st, fl['init'], fr)
                else:
                    ft = base(fl['t'])
                    v[fl['n']] = FALSE if ft == 'bool' else Leaf(rconst(0)) if ft in SCALAR or ft in self.p.enums else self.zero(st, ft, fr)
            return v
        m = arr_len(t)
        if m:
            v = S()
            v.t = t
            for i in range(m[1]):
                v[i] = Leaf(rconst(0)) if base(m[0]) in SCALAR else self.zero(st, base(m[0]), fr)
            return v
        return Opq(('zero', t), t)

    def initlist(self, st, n, fr):
        t = base(n.get('t', ''))
        c = kids(n)
        if t in SCALAR or t in self.p.enums:
            if not c:
                return Leaf(rconst(0)) if t != 'bool' else FALSE
            return self.val(st, c[0], fr)
        m = arr_len(t)
        if m:
            if len(c) == 1 and (c[0]['k'] == 'InitListExpr' and base(c[0].get('t', '')) != base(m[0]) or base(c[0].get('t', '')) == t):
                return self.val(st, c[0], fr) if base(c[0].get('t', '')) == t else self.arr(st, t, m, kids(c[0]), fr)
            return self.arr(st, t, m, c, fr)
        if t in self.p.recs:
            return self.make(st, t, [self.fieldinit(st, fl, x, fr) for fl, x in zip(self.p.recs[t]['fields'], c)], None, fr)
        v = S()
        v.t = t
        for i, x in enumerate(c):
            v[i] = self.val(st, x, fr)
        return v

    def fieldinit(self, st, fl, x, fr):
        if fl['t'].endswith('&'):
            return self.lval(st, x, fr)
        return self.toint(self.val(st, x, fr), fl['t'], x)

    def arr(self, st, t, m, c, fr):
        v = S()
        v.t = t
        for i in range(m[1]):
            if i < len(c) and c[i]['k'] not in ('ImplicitValueInitExpr',):
                v[i] = self.val(st, c[i], fr)
            else:
                v[i] = Leaf(rconst(0)) if base(m[0]) in SCALAR else self.zero(st, base(m[0]), fr)
        return v

    def construct(self, st, n, fr):
        c = [x for x in kids(n)]
        t = base(n.get('t', '')) or n.get('cls', '')
        if (n.get('copy') or n.get('move')) and len(c) == 1:
            return self.val(st, c[0], fr)
        if len(c) == 1 and base(c[0].get('t', '')) == t:
            return self.val(st, c[0], fr)
        if t.startswith('std::basic_string<'):
            a = [x for x in c if x['k'] != 'DefArg']
            if not a:
                return Opq(('str', ''))
            if len(a) == 1 and 'char' in a[0].get('t', ''):
                return self.val(st, a[0], fr)
        if t.startswith(('std::vector<', 'std::initializer_list<', 'std::set<')):
            a = [x for x in c if x['k'] != 'DefArg']
            if not a:
                v = S()
                v.t = t
                return v
            if len(a) == 1 and (a[0]['k'] == 'InitListExpr' or 'initializer_list' in a[0].get('t', '')):
                v = self.val(st, a[0], fr)
                if isinstance(v, S) and all(isinstance(k, int) for k in v):
                    v = S(v)
                    v.t = t
                    return v
        if t.startswith('std::unique_ptr<') and len([x for x in c if x['k'] != 'DefArg']) == 1:
            v = self.ev(st, c[0], fr)
            if isinstance(v, LV):
                return v
        f = self.p.fns.get(n.get('f') or '')
        if f is None or not f.get('body'):
            if t in self.p.recs and not c:
                return self.make(st, t, None, None, fr)
            m = arr_len(t)
            if m and not c:
                v = S()
                v.t = t
                for i in range(m[1]):
                    self.fresh += 1
                    v[i] = self.default(('uninit', self.fresh), m[0])
                return v
            if t in self.p.recs and len(c) == 1 and any(base(c[0].get('t', '')) in (d, ) for d in [t]):
                return self.val(st, c[0], fr)
            return Opq(('ctor', t) + tuple(self.key(self.val(st, x, fr)) for x in c), t)
        v = self.make(st, t, None, None, fr)
        if v is None:
            v = S()
            v.t = t
        cell = self.cell('obj')
        st.mem[cell] = v
        self.run(st, f, [x for x in c], fr, LV(cell, (), t))
        return st.mem[cell]

    def key(self, v):
        if isinstance(v, Opq):
            return v.key
        if isinstance(v, (Leaf, Node)):
            return self.bkey(v)
        if isinstance(v, S):
            return (v.t,) + tuple((k, self.key(x)) for k, x in sorted(v.items(), key=lambda kv: str(kv[0])))
        if isinstance(v, LV):
            return ('lv', v.cell, v.path)
        if isinstance(v, Lam):
            return ('lam', id(v.node))
        return v

    def asnum(self, x):
        return x

    def index(self, st, b, i, t):
        if isinstance(i, Leaf) and isinstance(i.v, Rat) and i.v.const() is not None:
            ik = int(i.v.const())
        else:
            ik = ('i', self.key(i))
        if isinstance(b, LV):
            return b.ext(ik, t)
        return self.field(b, ik, t)

    def arith(self, o, a, b, ta='', tb=''):
        integer = base(ta) not in ('double', 'float') and base(tb) not in ('double', 'float')
        if o == '+':
            return self.add(a, b)
        if o == '-':
            return self.sub(a, b)
        if o == '*':
            return self.mul(a, b)
        if o == '/':
            return self.div(a, b, integer)
        if o in ('%', '<<', '>>', '&', '|', '^'):
            def f(x, y):
                x, y = num(x), num(y)
                u, v = x.const(), y.const()
                if u is not None and v is not None:
                    u, v = int(u), int(v)
                    if o == '%':
                        return rconst(abs(u) % abs(v) * (1 if u >= 0 else -1))
                    return rconst({'<<': lambda: u << v, '>>': lambda: u >> v, '&': lambda: u & v, '|': lambda: u | v, '^': lambda: u ^ v}[o]())
                if o == '<<' and v is not None:
                    return self.rmul(x, rconst(2 ** int(v)))
                if o == '<<' and u is not None:
                    r = self.fatom('pow2', (y,))
                    (m, _), = r.n.items()
                    self.pos.add(m[0][0])
                    return self.rmul(rconst(u), r)
                if o == '>>' and v is not None:
                    return self.fatom('idiv', (x, rconst(2 ** int(v))))
                return self.fatom('op' + o, (x, y))
            return self.ap(f, a, b)
        raise Unsup('operator ' + o)

    def binop(self, st, n, fr):
        o = n['o']
        a, b = kids(n)
        if o == '=':
            v = self.toint(self.val(st, b, fr), a.get('t', ''), b)
            l = self.lval(st, a, fr)
            self.store(st, l, v)
            return l
        if o == ',':
            self.ev(st, a, fr)
            return self.ev(st, b, fr)
        if o in ('&&', '||'):
            x = self.boolv(st, a, fr)
            if isinstance(x, Leaf) and x.v == (o == '||'):
                return x
            y = self.boolv(st, b, fr)
            return self.ite(x, y, FALSE) if o == '&&' else self.ite(x, TRUE, y)
        x, y = self.val(st, a, fr), self.val(st, b, fr)
        if o in ('<', '>', '<=', '>=', '==', '!='):
            if not (isinstance(x, (Leaf, Node)) and isinstance(y, (Leaf, Node))):
                kx, ky = self.key(x), self.key(y)
                r = TRUE if kx == ky else self.cond('eq', (kx, ky))
                if o == '==':
                    return r
                if o == '!=':
                    return self.notb(r)
                raise Unsup('comparison of objects')
            integer = base(a.get('t', '')) not in ('double', 'float') and base(b.get('t', '')) not in ('double', 'float')

            def f(u, v):
                d = self.radd(num(u), num(v), -1)
                m = Rat({k: -c for k, c in d.n.items()}, d.d)
                if o == '==':
                    return self.eq0(d)
                if o == '!=':
                    return self.notb(self.eq0(d))
                c = d.const()
                if c is not None:
                    return {'<': c < 0, '>': c > 0, '<=': c <= 0, '>=': c >= 0}[o]
                if integer and o in ('<=', '>='):
                    d1 = self.radd(d, rconst(-1 if o == '<=' else 1))
                    m1 = Rat({k: -c for k, c in d1.n.items()}, d1.d)
                    return self.gt0(m1) if o == '<=' else self.gt0(d1)
                if o == '>':
                    return self.gt0(d)
                if o == '<':
                    return self.gt0(m)
                if o == '>=':
                    return self.notb(self.gt0(m)) if self.sign(d) is None else (TRUE if self.sign(d) >= 0 else FALSE)
                return self.notb(self.gt0(d)) if self.sign(d) is None else (TRUE if self.sign(d) <= 0 else FALSE)
            return self.ap(f, x, y)
        return self.arith(o, x, y, a.get('t', ''), b.get('t', ''))

    # ---- calls
    MATH1 = {'sqrt', 'fabs', 'abs'}

    def call(self, st, n, fr):
        fn = (n.get('fn') or '')
        short = fn.split('::')[-1]
        a = args(n)
        if self.extern:
            r = self.extern(self, st, n, fr)
            if r is not None:
                return r
        if fn in ('std::move', 'std::forward'):
            return self.ev(st, a[0], fr)
        if fn == 'std::numeric_limits<double>::epsilon':
            return Leaf(rconst(Fraction(1, 2 ** 52)))
        if not n.get('f') in self.p.fns or fn.startswith(('std::', 'Kokkos::')) and short in ('min', 'max', 'abs', 'fabs', 'sqrt', 'fmin', 'fmax', 'pow', 'exp'):
            if short in ('sqrt',):
                return self.sqrtv(self.val(st, a[0], fr))
            if short in ('fabs', 'abs'):
                return self.absv(self.val(st, a[0], fr))
            if short in ('fmax', 'max') and len(a) == 2:
                return self.maxv(self.val(st, a[0], fr), self.val(st, a[1], fr))
            if short in ('fmin', 'min') and len(a) == 2:
                return self.maxv(self.val(st, a[0], fr), self.val(st, a[1], fr), -1)
            if short == 'pow':
                x, y = self.val(st, a[0], fr), self.val(st, a[1], fr)
                if isinstance(y, Leaf) and num(y.v).const() is not None and num(y.v).const().denominator == 1 and abs(num(y.v).const()) <= 8:
                    e = int(num(y.v).const())
                    r = Leaf(rconst(1))
                    for _ in range(abs(e)):
                        r = self.mul(r, x)
                    return r if e >= 0 else self.div(Leaf(rconst(1)), r)
                return self.fun('pow', x, y)
            if short in ('exp', 'log', 'sin', 'cos', 'tan', 'log10', 'cbrt', 'asin', 'acos', 'atan', 'tanh', 'cosh', 'sinh', 'floor', 'ceil', 'round') and len(a) == 1:
                return self.fun(short, self.val(st, a[0], fr))
            if short in ('atan2', 'fmod', 'copysign', 'hypot') and len(a) == 2:
                return self.fun(short, self.val(st, a[0], fr), self.val(st, a[1], fr))
            if short == 'abort':
                st.dead = True
                return None
        if n['k'] == 'CXXOperatorCallExpr' and n['o'] in ('->', '*') and base(kids(n)[1].get('t', '')).startswith('std::unique_ptr<'):
            v = self.ev(st, kids(n)[1], fr)
            if isinstance(v, LV) and v.cell[0] == 'new':
                return v
        o = callee_obj(n)
        if n['k'] == 'CXXOperatorCallExpr' and n['o'] == '[]' and n.get('f') not in self.p.fns:
            return self.index(st, self.ev(st, kids(n)[1], fr), self.val(st, kids(n)[2], fr), n.get('t', ''))
        if n['k'] == 'CXXOperatorCallExpr' and n['o'] == '[]' and arr_len(base(kids(n)[1].get('t', ''))):
            return self.index(st, self.ev(st, kids(n)[1], fr), self.val(st, kids(n)[2], fr), n.get('t', ''))
        if n['k'] == 'CXXOperatorCallExpr' and n['o'] == '=' and (n.get('f') not in self.p.fns or not self.p.fns[n['f']].get('body')):
            v = self.val(st, kids(n)[2], fr)
            l = self.lval(st, kids(n)[1], fr)
            self.store(st, l, v)
            return l
        # lambda or functor call
        ov = None
        if o is not None:
            ov = self.ev(st, o, fr)
            lam = ov
            if isinstance(ov, LV) and not ov.path and isinstance(st.mem.get(ov.cell), Lam):
                lam = st.mem[ov.cell]
            elif isinstance(ov, LV) and isinstance(st.mem.get(ov.cell), (S,)):
                try:
                    z = self.load(st, ov)
                    if isinstance(z, Lam):
                        lam = z
                except Unsup:
                    pass
            if isinstance(lam, Lam):
                g = self.lamfn(lam, n)
                if g is None:
                    raise Unsup('lambda body')
                return self.run(st, g, a, fr, lam.this, lam.env)
        g = self.p.fns.get(n.get('f') or '')
        if g is not None and g.get('body') and not (n.get('virt') and not n.get('nov') and self.p.overriders.get(g['id'])) \
                and (self.inlinable is None or self.inlinable(g)):
            this = fr['this']
            if o is not None:
                this = ov if isinstance(ov, LV) else None
                if this is None:
                    c = self.cell('tmp')
                    st.mem[c] = ov
                    this = LV(c, (), o.get('t', ''))
            return self.run(st, g, a, fr, this)
        # opaque: a pure function of its arguments (views, mesh queries)
        if n['k'] == 'CXXOperatorCallExpr' and not o:
            raise Unsup('operator %s' % n.get('o'))
        kk = ['call', fn]
        if o is not None:
            w = ov
            if isinstance(w, LV):
                w = self.load(st, w, o.get('t', '')) if w.cell in st.mem else Opq((w.cell,) + w.path)
            kk.append(self.key(w))
        for x in a:
            if x['k'] == 'DefArg':
                continue
            w = self.ev(st, x, fr)
            if isinstance(w, LV):
                w = self.load(st, w, x.get('t', ''))
            kk.append(self.key(w))
        if n.get('lv'):
            return LV(('ext',) + tuple(kk), (), n.get('t', ''))
        return self.default(tuple(kk), n.get('t', ''))

    def lamfn(self, lam, n):
        if n.get('f') in self.p.fns:
            return self.p.fns[n['f']]
        for x in lam.node.get('fns', ()):
            if x in self.p.fns and len(self.p.fns[x]['params']) == len(args(n)):
                return self.p.fns[x]
        return None

    def run(self, st, g, argn, fr, this, env0=None):
        """inline a call"""
        if self.depth > 40:
            raise Unsup('call depth')
        self.depth += 1
        try:
            env = dict(env0 or {})
            ps = g['params']
            for q, x in zip(ps, argn):
                if q['t'].endswith('&') or q['t'].endswith('*'):
                    v = self.ev(st, x, fr)
                    if not isinstance(v, LV):
                        c = self.cell('tmp')
                        st.mem[c] = v
                        v = LV(c, (), q['t'])
                    env[q['d']] = v
                else:
                    v = self.toint(self.val(st, x, fr), q['t'], x)
                    c = self.cell(q['n'] or 'arg')
                    st.mem[c] = v
                    env[q['d']] = LV(c, (), q['t'])
            return self.body(st, g, env, this)
        finally:
            self.depth -= 1

    def body(self, st, g, env, this):
        fr = {'env': env, 'this': this, 'f': g, 'ref': g.get('rt', '').endswith('&')}
        for i in g.get('inits', ()):
            if i.get('x') and this is not None:
                if ':' in i['m'] or i.get('base') or i['m'] == 'delegating':
                    v = self.val(st, i['x'], fr)
                    if isinstance(v, S):
                        for k, x in v.items():
                            self.store(st, this.ext(k), x)
                    continue
                fl = None
                r = self.p.recs.get(g.get('cls', '')) or {}
                for q in r.get('fields', ()):
                    if q['n'] == i['m']:
                        fl = q
                v = self.lval(st, i['x'], fr) if fl and (fl['t'].endswith('&') or base(fl['t']).startswith('std::unique_ptr<')) else self.val(st, i['x'], fr)
                self.store(st, this.ext(i['m']), v)
        fl = self.block(st, [g['body']], fr)
        if fl and fl[0] == 'ret':
            return fl[1]
        return None

    # ---- statements
    def merge(self, st, c, s1, s2):
        if s1.dead and not s2.dead:
            st.mem = s2.mem
            return
        if s2.dead and not s1.dead:
            st.mem = s1.mem
            return
        if s1.dead and s2.dead:
            st.dead = True
            return
        m = {}
        for k in list(s1.mem) + [k for k in s2.mem if k not in s1.mem]:
            if k in s1.mem and k in s2.mem:
                a, b = s1.mem[k], s2.mem[k]
                if a is b or isinstance(a, Lam):
                    m[k] = a
                else:
                    m[k] = self.ite(c, a, b)
            else:
                x = s1.mem.get(k, s2.mem.get(k))
                if k[0] in ('ext', 'var', 'in'):     # memory not written on the other side: keeps its initial value
                    d = self.initial(k, x)
                    m[k] = self.ite(c, x, d) if k in s1.mem else self.ite(c, d, x)
                else:
                    m[k] = x
        st.mem = m

    def initial(self, k, x):
        if isinstance(x, S):
            r = S()
            r.t = x.t
            for q, y in x.items():
                r[q] = self.initial((k, q), y)
            return r
        if isinstance(x, (Leaf, Node)):
            return self.atom(k)
        return Opq(k)

    def block(self, st, stmts, fr):
        """None: fell through; ('ret', v) / ('brk',) / ('cont',)"""
        i = 0
        while i < len(stmts):
            n = stmts[i]
            i += 1
            if n is None or st.dead:
                continue
            k = n['k']
            if k in ('CompoundStmt',):
                stmts = kids(n) + stmts[i:]
                i = 0
                continue
            if k in ('Decl', 'DeclStmt'):
                for v in kids(n):
                    if v['k'] == 'Var':
                        self.decl(st, v, fr)
                continue
            if k == 'Var':
                self.decl(st, n, fr)
                continue
            if k in ('NullStmt', 'StaticAssert', 'TypedefDecl', 'DeclNoop'):
                continue
            if k == 'ReturnStmt':
                c = kids(n)
                if not c:
                    return ('ret', None)
                if fr['ref']:
                    return ('ret', self.ev(st, c[0], fr))
                return ('ret', self.val(st, c[0], fr))
            if k == 'BreakStmt':
                return ('brk',)
            if k == 'ContinueStmt':
                return ('cont',)
            if k == 'IfStmt':
                if n.get('init'):
                    self.block(st, [n['init']], fr)
                if n.get('cvar'):
                    raise Unsup('condition variable')
                c = self.boolv(st, n['cond'], fr)
                if isinstance(c, Leaf):
                    b = n.get('then') if c.v else n.get('else')
                    if b:
                        stmts = [b] + stmts[i:]
                        i = 0
                    continue
                return self.split(st, c, [n.get('then')], [n.get('else')], stmts[i:], fr)
            if k == 'SwitchStmt':
                return self.switch(st, n, stmts[i:], fr)
            if k == 'ForStmt':
                if n.get('init'):
                    r = self.block(st, [n['init']], fr)
                cnt = 0
                done = False
                while not done:
                    c = self.loopcond(st, n['cond'], fr) if n.get('cond') else TRUE
                    if not c.v:
                        break
                    cnt += 1
                    if cnt > 64:
                        raise Unsup('long loop')
                    r = self.block(st, [n['body']], fr)
                    if r and r[0] == 'ret':
                        return r
                    if r and r[0] == 'brk':
                        break
                    if n.get('inc'):
                        self.ev(st, n['inc'], fr)
                continue
            if k == 'CXXForRangeStmt':
                v = self.ev(st, n['range'], fr)
                w = self.load(st, v) if isinstance(v, LV) else v
                items = self.rangeitems(st, v, w)
                if items is not None:
                    for x in items:
                        if n.get('binds'):
                            for d, y in zip(n['binds'], x.values()):
                                if not isinstance(y, LV):
                                    c = self.cell('rng')
                                    st.mem[c] = y
                                    y = LV(c)
                                fr['env'][d] = y
                        else:
                            if not isinstance(x, LV):
                                c = self.cell('rng')
                                st.mem[c] = x
                                x = LV(c)
                            fr['env'][n['var']['d']] = x
                        r = self.block(st, [n['body']], fr)
                        if st.dead:
                            return None
                        if r and r[0] == 'ret':
                            return r
                        if r and r[0] == 'brk':
                            break
                    continue
                if not isinstance(w, S) or not all(isinstance(x, int) for x in w):
                    raise Unsup('range loop')
                ref = n['var']['t'].endswith('&')
                for j in sorted(w):
                    if ref and isinstance(v, LV):
                        fr['env'][n['var']['d']] = v.ext(j)
                    else:
                        c = self.cell('rng')
                        st.mem[c] = w[j]
                        fr['env'][n['var']['d']] = LV(c)
                    r = self.block(st, [n['body']], fr)
                    if r and r[0] == 'ret':
                        return r
                    if r and r[0] == 'brk':
                        break
                continue
            if k in ('WhileStmt', 'DoStmt') and n.get('cond') and n.get('body'):
                cnt = 0
                while True:
                    if k == 'WhileStmt' or cnt:
                        c = self.loopcond(st, n['cond'], fr)
                        if not c.v:
                            break
                    cnt += 1
                    if cnt > 64:
                        raise Unsup('long loop')
                    r = self.block(st, [n['body']], fr)
                    if r and r[0] == 'ret':
                        return r
                    if r and r[0] == 'brk':
                        break
                continue
            if k in ('WhileStmt', 'DoStmt', 'GotoStmt', 'CXXTryStmt'):
                raise Unsup(k)
            if k == 'CXXThrowExpr':
                st.dead = True
                continue
            if k in ('LabelStmt', 'AttributedStmt'):
                stmts = kids(n) + stmts[i:]
                i = 0
                continue
            # expression statement
            self.ev(st, n, fr)
        return None

    def rangeitems(self, st, v, w):
        """elements of a container other than an array or vector"""
        return None

    def looped(self):
        pass

    def loopcond(self, st, n, fr):
        """condition of a loop; an undecided one holds as often as self.loops says"""
        c = self.boolv(st, n, fr)
        if isinstance(c, Leaf):
            return c
        if self.loops is None:
            raise Unsup('loop bound')
        self.loopconds.append(c)
        self.looped()
        if self.loops > 0:
            self.loops -= 1
            return TRUE
        return FALSE

    def split(self, st, c, A, B, rest, fr):
        s1, s2 = st.copy(), st.copy()
        f1 = dict(fr, env=dict(fr['env']))
        f2 = dict(fr, env=dict(fr['env']))
        a = self.block(s1, [x for x in A if x], f1)
        b = self.block(s2, [x for x in B if x], f2)
        if s1.dead:
            a = b
            if not s2.dead:
                st.mem = s2.mem
            else:
                st.dead = True
                return None
            return a if a else self.block(st, rest, fr)
        if s2.dead:
            st.mem = s1.mem
            return a if a else self.block(st, rest, fr)
        if not a and not b:
            self.merge(st, c, s1, s2)
            return self.block(st, rest, fr)
        if not a:
            a = self.block(s1, rest, f1)
        if not b:
            b = self.block(s2, rest, f2)
        a = a or ('fall',)
        b = b or ('fall',)
        if s1.dead or s2.dead:
            live = s2 if s1.dead else s1
            if live.dead:
                st.dead = True
                return None
            st.mem = live.mem
            r = b if s1.dead else a
            return None if r[0] == 'fall' else r
        if a[0] in ('fall', 'ret') and b[0] in ('fall', 'ret'):
            va = a[1] if a[0] == 'ret' else None
            vb = b[1] if b[0] == 'ret' else None
            self.merge(st, c, s1, s2)
            return ('ret', self.ite(c, va, vb))
        if a[0] == b[0]:
            self.merge(st, c, s1, s2)
            return a
        raise Unsup('conditional %s/%s' % (a[0], b[0]))

    def switch(self, st, n, rest, fr):
        body = n['body']
        items = kids(body) if body['k'] == 'CompoundStmt' else [body]
        flat = []      # (labels, stmt)
        for x in items:
            labs = []
            while x['k'] in ('CaseStmt', 'DefaultStmt'):
                c = kids(x)
                if x['k'] == 'CaseStmt':
                    labs.append(x['val'])
                    x = x.get('body') or {'k': 'NullStmt'}
                else:
                    labs.append(None)
                    x = c[0] if c else {'k': 'NullStmt'}
            flat.append((labs, x))
        v = self.val(st, n['cond'], fr)

        def go(pos, s, f):
            r = self.block(s, [x for _, x in flat[pos:]], f)
            if r and r[0] == 'brk':
                r = None
            return r
        cases = [(i, l) for i, (ls, _) in enumerate(flat) for l in ls if l is not None]
        dflt = next((i for i, (ls, _) in enumerate(flat) if None in ls), None)

        def chain(j, s, f):
            if j == len(cases):
                return go(dflt, s, f) if dflt is not None else None
            i, l = cases[j]
            lv = self.val(s, l, f)
            c = self.ap(lambda x, y: self.eq0(self.radd(num(x), num(y), -1)), v, lv)
            if isinstance(c, Leaf):
                return go(i, s, f) if c.v else chain(j + 1, s, f)
            s1, s2 = s.copy(), s.copy()
            f1, f2 = dict(f, env=dict(f['env'])), dict(f, env=dict(f['env']))
            a, b = go(i, s1, f1), chain(j + 1, s2, f2)
            if s1.dead or s2.dead:
                live = s2 if s1.dead else s1
                if live.dead:
                    s.dead = True
                    return None
                s.mem = live.mem
                return b if s1.dead else a
            if (a is None) != (b is None):
                if a is None:
                    a = self.block(s1, rest, f1)
                else:
                    b = self.block(s2, rest, f2)
                self.merge(s, c, s1, s2)
                return ('ret', self.ite(c, a[1] if a else None, b[1] if b else None))
            self.merge(s, c, s1, s2)
            if a is None:
                return None
            if a[0] != 'ret' or b[0] != 'ret':
                raise Unsup('switch flow')
            return ('ret', self.ite(c, a[1], b[1]))
        r = chain(0, st, fr)
        if st.dead:
            return None
        return r if r else self.block(st, rest, fr)

    def decl(self, st, v, fr):
        t = v.get('t', '')
        if v.get('init') is None:
            b = base(t)
            c = self.cell(v['n'])
            self.fresh += 1
            if b in self.p.recs:
                st.mem[c] = self.make(st, b, None, None, fr)
            elif arr_len(b):
                s = S()
                s.t = b
                for i in range(arr_len(b)[1]):
                    self.fresh += 1
                    s[i] = self.default(('uninit', self.fresh), arr_len(b)[0])
                st.mem[c] = s
            else:
                st.mem[c] = self.default(('uninit', self.fresh), b)
            fr['env'][v['d']] = LV(c, (), t)
            return
        if t.endswith('&'):
            x = self.lval(st, v['init'], fr)
            fr['env'][v['d']] = x
            return
        x = self.short(self.toint(self.val(st, v['init'], fr), t, v['init']))
        c = self.cell(v['n'])
        st.mem[c] = x
        fr['env'][v['d']] = LV(c, (), t)

    # ---- entry points
    def sym(self, name, t, pos=()):
        """fresh symbolic value of a type, members expanded"""
        t = base(t)
        if t in self.p.recs and self.p.recs[t]['fields']:
            v = S()
            v.t = t
            for fl in self.p.recs[t]['fields']:
                v[fl['n']] = self.sym('%s.%s' % (name, fl['n']), fl['t'], pos)
            return v
        m = arr_len(t)
        if m:
            v = S()
            v.t = t
            for i in range(m[1]):
                v[i] = self.sym('%s[%d]' % (name, i), m[0], pos)
            return v
        if t == 'bool':
            return self.cond('bool', name)
        if t in SCALAR or t in self.p.enums:
            return self.atom(name, name in pos)
        return Opq(name, t)

    def apply(self, f, vals, this=None, st=None):
        """value of f on argument values; returns (result, state, cells of the arguments)"""
        st = st or State()
        env = {}
        cells = []
        for q, v in zip(f['params'], vals):
            c = self.cell(q['n'] or 'arg')
            if not isinstance(v, LV):
                st.mem[c] = v
                v = LV(c, (), q['t'])
            env[q['d']] = v
            cells.append(v)
        r = self.body(st, f, env, this)
        if isinstance(r, LV):
            r = self.load(st, r, f.get('rt', ''))
        return r, st, cells

    # ---- printing
    def show(self, v, lim=160):
        def p(q):
            out = []
            for m, c in sorted(q.items(), key=lambda x: str(x)):
                s = '*'.join(self.an(a) + ('^%d' % e if e != 1 else '') for a, e in m)
                out.append((str(c) + ('*' + s if s else '')) if c != 1 or not s else s)
            return ' + '.join(out) or '0'
        if isinstance(v, Leaf):
            if isinstance(v.v, Rat):
                r = p(v.v.n) if v.v.d == ONE else '(%s)/(%s)' % (p(v.v.n), p(v.v.d))
            else:
                r = str(v.v)
        elif isinstance(v, Node):
            k, x = self.conds[v.c]
            r = '[%s %s ? %s : %s]' % (k, self.show(Leaf(x)) if isinstance(x, Rat) else x, self.show(v.hi), self.show(v.lo))
        elif isinstance(v, S):
            r = '{' + ', '.join('%s: %s' % (k, self.show(x)) for k, x in v.items()) + '}'
        else:
            r = repr(v)
        return r if len(r) <= lim else r[:lim] + '...'

    def an(self, a):
        k = self.atoms[a]
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], tuple) and k[1] and isinstance(k[1][0], Rat):
            return '%s(%s)' % (k[0], ', '.join(self.show(Leaf(x), 60) for x in k[1]))
        return str(k) if not isinstance(k, tuple) else '.'.join(str(x) for x in k)[:60]

    def equal(self, a, b):
        """same value"""
        if isinstance(a, S) and isinstance(b, S):
            return set(a) == set(b) and all(self.equal(a[k], b[k]) for k in a)
        if isinstance(a, (Leaf, Node)) and isinstance(b, (Leaf, Node)):
            if same(a, b):
                return True
            d = self.ap(lambda x, y: (x == y) if type(x) == type(y) else num(x) == num(y), a, b)
            return isinstance(d, Leaf) and d.v is True
        return self.key(a) == self.key(b)

    def diff(self, a, b, path=''):
        """first differing component"""
        if isinstance(a, S) and isinstance(b, S):
            for k in list(a) + [k for k in b if k not in a]:
                if k not in a or k not in b:
                    return '%s.%s only on one side' % (path, k)
                if not self.equal(a[k], b[k]):
                    return self.diff(a[k], b[k], '%s.%s' % (path, k))
            return None
        return '%s: %s  !=  %s' % (path or 'value', self.show(a), self.show(b))


class BadPoint(Exception):
    pass


class Point:
    """a generic real point (120 digits); positive atoms get positive values, functions follow their arguments"""

    exact = False  # give rounding functions their value instead of a generic one

    def __init__(self, vg, seed):
        import random
        self.vg, self.r = vg, random.Random(seed)
        self.v = {}
        self.f = []
        self.fx = {}
        self.bools = {}

    def near(self, a, b):
        return abs(a - b) <= EPS * (abs(a) + abs(b) + 1)

    def rnd(self, pos):
        x = Decimal(self.r.randint(10 ** 18, 3 * 10 ** 18)) / Decimal(10 ** 18)
        return x if pos or self.r.random() < 0.5 else -x

    def atom(self, i):
        if i in self.v:
            return self.v[i]
        k = self.vg.atoms[i]
        if isinstance(k, tuple) and len(k) == 2 and k[0] == 'ited':
            x = k[1]
            while isinstance(x, Node):
                kind, r = self.vg.conds[x.c]
                if isinstance(r, Rat):
                    w = self.rat(r)
                    b = w > 0 if kind == 'pos' else w >= 0 if kind == 'nneg' else w == 0
                else:
                    b = self.bools.setdefault(x.c, self.r.random() < 0.5)
                x = x.hi if b else x.lo
            v = self.rat(x.v)
        elif isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], tuple) and k[1] and all(isinstance(x, Rat) for x in k[1]):
            xs = [self.rat(x) for x in k[1]]
            if k[0] == 'let':
                v = xs[0]
            elif k[0] == 'sqrt':
                if xs[0] < 0:
                    raise BadPoint()
                v = xs[0].sqrt()
            elif k[0] == 'abs':
                v = abs(xs[0])
            elif self.exact and k[0] in ('floor', 'trunc', 'idiv', 'ceil'):
                a = xs[0]
                if len(xs) == 2:
                    if not xs[1]:
                        raise BadPoint()
                    a = a / xs[1]
                v = a.to_integral_value({'floor': 'ROUND_FLOOR', 'ceil': 'ROUND_CEILING'}.get(k[0], 'ROUND_DOWN'))
            elif k[0].startswith('flux.') and hasattr(self.vg, 'fluxpoint'):
                v = self.vg.fluxpoint(k[0][5:], xs, self)
            else:
                for n, ys, w in self.f:
                    if n == k[0] and len(xs) == len(ys) and all(self.near(x, y) for x, y in zip(xs, ys)):
                        v = w
                        break
                else:
                    v = self.rnd(i in self.vg.pos)
                    self.f.append((k[0], xs, v))
        else:
            v = self.rnd(i in self.vg.pos)
        self.v[i] = v
        return v

    def poly(self, q):
        t = Decimal(0)
        for m, c in q.items():
            x = Decimal(c.numerator) / Decimal(c.denominator) if isinstance(c, Fraction) else Decimal(c)
            for a, e in m:
                x *= self.atom(a) ** e
            t += x
        return t

    def rat(self, r):
        d = self.poly(r.d)
        if d == 0:
            raise BadPoint()
        return self.poly(r.n) / d


class OS(S):
    """partially written view of an opaque object"""

    def __init__(self, o=None, s=None):
        super().__init__(s or {})
        self.o = o
        self.t = o.t if o is not None else None

    def put(self, k, v):
        r = OS(self.o, self)
        r[k] = v
        return r


_field = VG.field


def _osfield(self, v, k, t):
    if isinstance(v, OS) and k not in v:
        return _field(self, v.o, k, t)
    return _field(self, v, k, t)


VG.field = _osfield


def num(x):
    if isinstance(x, Rat):
        return x
    if isinstance(x, bool):
        return rconst(int(x))
    raise Unsup('number expected')


import re
_ARR = re.compile(r'^(?:Kokkos|std)::[Aa]rray<(.*), (\d+)(?:, void)?>$')
_CARR = re.compile(r'^([^\[]*)\[(\d+)\]((?:\[\d+\])*)$')


def arr_len(t):
    m = _ARR.match(t)
    if m:
        return (m.group(1), int(m.group(2)))
    m = _CARR.match(t)
    if m:
        return (m.group(1) + m.group(3), int(m.group(2)))
    return None
