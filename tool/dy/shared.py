"""Elements of captured arrays that several iterations of a parallel loop write without an atomic operation, by dataflow from the
iteration variable."""
from .facts import kids, walk
from .ast import args, callee_obj, expr, is_call, strip

LOOPS = {'parallel_for', 'parallel_reduce', 'parallel_scan', 'foreach_cell', 'reduce_cell', 'foreach_particle', 'reduce_particle', 'foreach_ghost_cell'}
CELLS = {'foreach_cell', 'reduce_cell', 'foreach_ghost_cell'}


def body_of(p, n):
    return next((p.fns[x] for x in n.get('fns', ()) if x in p.fns and p.fns[x].get('body')), None)


def root(n):
    n = strip(n)
    while True:
        k = n['k']
        c = kids(n)
        if k == 'MemberExpr' and c:
            n = strip(c[0])
        elif k == 'CXXOperatorCallExpr' and len(c) > 1:
            n = strip(c[1])
        elif k == 'CXXMemberCallExpr':
            o = callee_obj(n)
            if o is None:
                return n
            n = strip(o)
        elif (k in ('ArraySubscriptExpr', 'ParenExpr', 'UnaryOperator') or k.endswith('CastExpr')) and c:
            n = strip(c[0])
        else:
            return n


class Kernel:
    """one functor of a parallel loop"""

    def __init__(self, p, f, nm, found, label):
        self.p, self.nm, self.found, self.label = p, nm, found, label
        self.taint = {}         # decl -> 'd' computed from the iteration variable, 'l' looked up with it
        self.own = set()
        self.writes = 0
        ps = f['params']
        sel = [i for i, q in enumerate(ps) if not self.byref(q)]
        for i in sel:
            self.taint[ps[i]['d']] = 'd'
        for q in ps:
            self.own.add(q['d'])
        self.go(f['body'], False, 0)

    def byref(self, q):
        t = q['t'].strip()
        return t.endswith('&') and not t.startswith('const')

    def level(self, n):
        """how an expression depends on the iteration: None, 'd' or 'l'"""
        r = None
        if n is None:
            return None
        if n['k'] == 'DeclRefExpr':
            return self.taint.get(n.get('d'))
        sub = [self.level(c) for c in kids(n)]
        if 'd' in sub:
            r = 'd'
        elif 'l' in sub:
            r = 'l'
        if r == 'd' and is_call(n) and (n['k'] == 'CXXMemberCallExpr' or n['k'] == 'CallExpr' or n.get('o') == '()'):
            r = 'l'
        return r

    def set(self, d, v):
        o = self.taint.get(d)
        if v and (o is None or v == 'd'):
            self.taint[d] = v

    def go(self, n, guard, depth):
        if n is None or not isinstance(n, dict):
            return
        k = n['k']
        if k == 'Lambda':
            g = body_of(self.p, n)
            return
        if k == 'Var' and 'd' in n:
            self.own.add(n['d'])
            for c in kids(n):
                self.set(n['d'], self.level(c))
        if k in ('For', 'While', 'Do', 'RangeFor', 'ForStmt', 'WhileStmt', 'CXXForRangeStmt'):
            for c in kids(n):
                if c and c['k'] in ('Var', 'Decl', 'DeclStmt'):
                    self.go(c, guard, depth)
        if k in ('If', 'IfStmt', 'ConditionalOperator', 'Switch'):
            c = n.get('cond') or (kids(n)[0] if kids(n) else None)
            g = guard or bool(c and self.level(c))
            for x in kids(n):
                self.go(x, g if x is not c else guard, depth)
            return
        if is_call(n):
            nm = n.get('fn', '').split('::')[-1]
            if nm in LOOPS or nm == 'single':
                for a in args(n):
                    b = strip(a)
                    if b['k'] == 'Lambda':
                        g = body_of(self.p, b)
                        if g and depth < 3:
                            for q in g['params']:
                                self.own.add(q['d'])
                                if not self.byref(q):
                                    self.set(q['d'], 'd')
                            self.go(g['body'], guard, depth + 1)
                return
            if n['k'] == 'CXXOperatorCallExpr' and n.get('o') == '()' and 'lambda at' in kids(n)[1].get('t', '') and depth < 3:
                g = self.p.fns.get(n.get('f'))
                if g and g.get('body'):
                    for q, a in zip(g['params'], args(n)):
                        self.own.add(q['d'])
                        self.set(q['d'], self.level(a))
                        if not self.level(a):
                            # objects built from the iteration variable, as {iOct, false}
                            pass
                    self.go(g['body'], guard, depth + 1)
        w = v = None
        rmw = False
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (n.get('o') == '=' or k[0] == 'C'):
            w, v = kids(n)[:2]
            rmw = k[0] == 'C'
        elif k == 'UnaryOperator' and ('++' in n.get('o', '') or '--' in n.get('o', '')):
            w, v, rmw = kids(n)[0], None, True
        elif k == 'CXXOperatorCallExpr' and n.get('o') in ('=', '+=', '-=', '|=', '&=', '*=', '/=', '++', '--') and len(kids(n)) > 1:
            w = kids(n)[1]
            v = kids(n)[2] if len(kids(n)) > 2 else None
            rmw = n['o'] != '='
        for c in kids(n):
            self.go(c, guard, depth)
        if w is None:
            return
        r = root(w)
        if r['k'] == 'DeclRefExpr' and r.get('d') in self.own:
            if strip(w) is r and v is not None:
                self.set(r['d'], self.level(v))
            return
        if r['k'] not in ('DeclRefExpr', 'CXXThisExpr'):
            return
        self.writes += 1
        if not rmw and v is not None:
            e = expr(w)
            rmw = any(expr(x) == e for x in walk(v) if isinstance(x, dict) and x.get('k') in ('CXXOperatorCallExpr', 'MemberExpr', 'DeclRefExpr', 'ArraySubscriptExpr', 'CXXMemberCallExpr'))
        s = strip(w)
        lv = self.level(w)
        # tainted through a subscript only, not through the element itself
        ind = self.index(s)
        if lv is None:
            if not guard and (rmw or (v is not None and self.level(v))):
                self.bad(n, w, 'the same element for every iteration')
        elif rmw and ind == 'l' and 'CellIndex' not in ''.join(x.get('t', '') for x in args(s) if isinstance(x, dict) and is_call(s)):
            self.bad(n, w, 'an element that several iterations may look up')
        elif self.nm in CELLS and ind and self.octant(s):
            if rmw or (v is not None and self.level(v)):
                self.bad(n, w, 'one element for all the cells of an octant')

    def index(self, s):
        if is_call(s):
            l = [self.level(a) for a in args(s)]
        elif s['k'] == 'ArraySubscriptExpr':
            l = [self.level(kids(s)[1])]
        else:
            return self.level(s)
        return 'd' if 'd' in l else 'l' if 'l' in l else None

    def octant(self, s):
        """all the indices of an element depend on the octant of the cell only"""
        if not is_call(s):
            return False
        a = [x for x in args(s) if self.level(x)]
        if len(a) != 1:
            return False
        t = expr(a[0])
        return t.endswith('.iOct') or t.endswith('getOct()')

    def bad(self, n, w, why):
        self.found.append((self.label, expr(w), why))


def scan(p):
    """(kernels, writes, violations)"""
    found, kernels, writes = [], {}, 0
    for fid, f in p.fns.items():
        if not f.get('body'):
            continue
        for n in walk(f['body']):
            if not is_call(n):
                continue
            nm = n.get('fn', '').split('::')[-1]
            if nm not in LOOPS:
                continue
            for a in args(n):
                b = strip(a)
                if b['k'] != 'Lambda':
                    continue
                g = body_of(p, b)
                if g is None:
                    continue
                label = '%s:%s' % (g.get('file', '?'), g.get('line', '?'))
                k = Kernel(p, g, nm, found, label)
                kernels[label] = max(kernels.get(label, 0), k.writes)
    return kernels, sum(kernels.values()), found
