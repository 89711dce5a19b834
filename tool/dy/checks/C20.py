import re
from ..facts import kids, walk
from ..ast import strip, args, expr, CALLS, callee_obj
from ..axes import Axes, families, sides

RULE = ('a value that one coordinate axis (x, y, z) or one side (min/max, left/right, begin/end) is written into, compared '
        'with, passed as or subtracted from only by values of that axis or side')
EXPLAIN = ('labels are inferred for variables, members, enumerators, settings and array slots from families of sibling names '
           'and propagated through element access, negation, products and copies; every pair of labels that meets in an '
           'initialisation, assignment, argument, aggregate or (axis) integer comparison must agree')
TRUSTED = ('names of sibling variables (xmin/ymin/zmin, IX/IY/IZ, left/right) say which axis or side they belong to',)

INT = re.compile(r'^(const )?(int|unsigned int|unsigned char|unsigned short|short|long|unsigned long|signed char)( &)?$')
# (function, callee parameter): deliberate exchange, with the reason
SIDE_EXCEPT = {
    ('euler_update', 'compute_slope'),   # slope seen from the other side of the face: the distances are exchanged on purpose
}


class Rules:
    def __init__(self, p, ck, ax, kind):
        self.p, self.ck, self.ax, self.kind = p, ck, ax, kind
        self.n = {}

    def leaf(self, f, n):
        n = strip(n)
        if n['k'] == 'UnaryOperator' and n['o'] in '-+':
            n = strip(kids(n)[0])
        if n['k'] == 'BinaryOperator':
            return None
        return self.ax.label(f, n)

    def factor(self, f, n):
        n = strip(n)
        if n['k'] == 'UnaryOperator' and n['o'] in '-+':
            return self.factor(f, kids(n)[0])
        if n['k'] == 'BinaryOperator' and n['o'] == '*':
            a, b = [self.factor(f, c) for c in kids(n)]
            return None if a and b else a or b
        if n['k'] == 'BinaryOperator' and n['o'] == '/':
            a, b = [self.factor(f, c) for c in kids(n)]
            return None if b else a
        return self.leaf(f, n)

    def cmp(self, f, a, b, what, line, txt):
        if not (a and b):
            return
        self.n[what] = self.n.get(what, 0) + 1
        root = self.ax.root(f)
        key = '%s:%s:%s:%s' % (self.kind, f['file'], root['n'], txt)
        if a == b:
            self.ck.ok(key)
        else:
            self.ck.bad(key, '%s:%s' % (f['file'], line), 'in %s: %s: %s meets %s' % (root['q'], txt, a, b))

    def swap_fn(self, f):
        return any('Component' in q['t'] for q in f['params'])

    def run(self):
        p, ax = self.p, self.ax
        axis = self.kind == 'axis'
        for f in p.fns.values():
            L = lambda n: self.leaf(f, n)
            F = (lambda n: self.factor(f, n)) if axis else L
            for i in f.get('inits', ()):
                if i.get('x') and f.get('cls') in ax.recn:
                    self.cmp(f, ax.recn[f['cls']].get(i['m']), L(i['x']), 'member initialiser', f['line'],
                             i['m'] + ' = ' + expr(i['x'])[:60])
            skip = set()
            if axis:
                for n in p.nodes(f):      # two-dimensional run: another component stands in for the vertical one
                    if n['k'] == 'IfStmt' and re.search(r'\bn?dim\b|ndim', expr(n['cond'])):
                        for b in ('then', 'else'):
                            if n.get(b):
                                for m in walk(n[b]):
                                    skip.add(id(m))
            for n in p.nodes(f):
                k = n['k']
                if k == 'BinaryOperator' and n['o'] in ('==', '!=', '<', '>', '<=', '>=', '%') and axis:
                    a, b = kids(n)
                    if INT.match(a.get('t', '')) and INT.match(b.get('t', '')):
                        self.cmp(f, L(a), L(b), 'comparison', n['l'], expr(n)[:90])
                elif k == 'BinaryOperator' and n['o'] == '-':
                    a, b = kids(n)
                    if axis:
                        self.cmp(f, L(a), L(b), 'difference', n['l'], expr(n)[:90])
                    else:
                        la, lb = L(a), L(b)
                        if la and lb and re.search('min|max', expr(a)) and expr(a).replace('max', 'min') == expr(b).replace('max', 'min'):
                            self.cmp(f, 'hi:lo', la + ':' + lb, 'extent', n['l'], expr(n)[:90])
                elif k in ('CompoundAssignOperator', 'BinaryOperator') and n['o'] in ('+=', '-=', '='):
                    if n['o'] != '=' and not axis:
                        continue
                    a, b = kids(n)
                    sa = strip(a)
                    if sa['k'] == 'DeclRefExpr' and id(n) in skip:
                        continue
                    self.cmp(f, L(a), (F if sa['k'] != 'DeclRefExpr' else L)(b), 'assignment', n['l'], expr(n)[:90])
                elif k == 'Var' and n.get('init'):
                    self.cmp(f, ax.scope(f).get(n['n']), L(n['init']), 'initialisation', n['l'], n['n'] + ' = ' + expr(n['init'])[:70])
                elif n.get('f') in p.fns and k in CALLS:
                    g = p.fns[n['f']]
                    if not axis and (ax.root(f)['n'], g['n']) in SIDE_EXCEPT:
                        continue
                    for q, a in zip(g['params'], args(n)):
                        self.cmp(f, ax.param(g).get(q['n']), L(a), 'argument', n['l'], '%s: %s = %s' % (g['n'], q['n'], expr(a)[:60]))
                elif k == 'InitListExpr' and n.get('t') in p.recs:
                    if self.transposition(f, n):
                        continue
                    r = p.recs[n['t']]
                    for q, a in zip(r['fields'], kids(n)):
                        self.cmp(f, ax.recn[r['q']].get(q['n']), F(a), 'aggregate', n['l'], q['n'] + ' = ' + expr(a)[:60])
                elif k == 'InitListExpr' and axis and len(kids(n)) in (2, 3):
                    ls = [F(c) for c in kids(n)]
                    if all(ls) and len(set(ls)) > 1:
                        self.cmp(f, 'xyz'[:len(ls)], ''.join(ls), 'triple', n['l'], expr(n)[:90])
                elif k == 'ConditionalOperator' and axis:
                    c, a, b = kids(n)
                    c = strip(c)
                    if c['k'] == 'BinaryOperator' and c['o'] == '==':
                        for z in kids(c):
                            z = strip(z)
                            if z.get('dk') == 'enum':
                                l = ax.label(f, z)
                                self.cmp(f, l, L(a), 'selection', n['l'], expr(n)[:90])
                                if l and L(b) == l:
                                    self.cmp(f, 'not ' + l, L(b), 'selection', n['l'], expr(n)[:90])

    def transposition(self, f, n):
        """aggregate of a function parametrised by a component: exchange of axes, decided by C06"""
        if self.kind != 'axis':
            return False
        g = f
        while g:
            if self.swap_fn(g):
                break
            g = self.p.fns.get(g.get('parent') or '')
        if not g:
            return False
        r = self.p.recs[n['t']]
        pairs = [(self.ax.recn[r['q']].get(q['n']), self.factor(f, a)) for q, a in zip(r['fields'], kids(n))]
        pairs = [(a, b) for a, b in pairs if a and b]
        m = {}
        for a, b in pairs:
            m.setdefault(a, set()).add(b)
        return bool(m) and all(len(v) == 1 for v in m.values()) and sorted(x for v in m.values() for x in v) == sorted(m)


def run(p, ck):
    ax = Axes(p)
    keys = set()
    for f in p.fns.values():
        for n in p.nodes(f):
            if n['k'] == 'CXXMemberCallExpr' and n.get('fn') == 'ConfigMap::getValue':
                s = ax.string(args(n)[1])
                if s:
                    keys.add(s.lower())
    r = Rules(p, ck, Axes(p, keys), 'axis')
    r.run()
    for k, v in r.n.items():
        ck.count('axis ' + k, v)
    ck.require('axis label pairs', sum(r.n.values()), 500)
    s = Rules(p, ck, Axes(p, keys, sides), 'side')
    s.run()
    for k, v in s.n.items():
        ck.count('side ' + k, v)
    ck.require('side label pairs', sum(s.n.values()), 100)
