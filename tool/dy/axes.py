"""Axis labels: which coordinate axis a variable, member, enumerator, setting or array slot belongs to,
inferred from families of sibling names (xmin/ymin/zmin, IX/IY/IZ, rho_vx/rho_vy, u/v/w ...), and
propagated through element access, copies and products."""
import re
from .facts import kids, walk
from .ast import strip, args, CTORS, callee_obj

UVW = {'u': 'x', 'v': 'y', 'w': 'z', 'U': 'x', 'V': 'y', 'W': 'z'}


def families(s):
    """[(family, axis)] readings of a name"""
    out = []
    for m in re.finditer(r'[xyzXYZ]', s):
        i = m.start()
        # the letter stands for an axis only if it is a token of its own or follows a short prefix
        before, after = s[:i], s[i + 1:]
        if (after[:1] and after[0] in 'xyz' and s[i].islower()) or (before[-1:] and before[-1] in 'xyz' and s[i].islower()):
            return []          # tau_xy: two axes
        if before.endswith('dS') or before.endswith('dv') or before.endswith('dw') or before.endswith('du'):
            continue           # surface normal to the axis; derivative of another component
        if after and re.match(r'[a-z]', after) and s[i].islower() and not re.match(r'(min|max|_|l$|r$|axis|dir|pos|lo|hi)', after):
            continue
        if after and s[i].isupper() and not re.match(r'(_|\d|MIN|MAX|$|[LR]$)', after):
            continue
        out.append((before + '?' + after, s[i].lower()))
    m = re.match(r'^(|.*_|I|I[A-Za-z]*_)([uvwUVW])(_.*|)$', s)
    if m:
        out.append((m.group(1) + '?uvw' + m.group(3), UVW[m.group(2)]))
    return out


PAIRS = (('min', 'max'), ('left', 'right'), ('Left', 'Right'), ('MIN', 'MAX'), ('begin', 'end'), ('first', 'last'))


def sides(s):
    """[(family, 'lo'|'hi')] readings of a name"""
    out = []
    for a, b in PAIRS:
        for t in (a, b):
            for m in re.finditer(t, s):
                out.append((s[:m.start()] + '{%s}' % a + s[m.end():], 'lo' if t == a else 'hi'))
    m = re.match(r'^(.*[a-z0-9])([LR])$', s)
    if m:
        out.append((m.group(1) + '{L}', 'lo' if m.group(2) == 'L' else 'hi'))
    m = re.match(r'^(.*)_([LR])$', s)
    if m:
        out.append((m.group(1) + '{_L}', 'lo' if m.group(2) == 'L' else 'hi'))
    return out


class Names:
    """label of a name among its siblings"""

    def __init__(self, names, families=families):
        fam = {}
        for s in names:
            for f, a in families(s):
                fam.setdefault(f, set()).add(a)
        self.lab = {}
        for s in names:
            ls = {a for f, a in families(s) if len(fam[f]) > 1}
            if len(ls) == 1:
                self.lab[s] = ls.pop()

    def get(self, s):
        return self.lab.get(s)


ARITH = re.compile(r'^(const )?(double|float|int|unsigned int|unsigned char|unsigned short|short|long|unsigned long|bool|char|signed char)( &)?$')


class Axes:
    def __init__(self, p, keys=(), fam=families):
        self.p = p
        Names_ = lambda v: Names(v, fam)
        self.N = Names_
        self.recs = {}
        for r in p.recs.values():
            self.recs.setdefault(r['q'], set()).update(f['n'] for f in r['fields'])
        self.recn = {q: self.N(v) for q, v in self.recs.items()}
        self.enums = {}
        for e in p.enums.values():
            self.enums[e['q']] = self.N([v[0] for v in e['vals']])
        self.keys = self.N(keys)
        self.fnn = {}
        self.strings = None

    def root(self, f):
        while f.get('parent') in self.p.fns:
            f = self.p.fns[f['parent']]
        return f

    def scope(self, f):
        r = self.root(f)
        n = self.fnn.get(r['id'])
        if n is None:
            names = set()
            st = [r['id']]
            while st:
                x = self.p.fns[st.pop()]
                st += self.p.children.get(x['id'], [])
                names.update(q['n'] for q in x['params'] if q['n'])
                for m in self.p.nodes(x):
                    if m['k'] == 'Var':
                        names.add(m['n'])
                    elif m['k'] == 'CXXForRangeStmt':
                        names.add(m['var']['n'])
                    elif m['k'] == 'Lambda':
                        names.update(c['n'] for c in m['caps'] if 'n' in c)
            n = self.fnn[r['id']] = self.N(names)
        return n

    def param(self, g):
        k = ('p', g['id'])
        n = self.fnn.get(k)
        if n is None:
            n = self.fnn[k] = self.N([q['n'] for q in g['params']])
        return n

    def enum_of(self, n):
        q = n.get('q', '')
        name = n['n']
        t = n.get('t', '')
        for e in (t, q.rsplit('::', 1)[0]):
            if e in self.enums:
                return self.enums[e]
        # unscoped enumerators are qualified by the enclosing scope
        for e, v in self.enums.items():
            if name in v.lab and (e.rsplit('::', 1)[0] if '::' in e else '') == (q.rsplit('::', 1)[0] if '::' in q else ''):
                return v
        return None

    def label(self, f, n, depth=0):
        if n is None or depth > 25:
            return None
        n = strip(n)
        k = n['k']
        if k == 'DeclRefExpr':
            if n.get('dk') in ('local', 'param'):
                return self.scope(f).get(n['n'])
            if n.get('dk') == 'enum':
                e = self.enum_of(n)
                return e.get(n['n']) if e else None
            return None
        if k == 'MemberExpr' and n.get('dk') == 'field':
            r = self.recn.get(n['q'].rsplit('::', 1)[0])
            l = r.get(n['n']) if r else None
            if l:
                return l
            # component of a labelled aggregate (e.g. slope_x.u carries both): no label
            return None
        if k == 'ArraySubscriptExpr' or (k == 'CXXOperatorCallExpr' and n['o'] in ('[]', '()')):
            c = kids(n)
            i = c[-1]
            return self.index_label(f, i, depth + 1)
        if k == 'CXXMemberCallExpr':
            nm = kids(n)[0].get('n')
            if n.get('fn') == 'ConfigMap::getValue':
                s = self.string(args(n)[1])
                return self.keys.get(s.lower()) if s else None
            if nm == 'at' and len(args(n)) >= 1:
                return self.index_label(f, args(n)[-1], depth + 1)
            return None
        if k == 'UnaryOperator' and n['o'] in ('-', '+', 'post++', 'post--', '++', '--'):
            return self.label(f, kids(n)[0], depth + 1)
        if k == 'BinaryOperator' and n['o'] in ('*', '/', '+', '-'):
            a, b = [self.label(f, c, depth + 1) for c in kids(n)]
            if a and b:
                return a if a == b else None
            return a or b if n['o'] in ('*', '+', '-') or a else None
        return None

    def index_label(self, f, i, depth):
        i = strip(i)
        if i['k'] == 'DeclRefExpr' and i.get('dk') == 'enum':
            return self.label(f, i, depth)
        if i['k'] in ('DeclRefExpr',) and i.get('dk') in ('local', 'param'):
            return None
        return None

    def string(self, n):
        n = strip(n)
        if n['k'] in CTORS:
            c = [x for x in kids(n) if x['k'] != 'DefArg']
            return self.string(c[0]) if len(c) == 1 else None
        if n['k'] == 'StringLiteral':
            return n['v']
        return None
