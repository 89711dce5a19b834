"""Helpers over extracted nodes: printing, call arguments, flow-insensitive constant propagation."""
from .facts import kids, walk

CALLS = ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr')
CTORS = ('CXXConstructExpr', 'CXXTemporaryObjectExpr')


def is_call(n):
    return n['k'] in CALLS


def callee_obj(n):
    """implicit object node of a member call, or None"""
    k = n['k']
    if k == 'CXXMemberCallExpr':
        me = kids(n)[0]
        if me['k'] == 'MemberExpr' and me.get('c'):
            return me['c'][0]
        return me
    if k == 'CXXOperatorCallExpr':
        c = kids(n)
        if n.get('memop') or is_member_op(n):
            return c[1] if len(c) > 1 else None
    return None


def is_member_op(n):
    # operator(), [] , = are always members; others: decide by the number of parameters in the id
    return n.get('o') in ('()', '[]', '=', '->', '->*') or n.get('cm') == 1 or n.get('mem') == 1


def args(n):
    """explicit argument nodes of a call (object excluded), default arguments unwrapped"""
    k = n['k']
    c = kids(n)
    if k in CTORS:
        r = c
    elif k == 'CXXOperatorCallExpr':
        r = c[2:] if is_member_op(n) else c[1:]
    else:
        r = c[1:]
    return r


def strip(n):
    """drop copies, casts, default-arg wrappers, std::move/forward"""
    while n:
        k = n['k']
        if k in ('DefArg', 'DefInit'):
            n = n['c'][0]
        elif k.endswith('CastExpr') and kids(n):
            n = kids(n)[0]
        elif k in CTORS and n.get('copy') and len(kids(n)) == 1:
            n = kids(n)[0]
        elif k == 'CallExpr' and n.get('fn') in ('std::move', 'std::forward') and len(kids(n)) == 2:
            n = kids(n)[1]
        elif k == 'InitListExpr' and len(kids(n)) == 1 and not n.get('t', '').endswith(']'):
            n = kids(n)[0]
        else:
            return n
    return n


def expr(n):
    """compact source-like rendering (for reports and structural comparison)"""
    if n is None:
        return '_'
    n = strip(n)
    k = n['k']
    if k == 'DeclRefExpr':
        return n.get('n') or n.get('fn', '?').split('::')[-1]
    if k == 'MemberExpr':
        c = n.get('c') or []
        b = expr(c[0]) if c else ''
        if b == 'this':
            return n['n']
        return (b + '.' if b else '') + n['n']
    if k == 'StringLiteral':
        return '"%s"' % n['v']
    if 'v' in n:
        v = n['v']
        if k == 'FloatingLiteral':
            try:
                return repr(float(v))
            except ValueError:
                pass
        return str(v)
    if k == 'CXXThisExpr':
        return 'this'
    if k in CTORS:
        cs = [expr(c) for c in kids(n) if c['k'] != 'DefArg']
        cl = n.get('cls', '?').split('::')[-1]
        if cl == 'basic_string' and len(cs) == 1:
            return cs[0]
        return cl + '(' + ', '.join(cs) + ')'
    if k == 'CXXOperatorCallExpr':
        cs = [expr(c) for c in kids(n)[1:]]
        if n['o'] == '()':
            return cs[0] + '(' + ', '.join(cs[1:]) + ')'
        if n['o'] == '[]':
            return cs[0] + '[' + ', '.join(cs[1:]) + ']'
        if n['o'] == '->':
            return cs[0]
        return ('(%s)' % ((' ' + n['o'] + ' ').join(cs))) if len(cs) > 1 else n['o'] + cs[0]
    if k in ('CallExpr', 'CXXMemberCallExpr'):
        cs = kids(n)
        return expr(cs[0]) + '(' + ', '.join(expr(c) for c in cs[1:] if c['k'] != 'DefArg') + ')'
    if k in ('BinaryOperator', 'CompoundAssignOperator'):
        a, b = kids(n)
        return '(%s %s %s)' % (expr(a), n['o'], expr(b))
    if k == 'UnaryOperator':
        return n['o'].replace('post', '') + expr(kids(n)[0])
    if k == 'ArraySubscriptExpr':
        a, b = kids(n)
        return '%s[%s]' % (expr(a), expr(b))
    if k == 'ConditionalOperator':
        a, b, c = kids(n)
        return '(%s ? %s : %s)' % (expr(a), expr(b), expr(c))
    if k == 'Lambda':
        return '[lambda:%s]' % n['l']
    if k == 'InitListExpr':
        return '{' + ', '.join(expr(c) for c in kids(n)) + '}'
    return k + '(' + ', '.join(expr(c) for c in kids(n)) + ')'


def is_string_type(t):
    return 'basic_string' in t or t.replace('const ', '') in ('char *',) or 'char[' in t or 'char [' in t


class Consts:
    """Flow- and context-insensitive constant propagation for strings and numbers.
    value(fn, node) -> frozenset of possible constants, or None when unknown."""

    def __init__(self, prog):
        self.p = prog
        self.calls = None
        self.defs = {}
        self.memo = {}
        self.busy = set()
        self.memdefs = None

    def callsites(self, fid):
        if self.calls is None:
            self.calls = {}
            for f in self.p.fns.values():
                for n in self.p.nodes(f):
                    if n.get('f') and is_call(n):
                        for t in self.p.targets(n):
                            self.calls.setdefault(t, []).append((f, n))
        return self.calls.get(fid, [])

    def fdefs(self, f):
        """var id -> list of defining nodes in f (None: unknown definition)"""
        d = self.defs.get(f['id'])
        if d is None:
            d = self.defs[f['id']] = {}
            for n in self.p.nodes(f):
                if n['k'] == 'Var':
                    if n.get('init') is not None:
                        d.setdefault(n['d'], []).append(n['init'])
                elif n['k'] == 'CXXForRangeStmt':
                    d.setdefault(n['var']['d'], []).append(('elem', n['range']))
                elif n['k'] == 'BinaryOperator' and n['o'] == '=':
                    l = strip(kids(n)[0])
                    if l['k'] == 'DeclRefExpr' and 'd' in l:
                        d.setdefault(l['d'], []).append(kids(n)[1])
                elif n['k'] == 'CXXOperatorCallExpr' and n['o'] == '=':
                    c = kids(n)
                    l = strip(c[1])
                    if l['k'] == 'DeclRefExpr' and 'd' in l:
                        d.setdefault(l['d'], []).append(c[2])
                elif n['k'] in ('CompoundAssignOperator',) or (n['k'] == 'UnaryOperator' and n['o'].replace('post', '') in ('++', '--')):
                    l = strip(kids(n)[0])
                    if l['k'] == 'DeclRefExpr' and 'd' in l:
                        d.setdefault(l['d'], []).append(None)
                elif n['k'] == 'CXXOperatorCallExpr' and n['o'] in ('+=', '<<', '>>'):
                    l = strip(kids(n)[1])
                    if l['k'] == 'DeclRefExpr' and 'd' in l and n['o'] == '+=':
                        d.setdefault(l['d'], []).append(None)
        return d

    def members(self):
        if self.memdefs is None:
            m = self.memdefs = {}
            for r in self.p.recs.values():
                for fl in r['fields']:
                    if fl.get('init'):
                        m.setdefault(r['q'] + '::' + fl['n'], []).append((None, fl['init']))
            for f in self.p.fns.values():
                for i in f.get('inits', ()):
                    if i.get('w') and ':' not in i['m']:
                        m.setdefault(f.get('cls', '') + '::' + i['m'], []).append((f, i['x']))
                for n in self.p.nodes(f):
                    if (n['k'] == 'BinaryOperator' and n['o'] == '=') or (n['k'] == 'CXXOperatorCallExpr' and n['o'] == '='):
                        c = kids(n)
                        l, r = (c[0], c[1]) if n['k'] == 'BinaryOperator' else (c[1], c[2])
                        l = strip(l)
                        if l['k'] == 'MemberExpr' and l.get('dk') == 'field':
                            m.setdefault(l['q'], []).append((f, r))
        return self.memdefs

    def value(self, f, n, depth=0):
        if n is None or depth > 40:
            return None
        n = strip(n)
        k = n['k']
        if k == 'StringLiteral':
            return frozenset([n['v']])
        if k == 'FloatingLiteral':
            return frozenset([float(n['v'])])
        if k in CTORS:
            cls = n.get('cls', '')
            c = [x for x in kids(n) if x['k'] != 'DefArg']
            if cls.endswith('basic_string'):
                if not c:
                    return frozenset([''])
                if len(c) == 1:
                    return self.value(f, c[0], depth + 1)
                return None
            if len(c) == 1:
                return self.value(f, c[0], depth + 1)
            return None
        if 'cv' in n:
            return frozenset([int(n['cv'])])
        if 'v' in n and k in ('IntegerLiteral', 'CXXBoolLiteralExpr', 'DeclRefExpr'):
            return frozenset([int(n['v'])])
        if k == 'UnaryOperator' and n['o'] in ('-', '+'):
            v = self.value(f, kids(n)[0], depth + 1)
            if v is None or any(isinstance(x, str) for x in v):
                return None
            return frozenset(-x if n['o'] == '-' else x for x in v)
        if k == 'BinaryOperator' and n['o'] in '+-*/':
            a = self.value(f, kids(n)[0], depth + 1)
            b = self.value(f, kids(n)[1], depth + 1)
            if a is None or b is None or len(a) * len(b) > 64:
                return None
            out = set()
            for x in a:
                for y in b:
                    if isinstance(x, str) or isinstance(y, str):
                        return None
                    if n['o'] == '/':
                        if y == 0 or (isinstance(x, int) and isinstance(y, int)):
                            return None
                        out.add(x / y)
                    else:
                        out.add(x + y if n['o'] == '+' else x - y if n['o'] == '-' else x * y)
            return frozenset(out)
        if k == 'ConditionalOperator':
            a = self.value(f, kids(n)[1], depth + 1)
            b = self.value(f, kids(n)[2], depth + 1)
            return None if a is None or b is None else a | b
        if k == 'CXXOperatorCallExpr' and n['o'] == '+':
            a = self.value(f, kids(n)[1], depth + 1)
            b = self.value(f, kids(n)[2], depth + 1)
            if a is None or b is None or len(a) * len(b) > 256:
                return None
            out = set()
            for x in a:
                for y in b:
                    if not (isinstance(x, str) and isinstance(y, str)):
                        return None
                    out.add(x + y)
            return frozenset(out)
        if k == 'CXXMemberCallExpr' and n.get('fn', '').startswith('std::') and kids(n)[0].get('n') in ('c_str', 'data'):
            return self.value(f, callee_obj(n), depth + 1)
        if k == 'DeclRefExpr' and n.get('dk') in ('local', 'param'):
            return self.var(f, n['d'], depth)
        if k == 'DeclRefExpr' and n.get('dk') == 'global':
            for v in self.p.vars:
                if v['v'].get('d') == n.get('d') and v['v'].get('init'):
                    return self.value(None, v['v']['init'], depth + 1)
            return None
        if k == 'MemberExpr' and n.get('dk') == 'field':
            ds = self.members().get(n['q'])
            if not ds:
                return None
            key = ('m', n['q'])
            return self.join(key, [(g, x) for g, x in ds], depth)
        return None

    def join(self, key, items, depth):
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return frozenset()
        self.busy.add(key)
        out = set()
        bad = False
        for g, x in items:
            if x is None:
                bad = True
                break
            if isinstance(x, tuple) and x[0] == 'elem':
                v = self.elems(g, x[1], depth + 1)
            else:
                v = self.value(g, x, depth + 1)
            if v is None:
                bad = True
                break
            out |= v
            if len(out) > 512:
                bad = True
                break
        self.busy.discard(key)
        r = None if bad else frozenset(out)
        if not self.busy:
            self.memo[key] = r
        return r

    def elems(self, f, n, depth=0):
        """possible elements of a container expression"""
        n = strip(n)
        k = n['k']
        if k == 'InitListExpr' or (k in CTORS and n.get('list')):
            out = set()
            for c in kids(n):
                if c['k'] == 'DefArg':
                    continue
                if c['k'] == 'InitListExpr' and k in CTORS:
                    return self.elems(f, c, depth + 1)
                v = self.value(f, c, depth + 1)
                if v is None:
                    return None
                out |= v
            return frozenset(out)
        if k in CTORS:
            c = [x for x in kids(n) if x['k'] != 'DefArg']
            if not c:
                return frozenset()
            if len(c) == 1:
                return self.elems(f, c[0], depth + 1)
            return None
        if k == 'DeclRefExpr' and n.get('dk') in ('local', 'param'):
            key = ('e', f['id'] if f else '', n['d'])
            if key in self.memo:
                return self.memo[key]
            if key in self.busy or depth > 30:
                return frozenset()
            self.busy.add(key)
            out = set()
            bad = False
            owner = self.owner(f, n['d'])
            srcs = [(owner, x) for x in self.fdefs(owner).get(n['d'], [])]
            if n.get('dk') == 'param':
                srcs += [(g, a) for g, a in self.param_args(owner, n['d'])]
                if not srcs:
                    bad = True
            for g, x in srcs:
                if x is None or isinstance(x, tuple):
                    bad = True
                    break
                v = self.elems(g, x, depth + 1)
                if v is None:
                    bad = True
                    break
                out |= v
            # push_back / insert / emplace
            if not bad:
                for h in [owner] + [self.p.fns[c] for c in self.desc(owner['id'])]:
                    for m in self.p.nodes(h):
                        if m['k'] == 'CXXMemberCallExpr' and kids(m)[0].get('n') in ('push_back', 'insert', 'emplace_back', 'emplace'):
                            o = strip(callee_obj(m))
                            if o['k'] == 'DeclRefExpr' and o.get('d') == n['d']:
                                v = self.value(h, args(m)[-1], depth + 1)
                                if v is None:
                                    bad = True
                                else:
                                    out |= v
            self.busy.discard(key)
            r = None if bad else frozenset(out)
            if not self.busy:
                self.memo[key] = r
            return r
        return None

    def desc(self, fid):
        out = []
        st = list(self.p.children.get(fid, ()))
        while st:
            x = st.pop()
            out.append(x)
            st.extend(self.p.children.get(x, ()))
        return out

    def owner(self, f, d):
        """function declaring variable d, starting from f outwards through lambda parents"""
        g = f
        while g:
            if any(q['d'] == d for q in g['params']):
                return g
            if d in self.fdefs(g) or any(n['k'] == 'Var' and n['d'] == d for n in self.p.nodes(g)):
                return g
            g = self.p.fns.get(g.get('parent') or '')
        return f

    def param_args(self, f, d):
        idx = next((i for i, q in enumerate(f['params']) if q['d'] == d), None)
        if idx is None:
            return []
        out = []
        for g, n in self.callsites(f['id']):
            a = args(n)
            if idx < len(a):
                out.append((g, a[idx]))
            else:
                out.append((g, None))
        return out

    def var(self, f, d, depth):
        o = self.owner(f, d)
        if o is None:
            return None
        items = [(o, x) for x in self.fdefs(o).get(d, [])]
        for c in self.desc(o['id']):
            g = self.p.fns[c]
            items += [(g, x) for x in self.fdefs(g).get(d, [])]
        if any(q['d'] == d for q in o['params']):
            pa = self.param_args(o, d)
            if not pa:
                return None
            items += pa
        if not items:
            return None
        return self.join(('v', o['id'], d), items, depth)
