"""Values exchanged between ranks."""
import itertools, os
from ..facts import kids
from ..comm import Comm, match, vec
from ..host import Abort, C
from ..vg import S, LV, Leaf, Opq, State, Unsup, num, base
from .. import par

RULE = ('After an exchange every ghost object (or cell) must hold the value of the object it stands for on its owner, in the order of ranks and send lists, '
        'and nothing else may change; after a reduction every object must have gained each of its ghosts exactly once; messages must match in number, length, '
        'type and tag, and be waited for before they are read.')
EXPLAIN = ('Value numbering of the communicators, one rank at a time with symbolic array contents: messages are recorded as lists of values and matched between '
           'ranks afterwards. All patterns of up to two objects between two ranks, a family between three, every array layout the program uses.')
TRUSTED = ['MPI delivers messages in order and collectives as documented', 'Kokkos views, mirrors and parallel patterns behave as documented']
P = None
VC = 'dyablo::ViewCommunicator'
PB = 'dyablo::GhostCommunicator_partial_blocks'


class Bad(Exception):
    pass


def fns(name, cls, np=None):
    return [f for f in P.fns.values() if f['n'] == name and f.get('body') and f.get('cls', '') == cls and '$' not in f['id'] and (np is None or len(f['params']) == np)]


def one(l, what):
    l = list(l)
    if len(l) != 1:
        raise Unsup('%d functions %s' % (len(l), what))
    return l[0]


def view_type(f):
    return base(f['params'][0]['t'])


def dim_of(f):
    return int(f['id'].split(f['n'] + '<')[1].split(',')[0].split('>')[0])


def obj(g, t):
    st = State()
    c = g.cell('this')
    st.mem[c] = g.make(st, t, None, None, None)
    return st, LV(c, (), t)


def go(g, st, f, this, vals):
    r, st2, _ = g.apply(f, vals, this, st)
    if st2.dead:
        raise Abort('%s aborts' % f['n'])
    return r, st2


def oracle(g, M, masks=None):
    """sizes sent must be those of the pattern; others' sizes follow from the pattern"""
    def f(g, what, vals, cnt):
        me = g.rank
        if what == 'Alltoall':
            got = [g.integer(x[0]) for x in vals]
            if got != [M[me][s] for s in range(g.size)]:
                raise Bad('rank %d announces the sizes %s instead of %s' % (me, got, [M[me][s] for s in range(g.size)]))
            return [[C(M[s][me])] for s in range(g.size)]
        raise Unsup(what)
    return f


def build(kind, lists, nobj, P_):
    """communicators of all ranks"""
    n = len(lists)
    M = [[len(lists[r][s]) for s in range(n)] for r in range(n)]
    out = []
    for r in range(n):
        g = Comm(P_, r, n)
        g.oracle = oracle(g, M)
        st, this = obj(g, VC)
        flat = [x for s in range(n) for x in lists[r][s]]
        if kind == 'domains':
            tgt = [next(s for s in range(n) if x in lists[r][s]) for x in range(nobj[r])]
            f = one([f for f in fns('ViewCommunicator', VC, 2) if 'int *' in f['params'][0]['t'] and 'unsigned' not in f['params'][0]['t']], 'constructor from domains')
            a = [g.table([C(x) for x in tgt], 'Kokkos::View<int *>'), g.mpicomm()]
        elif kind == 'map':
            f = one([f for f in fns('ViewCommunicator', VC, 2) if 'std::map' in f['params'][0]['t']], 'constructor from a map')
            m = S({s: vec([C(x) for x in lists[r][s]], 'std::vector<unsigned int, std::allocator<unsigned int>>') for s in range(n) if lists[r][s] or (s + r) % 2})
            m.t = 'std::map<'
            a = [m, g.mpicomm()]
        else:
            f = one(fns('ViewCommunicator', VC, 3), 'constructor from views')
            a = [g.table([C(x) for x in M[r]]), g.table([C(x) for x in flat]), g.mpicomm()]
        _, st = go(g, st, f, this, a)
        ng, st = go(g, st, one(fns('getNumGhosts', VC, 0), 'getNumGhosts'), this, [])
        if g.integer(ng) != sum(M[s][r] for s in range(n)):
            raise Bad('getNumGhosts() is %s on rank %d instead of %d' % (g.integer(ng), r, sum(M[s][r] for s in range(n))))
        out.append((g, st, this))
    return out, M


def resolve(g, v, env, ranks):
    """{name of an input: coefficient}"""
    if not isinstance(v, Leaf) or isinstance(v.v, bool):
        raise Bad('holds a value that is %s' % (v.key[0] if isinstance(v, Opq) and isinstance(v.key, tuple) else 'not a number'))
    q = num(v.v)
    out = {}
    if q.d != {(): 1}:
        raise Unsup('value')
    for m, c in q.n.items():
        if m == ():
            out[()] = out.get((), 0) + c
            continue
        if len(m) != 1 or m[0][1] != 1:
            raise Unsup('value')
        k = g.atoms[m[0][0]]
        if k[0] == 'message':
            if k not in env:
                raise Bad('holds an element of a message that does not exist')
            for a, d in resolve(ranks[k[1]], env[k], env, ranks).items():
                out[a] = out.get(a, 0) + c * d
        else:
            out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c}


def arrays(g, t, dim, others, nloc, ngh, ghosts):
    sh = list(others)
    sh.insert(dim, nloc)
    sg = list(others)
    sg.insert(dim, ngh)
    strided = 'LayoutStride' in t
    if strided:
        # one field of a larger array
        sh[1] += 1
        sg[1] += 1
    U = g.view(sh, lambda i: g.atom(('U', g.rank) + i), t)
    G = g.view(sg, lambda i: g.atom(('G', g.rank) + i), t)
    a, b = U, G
    if strided:
        cut = lambda v, s: Opq(('subview', g.vid(v), (tuple(range(s[0])), tuple(range(1, s[1])), tuple(range(s[2]))), (True,) * 3), t)
        a, b = cut(U, sh), cut(G, sg)
    return U, G, a, b


def pattern(kind, lists, nobj, fid, reduce_):
    f = P.fns[fid]
    t, dim = view_type(f), dim_of(f)
    nd = t.split('<', 1)[1].split(',')[0].split('>')[0].count('*')
    others = {1: (), 2: (2,), 3: (2, 2)}[nd]
    strided = 'LayoutStride' in t
    cs, M = build(kind, lists, nobj, P)
    n = len(lists)
    arr = []
    for g, st, this in cs:
        ng = sum(M[s][g.rank] for s in range(n))
        U, G, a, b = arrays(g, t, dim, others, nobj[g.rank], ng, True)
        go(g, st, f, this, [a, b])
        arr.append((U, G))
    ranks = [g for g, _, _ in cs]
    env, bad = match(ranks)
    if bad:
        raise Bad(bad[0])
    for g, (U, G) in zip(ranks, arr):
        me = g.rank
        src = [(s, x) for s in range(n) for x in lists[s][me]]
        for what, v in (('U', U), ('G', G)):
            for i, x in g.views[g.vid(v)][1].items():
                want = {(what, me) + i: 1}
                active = not strided or i[1] >= 1
                if active and what == 'G' and not reduce_:
                    s, o = src[i[dim]]
                    y = list(i)
                    y[dim] = o
                    want = {('U', s) + tuple(y): 1}
                if active and what == 'U' and reduce_:
                    for s in range(n):
                        q = [(z, o) for z in range(n) for o in lists[z][s]]
                        for pos, (z, o) in enumerate(q):
                            if z == me and o == i[dim]:
                                y = list(i)
                                y[dim] = pos
                                want[('G', s) + tuple(y)] = want.get(('G', s) + tuple(y), 0) + 1
                try:
                    got = resolve(g, x, env, ranks)
                except Bad as e:
                    raise Bad('element %s of the %s array of rank %d %s' % (i, 'local' if what == 'U' else 'ghost', me, e))
                if got != want:
                    raise Bad('element %s of the %s array of rank %d holds %s instead of %s' % (i, 'local' if what == 'U' else 'ghost', me, text(got), text(want)))
    return sum(len(g.views[g.vid(v)][1]) for g, q in zip(ranks, arr) for v in q)


def text(d):
    r = []
    for k, c in sorted(d.items(), key=str):
        s = '0' if k == () else '%s%s of rank %d' % ({'U': 'element ', 'G': 'ghost '}.get(k[0], k[0]), k[2:], k[1])
        r.append(s if c == 1 else '%s x %s' % (c, s))
    return ' + '.join(r) or 'zero'


# ---- partial blocks
FACES = ('XL', 'XR', 'YL', 'YR', 'ZL', 'ZR')


def slab(mask, b, gc):
    """cells of a block that a neighbour across the faces of the mask may read"""
    out = set()
    for c in itertools.product(*[range(x) for x in b]):
        for f in range(6):
            if mask >> f & 1:
                d, s = divmod(f, 2)
                if (c[d] < gc) if s == 0 else (c[d] >= b[d] - gc):
                    out.add(c)
    return out


def partial(lists, nobj, b, gc, nvar, which):
    """lists[r][s]: (octant, mask) of rank r that are ghosts of rank s"""
    n = len(lists)
    f = P.fns[which]
    reduce_ = f['n'] == 'reduce_ghosts'
    shape = S()
    shape.t = 'dyablo::AMRBlockForeachCell_CellArray_impl::CellArray_shape_ghosted'
    for k, v in zip(('bx', 'by', 'bz'), b):
        shape[k] = C(v)
    ranks, arr = [], []
    ncell = b[0] * b[1] * b[2]
    for r in range(n):
        g = Comm(P, r, n)
        flat = [x for s in range(n) for x in lists[r][s]]
        gm = S()
        gm.t = 'dyablo::AMRmesh_hashmap_new::GhostMap_t'
        gm['send_sizes'] = g.table([C(len(lists[r][s])) for s in range(n)])
        gm['send_iOcts'] = g.table([C(x) for x, m in flat])
        gm['send_cell_masks'] = g.table([C(m) for x, m in flat], 'Kokkos::View<unsigned char *>')
        ngh = sum(len(lists[s][r]) for s in range(n))
        U = g.view((ncell, nvar, nobj[r]), lambda i: g.atom(('U', r) + i))
        G = g.view((ncell, nvar, ngh), lambda i: g.atom(('G', r) + i))
        ids = g.vid(U), g.vid(G)

        def at(g, st, n_, fr, a, ids=ids):
            c = g.val(st, a[0], fr)
            o = c['iOct']
            gh = g.boolv(st, None, fr) if False else o['isGhost']
            i = ids[1] if gh.v else ids[0]
            x = [g.integer(c[k]) for k in 'ijk']
            if [g.integer(c[k]) for k in ('bx', 'by', 'bz')] != list(b):
                raise Bad('a cell index with another block size')
            if any(not 0 <= u < w for u, w in zip(x, b)):
                raise Bad('cell %s of a block of %s' % (tuple(x), b))
            y = (x[0] + b[0] * (x[1] + b[1] * x[2]), g.integer(g.val(st, a[1], fr)), g.integer(o['iOct']))
            if any(not 0 <= u < w for u, w in zip(y, g.views[i][0])):
                raise Bad('element %s of an array of %s' % (y, g.views[i][0]))
            return LV(('viewmem', i, y), (), 'double')
        g.hooks = {'getGhostMap': lambda *a, gm=gm: gm, 'nbFields': lambda *a: C(nvar), 'getShape': lambda *a: shape, 'at_ivar': at}

        def init_oracle(g, what, vals, cnt):
            me = g.rank
            if what == 'Alltoall':
                got = [g.integer(x[0]) for x in vals]
                if got != [len(lists[me][s]) for s in range(n)]:
                    raise Bad('rank %d announces the sizes %s instead of %s' % (me, got, [len(lists[me][s]) for s in range(n)]))
                return [[C(len(lists[s][me]))] for s in range(n)]
            got = [[g.integer(x) for x in q] for q in vals]
            want = [[m for _, m in lists[me][s]] for s in range(n)]
            if got != want:
                raise Bad('rank %d sends the masks %s instead of %s' % (me, got, want))
            if cnt != [len(lists[s][me]) for s in range(n)]:
                raise Bad('rank %d expects %s masks' % (me, cnt))
            return [[C(m) for _, m in lists[s][me]] for s in range(n)]

        def data_oracle(g, what, vals, cnt):
            if what != 'Alltoallv':
                raise Unsup(what)
            out = []
            no = len([1 for k in g.sent if k[0] == 0])
            for s in range(n):
                g.sent[(s, no)] = (vals[s], 0)
                g.recvs[(s, no)] = (cnt[s], 0)
                out.append([g.atom(('message', s, g.rank, no, j)) for j in range(cnt[s])])
            return out
        st, this = obj(g, PB)
        g.oracle = init_oracle
        cf = one(fns('GhostCommunicator_partial_blocks', PB, 4), 'constructor')
        _, st = go(g, st, cf, this, [Opq('mesh', 'dyablo::AMRmesh_hashmap_new'), shape, C(gc), g.mpicomm()])
        ng, st = go(g, st, one(fns('getNumGhosts', PB, 0), 'getNumGhosts'), this, [])
        if g.integer(ng) != ngh:
            raise Bad('getNumGhosts() is %s on rank %d instead of %d' % (g.integer(ng), r, ngh))
        g.oracle = data_oracle
        go(g, st, f, this, [Opq('array', base(f['params'][0]['t']))])
        ranks.append(g)
        arr.append(ids)
    env, bad = match(ranks)
    if bad:
        raise Bad(bad[0])
    cell = lambda i: (i % b[0], i // b[0] % b[1], i // b[0] // b[1])
    need = {m: slab(m, b, gc) for r in range(n) for s in range(n) for _, m in lists[r][s]}
    for g, (U, G) in zip(ranks, arr):
        me = g.rank
        src = [(s, x, m) for s in range(n) for x, m in lists[s][me]]
        for what, v in (('U', U), ('G', G)):
            for i, x in g.views[v][1].items():
                old = {(what, me) + i: 1}
                must, may = dict(old), None
                if what == 'G' and not reduce_:
                    s, o, m = src[i[2]]
                    w = {('U', s) + i[:2] + (o,): 1}
                    if cell(i[0]) in need[m]:
                        must = w
                    else:
                        may = w
                extra = {}
                if what == 'U' and reduce_:
                    for s in range(n):
                        q = [(z, o, m) for z in range(n) for o, m in lists[z][s]]
                        for pos, (z, o, m) in enumerate(q):
                            if z == me and o == i[2]:
                                k = ('G', s) + i[:2] + (pos,)
                                if cell(i[0]) in need[m]:
                                    must[k] = must.get(k, 0) + 1
                                else:
                                    extra[k] = 1
                nm = 'cell %s of field %d of octant %d of the %s array of rank %d' % (cell(i[0]), i[1], i[2], 'local' if what == 'U' else 'ghost', me)
                try:
                    got = resolve(g, x, env, ranks)
                except Bad as e:
                    raise Bad('%s %s' % (nm, e))
                # contributions that are not required may be exchanged, once
                for k in extra:
                    if got.get(k) == 1 and k not in must:
                        got = {a: c for a, c in got.items() if a != k}
                if got != must and (may is None or got != may):
                    raise Bad('%s holds %s instead of %s (blocks of %dx%dx%d, %d ghost cells)' % ((nm, text(got), text(must)) + tuple(b) + (gc,)))
    return sum(len(g.views[v][1]) for g, q in zip(ranks, arr) for v in q)


# ---- collectives
TYPES = {'double': {'double'}, 'float': {'float'}, 'unsigned long': {'uint64_t', 'unsigned_long', 'unsigned_long_long'}, 'unsigned int': {'uint32_t', 'unsigned'},
         'unsigned short': {'uint16_t', 'unsigned_short'}, 'unsigned char': {'uint8_t', 'unsigned_char', 'byte'}, 'long': {'int64_t', 'long', 'long_long_int'},
         'int': {'int32_t', 'int'}, 'short': {'int16_t', 'short'}, 'signed char': {'int8_t', 'signed_char'}, 'char': {'char', 'byte', 'signed_char'}, 'bool': {'cxx_bool', 'c_bool'}}
OPS = {'MIN': 'min', 'MAX': 'max', 'SUM': 'sum', 'LOR': 'lor', 'LAND': 'land', 'PROD': 'prod', 'BAND': 'band', 'BOR': 'bor', 'LXOR': 'lxor', 'BXOR': 'bxor'}


def refs(n, pre):
    out = [n['n']] if n.get('k') == 'DeclRefExpr' and n.get('dk') == 'global' and n.get('n', '').startswith(pre) else []
    for c in kids(n):
        if c:
            out += refs(c, pre)
    return out


def tables(ck):
    """the MPI type and operation constants"""
    nd = 0
    for f in P.fns.values():
        if f['n'] != 'mpi_type' or not f.get('body') or '<' not in f['id']:
            continue
        t = f['id'].split('<')[1].split('>')[0]
        r = refs(f['body'], 'ompi_mpi_')
        if t not in TYPES or len(r) != 1:
            nd += 1
            continue
        ck.count('MPI types')
        if r[0][len('ompi_mpi_'):] not in TYPES[t]:
            ck.bad('mpi_type<%s>' % t, '%s:%s' % (f['file'], f['line']), 'values of type %s are exchanged as %s' % (t, r[0]))
        else:
            ck.ok('mpi_type<%s>' % t, r[0])
    en = next((e for q, e in P.enums.items() if q.endswith('MPI_Op_t')), None)
    v = next((x for x in P.vars if x['q'].endswith('::mpi_op') and x['v'].get('init')), None)
    r = refs(v['v']['init'], 'ompi_mpi_op_') if v else []
    if en is None or not r:
        return nd + 1
    for name, i in en['vals']:
        if name == 'NUM_OPS':
            continue
        ck.count('MPI operations')
        if i >= len(r) or r[i] != 'ompi_mpi_op_' + OPS.get(name, name):
            ck.bad('operation %s' % name, v['file'], 'the reduction %s is performed with %s' % (name, r[i] if i < len(r) else 'nothing'))
        else:
            ck.ok('operation %s' % name, r[i])
    return nd


class Coll(Comm):
    """records the arguments of the raw calls"""
    def __init__(self, p, rank, size):
        super().__init__(p, rank, size)
        self.raw = []

    def ev(self, st, n, fr):
        if n['k'] in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr') and n.get('ck') == 'IntegralToPointer':
            return Opq('in place', 'pointer')
        if n['k'] == 'ConditionalOperator' and '*' in n.get('t', ''):
            c = kids(n)
            return self.ev(st, c[1] if self.boolc(st, c[0], fr) else c[2], fr)
        return super().ev(st, n, fr)

    def boolc(self, st, n, fr):
        if n['k'] == 'BinaryOperator' and n.get('o') in ('==', '!=') and '*' in kids(n)[0].get('t', ''):
            x, y = [self.ptr(self.ev(st, c, fr), st) for c in kids(n)]
            return (x == y) == (n['o'] == '==')
        v = self.val(st, n, fr)
        if isinstance(v, Leaf) and isinstance(v.v, bool):
            return v.v
        return bool(self.integer(v))

    def val(self, st, n, fr):
        if n.get('t', '').rstrip().endswith('*') and 'ompi_' not in n.get('t', '') and n['k'] in ('ConditionalOperator', 'DeclRefExpr'):
            v = self.ev(st, n, fr)
            if isinstance(v, LV):
                m = self.load(st, v)
                if isinstance(m, Opq):
                    return m
                q = Opq(('address', v.cell), 'pointer')
                q.src = v
                return q
            return v
        return super().val(st, n, fr)

    def ptr(self, v, st):
        if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'address':
            return self.ptr(v.src, st)
        if isinstance(v, LV):
            m = self.load(st, v)
            if isinstance(m, LV) or isinstance(m, Opq) and (m.key == 'in place' or m.key[0] == 'address'):
                return self.ptr(m, st)
            return (v.cell,) + tuple(v.path)
        if isinstance(v, Opq) and v.key == 'in place':
            return 'in place'
        raise Unsup('pointer')

    def other(self, st, n, fr, nm, a, o):
        if n['k'] == 'CXXOperatorCallExpr' and n.get('o') == '[]' and kids(n)[1].get('n') == 'mpi_op':
            return Opq(('op', self.integer(self.val(st, kids(n)[2], fr))))
        return None

    def mpi(self, st, n, fr, nm, a):
        out = []
        for x in a:
            t = base(x.get('t', ''))
            if t.startswith('ompi_') or t.startswith('const ompi_'):
                v = self.val(st, x, fr)
                out.append(v.key if isinstance(v, Opq) else None)
            elif x['k'] == 'CStyleCastExpr' and x.get('ck') == 'NullToPointer':
                out.append(None)
            elif '*' in x.get('t', ''):
                out.append(self.ptr(self.ev(st, x, fr), st))
            elif t.endswith('ompi_status_public_t'):
                out.append('status')
            else:
                out.append(self.integer(self.val(st, x, fr)))
            if len(self.raw) >= 0 and nm == 'MPI_Allgatherv' and len(out) in (5, 6):
                out[-1] = [self.integer(y) for y in self.peek(st, self.ev(st, x, fr), self.size)]
        self.raw.append((nm, out))
        if nm == 'MPI_Allgather' and len(self.raw) == 1 and self.answer is not None:
            if self.integer(self.peek(st, self.ev(st, a[0], fr), 1)[0]) != self.answer[self.rank]:
                raise Bad('announces another length than its own')
            self.poke(st, self.ev(st, a[3], fr), [C(x) for x in self.answer])
        return Opq('none')


def wrapper(fid):
    f = P.fns[fid]
    nm = f['n']
    T = f['id'].split('<')[1].split('>')[0]
    ty = ('mpi_type', T)
    n = 0
    for size, rank in ((1, 0), (3, 1), (3, 2)):
        for cnt in (1, 5):
            for same in (False, True):
                for extra in range(5) if nm in ('MPI_Allreduce', 'MPI_Scan') else (0, 2):
                    g = Coll(P, rank, size)
                    g.answer = None
                    st = State()
                    c = g.cell('this')
                    st.mem[c] = g.mpicomm()
                    buf = []
                    for i in range(2):
                        b = g.cell('buffer')
                        st.mem[b] = vec([g.atom(('b', i, j)) for j in range(8 * size)], 'T[]')
                        buf.append(LV(b, (), T))
                    if same:
                        buf[1] = buf[0]
                    s, r = [g.ptr(x, st) for x in buf]
                    this = LV(c, (), 'dyablo::MpiComm')
                    if nm in ('MPI_Allreduce', 'MPI_Scan'):
                        a = buf + [C(cnt), C(extra)]
                        want = [(nm, ['in place' if same else s, r, cnt, ty, ('op', extra), 'comm'])]
                    elif nm == 'MPI_Allgather':
                        a = buf + [C(cnt)]
                        if same:
                            continue
                        want = [(nm, [s, cnt, ty, r, cnt, ty, 'comm'])]
                    elif nm == 'MPI_Bcast':
                        if extra >= size:
                            continue
                        a = [buf[0], C(cnt), C(extra)]
                        want = [(nm, [s, cnt, ty, extra, 'comm'])]
                    elif nm in ('MPI_Send', 'MPI_Recv'):
                        if extra >= size:
                            continue
                        a = [buf[0], C(cnt), C(extra), C(17)]
                        want = [(nm, [s, cnt, ty, extra, 17, 'comm'])]
                    elif nm == 'MPI_Allgatherv_inplace':
                        ans = [[4, 2, 3][:size], [0, 1, 0][:size]][extra // 2]
                        ans[rank] = cnt
                        g.answer = ans
                        a = [buf[0], C(cnt)]
                        want = (ans, [sum(ans[:i]) for i in range(size)])
                    else:
                        raise Unsup(nm)
                    go(g, st, f, this, a)
                    raw = g.raw
                    if nm in ('MPI_Send', 'MPI_Recv'):
                        raw = [(x, y[:6]) for x, y in raw]
                    if nm == 'MPI_Allgatherv_inplace':
                        if len(raw) != 2 or raw[1][0] != 'MPI_Allgatherv':
                            raise Unsup('calls')
                        q = raw[1][1]
                        if q[0] != 'in place' or q[3] != s or q[6] != ty or q[7] != 'comm' or q[4] != want[0] or q[5] != want[1]:
                            raise Bad('with lengths %s receives %s elements at the offsets %s' % (want[0], q[4], q[5]))
                    elif raw != want:
                        raise Bad('calls %s instead of %s' % (raw, want))
                    n += 1
    return n


# ---- all cases
def pairs(n, choices, self_too=True):
    k = [(r, s) for r in range(n) for s in range(n) if self_too or r != s]
    for x in itertools.product(range(len(choices)), repeat=len(k)):
        l = [[[] for _ in range(n)] for _ in range(n)]
        for (r, s), y in zip(k, x):
            l[r][s] = list(choices[y])
        yield l


def patterns(kind, reduce_):
    if kind == 'domains':
        out = []
        for n in (1, 2, 3):
            for k in itertools.product(range(3), repeat=n) if n < 3 else ((2, 1, 3), (3, 0, 2)):
                al = [list(itertools.product(range(n), repeat=x)) for x in k]
                c = list(itertools.product(*al))
                for t in c if len(c) <= 20 else c[::len(c) // 7]:
                    out.append(([[[x for x, d in enumerate(t[r]) if d == s] for s in range(n)] for r in range(n)], [len(x) for x in t]))
        return out
    out = []
    ch = ([], [0], [1, 0])
    for n in (1, 2):
        if reduce_ and n == 1:
            continue
        out += [(l, [2] * n) for l in pairs(n, ch, not reduce_)]
    k3 = [(r, s) for r in range(3) for s in range(3) if r != s]
    for q in range(24):
        l = [[[] for _ in range(3)] for _ in range(3)]
        for i, (r, s) in enumerate(k3):
            l[r][s] = list(([], [0], [1, 0], [2, 0, 1], [], [2], [0, 2])[(q * 5 + i * (q + 2) + i * i) % 7])
        out.append((l, [3] * 3))
    # an object wanted by nobody, an empty rank
    out.append(([[[], [0], [0]], [[], [], []], [[1], [0], []]], [1, 0, 2]))
    return out


SHAPES = (((2, 2, 2), 1), ((2, 2, 1), 1), ((3, 3, 3), 2), ((4, 2, 2), 2), ((4, 4, 1), 2), ((2, 4, 2), 1), ((2, 2, 4), 2), ((5, 3, 1), 3), ((4, 4, 4), 2), ((3, 5, 4), 1))


def masks(b, gc):
    m3 = b[2] > 1
    ms = [m for m in range(1, 64 if m3 else 16)]
    return ms


def pcases(deep):
    out = []
    for b, gc in SHAPES:
        ms = masks(b, gc)
        step = 16 if deep else 21
        for i in range(0, len(ms), step):
            q = ms[i:i + step]
            # every mask crosses in one direction, others come back
            l = [(o % 3, m) for o, m in enumerate(q)]
            back = [(0, ms[(7 * i + 5) % len(ms)])]
            out.append(([[[], l], [back if i else [], []]], [3, 1], b, gc, 1))
    ms = list(range(1, 64))
    for q in range(10 if deep else 6):
        b, gc = SHAPES[(q * 3) % 4]
        top = 63 if b[2] > 1 else 15
        l = [[[] for _ in range(3)] for _ in range(3)]
        for i, (r, s) in enumerate((r, s) for r in range(3) for s in range(3) if r != s):
            for o in ((), (0,), (1, 0), (1,))[(q * 3 + i * i + i * q) % 4]:
                l[r][s].append((o, (q * 11 + i * 5 + o * 23) % top + 1))
        out.append((l, [2] * 3, b, gc, 1 + q % 2))
    return out


def group(l):
    res = []
    for kind, a, what in l:
        try:
            if kind == 'view':
                n = pattern(*a)
            elif kind == 'partial':
                n = partial(*a)
            else:
                n = wrapper(*a)
            res.append((what, None, n))
        except (Bad, Abort) as e:
            res.append((what, str(e), 0))
        except Unsup as e:
            res.append((what, Unsup(str(e)), 0))
        except (KeyError, TypeError, AttributeError, IndexError, ValueError, StopIteration) as e:
            res.append((what, Unsup('%s: %s' % (type(e).__name__, e)), 0))
    return res


def run(p, ck):
    global P
    P = p
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    nd = tables(ck)
    l = []
    where = {}
    for name in ('exchange_ghosts', 'reduce_ghosts'):
        red = name == 'reduce_ghosts'
        for f in fns(name, VC):
            t = view_type(f)
            what = '%s of %s along dimension %d' % (name, t.replace('Kokkos::', ''), dim_of(f))
            where[what] = '%s:%s' % (f['file'], f['line'])
            for kind in ('views', 'map') + (() if red else ('domains',)):
                for i, (li, no) in enumerate(patterns(kind, red)):
                    l.append(('view', (kind, li, no, f['id'], red), what))
        for f in fns(name, PB):
            what = '%s of partial blocks of a %s' % (name, base(f['params'][0]['t']).split('::')[-1])
            where[what] = '%s:%s' % (f['file'], f['line'])
            for c in pcases(deep):
                l.append(('partial', c + (f['id'],), what))
    for f in P.fns.values():
        if f.get('cls') == 'dyablo::MpiComm' and f.get('body') and '$' not in f['id'] and f['n'] in (
                'MPI_Allreduce', 'MPI_Scan', 'MPI_Allgather', 'MPI_Bcast', 'MPI_Send', 'MPI_Recv', 'MPI_Allgatherv_inplace'):
            what = '%s<%s>' % (f['n'], f['id'].split('<')[1].split('>')[0])
            where[what] = '%s:%s' % (f['file'], f['line'])
            l.append(('coll', (f['id'],), what))
    n = 64
    r = par.run([(i, group, (l[i::n],)) for i in range(n)])
    tot, bad, why, vals = {}, {}, {}, 0
    for i in range(n):
        st, v = r[i]
        if st != 'ok':
            nd += 1
            why[str(v)] = why.get(str(v), 0) + 1
            continue
        for what, b, k in v:
            if isinstance(b, Exception):
                nd += 1
                why[what + ': ' + str(b)] = why.get(what + ': ' + str(b), 0) + 1
                continue
            tot[what] = tot.get(what, 0) + 1
            vals += k
            if b:
                bad.setdefault(what, []).append(b)
    if os.environ.get('DY_LIST'):
        print(why)
    ck.counts['values compared'] = vals
    for k, c in tot.items():
        ck.count('patterns', c)
        if k in bad:
            ck.bad(k, where[k], '%s: %s (%d of %d patterns)' % (k, bad[k][0], len(bad[k]), c))
        else:
            ck.ok(k, '%d patterns' % c)
    ck.counts['not decided'] = nd
