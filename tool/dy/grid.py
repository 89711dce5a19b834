"""Value graphs of mesh kernels.

The mesh interface (ForeachCell, CellIndex, CellMetaData, UserData accessors, ghost exchange) is given its documented
meaning over a small abstract block-structured mesh whose cells hold symbolic values; everything else - the update
code itself - is taken from the source. A kernel `foreach_cell(A, f)` defines values cell by cell: reading an array at a
cell demands the earlier kernels of that cell. The result is the normal form (vg.py) of any field after the update in
terms of the symbolic values before it."""
from decimal import Decimal
from fractions import Fraction
from . import race
from .facts import kids
from .ast import args, callee_obj
from .vg import VG, S, LV, Opq, Lam, Leaf, Node, Rat, State, Unsup, rconst, TRUE, FALSE, base, num, mk, same

# flux components that keep their sign when the problem is mirrored
EVEN = ('rho_u', 'Bx', 'p')
# (mirrored, signs of state members, members exchanged): the symmetries of a Riemann problem
_SW = {'v': 'w', 'w': 'v', 'By': 'Bz', 'Bz': 'By'}
FSW = {'rho_v': 'rho_w', 'rho_w': 'rho_v', 'By': 'Bz', 'Bz': 'By'}
SYMS = [(m, {k: -1 for k in (('u', 'Bx') if m else ()) + (('v', 'By') if fv else ()) + (('w', 'Bz') if fw else ())}, _SW if t else {})
        for m in (False, True) for fv in (False, True) for fw in (False, True) for t in (False, True)]


def fsign(k, T):
    """sign of a flux component under a symmetry"""
    s = -1 if T[0] and k not in EVEN else 1
    if k in ('rho_v', 'By') and 'v' in T[1] or k in ('rho_w', 'Bz') and 'w' in T[1]:
        s = -s
    return s


def C(x):
    return Leaf(rconst(x))


class Mesh:
    """leaf cells of an abstract mesh: boxes in integer units; size(x, y, z) gives the edge of the leaf there"""

    def __init__(self, ndim, ext, size, periodic=True):
        self.ndim, self.ext, self.size, self.periodic = ndim, ext, size, periodic

    def wrap(self, x):
        if not self.periodic:
            return tuple(x)
        return tuple(v % e for v, e in zip(x, self.ext))

    def inside(self, x):
        return all(0 <= v < e for v, e in zip(x, self.ext))

    def low(self, x, s):
        return tuple(v - v % s if (d < 2 or self.ndim == 3) else 0 for d, v in enumerate(x))

    def cells(self):
        out = []
        seen = set()
        for z in range(self.ext[2]):
            for y in range(self.ext[1]):
                for x in range(self.ext[0]):
                    s = self.size(x, y, z)
                    c = (self.low((x, y, z), s), s)
                    if c not in seen:
                        seen.add(c)
                        out.append(c)
        return out


def callee_is_particle(n):
    return (kids(n)[0].get('n') if kids(n) else '') == 'getParticleAccessor'


class Grid(VG):
    def __init__(self, p, mesh, init, flux=True, consts=None):
        """init(grid, array, var, cell) -> value of an input array"""
        super().__init__(p, extern=Grid.hook)
        self.mesh, self.init = mesh, init
        self.maxsteps = 20000000
        self.kernels = []        # (lambda, env state, order)
        self.done = set()
        self.gmem = {}           # (array, var, cell) -> [(kernel, value)]
        self.running = []        # stack of (kernel index, cell)
        self.nomodel = set()
        self.narr = 0
        self.patchtmp = set()    # temporary arrays of a patch
        self.patchof = {}        # kernel -> first kernel of its loop over patches
        self.flux = flux
        self.physical = False
        self.noexp = False
        self.hooks = {}
        self.prebuilt = {}
        self.conf = None
        self.reads = {}
        self.h = {d: self.atom('h' + 'xyz'[d], True) for d in range(3)}
        self.consts = consts or {}
        self.reductions = []
        self.redkernels = False  # reductions are kernels: their results are atoms, contrib holds what each cell adds
        self.contrib = {}        # (kernel, result, cell) -> value
        self.scalarmem = None    # scalar data as memory
        self.glob = {}
        self.cuts = None         # kernel counts at which own arrays are given fresh symbolic values
        self.redkind = {}        # (kernel, result) -> Sum, Min, Max
        self.locals = {}         # atom key -> (kernel, result)
        self.parts = []          # particle kernels
        self.deposits = []       # (array cell, value) of atomic additions
        self.oct = None          # views with one value per octant: id -> [(kernels before, symbol before, value after)]
        self.octmarks = {}       # (kernel, cell) -> [(view, operation, value)]
        self.octfinal = []       # views handed to setMarkers
        self.partcell = None     # the cell that holds the particle
        self.ignored = []
        self.accnames = {}

    # ---- cells
    def cellv(self, pos, s, ld=0, bnd=None):
        return Opq(('cell', tuple(pos), s, ld, bnd), 'CellIndex')

    def cellof(self, st, v):
        if isinstance(v, LV):
            v = self.load(st, v)
        if not (isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'cell'):
            raise Unsup('cell expected: %r' % (getattr(v, 'key', v),))
        return v.key

    def offs(self, st, n, fr):
        v = self.val(st, n, fr)
        if not isinstance(v, S):
            raise Unsup('offset')
        o = []
        for d in range(3):
            x = v.get(d)
            c = num(x.v).const() if isinstance(x, Leaf) else None
            if c is None or c.denominator != 1:
                raise Unsup('symbolic offset')
            o.append(int(c))
        return o

    def leafat(self, pos, s, towards=None):
        """index of the leaf that covers the size-s box at pos"""
        M = self.mesh
        if not M.periodic and not M.inside(pos):
            return self.cellv(pos, s, 0, True)
        q = M.wrap(pos)
        t = M.size(*q)
        if t >= s:
            r = self.cellv(M.low(q, t), t, {1: 0, 2: 1}.get(t // s, t // s))
            return r
        lo = list(q)
        if towards:
            # smaller neighbour: the adjacent one with the lowest position
            for d in range(3):
                if towards[d] < 0 and (d < 2 or M.ndim == 3):
                    lo[d] += s - t
        return self.cellv(M.wrap(lo), t, -1)

    def construct(self, st, n, fr):
        t = base(n.get('t', '')) or n.get('cls', '')
        if t in self.prebuilt:
            return self.prebuilt[t]
        if t.startswith(('Kokkos::Max<', 'Kokkos::Min<', 'Kokkos::Sum<')) and self.redkernels and len(kids(n)) >= 1:
            v = self.ev(st, kids(n)[0], fr)
            if isinstance(v, LV):
                return Opq(('reducer', v), t)
        if self.oct is not None and t.startswith('Kokkos::View<int *'):
            c = kids(n)
            if len(c) >= 1 and base(c[0].get('t', '')) == t:
                return self.val(st, c[0], fr)
            i = len(self.oct)
            self.oct[i] = [(len(self.kernels), None, C(0))]
            return Opq(('octview', i), t)
        if 'GhostCommunicator' in t or t.endswith('FieldManager'):
            return Opq('none', t)
        return super().construct(st, n, fr)

    # ---- hooks
    def hook(self, st, n, fr):
        k = n['k']
        fn = n.get('fn') or ''
        nm = fn.split('::')[-1]
        a = args(n)
        cls = n.get('in') or ''
        mem = None
        if k == 'CXXMemberCallExpr':
            nm = kids(n)[0].get('n') or nm
        o = callee_obj(n)
        if k == 'CXXOperatorCallExpr':
            c = kids(n)
            if n.get('o') == '+' and 'CellIndex' in base(c[1].get('t', '')):
                cell = self.cellof(st, self.val(st, c[1], fr))
                of = self.offs(st, c[2], fr)
                return self.move(cell, of)
            if n.get('o') in ('==', '!=') and 'CellIndex' in base(c[1].get('t', '')):
                x, y = self.cellof(st, self.val(st, c[1], fr)), self.cellof(st, self.val(st, c[2], fr))
                r = x[1:3] == y[1:3]
                return TRUE if r == (n['o'] == '==') else FALSE
            if n.get('o') in ('==', '!=') and any('basic_string' in q.get('t', '') for q in c[1:]):
                x, y = self.text(self.val(st, c[1], fr)), self.text(self.val(st, c[2], fr))
                return TRUE if (x == y) == (n['o'] == '==') else FALSE
            if n.get('o') == '+=' and 'basic_string' in c[1].get('t', ''):
                l = self.lval(st, c[1], fr)
                x, y = self.load(st, l), self.val(st, c[2], fr)
                self.store(st, l, Opq(('str', self.text(x) + self.text(y))))
                return l
            if n.get('o') == '+' and 'basic_string' in n.get('t', ''):
                return Opq(('str', self.text(self.val(st, c[1], fr)) + self.text(self.val(st, c[2], fr))))
            if n.get('o') == '<<':
                return Opq('stream')
        if self.flux and nm.startswith('riemann') and n.get('f') in self.p.fns and len(a) >= 3:
            r = self.riemann(st, n, fr, a)
            if r is not None:
                return r
        if nm in ('foreach_cell', 'foreach_patch', 'foreach_ghost_cell', 'reduce_cell', 'foreach_particle', 'reduce_particle') and o is not None:
            return self.kernel(st, n, fr, nm, a)
        if nm in self.consts and o is not None:
            return self.consts[nm]
        if nm in ('atomic_add', 'atomic_fetch_add') and len(a) == 2:
            t = a[0]
            while t['k'] in ('ParenExpr', 'ImplicitCastExpr'):
                t = kids(t)[0]
            if t['k'] == 'UnaryOperator' and t.get('o') == '&':
                l = self.ev(st, kids(t)[0], fr)
                if isinstance(l, LV) and l.cell[0] == 'mem':
                    self.deposits.append((l.cell[1], l.cell[2], self.val(st, a[1], fr)))
                    return Opq('none')
            raise Unsup('atomic')
        if self.oct is not None:
            r = self.octhook(st, n, fr, nm, a, o)
            if r is not None:
                return r
        if nm == 'parallel_reduce' or nm == 'parallel_for':
            raise Unsup(nm)
        if nm in self.hooks:
            return self.hooks[nm](self, st, n, fr, a)
        if nm == 'to_string' and 'string' in n.get('t', ''):
            return Opq(('str', '?'))
        if nm == 'exp' and self.noexp:
            return C(1)
        if nm in ('printf', 'fprintf', 'exit', 'fence') or fn.startswith('std::basic_o'):
            return Opq('none')
        if k == 'CXXMemberCallExpr' and o is not None:
            ot = base(o.get('t', ''))
            if nm == 'getValue' and self.conf is not None and ot.endswith('ConfigMap'):
                k = tuple(self.text(self.val(st, x, fr)).lower() for x in a[:2])
                self.reads[k] = n
                if k in self.conf:
                    return self.conf[k]
                d = self.val(st, a[2], fr) if len(a) > 2 else Opq('none')
                return self.atom(('setting',) + k, True) if base(n.get('t', '')) in ('double', 'float') else d
            if nm == 'getDim':
                return C(self.mesh.ndim)
            if nm == 'pos' and len(a) == 2 and 'article' in ot:
                d = num(self.val(st, a[1], fr).v).const()
                if d is None:
                    raise Unsup('symbolic axis')
                return LV(('part', 'pos', int(d)), (), 'double')
            if nm == 'getParticleArray':
                return Opq('particles', 'ParticleArray')
            if nm == 'getCellFromPos' and self.partcell:
                self.lookups.append(self.val(st, a[0], fr))
                return self.cellv(*self.partcell)
            if nm == 'getCellMetaData':
                return Opq('metadata', 'CellMetaData')
            if nm == 'getShape':
                return Opq('shape', 'Shape')
            if nm in ('start', 'stop', 'exchange_ghosts', 'reduce_ghosts') or ot.endswith('Timers'):
                return Opq('none')
            if nm in ('get_id2index', 'get_amr_mesh', 'getFieldManager', 'getLightOctree'):
                return Opq(nm)
            if nm in ('get', 'set') and 'MultiTypeMap' in ot:
                s = self.text(self.val(st, a[0], fr))
                if self.scalarmem is None and nm == 'get':
                    return self.scalar(s)
                l = LV(('scalar', s), (), base(n.get('t', '')) if nm == 'get' else 'double')
                if nm == 'set':
                    v = self.val(st, a[1], fr)
                    self.store(st, l, v)
                    if self.scalarmem is not None:
                        self.scalarmem[s] = v
                    return Opq('none')
                if l.cell not in st.mem:
                    st.mem[l.cell] = self.scalar(s)
                return l
            if nm == 'hasValue' and self.conf is not None and ot.endswith('ConfigMap'):
                k = tuple(self.text(self.val(st, x, fr)).lower() for x in a[:2])
                return TRUE if k in self.conf else FALSE
            if nm == 'find' and 'basic_string' in ot and len(a) >= 1:
                x, y = self.text(self.val(st, o, fr)), self.text(self.val(st, a[0], fr))
                i = x.find(y)
                return C(i if i >= 0 else 2 ** 64 - 1)
            if nm == 'getMpiComm':
                return Opq('communicator', 'MpiComm')
            if nm == 'MPI_Allreduce' and 'MpiComm' in ot and self.redkernels:
                return self.allreduce(st, a, fr)
            if nm in ('allocate_ghosted_array', 'allocate_array', 'reserve_patch_tmp'):
                self.narr += 1
                if nm == 'reserve_patch_tmp':
                    self.patchtmp.add(('array', self.narr))
                return Opq(('array', self.narr), 'array')
            if nm == 'allocate_tmp':
                v = self.val(st, a[0], fr)
                return v
            if nm == 'getAccessor' or nm == 'getParticleAccessor':
                return self.accessor(st, n, fr, a)
            if nm in ('at', 'at_ivar') and len(a) == 2:
                return self.at(st, o, a, fr)
            if nm in ('convert_index', 'convert_index_ghost', 'convert_index_getNeighbor'):
                cell = self.cellof(st, self.val(st, a[0], fr))
                arr = self.ev(st, o, fr)
                if nm == 'convert_index' or self.ispatch(st, arr, o):
                    return self.cellv(*cell[1:])
                return self.leafat(cell[1], cell[2])
            if 'CellIndex' in ot:
                cell = self.cellof(st, self.val(st, o, fr))
                if nm == 'getNeighbor_ghost':
                    of = self.offs(st, a[0], fr)
                    pos = tuple(v + d * cell[2] for v, d in zip(cell[1], of))
                    return self.leafat(pos, cell[2], of)
                if nm == 'getNeighbor':
                    return self.move(cell, self.offs(st, a[0], fr))
                if nm == 'level_diff':
                    return C(cell[3])
                if nm == 'getBoundaryPosAndOffset':
                    pos, sz, ext = cell[1], cell[2], self.mesh.ext
                    ins = tuple(min(max(v, 0), e - (sz if d < 2 or self.mesh.ndim == 3 else 1)) for d, (v, e) in enumerate(zip(pos, ext)))
                    self.store(st, self.lval(st, a[0], fr), self.cellv(ins, sz))
                    of = S()
                    of.t = 'Kokkos::Array<short, 3>'
                    for d in range(3):
                        of[d] = C((pos[d] - ins[d]) // sz)
                    self.store(st, self.lval(st, a[1], fr), of)
                    return Opq('none')
                if nm == 'is_boundary':
                    return TRUE if cell[4] else FALSE
                if nm == 'is_valid':
                    return TRUE
                if nm == 'is_local':
                    return FALSE
            if nm == 'getCellSize':
                cell = self.cellof(st, self.val(st, a[0], fr))
                return self.vec([self.mul(C(cell[2]), self.h[d]) for d in range(3)])
            if nm == 'getCellCenter':
                cell = self.cellof(st, self.val(st, a[0], fr))
                return self.vec([self.mul(C(Fraction(2 * cell[1][d] + cell[2], 2)), self.h[d]) for d in range(3)])
        return None

    def octhook(self, st, n, fr, nm, a, o):
        if nm == 'getOct':
            return self.atom('iOct')
        if nm in ('getLevel', 'get_level_min', 'get_level_max') and o is not None:
            return self.atom({'getLevel': 'level'}.get(nm, nm[4:]), True)
        if nm == 'getNumOctants':
            return self.atom('nbOcts', True)
        if n['k'] == 'CXXOperatorCallExpr' and n.get('o') == '()' and base(kids(n)[1].get('t', '')).startswith('Kokkos::View<int *'):
            v = self.val(st, kids(n)[1], fr)
            i = self.val(st, kids(n)[2], fr)
            if not isinstance(v, Opq) or v.key[0] != 'octview' or not self.equal(i, self.atom('iOct')):
                raise Unsup('octant view')
            return LV(('octmem', v.key[1]), (), 'int')
        if nm in ('setMarkers', 'deep_copy') and a:
            v = self.val(st, a[0], fr)
            if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'octview':
                if nm == 'setMarkers':
                    self.octfinal.append((v.key[1], len(self.kernels), len(self.oct[v.key[1]])))
                else:
                    self.oct[v.key[1]].append((len(self.kernels), None, self.val(st, a[1], fr)))
                return Opq('none')
        if nm == 'size' and o is not None and base(o.get('t', '')).startswith('Kokkos::View<int *'):
            return self.atom('nbOcts', True)
        if nm in ('atomic_fetch_max', 'atomic_max', 'atomic_fetch_min', 'atomic_min') and len(a) == 2 and self.running:
            t = a[0]
            while t['k'] in ('ParenExpr', 'ImplicitCastExpr'):
                t = kids(t)[0]
            if t['k'] == 'UnaryOperator' and t.get('o') == '&':
                l = self.ev(st, kids(t)[0], fr)
                if isinstance(l, LV) and l.cell[0] == 'octmem':
                    j, c = self.running[-1]
                    self.octmarks.setdefault((j, c), []).append((l.cell[1], nm[-3:], self.val(st, a[1], fr)))
                    return Opq('none')
        if nm == 'parallel_for':
            lam = None
            for x in a:
                v = self.ev(st, x, fr)
                v = st.mem.get(v.cell) if isinstance(v, LV) else v
                if isinstance(v, Lam):
                    lam = v
            g = lam and next((self.p.fns[x] for x in lam.node.get('fns', ()) if x in self.p.fns and self.p.fns[x].get('body')), None)
            if g is None or len(g['params']) != 1:
                raise Unsup('parallel_for')
            s2 = st.copy()
            e = self.cell('karg')
            s2.mem[e] = self.atom('iOct')
            env = dict(lam.env)
            env[g['params'][0]['d']] = LV(e, (), g['params'][0]['t'])
            b = {}
            for i, l in self.oct.items():
                b[i] = s2.mem[('octmem', i)] = self.atom(('octval', i, len(l)))
            self.body(s2, g, env, lam.this)
            for i in b:
                if s2.mem[('octmem', i)] is not b[i]:
                    self.oct[i].append((len(self.kernels), b[i], s2.mem[('octmem', i)]))
            return Opq('none')
        return None

    def text(self, v):
        if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'str':
            return v.key[1]
        if isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'ctor' and len(v.key) >= 3 and isinstance(v.key[2], tuple) and v.key[2][0] == 'str':
            return v.key[2][1]
        raise Unsup('text expected')

    def scalar(self, name):
        return self.atom(name, True)

    def vec(self, xs):
        v = S()
        v.t = 'Kokkos::Array<double, 3>'
        for i, x in enumerate(xs):
            v[i] = x
        return v

    def move(self, cell, of):
        pos = tuple(v + d * cell[2] for v, d in zip(cell[1], of))
        M = self.mesh
        if M.periodic:
            pos = M.wrap(pos)
        return self.cellv(pos, cell[2], 0, None if M.inside(pos) or M.periodic else True)

    def ispatch(self, st, v, o):
        if isinstance(v, LV):
            try:
                v = self.load(st, v)
            except Unsup:
                return False
        return isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[0] == 'array' and 'patch' in o.get('t', '')

    def accessor(self, st, n, fr, a):
        w = callee_obj(n)
        l = self.val(st, a[1 if callee_is_particle(n) else 0], fr)
        names = {}

        def items(x):
            if isinstance(x, S):
                vals = [x[k] for k in x]
                if len(vals) == 2 and not all(isinstance(v, S) for v in vals):
                    try:
                        i = vals[1]
                        c = num(i.v).const()
                        names[int(c)] = self.text(vals[0])
                        return
                    except (Unsup, AttributeError):
                        pass
                for v in vals:
                    items(v)
            elif isinstance(x, Opq) and isinstance(x.key, tuple) and x.key[0] == 'ctor':
                raise Unsup('accessor list %s' % (str(x.key)[:80],))
            else:
                raise Unsup('accessor list')
        items(l)
        if not names:
            raise Unsup('accessor list')
        key = ('acc',) + tuple(sorted(names.items()))
        return Opq(key, 'accessor')

    def at(self, st, o, a, fr):
        arr = self.ev(st, o, fr)
        if isinstance(arr, LV):
            arr = self.load(st, arr)
        if not isinstance(arr, Opq):
            raise Unsup('array')
        cv = self.val(st, a[0], fr)
        part = isinstance(cv, Opq) and cv.key == 'particle'
        cell = None if part else self.cellof(st, cv)
        iv = self.val(st, a[1], fr)
        c = num(iv.v).const() if isinstance(iv, Leaf) else None
        if c is None:
            raise Unsup('symbolic variable index')
        iv = int(c)
        ak = arr.key
        if isinstance(ak, tuple) and ak[0] == 'acc':
            d = dict(ak[1:])
            if iv not in d:
                raise Unsup('variable %d not in accessor' % iv)
            if part:
                return LV(('part', d[iv], 0), (), 'double')
            key = ('U', d[iv])
        else:
            key = (ak, iv)
        ver = self.running[-1][0] if self.running else len(self.kernels)
        return LV(('mem', key, (cell[1], cell[2]), ver), (), 'double')

    def load(self, st, lv, t=''):
        if isinstance(lv.cell, tuple) and lv.cell and lv.cell[0] == 'mem' and lv.cell not in st.mem:
            return self.gread(lv.cell)
        return super().load(st, lv, t)

    def initial(self, k, x):
        if k[0] == 'mem':
            return self.gread(k)
        return super().initial(k, x)

    def merge(self, st, c, s1, s2):
        for k in set(s1.mem) ^ set(s2.mem):
            if k[0] == 'mem':
                (s2 if k in s1.mem else s1).mem[k] = self.gread(k)
        super().merge(st, c, s1, s2)

    def gread(self, k):
        """value of an array cell as kernel number ver sees it"""
        _, key, cell, ver = k
        if race.ON and self.running and self.running[-1][0] == ver:
            race.ON.read(self, ver, self.kernels[ver][0], self.running[-1][1], key, cell)
        if self.cuts and not (isinstance(key, tuple) and key[0] == 'U'):
            b = max([x for x in self.cuts if x <= ver], default=None)
            if b is not None:
                for j in range(b, ver):
                    self.ensure(j, cell)
                l = [(j, v) for j, v in self.gmem.get((key, cell), ()) if b <= j < ver]
                return max(l, key=lambda x: x[0])[1] if l else self.atom(('cell', key, cell, b))
        return self.before(key, cell, ver)

    def before(self, key, cell, ver, since=None):
        """last value written before kernel ver"""
        for j in range(ver):
            self.ensure(j, cell)
        best = None
        for j, v in self.gmem.get((key, cell), ()):
            if j < ver and (best is None or j > best[0]):
                best = (j, v)
        if best:
            return best[1]
        return self.init(self, key, cell)

    def ensure(self, j, cell):
        if (j, cell) in self.done:
            return
        self.done.add((j, cell))
        lam, st0, kind, isleaf = self.kernels[j]
        if isleaf:
            # the kernel runs on leaves only
            M = self.mesh
            if not M.inside(cell[0]) or M.size(*cell[0]) != cell[1]:
                return
        g = None
        for x in lam.node.get('fns', ()):
            if x in self.p.fns and self.p.fns[x].get('body'):
                g = self.p.fns[x]
                break
        if g is None:
            raise Unsup('kernel body')
        st = st0.copy()
        env = dict(lam.env)
        redc = {}
        for i, q in enumerate(g['params']):
            c = self.cell('karg')
            st.mem[c] = self.cellv(cell[0], cell[1]) if i == 0 else self.atom(('red', j, i))
            if i:
                redc[c] = i
            env[q['d']] = LV(c, (), q['t'])
        self.running.append((j, cell))
        try:
            self.body(st, g, env, lam.this)
        finally:
            self.running.pop()
        if race.ON:
            race.ON.ran(self, j, lam, not isleaf)
        for k, v in st.mem.items():
            if k[0] == 'karg' and k in redc:
                self.contrib[j, redc[k], cell] = v
            if k[0] == 'octmem' and race.ON and v is not st0.mem.get(k):
                race.ON.report(race.ON.label(lam), 'the iterations of the cells of an octant write the same element of an array without an atomic operation')
            if k[0] == 'mem' and k[3] == j:
                if race.ON:
                    race.ON.write(self, j, lam, cell, k[1], k[2])
                if k[2] != cell:
                    raise Unsup('kernel writes to another cell')
                self.gmem.setdefault((k[1], k[2]), []).append((j, v))

    def kernel(self, st, n, fr, nm, a):
        if self.running and nm != 'foreach_patch':
            raise Unsup('nested kernel')
        lam = None
        for x in a:
            v = self.ev(st, x, fr)
            if isinstance(v, LV):
                w = st.mem.get(v.cell)
                v = w if isinstance(w, Lam) else v
            if isinstance(v, Lam):
                lam = v
        if lam is None:
            raise Unsup('kernel functor')
        if nm == 'foreach_patch':
            g = next((self.p.fns[x] for x in lam.node.get('fns', ()) if x in self.p.fns and self.p.fns[x].get('body')), None)
            if g is None:
                raise Unsup('patch body')
            env = dict(lam.env)
            for q in g['params']:
                c = self.cell('patch')
                st.mem[c] = Opq('patch', 'Patch')
                env[q['d']] = LV(c, (), q['t'])
            k0 = len(self.kernels)
            self.body(st, g, env, lam.this)
            for k in range(k0, len(self.kernels)):
                self.patchof[k] = k0
            return Opq('none')
        if nm == 'reduce_particle' and self.redkernels:
            self.results(st, a, fr, ('part', len(self.parts)))
            self.parts.append((lam, st.copy(), len(self.kernels)))
            return Opq('none')
        if nm == 'foreach_particle':
            self.parts.append((lam, st.copy(), len(self.kernels)))
            return Opq('none')
        if nm == 'reduce_cell' and self.redkernels:
            self.results(st, a, fr, len(self.kernels))
            self.kernels.append((lam, st.copy(), nm, True))
            return Opq('none')
        if nm.startswith('reduce'):
            self.reductions.append((lam, st.copy()))
            return Opq('none')
        shape = [base(x.get('t', '')) for x in a]
        wide = base(callee_obj(n).get('t', '')).endswith('Patch') and any(t.endswith('CellArray_shape') or t.endswith('CellArray_patch') for t in shape)
        self.kernels.append((lam, st.copy(), nm, not wide))
        return Opq('none')

    def results(self, st, a, fr, j):
        """results of a reduction: fresh symbols"""
        seen = False
        i = 0
        for x in a:
            if x['k'] == 'Lambda' or 'lambda' in x.get('t', ''):
                seen = True
                continue
            if not seen:
                continue
            i += 1
            kind = 'Sum'
            y = x
            while y['k'] not in ('DeclRefExpr', 'MemberExpr'):
                m = [q for q in kids(y) if q and q['k'] != 'DefArg']
                t = base(y.get('t', ''))
                if t.startswith('Kokkos::'):
                    kind = t.split('::')[1].split('<')[0]
                if len(m) != 1:
                    raise Unsup('result of a reduction')
                y = m[0]
            l = self.lval(st, y, fr)
            t = base(y.get('t', ''))
            if t.startswith('Kokkos::'):
                # a reducer declared before
                kind = t.split('::')[1].split('<')[0]
                v = self.load(st, l)
                if not isinstance(v, Opq) or not isinstance(v.key, tuple) or v.key[0] != 'reducer':
                    raise Unsup('reducer')
                l = v.key[1]
            key = ('local', j, i)
            self.locals[key] = (j, i)
            self.redkind[j, i] = kind
            if isinstance(self.load(st, l), S):
                raise Unsup('structured reduction')
            self.store(st, l, self.atom(key))

    def allreduce(self, st, a, fr):
        """reduction over the ranks: a fresh symbol; glob holds what this rank contributes"""
        def deref(q):
            while q['k'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr', 'CXXStaticCastExpr'):
                q = kids(q)[0]
            if q['k'] == 'UnaryOperator' and q.get('o') == '&':
                return self.lval(st, kids(q)[0], fr)
            raise Unsup('MPI_Allreduce of an array')
        op = a[3]
        while op['k'] != 'DeclRefExpr':
            op = kids(op)[0]
        v = self.load(st, deref(a[0]))
        k = ('global', len(self.glob))
        self.glob[k] = (v, op['n'])
        self.store(st, deref(a[1]), self.atom(k))
        return Opq('none')

    def particle(self, j, cell, init):
        """state after particle kernel j ran for one particle in the given cell; init: {(field, component): value}"""
        lam, st0, nk = self.parts[j]
        g = next((self.p.fns[x] for x in lam.node.get('fns', ()) if x in self.p.fns and self.p.fns[x].get('body')), None)
        if g is None:
            raise Unsup('particle kernel body')
        st = st0.copy()
        env = dict(lam.env)
        c = self.cell('parg')
        st.mem[c] = Opq('particle', 'ParticleIndex')
        env[g['params'][0]['d']] = LV(c, (), g['params'][0]['t'])
        for k, v in init.items():
            st.mem[('part',) + k] = v
        redc = {}
        for i, q in enumerate(g['params'][1:]):
            e = self.cell('karg')
            st.mem[e] = self.atom(('red', ('part', j), i + 1))
            redc[e] = i + 1
            env[q['d']] = LV(e, (), q['t'])
        self.partcell, self.deposits, self.lookups = cell, [], []
        self.body(st, g, env, lam.this)
        if race.ON:
            race.ON.kernels[race.ON.label(lam)] = race.ON.kernels.get(race.ON.label(lam), 0) + 1
            race.ON.accesses += len(self.deposits) + len(self.lookups)
            dep = {x[0] for x in self.deposits}
            for k in st.mem:
                if k[0] == 'mem' and k not in st0.mem:
                    race.ON.report(race.ON.label(lam), 'the iterations of particles write %s of the cells around them without an atomic operation' % race.name(k[1]))
        for e, i in redc.items():
            self.contrib[('part', j), i, cell] = st.mem[e]
        return st

    def physflux(self, q):
        m = self.mul
        F = S()
        F.t = 'dyablo::ConsHydroState'
        ru = m(q['rho'], q['u'])
        e = self.add(self.div(q['p'], self.atom('gamma0-1', True)), self.mul(self.mul(C(Fraction(1, 2)), q['rho']),
                     self.add(m(q['u'], q['u']), self.add(m(q['v'], q['v']), m(q['w'], q['w'])))))
        F['rho'] = ru
        F['e_tot'] = m(q['u'], self.add(e, q['p']))
        F['rho_u'] = self.add(m(ru, q['u']), q['p'])
        F['rho_v'] = m(ru, q['v'])
        F['rho_w'] = m(ru, q['w'])
        return F

    def fluxpoint(self, k, xs, pt):
        """value of a flux at a generic point, with the same symmetries"""
        keys = self.fluxkeys
        n = len(keys)
        rd = lambda v: v.quantize(Decimal(1).scaleb(-45)) + 0
        q = [dict(zip(keys, map(rd, xs[:n]))), dict(zip(keys, map(rd, xs[n:])))]
        forms = []
        for T in SYMS:
            sg, sw = T[1], T[2]
            o = (1, 0) if T[0] else (0, 1)
            forms.append((tuple(q[i][sw.get(k, k)] * sg.get(sw.get(k, k), 1) + 0 for i in o for k in keys), T))
        v, T = min(forms, key=lambda z: z[0])
        if any(z[0] == forms[0][0] and not z[1][2] and fsign(k, z[1]) < 0 for z in forms[1:]):
            return Decimal(0)
        k0 = FSW.get(k, k) if T[2] else k
        w = pt.fx.get((k0, v))
        if w is None:
            w = pt.fx[k0, v] = pt.rnd(False)
        return w if fsign(k, T) > 0 else -w

    # ---- Riemann solver: an uninterpreted function with the symmetries C13 establishes
    def riemann(self, st, n, fr, a):
        f = self.p.fns[n['f']]
        ps = f['params']
        if len(ps) < 3 or base(ps[0]['t']) != base(ps[1]['t']) or 'Prim' not in ps[0]['t']:
            return None
        L, R = self.val(st, a[0], fr), self.val(st, a[1], fr)
        fam = base(ps[0]['t']).split('Prim')[1]
        L, R = S({k: self.short(v) for k, v in L.items()}), S({k: self.short(v) for k, v in R.items()})
        if not all(isinstance(v, Leaf) for v in list(L.values()) + list(R.values())):
            raise Unsup('conditional state at an interface')

        keys = sorted(L)
        self.fluxkeys = keys
        N = [{k: self.neg(q[k]) for k in keys} for q in (L, R)]
        kp = [{k: self.rkey(num(q[k].v)) for k in keys} for q in (L, R)]
        kn = [{k: self.rkey(num(q[k].v)) for k in keys} for q in N]
        forms = []
        for T in SYMS:
            sg, sw = T[1], T[2]
            o = (1, 0) if T[0] else (0, 1)
            forms.append((tuple((kp if sg.get(sw.get(k, k), 1) > 0 else kn)[i][sw.get(k, k)] for i in o for k in keys), T))
        T = min(forms, key=lambda z: z[0])[1]
        sg, sw = T[1], T[2]
        o = (1, 0) if T[0] else (0, 1)
        av = tuple(num(((L, R) if sg.get(sw.get(k, k), 1) > 0 else N)[i][sw.get(k, k)].v) for i in o for k in keys)
        # the problem is its own image: components that change sign vanish
        own = [z[1] for z in forms[1:] if z[0] == forms[0][0] and not z[1][2]]
        members = [q['n'] for q in self.p.recs['dyablo::Cons' + fam]['fields']]
        F = S()
        F.t = 'dyablo::Cons' + fam
        alike = self.physical and all(same(L[k], R[k]) for k in L)
        if alike and fam == 'HydroState':
            F = self.physflux(L)
        else:
            for k in members:
                if alike and k == 'rho':
                    F[k] = self.mul(L['rho'], L['u'])
                elif any(fsign(k, z) < 0 for z in own):
                    F[k] = C(0)
                else:
                    v = Leaf(self.fatom('flux.' + FSW.get(k, k) if sw else 'flux.' + k, av))
                    F[k] = self.neg(v) if fsign(k, T) < 0 else v
        for q, z in zip(ps[2:], a[2:]):
            if q['t'] == 'double &':
                l = self.lval(st, z, fr)
                self.store(st, l, Leaf(self.fatom('flux.p', av)))
            if base(q['t']) == F.t and q['t'].endswith('&') and not q['t'].startswith('const'):
                self.store(st, self.lval(st, z, fr), F)
        return F
