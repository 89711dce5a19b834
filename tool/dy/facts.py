"""Extraction driver and program model.

extract(): runs the libTooling extractor (tool/extract.cpp) over every translation unit of
/repo/core/src (grouped in a few unity units for speed; a group that does not parse is redone unit
by unit) and returns a Program: functions (template instantiations included), records, variables,
enums, with resolved callees."""
import os, sys, json, subprocess, hashlib, tempfile, shutil, time, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
TOOL = os.path.dirname(HERE)
VERIF = os.path.dirname(TOOL)
REPO = os.environ.get('DY_REPO', '/repo')
SRC = REPO + '/core/src'
COMPAT = '/opt/vp/kokkos37_compat.h'

# not part of any target of core/src/CMakeLists.txt (commented out there); do not have to parse
UNCOMPILED = {'legacy/io_utils.cpp', 'legacy/MapUserData_legacy.cpp', 'legacy/HDF5_IO.cpp'}
# unity bins; units known to collide (same file-scope names) sit in different bins
BINS = [['legacy/MarkOctantsHydroFunctor.cpp', 'refine_condition/RefineCondition_legacy.cpp', 'hydro/HydroUpdate_legacy.cpp',
         'compute_dt/Compute_dt_legacy.cpp'],
        ['hydro/HydroUpdate_hancock_oneneighbor.cpp', 'amr/AMRmesh_hashmap.cpp'],
        ['particles/ParticleUpdate_CIC_move.cpp', 'amr/AMRmesh_hashmap_new.cpp', 'legacy/CopyGhostBlockCellData.cpp'],
        ['hydro/HydroUpdate_RK2.cpp', 'dyablo_main.cpp'],
        ['hydro/HydroUpdate_hancock.cpp', 'init/InitialConditions_restart.cpp'],
        ['hydro/HydroUpdate_euler.cpp', 'init/InitialConditions_tiled_restart.cpp'],
        ['gravity/GravitySolver_cg.cpp'], ['particles/ParticleUpdate_NGP_move.cpp']]


class AnalysisError(Exception):
    """the analysis could not be carried out (vanished anchor, parse failure): exit 2"""


def flags(src=None):
    src = src or SRC
    f = ['-DBACKWARD_HAS_DW=1', '-DBACKWARD_HAS_UNWIND=1', '-DKOKKOS_DEPENDENCE',
         '-I/usr/include/hdf5/openmpi', '-I/usr/lib/backward',
         '-I' + src, '-I' + src + '/utils/mpi', '-I' + src + '/utils', '-I' + src + '/utils/config/inih',
         '-I' + src + '/utils/monitoring',
         '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include',
         '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
         '-isystem', TOOL + '/stubs']
    if os.path.exists(COMPAT):
        f += ['-include', COMPAT]
    else:
        f += ['-include', TOOL + '/stubs/kokkos37_compat.h']
    f += ['-O0', '-DNDEBUG', '-std=c++17', '-w', '-DDYABLO_USE_HDF5', '-DDYABLO_USE_HDF5_PARALLEL',
          '-DDYABLO_USE_DOUBLE', '-DDYABLO_USE_MPI', '-fopenmp']
    return f


def tool():
    b = TOOL + '/bin/dyfacts'
    want = hashlib.sha256(open(TOOL + '/extract.cpp', 'rb').read()).hexdigest()
    try:
        have = open(b + '.src').read().strip()
    except OSError:
        have = ''
    if not (os.path.exists(b) and os.access(b, os.X_OK) and have == want):
        r = subprocess.run([TOOL + '/build.sh'], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot build the extractor: ' + r.stderr[-2000:])
    return b


def list_tus(src=None):
    src = src or SRC
    out = []
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith('.cpp'):
                out.append(os.path.relpath(os.path.join(d, f), src))
    return sorted(out)


def _run(t, src, out, f, extra=()):
    r = subprocess.run([t, src, out, f, '--', *flags(src), *extra], capture_output=True, text=True)
    return r.returncode, r.stderr


def _tree_hash(src):
    h = hashlib.sha256()
    h.update(open(TOOL + '/extract.cpp', 'rb').read())
    h.update(open(os.path.join(HERE, 'facts.py'), 'rb').read())
    for d, ds, fs in sorted(os.walk(src)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode()); h.update(b'\0')
            try:
                h.update(open(p, 'rb').read())
            except OSError:
                pass
    return h.hexdigest()


def extract_lines(src=None, only=None):
    """returns (lines, tus) ; lines: unique JSON lines"""
    src = src or SRC
    t = tool()
    tus = [x for x in list_tus(src) if x not in UNCOMPILED]
    if only is not None:
        tus = [x for x in tus if only(x)]
    if not tus:
        raise AnalysisError('no translation unit')
    cache = os.environ.get('DY_CACHE')   # developer convenience only; unset in the registered commands
    key = None
    if cache and only is None:
        os.makedirs(cache, exist_ok=True)
        key = os.path.join(cache, _tree_hash(src) + '.jsonl')
        if os.path.exists(key):
            return open(key).read().splitlines(), tus
    tmp = tempfile.mkdtemp(prefix='dyfacts.')
    try:
        jobs = [[x for x in g if x in tus] for g in BINS]
        rest = [x for x in tus if not any(x in g for g in BINS)]
        if len(rest) > 8:
            for i, x in enumerate(rest):
                jobs[4 + i % 4].append(x)
        else:
            jobs += [[x] for x in rest]
        jobs = sorted([g for g in jobs if g], key=lambda g: -len(g))
        outs = []
        errs = []

        def one(job):
            i, g = job
            o = os.path.join(tmp, 'o%d.jsonl' % i)
            if len(g) == 1:
                f = os.path.join(src, g[0])
            else:
                f = os.path.join(tmp, 'u%d.cpp' % i)
                with open(f, 'w') as fh:
                    for x in g:
                        fh.write('#include "%s"\n' % os.path.join(src, x))
            rc, err = _run(t, src, o, f)
            return g, rc, err, o
        with ThreadPoolExecutor(8) as ex:
            base = 0
            while jobs:
                redo = []
                for g, rc, err, o in ex.map(one, [(base + i, g) for i, g in enumerate(jobs)]):
                    if rc == 0:
                        outs.append(o)
                    elif len(g) > 1:   # names of two units collide: split
                        n = (len(g) + 3) // 4
                        redo += [g[i:i + n] for i in range(0, len(g), n)]
                    else:
                        errs.append((g[0], err))
                base += len(jobs)
                jobs = redo
        if errs:
            raise AnalysisError('translation unit does not parse: %s: %s' % (errs[0][0], errs[0][1][-1500:]))
        seen = set()
        lines = []
        for o in outs:
            with open(o) as fh:
                for l in fh:
                    if l.startswith('{"e":"fn"'):
                        k = l[:l.index(',"q":')]
                    else:
                        k = l
                    if k in seen:
                        continue
                    seen.add(k)
                    lines.append(l)
        if key:
            with open(key, 'w') as fh:
                fh.writelines(lines)
        return lines, tus
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


NAMED = ('init', 'cvar', 'cond', 'inc', 'then', 'else', 'body', 'var', 'range', 'val')


def kids(n):
    """children of a node in evaluation-ish order"""
    k = n['k']
    if k in ('IfStmt',):
        r = [n.get('init'), n.get('cvar'), n.get('cond'), n.get('then'), n.get('else')]
    elif k == 'ForStmt':
        r = [n.get('init'), n.get('cond'), n.get('body'), n.get('inc')]
    elif k in ('WhileStmt',):
        r = [n.get('cond'), n.get('body')]
    elif k == 'DoStmt':
        r = [n.get('body'), n.get('cond')]
    elif k == 'CXXForRangeStmt':
        r = [n.get('range'), n.get('var'), n.get('body')]
    elif k == 'SwitchStmt':
        r = [n.get('cond'), n.get('body')]
    elif k == 'CaseStmt':
        r = [n.get('val'), n.get('body')]
    elif k == 'Var':
        r = [n.get('init')]
    elif k == 'Lambda':
        r = [c.get('init') for c in n.get('caps', ()) if isinstance(c, dict)]
    else:
        r = n.get('c') or []
    return [x for x in r if x]


def walk(n):
    """pre-order over all nodes (does not enter lambda bodies)"""
    st = [n]
    while st:
        x = st.pop()
        if not x:
            continue
        yield x
        st.extend(reversed(kids(x)))


class Program:
    def __init__(self, lines, tus):
        self.fns = {}
        self.recs = {}
        self.vars = []
        self.enums = {}
        self.tus = tus
        for l in lines:
            d = json.loads(l)
            e = d['e']
            if e == 'fn':
                self.fns[d['id']] = d
            elif e == 'rec':
                self.recs[d['qd']] = d
            elif e == 'enum':
                self.enums[d['q']] = d
            else:
                self.vars.append(d)
        self._post()

    def _post(self):
        # virtual overriding
        self.overriders = {}
        for f in self.fns.values():
            for o in f.get('ov', ()):
                self.overriders.setdefault(o, set()).add(f['id'])
        changed = True
        while changed:
            changed = False
            for o, s in list(self.overriders.items()):
                for x in list(s):
                    for y in self.overriders.get(x, ()):
                        if y not in s:
                            s.add(y); changed = True
        self.children = {}
        for f in self.fns.values():
            p = f.get('parent')
            if p:
                self.children.setdefault(p, []).append(f['id'])
        # by qualified name
        self.byq = {}
        for f in self.fns.values():
            self.byq.setdefault(f['q'], []).append(f)

    # ---- nodes
    def nodes(self, f):
        if isinstance(f, str):
            f = self.fns[f]
        for i in f.get('inits', ()):
            if i.get('x'):
                yield from walk(i['x'])
        if f.get('body'):
            yield from walk(f['body'])

    def targets(self, n):
        """ids of the functions of the analysed tree that a call node may run"""
        f = n.get('f')
        if not f:
            return []
        out = []
        if f in self.fns:
            out.append(f)
        if n.get('virt') and not n.get('nov'):
            out += [x for x in self.overriders.get(f, ()) if x in self.fns]
        return out

    def callees(self, fid):
        """direct callees (resolved), including lambdas created in the function (assumed to be run)"""
        c = getattr(self, '_callees', None)
        if c is None:
            c = self._callees = {}
        if fid in c:
            return c[fid]
        s = set()
        for n in self.nodes(fid):
            if n['k'] == 'Lambda':
                for x in n.get('fns', ()):
                    if x in self.fns:
                        s.add(x)
            elif 'f' in n:
                s.update(self.targets(n))
        c[fid] = s
        return s

    def reach(self, roots):
        seen = set()
        st = list(roots)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.callees(x))
        return seen

    def at(self, fn_or_file, line=None):
        if isinstance(fn_or_file, dict):
            return '%s:%s' % (fn_or_file['file'], line if line is not None else fn_or_file['line'])
        return '%s:%s' % (fn_or_file, line)


_prog = None


def program():
    global _prog
    if _prog is None:
        lines, tus = extract_lines()
        _prog = Program(lines, tus)
    return _prog
