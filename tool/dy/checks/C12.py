import os, re, glob, difflib
from ..facts import kids, walk, AnalysisError, REPO
from ..ast import args, Consts, strip, expr, callee_obj

RULE = ('names registered with a factory or a named enumeration are unique, one per implementation, listed in the '
        'factory; each selects the implementation it names; every name used as default, searched for in an identifier '
        'or present in a shipped settings file is registered with the factory that setting selects from')
EXPLAIN = ('registry table read from the static registrations of the type-checked program, compared with the registration '
           'lists, with the constant defaults flowing into make_instance, with substring tests on identifiers and with the '
           'settings files of the repository')

# names users' settings files select (registered in the analysed release); removing or renaming one breaks their runs
RELEASED = {
    'HydroUpdate': 'HydroUpdate_hancock MHDUpdate_hancock HydroUpdate_euler MHDUpdate_euler GLMMHDUpdate_euler HydroUpdate_legacy '
                   'HydroUpdate_hancock_oneneighbor MHDUpdate_hancock_oneneighbor HydroUpdate_RK2 MHDUpdate_RK2 GLMMHDUpdate_RK2',
    'InitialConditions': 'restart blast orszag_tang orszag_tang_glm simple_particles tiled_restart grafic_fields particle_grid sod '
                         'MHD_blast MHD_blast_glm implode rayleigh_taylor C91 MHD_rotor MHD_rotor_glm kelvin_helmholtz riemann2d tri_layer',
    'Compute_dt': 'Compute_dt_hydro Compute_dt_parabolic Compute_dt_particle_velocity Compute_dt_cosmology Compute_dt_legacy',
    'GravitySolver': 'GravitySolver_constant GravitySolver_point_mass GravitySolver_cg',
    'IOManager': 'IOManager_checkpoint IOManager_hdf5',
    'ParabolicUpdate': 'ParabolicUpdate_explicit',
    'RefineCondition': 'RefineCondition_downflows RefineCondition_mass RefineCondition_pseudo_gradient '
                       'RefineCondition_second_derivative_error RefineCondition_legacy',
    'ParticleUpdate': 'ParticleUpdate_CIC_density ParticleUpdate_NGP_density ParticleUpdate_NGP_move ParticleUpdate_tracers_move ParticleUpdate_CIC_move',
    'MapUserData': 'MapUserData_mean',
    'CoolingUpdate': 'CoolingUpdate_FF',
}
RELEASED_ENUM = {
    'BoundaryConditionType': 'reflecting absorbing periodic userdef',
    'GravityType': 'none constant_scalar constant_field field',
    'ParabolicTermType': 'viscosity thermal_conduction',
    'DiffusivityMode': 'constant analytical',
    'RiemannSolverType': 'hllc hlld five_waves',
    'KappaMode': 'none tri_layer',
    'OutputRealType': 'float double',
}


def norm(s):
    s = re.sub(r'<(dyablo::)?(Hydro|MHD|GLMMHD)State>|_glm$|^(GLMMHD|MHD|Hydro)Update_|dyablo::|AnalyticalFormula_|HydroUpdate_|InitialConditions_analytical|GravitySolver_analytical', '', s)
    return re.sub(r'[^a-z0-9]', '', s.lower())


def sim(a, b):
    return difflib.SequenceMatcher(None, norm(a), norm(b)).ratio()


def crossed(pairs):
    """pairs [(name, thing)]: report (name, other name) whose things look exchanged"""
    out = []
    for i, (a, A) in enumerate(pairs):
        for b, B in pairs[i + 1:]:
            if sim(a, B) + sim(b, A) > sim(a, A) + sim(b, B) + 1e-6:
                out.append((a, A, b, B))
    return out


def variant(cls):
    return ('GLM' if 'GLM' in cls else '') + ('MHD' if 'MHD' in cls else '')


def run(p, ck):
    cs = Consts(p)
    fac = {}
    nreg = 0
    for v in p.vars:
        if not (v['q'].endswith('::registered') and 'init' in v['v']):
            continue
        m = re.search(r'RegisteringFactory<(?:dyablo::)?(\w+)', v['q'])
        c = [x for x in walk(v['v']['init']) if x['k'] == 'CallExpr' and x.get('ta')]
        if not m or not c:
            continue
        s = cs.value(None, args(c[0])[0])
        if not s or len(s) != 1:
            ck.count('registered_names_not_constant')
            continue
        nreg += 1
        fac.setdefault(m.group(1), []).append((list(s)[0], c[0]['ta'][0], p.at(v['file'], v['line'])))
    ck.require('registrations', nreg, 45)
    ck.require('factories', len(fac), 9)
    # registration lists
    listed = {}
    for f in p.fns.values():
        m = re.match(r'RegisteringFactory<(?:dyablo::)?(\w+).*>::init$', f['q'])
        if m:
            for n in p.nodes(f):
                if n['k'] == 'DeclRefExpr' and n.get('n') == 'registered':
                    listed.setdefault(m.group(1), set()).add(n['cls'])
    for F, regs in sorted(fac.items()):
        ids, classes = {}, {}
        for i, c, w in regs:
            k = 'unique:%s:%s' % (F, i)
            if i in ids:
                ck.bad(k, w, 'name "%s" is registered twice with %sFactory (%s and %s): start-up aborts' % (i, F, ids[i], c))
            else:
                ck.ok(k, '%s -> %s' % (i, c))
            ids[i] = c
            if i == 'none':
                ck.bad('none:' + F, w, 'the reserved name "none" is registered with ' + F)
            k = 'class:%s:%s' % (F, c)
            if c in classes:
                ck.bad(k, w, 'implementation %s is registered under two names of %s: "%s" and "%s"' % (c, F, classes[c], i))
            else:
                ck.ok(k, '')
            classes[c] = i
            k = 'listed:%s:%s' % (F, c)
            if any(x.endswith(', %s>' % c) for x in listed.get(F, ())):
                ck.ok(k, 'listed in the factory')
            else:
                ck.bad(k, w, '%s (registered as "%s") is missing from the registration list of %s: selecting it may fail depending on the link' % (c, i, F))
            if F == 'HydroUpdate':
                k = 'variant:' + c
                want = variant(c)
                if variant(i.upper()) != want:
                    ck.bad(k, w, 'name "%s" implies variant "%s" but %s works on "%s": components that deduce the evolved fields from the name disagree with the solver' % (i, variant(i.upper()) or 'hydro', c, want or 'hydro'))
                else:
                    ck.ok(k, i)
            elif F == 'InitialConditions' and 'MHDState' in c:
                k = 'variant:' + c
                if ('glm' in i.lower()) != ('GLM' in c):
                    ck.bad(k, w, 'initial conditions "%s" fill %s' % (i, c))
                else:
                    ck.ok(k, i)
        for a, A, b, B in crossed([(i, c) for i, c, w in regs]):
            ck.bad('crossed:%s:%s:%s' % (F, a, b), regs[0][2], 'names exchanged: "%s" selects %s and "%s" selects %s' % (a, A, b, B))
        for i in RELEASED.get(F, '').split():
            k = 'released:%s:%s' % (F, i)
            if i in ids:
                ck.ok(k, '')
            else:
                ck.bad(k, 'factory ' + F, 'name "%s" can no longer be selected (registered: %s)' % (i, sorted(ids)))
    # named enumerations
    enums = {}
    for f in p.fns.values():
        if f['n'] == 'names' and f.get('cls', '').startswith('named_enum'):
            E = re.sub(r'named_enum<(?:\w+::)*(\w+)>.*', r'\1', f['clsd'])
            pairs = []
            cur = None
            for x in walk(f['body']):
                if x['k'] == 'DeclRefExpr' and x.get('dk') == 'enum':
                    cur = x
                elif x['k'] == 'StringLiteral' and cur is not None:
                    pairs.append((x['v'], cur))
                    cur = None
            enums[E] = (f, pairs)
    ck.require('named_enums', len(enums), 7)
    for E, (f, pairs) in sorted(enums.items()):
        seen, vals = {}, {}
        for s, x in pairs:
            k = 'enum:%s:%s' % (E, s)
            if s in seen:
                ck.bad(k, p.at(f), 'name "%s" stands for two values of %s (%s, %s)' % (s, E, seen[s], x['n']))
            elif x['v'] in vals:
                ck.bad(k, p.at(f), 'value %s of %s has two names ("%s", "%s"): a default would not be written back as it was' % (x['n'], E, vals[x['v']], s))
            else:
                ck.ok(k, x['n'])
            seen[s] = x['n']
            vals[x['v']] = s
        strip_pref = os.path.commonprefix([x['n'] for s, x in pairs]) if len(pairs) > 1 else ''
        for a, A, b, B in crossed([(s, x['n'][len(strip_pref):]) for s, x in pairs]):
            ck.bad('crossed:%s:%s:%s' % (E, a, b), p.at(f), 'option names exchanged: "%s" means %s and "%s" means %s' % (a, A, b, B))
        for s in RELEASED_ENUM.get(E, '').split():
            k = 'released:%s:%s' % (E, s)
            if s in seen:
                ck.ok(k, '')
            else:
                ck.bad(k, p.at(f), 'option "%s" of %s can no longer be selected' % (s, E))
    # defaults of enumerated settings have a name (they are written to last.ini)
    ndef = 0
    sel = {}      # (section, key) -> factory or enum
    for f in p.fns.values():
        for n in p.nodes(f):
            if n['k'] == 'CXXMemberCallExpr' and n.get('fn') == 'ConfigMap::getValue' and f.get('cls') != 'ConfigMap':
                T = n['ta'][0].split('::')[-1]
                if T in enums:
                    S, K = cs.value(f, args(n)[0]), cs.value(f, args(n)[1])
                    for s in S or ():
                        for k in K or ():
                            sel[s.lower(), k.lower()] = ('enum', T)
                    if len(args(n)) > 2:
                        v = cs.value(f, args(n)[2])
                        ndef += 1
                        for x in v or ():
                            key = 'enumdefault:%s:%s:%s' % (T, x, expr(args(n)[1]))
                            if any(y['v'] == x for s, y in enums[T][1]):
                                ck.ok(key, 'default has a name')
                            else:
                                ck.bad(key, p.at(f, n['l']), 'default value %s of this %s setting has no name: the run aborts when the setting is missing' % (x, T))
            elif n['k'] in ('CallExpr',) and re.match(r'RegisteringFactory<.*>::make_instance$', n.get('fn', '')):
                F = re.match(r'RegisteringFactory<(?:dyablo::)?(\w+)', n['fn']).group(1)
                a = args(n)[0]
                names = defaults(cs, f, a, sel, F)
                ids = {i for i, c, w in fac.get(F, ())} | {'none'}
                for x in names:
                    key = 'default:%s:%s' % (F, x)
                    if x in ids:
                        ck.ok(key, p.at(f, n['l']))
                    else:
                        ck.bad(key, p.at(f, n['l']), '"%s" reaches %sFactory::make_instance but no such name is registered there (registered: %s)' % (x, F, sorted(ids)))
    ck.require('selecting_settings', len(sel), 14)
    # substring tests on identifiers
    nsub = 0
    for f in p.fns.values():
        for n in p.nodes(f):
            if n['k'] == 'CXXMemberCallExpr' and kids(n)[0].get('n') in ('find', 'rfind') and 'basic_string' in n.get('fn', ''):
                keys = setting_of(cs, f, callee_obj(n))
                fs = {sel[k][1] for k in keys if k in sel and sel[k][0] == 'factory'}
                s = cs.value(f, args(n)[0])
                for F in fs:
                    for x in s or ():
                        nsub += 1
                        key = 'substring:%s:%s' % (F, x)
                        hit = [i for i, c, w in fac[F] if x in i]
                        if hit and len(hit) < len(fac[F]):
                            ck.ok(key, '%s matches %s' % (x, hit))
                        else:
                            ck.bad(key, p.at(f, n['l']), 'the code tests whether the selected %s contains "%s", which holds for %s of its registered names' % (F, x, 'every one' if hit else 'none'))
    ck.require('substring_tests', nsub, 1)
    # shipped settings
    nini = 0
    for ini in sorted(glob.glob(REPO + '/settings/**/*.ini', recursive=True) + glob.glob(REPO + '/core/bin/*.ini')):
        sec = ''
        for i, l in enumerate(open(ini, errors='replace')):
            l = l.split(';')[0].split('#')[0].strip()
            if l.startswith('['):
                sec = l[1:].split(']')[0].strip().lower()
            elif '=' in l:
                k, v = [x.strip() for x in l.split('=', 1)]
                t = sel.get((sec, k.lower()))
                if not t:
                    continue
                ok_ids = {i_ for i_, c, w in fac[t[1]]} | {'none'} if t[0] == 'factory' else {s for s, x in enums[t[1]][1]}
                for x in v.split(','):
                    x = x.strip()
                    if not x or (t[0] == 'enum' and x.lstrip('-').isdigit()):
                        continue
                    nini += 1
                    rel = os.path.relpath(ini, REPO)
                    key = 'ini:%s:%s/%s:%s' % (rel, sec, k, x)
                    if x in ok_ids:
                        ck.ok(key, t[1])
                    else:
                        ck.bad(key, '%s:%d' % (rel, i + 1), 'shipped settings select %s "%s" (%s/%s), which is not registered' % (t[1], x, sec, k))
    ck.counts['names_in_shipped_settings'] = nini


def getvalue_calls(cs, f, n, depth=0, seen=None):
    """config reads whose value may be the expression"""
    seen = set() if seen is None else seen
    n = strip(n)
    out = []
    if n['k'] == 'CXXMemberCallExpr' and n.get('fn') == 'ConfigMap::getValue':
        return [(f, n)]
    if n['k'] == 'DeclRefExpr' and n.get('dk') in ('local', 'param') and depth < 8:
        o = cs.owner(f, n['d'])
        key = (o['id'], n['d'])
        if key in seen:
            return []
        seen.add(key)
        items = []
        for g in [o] + [cs.p.fns[c] for c in cs.desc(o['id'])]:
            items += [(g, x) for x in cs.fdefs(g).get(n['d'], [])]
        items += cs.param_args(o, n['d'])
        for g, x in items:
            if isinstance(x, tuple):
                x = x[1]
            if x is not None:
                out += getvalue_calls(cs, g, x, depth + 1, seen)
    elif n['k'] == 'MemberExpr' and n.get('dk') == 'field' and depth < 8:
        for g, x in cs.members().get(n['q'], ()):
            if g:
                out += getvalue_calls(cs, g, x, depth + 1, seen)
    elif n['k'] == 'ConditionalOperator':
        for c in kids(n)[1:]:
            out += getvalue_calls(cs, f, c, depth + 1, seen)
    return out


def setting_of(cs, f, n):
    out = set()
    for g, c in getvalue_calls(cs, f, n):
        a = args(c)
        for s in cs.value(g, a[0]) or ():
            for k in cs.value(g, a[1]) or ():
                out.add((s.lower(), k.lower()))
    return out


def defaults(cs, f, a, sel, F):
    names = set(cs.value(f, a) or ())
    for g, c in getvalue_calls(cs, f, a):
        x = args(c)
        for s in cs.value(g, x[0]) or ():
            for k in cs.value(g, x[1]) or ():
                sel[s.lower(), k.lower()] = ('factory', F)
        if len(x) > 2:
            names |= set(cs.value(g, x[2]) or cs.elems(g, x[2]) or ())
    return names
