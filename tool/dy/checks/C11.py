import os
from ..facts import kids
from ..ast import args, Consts, strip, expr

RULE = ('every read of a configuration setting names a resolvable (section, key); all readers of one setting use the '
        'same type family and the same default; the setting text written to last.ini is what the parser of the type accepts')
EXPLAIN = ('flow-insensitive constant propagation of section, key and default through variables, parameters and members '
           'at every ConfigMap::getValue/hasValue call of the type-checked program, then a consistency comparison per setting')

# settings whose readers use different defaults on purpose: (section, key) -> (defaults allowed, reason)
EXC = {
    ('mesh', 'ndim'): ({2, 3}, 'two-dimensional scenarios state 2; AMRmesh::parse_parameters registers the value first'),
    ('amr', 'epsilon_coarsen'): ({0.8, 0.002}, 'the Kelvin-Helmholtz scenario uses its own threshold'),
    ('blast', 'density_out'): ({1.0, 1.2}, 'hydro and MHD blast are different scenarios'),
    ('gravity', 'gravity_type'): ({0, 1, 2, 3}, 'each gravity solver implies its own type'),
    ('gravity', 'gy'): ({0.0, -1.0, -0.1}, 'Rayleigh-Taylor scenario and the legacy update'),
    ('gravity', 'gz'): ({0.0, -0.1}, 'Rayleigh-Taylor scenario'),
    ('output', 'outputdir'): ({'.', './'}, 'same directory'),
    ('run', 'output_slice_var'): ({'aexp', 'time'}, 'aexp implied by output_expslice'),
    ('tri_layer', 'z1'): ({0.0, 1.0}, 'conduction kernel and tri-layer scenario'),
}


def family(t):
    if t in ('double', 'float', 'long double'):
        return 'real'
    if t in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'long long', 'unsigned long long'):
        return 'integer'
    if t == 'bool':
        return 'bool'
    if t.startswith('std::vector<'):
        return 'list of ' + family(t[len('std::vector<'):].split(', std::allocator')[0])
    if 'basic_string' in t:
        return 'text'
    return t


def norm(v, fam):
    if fam == 'real' and isinstance(v, int):
        return float(v)
    if fam == 'integer' and isinstance(v, float) and v == int(v):
        return int(v)
    return v


def pair_up(p, cs, f, sn, kn, S, K):
    """(section, key) pairs a read may name; parameters of one wrapper are paired per call of the wrapper"""
    if len(S) == 1 or len(K) == 1:
        return {(s, k) for s in S for k in K}
    sn, kn = strip(sn), strip(kn)
    if sn.get('dk') == 'param' and kn.get('dk') == 'param':
        o = cs.owner(f, sn['d'])
        if o is cs.owner(f, kn['d']):
            out = set()
            for (g, x), (h, y) in zip(cs.param_args(o, sn['d']), cs.param_args(o, kn['d'])):
                a, b = cs.value(g, x), cs.value(h, y)
                if not a or not b:
                    return None
                out |= {(s, k) for s in a for k in b}
            return out
    return None


def run(p, ck):
    cs = Consts(p)
    reads = {}
    nsites = 0
    for f in p.fns.values():
        for n in p.nodes(f):
            if n['k'] != 'CXXMemberCallExpr':
                continue
            fn = n.get('fn', '')
            if fn not in ('ConfigMap::getValue', 'ConfigMap::hasValue'):
                continue
            if f.get('cls') == 'ConfigMap':
                continue
            a = args(n)
            S = cs.value(f, a[0])
            K = cs.value(f, a[1])
            nsites += 1
            where = p.at(f, n['l'])
            if not S or not K:
                ck.count('names_not_resolved')
                continue
            if fn.endswith('hasValue'):
                continue
            pairs = pair_up(p, cs, f, a[0], a[1], S, K)
            if pairs is None:
                ck.count('ambiguous_names')
                continue
            T = n['ta'][0]
            d = None
            mand = len(a) < 3
            if not mand:
                fam = family(T)
                if fam.startswith('list'):
                    v = cs.elems(f, a[2])
                    d = [tuple(sorted(map(str, v)))] if v is not None else []
                else:
                    v = cs.value(f, a[2])
                    d = [] if v is None else [norm(x, fam) for x in v]
                if v is None:
                    ck.count('computed_defaults')
            for s, k in pairs:                    # the configuration map ignores case
                reads.setdefault((s.lower(), k.lower()), []).append((T, d, where, f))
    ck.require('read_sites', nsites, 250)
    ck.require('settings', len(reads), 150)
    for (s, k), rs in sorted(reads.items()):
        fams = {}
        for T, d, w, f in rs:
            fams.setdefault(family(T), []).append(w)
        key = 'type:%s/%s' % (s, k)
        if len(fams) > 1:
            ck.bad(key, '; '.join(sorted({x for v in fams.values() for x in v})),
                   'setting %s/%s is read with different types: %s' % (s, k, {a: sorted(set(b)) for a, b in fams.items()}))
        else:
            ck.ok(key, '%d reads as %s' % (len(rs), list(fams)[0]))
        defs = {}
        for T, d, w, f in rs:
            for x in (d or []):
                defs.setdefault(x, set()).add(w)
        key = 'default:%s/%s' % (s, k)
        exc = EXC.get((s, k))
        if exc:
            extra = {x: w for x, w in defs.items() if x not in exc[0]}
            if extra:
                ck.bad(key, str(sorted(next(iter(extra.values())))[0]), 'setting %s/%s has an unexpected default: %s (readers: %s)' % (s, k, sorted(map(str, extra)), {str(a): sorted(b) for a, b in defs.items()}))
            else:
                ck.ok(key, 'deliberately different defaults: ' + exc[1])
        elif len(defs) > 1:
            ck.bad(key, '; '.join(sorted({x for v in defs.values() for x in v})),
                   'readers of setting %s/%s disagree on its default: %s' % (s, k, {str(a): sorted(b) for a, b in defs.items()}))
        else:
            ck.ok(key, 'default %s' % (list(defs)[:1] or 'none (mandatory)'))
    # two spellings of one setting inside a section
    bysec = {}
    for s, k in reads:
        bysec.setdefault(s, set()).add(k)
    for s, ks in bysec.items():
        canon = {}
        for k in ks:
            canon.setdefault(k.lower().replace('_', '').replace('-', ''), set()).add(k)
        for c, v in sorted(canon.items()):
            key = 'spelling:%s/%s' % (s, c)
            if len(v) > 1:
                w = sorted(x[2] for k in v for x in reads[s, k])
                ck.bad(key, w[0], 'one setting of section [%s] is read under several spellings %s (%s)' % (s, sorted(v), ', '.join(w)))
            else:
                ck.ok(key, '')
    config_map(p, ck, cs)


def config_map(p, ck, cs):
    """the map itself: one normalised spelling, defaults registered, text that reads back"""
    fns = [f for f in p.fns.values() if f['q'].split('::')[0] == 'ConfigMap']
    ck.require('config_map_functions', len(fns), 20)

    def is_lower(n):
        n = strip(n)
        return n['k'] == 'CallExpr' and n.get('fn') == 'ConfigMap::tolower'
    nuse = 0
    for f in fns:
        lowered = set()
        iters = set()
        for n in p.nodes(f):
            if n['k'] == 'Var' and n.get('init') is not None:
                i = strip(n['init'])
                if is_lower(i):
                    lowered.add(n['d'])
                elif i['k'] == 'MemberExpr' and i['n'] in ('first', 'second'):
                    iters.add(n['d'])
                elif i['k'] == 'DeclRefExpr' and i.get('d') in lowered:
                    lowered.add(n['d'])
            elif n['k'] == 'CXXForRangeStmt':
                iters.add(n['var']['d'])
                iters.update(n.get('binds', ()))
            elif n['k'] == 'CXXOperatorCallExpr' and n['o'] == '=' and is_lower(kids(n)[2]):
                l = strip(kids(n)[1])
                if 'd' in l:
                    lowered.add(l['d'])
            key = None
            if n['k'] == 'CXXOperatorCallExpr' and n['o'] == '[]' and n.get('fn', '').startswith('std::map'):
                key = kids(n)[2]
            elif n['k'] == 'CXXMemberCallExpr' and n.get('fn', '').startswith('std::map<') and kids(n)[0].get('n') in ('at', 'count', 'find', 'emplace', 'insert', 'try_emplace', 'insert_or_assign') and args(n):
                key = args(n)[0]
            if key is None:
                continue
            k = strip(key)
            nuse += 1
            good = is_lower(k) or ('d' in k and (k['d'] in lowered or k['d'] in iters)) or k['k'] not in ('DeclRefExpr',)
            kk = 'lower:%s:%s' % (f['n'], expr(k))
            if good:
                ck.ok(kk, 'looked up under its lower-case name')
            elif k.get('dk') == 'param' or k.get('dk') == 'local':
                ck.bad(kk, p.at(f, n['l']), '%s uses %s as a setting name without converting it to lower case as the other accesses do: the same setting would have two entries' % (f['q'], expr(k)))
    ck.require('map_accesses', nuse, 20)
    # text conversion
    nfl = 0
    for f in p.fns.values():
        if f['q'].startswith('Impl::to_string_t<') and f.get('clsd') in ('Impl::to_string_t<double>', 'Impl::to_string_t<float>'):
            need = 17 if 'double' in f['clsd'] else 9
            has = [strip(args(n)[0]) for n in p.nodes(f) if n['k'] == 'CallExpr' and n.get('fn') == 'std::setprecision']
            has += [strip(args(n)[0]) for n in p.nodes(f) if n['k'] == 'CXXMemberCallExpr' and kids(n)[0].get('n') == 'precision' and args(n)]
            inserts = [n for n in p.nodes(f) if n['k'] == 'CXXOperatorCallExpr' and n['o'] == '<<']
            if not inserts:
                continue
            nfl += 1
            v = [h.get('cv', h.get('v')) for h in has]
            key = 'digits:' + f['clsd']
            if v and all(x is None or int(x) >= need for x in v):
                ck.ok(key, 'written with %s digits' % v)
            else:
                ck.bad(key, p.at(f), 'a %s setting is written with %s significant digits: the value read back from last.ini differs' % (f['clsd'], v or 'the default 6'))
    ck.require('real_formatters', nfl, 1)
    # separator of lists
    wr, rd = set(), set()
    for f in p.fns.values():
        if f['q'].startswith('Impl::to_string_t<std::vector'):
            for n in p.nodes(f):
                if n['k'] == 'CXXOperatorCallExpr' and n['o'] in ('+', '+='):
                    for c in kids(n)[1:]:
                        v = strip(c)
                        if v['k'] in ('StringLiteral', 'CharacterLiteral'):
                            x = v['v'] if isinstance(v['v'], str) else chr(v['v'])
                            wr.add(x.strip())
        if f['q'].startswith('Impl::convert_to_t<std::vector'):
            for n in p.nodes(f):
                if n['k'] == 'CallExpr' and n.get('fn') == 'std::getline' and len(args(n)) > 2:
                    v = strip(args(n)[2])
                    if 'v' in v:
                        rd.add(chr(v['v']))
    if wr and rd:
        if wr == rd:
            ck.ok('separator', 'lists are written and read with %s' % sorted(wr))
        else:
            ck.bad('separator', 'utils/config/ConfigMap.h', 'lists are written with separator %s but split at %s' % (sorted(wr), sorted(rd)))
