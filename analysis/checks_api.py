"""C19-C21: what the user declares is what the target holds; synchronisation between targets; file kinds"""
from base import *
from scn import strip_path

TI = 'buildcc::TargetInfo'
API = 'buildcc::internal::'
TC = (('S', 'toolchain'), ())
ENV = (('S', 'tenv'), ())
# public operation -> (record field, kind of check)
FLAGAPI = {'Preprocessor': 'preprocessor_flags', 'CommonCompile': 'common_compile_flags', 'PchCompile': 'pch_compile_flags', 'PchObject': 'pch_object_flags',
           'AsmCompile': 'asm_compile_flags', 'CCompile': 'c_compile_flags', 'CppCompile': 'cpp_compile_flags', 'Link': 'link_flags'}
ADD = [  # (class, operation, field, relative)
    ('SourceApi', 'AddSource', 'sources', True), ('SourceApi', 'AddSourceAbsolute', 'sources', False),
    ('IncludeApi', 'AddHeader', 'headers', True), ('IncludeApi', 'AddHeaderAbsolute', 'headers', False),
    ('IncludeApi', 'AddIncludeDir', 'include_dirs', True), ('IncludeApi', 'AddIncludeDirAbsolute', 'include_dirs', False),
    ('PchApi', 'AddPch', 'pchs', True), ('PchApi', 'AddPchAbsolute', 'pchs', False),
    ('LibApi', 'AddLibDir', 'lib_dirs', True), ('LibApi', 'AddLibDirAbsolute', 'lib_dirs', False),
    ('DepsApi', 'AddCompileDependency', 'compile_dependencies', True), ('DepsApi', 'AddCompileDependencyAbsolute', 'compile_dependencies', False),
    ('DepsApi', 'AddLinkDependency', 'link_dependencies', True), ('DepsApi', 'AddLinkDependencyAbsolute', 'link_dependencies', False)]
GLOB = [('SourceApi', 'GlobSources', 'sources', True), ('SourceApi', 'GlobSourcesAbsolute', 'sources', False),
        ('IncludeApi', 'GlobHeaders', 'headers', True), ('IncludeApi', 'GlobHeadersAbsolute', 'headers', False)]
GET = [('SourceApi', 'GetSourceFiles', 'sources'), ('IncludeApi', 'GetHeaderFiles', 'headers'), ('IncludeApi', 'GetIncludeDirs', 'include_dirs'), ('PchApi', 'GetPchFiles', 'pchs'),
       ('LibApi', 'GetLibDeps', 'libs'), ('LibApi', 'GetExternalLibDeps', 'external_libs'), ('LibApi', 'GetLibDirs', 'lib_dirs'),
       ('DepsApi', 'GetCompileDependencies', 'compile_dependencies'), ('DepsApi', 'GetLinkDependencies', 'link_dependencies')]
SETS = {'valid_c_ext': 'C', 'valid_cpp_ext': 'Cpp', 'valid_asm_ext': 'Asm', 'valid_header_ext': 'Header'}
KINDS = ('C', 'Cpp', 'Asm', 'Header', 'other', 'none')
SRC = ('C', 'Cpp', 'Asm')

def kind_oracle(kind_of_key):
    """decides extension questions: kind_of_key(term) -> kind of the file the question is about"""
    def o(a, st):
        if a[0] == 'has' and a[1][0] == 'fld' and a[1][2] in SETS:
            k = kind_of_key(a) if all(x[0] != 'mut' and (x[0] != 'app' or str(x[1]).rsplit('::', 1)[-1] in ('extension', 'filename', 'string')) for x in subterms(a[2])) else None
            return None if k is None else SETS[a[1][2]] == k
        if a[0] == 'app' and str(a[1]).endswith('has_extension'):
            k = kind_of_key(a)
            return None if k is None else k != 'none'
        if a[0] == 'eq' and C('') in a[1:] and any(x[0] == 'app' and str(x[1]).endswith('extension') for x in subterms(a)) or a[0] == 'empty' and any(x[0] == 'app' and str(x[1]).endswith('extension') for x in subterms(a)):
            k = kind_of_key(a)
            return None if k is None else k == 'none'
        return None
    return o

def fixed(kind):
    return kind_oracle(lambda a: kind)

def by_key(kw, ko):
    def kk(a):
        for x in subterms(a):
            if x[0] == 'elem' and x[2] in (W, O):
                return kw if x[2] == W else ko
        return None
    return kind_oracle(kk)

def api(ctx, cls, name, pt=None, of='TargetInfo'):
    q = '%s%s<buildcc::%s>::%s' % (API, cls, of, name)
    fs = [f for f in ctx.db.byqn.get(q, ()) if f.get('body') is not None and (pt is None or pt in f['params'][0]['t'])]
    if not fs:
        raise AnalysisError('anchor vanished: ' + q)
    return fs[0]

def info(ctx, oracle=None):
    """a TargetInfo with an arbitrary toolchain, environment and contents"""
    E, st, fr = ctx.engine(oracle)
    st.types[TC[0]] = 'buildcc::Toolchain'
    st.types[ENV[0]] = 'buildcc::TargetEnv'
    st.types[T[0]] = TI
    st.store[T[0]] = ('new', TI)
    ct = [f for f in ctx.db.byqn.get(TI + '::TargetInfo', ()) if f.get('ctor') == 'other' and f.get('body') is not None]
    if not ct:
        raise AnalysisError('anchor vanished: TargetInfo constructor')
    rs = E.run_ctor(ct[0], TI, T, [('ref', TC) if 'Toolchain' in p['t'] else ('ref', ENV) for p in ct[0]['params']], st, fr)
    return E, rs, fr, ct[0]

def ready(ctx, oracle=None):
    E, rs, fr, ct = info(ctx, oracle)
    s = [s for s, k, v in rs if k == 'v'][0]
    E.set(s, (T[0], (ctx.names.user,)), USER)
    s.ev = ()
    return E, s, fr

def delta(ctx, E, user):
    """field -> list of added parts; None when the old contents are not kept in front"""
    out = {}
    for f in ctx.kinds:
        new, old = E.field(user, f), ('fld', USER, f)
        for _ in range(3):
            if new == old:
                break
            if new[0] == 'rec' and len(new[2]) == 1:
                old = E.field(old, new[2][0][0])
                new = new[2][0][1]
                continue
            break
        if new == old:
            continue
        if new[0] == 'seq' and new[1] and new[1][0] == ('all', old):
            out[f] = list(new[1][1:])
        else:
            out[f] = None
    return out

def path_pieces(t):
    t = strip_path(t)
    if t[0] == 'div':
        return path_pieces(t[1]) + path_pieces(t[2])
    if t == C('') or t == ('path', C('')):
        return []
    return [t]

def elem_path(E, x):
    """path text of a stored element (PathInfo or string)"""
    return E.field(x, 'path') if x[0] == 'rec' else x

def c19(ctx, rep):
    """Every declaring operation of the target API is interpreted on an arbitrary target: it must append exactly the given item to exactly its own list, path
    items under the target root, and reject files of the wrong kind; every getter must give back its own list; a new target starts with the toolchain's flags."""
    db = ctx.db
    # flags
    for of in ('TargetInfo', 'Toolchain'):
        for n, fld in FLAGAPI.items():
            f = api(ctx, 'FlagApi', 'Add%sFlag' % n, of=of)
            g = api(ctx, 'FlagApi', 'Get%sFlags' % n, of=of)
            if of == 'TargetInfo':
                E, s, fr = ready(ctx)
                user = ctx.names.user
            else:
                E, s, fr = ctx.engine()
                s.types[T[0]] = 'buildcc::Toolchain'
                # the member the getter reads
                r = [v for _, k, v in E.call_fn(g, T, [], s.copy(), fr)][0]
                if not (r[0] == 'ref' and len(r[1][1]) >= 2):
                    r = E.rv(r, s)
                    rep.ob(fld in repr(r), 'get:%s:%s' % (of, n), g['loc'], 'Get%sFlags returns %s' % (n, pp(r)[:100]))
                    user = [x for x, fd in db.all_fields('buildcc::Toolchain') if any(y == fld for y, _ in db.all_fields(short(fd['t'])))] if True else None
                    user = user[0] if user else None
                else:
                    user = r[1][1][0]
                if user is None:
                    raise AnalysisError('anchor: flags of Toolchain')
                E.set(s, (T[0], (user,)), USER)
            for s1, k, v in E.call_fn(f, T, [('init', 'flag')], s.copy(), fr):
                u = E.get(s1, (T[0], (user,)))
                d = flag_delta(E, u)
                rep.ob(k == 'v' and d == {fld: [('one', ('init', 'flag'))]}, 'flag:%s:%s' % (of, n), f['loc'], 'Add%sFlag of %s changes %s' % (n, of, show(d)))
            for s1, k, v in E.call_fn(g, T, [], s.copy(), fr):
                v = E.rv(v, s1)
                rep.ob(k == 'v' and v == ('fld', USER, fld), 'get:%s:%s' % (of, n), g['loc'], 'Get%sFlags of %s returns %s' % (n, of, pp(v)[:100]))
            rep.use(E)
    # flags inherited from the toolchain
    E, rs, fr, ct = info(ctx)
    for s, k, v in rs:
        if k != 'v':
            rep.bad('inherit:fails', ct['loc'], 'construction fails'); continue
        u = E.get(s, (T[0], (ctx.names.user,)))
        for fld in ctx.kinds:
            x = E.field(u, fld)
            if fld in FLAGAPI.values():
                rep.ob(x[0] == 'fld' and x[2] == fld and any(y == ('init', 'toolchain') for y in subterms(x)), 'inherit:' + fld, ct['loc'], 'a new target starts with %s = %s' % (fld, pp(x)[:100]))
            else:
                rep.ob(not any(y == ('init', 'toolchain') for y in subterms(x)), 'inherit:' + fld, ct['loc'], 'a new target starts with %s = %s' % (fld, pp(x)[:100]))
    rep.use(E)
    # paths
    root = root_dir(ctx)
    for cls, name, fld, rel in ADD:
        f = api(ctx, cls, name)
        okk = SRC if fld == 'sources' else ('Header',) if fld in ('headers', 'pchs') else KINDS
        ps = [p for p in f['params'] if 'path' in p['t']]
        for kind in (KINDS if okk != KINDS else ('other',)):
            E, s, fr = ready(ctx, fixed(kind))
            args = [('init', p['name']) if 'path' in p['t'] else FALSE for p in f['params']]
            for s1, k, v in E.call_fn(f, T, args, s, fr):
                d = delta(ctx, E, E.get(s1, (T[0], (ctx.names.user,))))
                if kind not in okk:
                    rep.ob(k != 'v' and not d, 'reject:%s:%s' % (name, kind), f['loc'], '%s accepts a file that is %s' % (name, 'without extension' if kind == 'none' else 'of kind ' + kind))
                    continue
                ok = k == 'v' and list(d) == [fld] and d[fld] is not None and len(d[fld]) == 1 and d[fld][0][0] == 'one'
                if rep.ob(ok, 'add:' + name, f['loc'], '%s changes %s' % (name, show(d))):
                    got = path_pieces(elem_path(E, d[fld][0][1]))
                    want = ([root] if rel else []) + [('init', p['name']) for p in reversed(ps)]
                    rep.ob(got == want, 'path:' + name, f['loc'], '%s stores the path %s' % (name, pp(elem_path(E, d[fld][0][1]))[:120]))
            rep.use(E)
    # libraries
    f = api(ctx, 'LibApi', 'AddLibDep', 'string')
    E, s, fr = ready(ctx)
    for s1, k, v in E.call_fn(f, T, [('init', 'lib')], s, fr):
        d = delta(ctx, E, E.get(s1, (T[0], (ctx.names.user,))))
        rep.ob(k == 'v' and d == {'external_libs': [('one', ('init', 'lib'))]}, 'add:AddLibDep:external', f['loc'], 'AddLibDep(name) changes %s' % show(d))
    rep.use(E)
    f = api(ctx, 'LibApi', 'AddLibDep', 'Target')
    L = (('S', 'lib'), ())
    E, s, fr = ready(ctx)
    s.types[L[0]] = 'buildcc::Target'
    out = E.call_fn(db.func(API + 'TargetGetter<buildcc::Target>::GetTargetPath'), L, [], s.copy(), fr)[0]
    out = E.rv(out[2], out[0])
    for s1, k, v in E.call_fn(f, T, [('ref', L)], s, fr):
        d = delta(ctx, E, E.get(s1, (T[0], (ctx.names.user,))))
        ok = k == 'v' and list(d) == ['libs'] and d['libs'] is not None and len(d['libs']) == 1 and strip_path(elem_path(E, d['libs'][0][1])) == strip_path(out)
        rep.ob(ok, 'add:AddLibDep:target', f['loc'], 'AddLibDep(target) changes %s' % show(d))
    rep.use(E)
    # globbing
    for cls, name, fld, rel in GLOB + [('IncludeApi', 'AddIncludeDir', 'headers', True), ('IncludeApi', 'AddIncludeDirAbsolute', 'headers', False)]:
        f = api(ctx, cls, name)
        okk = SRC if fld == 'sources' else ('Header',)
        incl = name.startswith('AddInclude')
        for kw in KINDS:
            for ko in (('C', 'other') if fld == 'sources' else ('Header', 'other')):
                E, s, fr = ready(ctx, by_key(kw, ko))
                args = [('init', p['name']) if 'path' in p['t'] else TRUE for p in f['params']]
                for s1, k, v in E.call_fn(f, T, args, s, fr):
                    u = E.get(s1, (T[0], (ctx.names.user,)))
                    d = delta(ctx, E, u)
                    if k == 'throw':
                        continue      # directory cannot be listed
                    if incl:
                        x = d.pop('include_dirs', None)
                        want = ([root] if rel else []) + [('init', p['name']) for p in f['params'] if 'path' in p['t']]
                        rep.ob(x is not None and len(x) == 1 and path_pieces(elem_path(E, x[0][1])) == want, 'glob:dir:' + name, f['loc'], '%s adds the include directories %s' % (name, show({'include_dirs': x})))
                    if not rep.ob(k == 'v' and set(d) <= {fld} and d.get(fld, []) is not None, 'glob:where:' + name, f['loc'], '%s changes %s' % (name, show(d))):
                        continue
                    empty = [b for a, b in s1.facts.items() if a[0] == 'empty' and any(y[0] == 'dir' for y in subterms(a))]
                    ws = [p for p in d.get(fld, []) if any(y[0] == 'elem' and y[2] == W for y in subterms(p))]
                    os_ = [p for p in d.get(fld, []) if p not in ws]
                    if True in empty:
                        rep.ob(not d.get(fld), 'glob:empty:' + name, f['loc'], '%s adds files from an empty directory' % name)
                        continue
                    rep.ob(len(ws) == (1 if kw in okk else 0), 'glob:%s:%s' % (name, kw), f['loc'], '%s %s a file %s' % (name, 'skips' if kw in okk else 'adds', 'without extension' if kw == 'none' else 'of kind ' + kw))
                    if ko not in okk:
                        rep.ob(not os_, 'glob:other:' + name, f['loc'], '%s adds a file of the wrong kind' % name)
                    for p in ws:
                        dirs = {y for y in subterms(p) if y[0] == 'dir'}
                        want = ([root] if rel else []) + [('init', q['name']) for q in f['params'] if 'path' in q['t']]
                        rep.ob(len(dirs) == 1 and [path_pieces(y[2]) for y in dirs] == [want] and strip_path(elem_path(E, p[1]))[0] == 'direntpath', 'glob:path:' + name, f['loc'],
                               '%s adds %s' % (name, pp(p[1])[:120]))
                rep.use(E)
    # getters
    for cls, name, fld in GET:
        f = api(ctx, cls, name)
        E, s, fr = ready(ctx)
        for s1, k, v in E.call_fn(f, T, [], s, fr):
            v = E.rv(v, s1)
            ok = k == 'v' and fields_under(v, USER) == {fld} and full_list(v, ('fld', USER, fld))
            rep.ob(ok, 'get:' + name, f['loc'], '%s returns %s' % (name, pp(v)[:120]))
        rep.use(E)

def full_list(v, root):
    """v is the list itself or the list of its paths"""
    if v == root:
        return True
    if v[0] == 'fld' and v[1] == root:
        return True
    if v[0] == 'img' and v[1][0] == 'fld' and v[1][1] == root:
        return v[2][0] == 'fld' and v[2][1] == ('elem', v[1], X) and v[2][2] == 'path'
    return False

def root_dir(ctx):
    E, st, fr = ctx.engine()
    st.types[ENV[0]] = 'buildcc::TargetEnv'
    r = E.call_fn(ctx.db.func('buildcc::TargetEnv::GetTargetRootDir'), ENV, [], st, fr)[0]
    return E.rv(r[2], r[0])

def flag_delta(E, u):
    out = {}
    if u[0] == 'rec' and u[1] == USER:
        for f, v in u[2]:
            old = ('fld', USER, f)
            if v == old:
                continue
            out[f] = list(v[1][1:]) if v[0] == 'seq' and v[1] and v[1][0] == ('all', old) else None
    elif u != USER:
        out['*'] = None
    return out

def show(d):
    if not d:
        return 'nothing'
    return ', '.join('%s (%s)' % (f, 'replaced' if v is None else '+' + ' +'.join(pp(p[1])[:60] for p in v)) for f, v in sorted(d.items()))

# ---------------------------------------------------------------- synchronisation
SYNC = {'SourceFiles': 'sources', 'HeaderFiles': 'headers', 'PchFiles': 'pchs', 'LibDeps': 'libs', 'IncludeDirs': 'include_dirs', 'LibDirs': 'lib_dirs', 'ExternalLibDeps': 'external_libs',
        'PreprocessorFlags': 'preprocessor_flags', 'CommonCompileFlags': 'common_compile_flags', 'PchCompileFlags': 'pch_compile_flags', 'PchObjectFlags': 'pch_object_flags',
        'AsmCompileFlags': 'asm_compile_flags', 'CCompileFlags': 'c_compile_flags', 'CppCompileFlags': 'cpp_compile_flags', 'LinkFlags': 'link_flags',
        'CompileDependencies': 'compile_dependencies', 'LinkDependencies': 'link_dependencies'}

def c20(ctx, rep):
    """Copy and Insert (by reference and by move) are interpreted for every option, and for pairs of options, on two arbitrary targets: exactly the selected lists
    change, Copy makes them equal to the other target's, Insert appends the other's after the old ones, and a target given by reference is left alone."""
    db = ctx.db
    en = 'buildcc::internal::SyncOption'
    opts = [(e['name'].rsplit('::', 1)[-1], ('enum', e['name'], e['v'])) for e in db.enums.get(en, {'e': ()})['e']]
    rep.need(len(opts), 'SyncOption')
    OTHER = (('S', 'other'), ())
    OU = ('init', 'ouser')
    unknown = [o for o, _ in opts if o not in SYNC]
    for o in unknown:
        rep.notes.append('no expectation for SyncOption::' + o)
    lists = [f for f, k in ctx.kinds.items() if k in ('info', 'list')]
    for op in ('Copy', 'Insert'):
        for f in [f for f in db.byqn.get(API + 'SyncApi<buildcc::TargetInfo>::' + op, ()) if f.get('body') is not None]:
            byref = f['params'][0]['t'].startswith('const')
            how = 'by reference' if byref else 'by move'
            sets = [[o] for o in opts] + [[]] + [[opts[i], opts[(i + 5) % len(opts)]] for i in range(len(opts))] + [list(opts)]
            for sel in sets:
                if any(o not in SYNC for o, _ in sel):
                    continue
                E, s, fr = ready(ctx)
                s.types[OTHER[0]] = TI
                s.store[OTHER[0]] = ('new', TI)
                E.set(s, (OTHER[0], (ctx.names.user,)), OU)
                want = {SYNC[o] for o, _ in sel}
                label = '+'.join(o for o, _ in sel) if len(sel) < 3 else 'all'
                rs = E.call_fn(f, T, [('ref', OTHER), ('seq', tuple(('one', v) for _, v in sel))], s, fr)
                rep.need(len(rs), op)
                for s1, k, v in rs:
                    if not rep.ob(k == 'v', '%s:%s:fails' % (op, label), f['loc'], '%s with %s fails' % (op, label)):
                        continue
                    u = E.get(s1, (T[0], (ctx.names.user,)))
                    for fld in ctx.kinds:
                        x = E.field(u, fld)
                        old, oth = ('fld', USER, fld), ('fld', OU, fld)
                        if fld not in want:
                            rep.ob(x == old, '%s:%s:%s' % (op, how[3:], 'keep:' + fld), f['loc'], '%s %s with %s changes %s' % (op, how, label or 'no option', fld))
                        elif op == 'Copy':
                            rep.ob(x == oth, '%s:%s:%s' % (op, how[3:], fld), f['loc'], '%s %s with %s leaves %s = %s' % (op, how, label, fld, pp(x)[:100]))
                        else:
                            rep.ob(joined(E, x, old, oth), '%s:%s:%s' % (op, how[3:], fld), f['loc'], '%s %s with %s leaves %s = %s' % (op, how, label, fld, pp(x)[:100]))
                    if byref:
                        ou = E.get(s1, (OTHER[0], (ctx.names.user,)))
                        rep.ob(all(E.field(ou, fld) == ('fld', OU, fld) for fld in ctx.kinds), '%s:source' % op, f['loc'], '%s by reference changes the other target' % op)
                rep.use(E)

def joined(E, x, old, oth):
    """x = old followed by all of oth"""
    for _ in range(3):
        if x[0] == 'rec' and len(x[2]) == 1 and x[1] == old:
            n = x[2][0][0]
            x, old, oth = x[2][0][1], ('fld', old, n), ('fld', oth, n)
            continue
        break
    return x == ('seq', (('all', old), ('all', oth)))

# ---------------------------------------------------------------- file kinds
def c21(ctx, rep):
    """File classification is interpreted for files of every kind; then for every kind accepted as a source the chosen compiler and flags must be that language's."""
    db = ctx.db
    P_ = ('init', 'file')
    L = (('S', 'cfg'), ())
    fe = 'buildcc::FileExt'
    want = {'C': 'C', 'Cpp': 'Cpp', 'Asm': 'Asm', 'Header': 'Header', 'other': 'Invalid', 'none': 'Invalid'}
    CFG = 'buildcc::ToolchainConfig'
    for kind in KINDS:
        for name, ok in (('GetFileExt', lambda v: v == enumv(db, fe, want[kind])), ('IsValidSource', lambda v: v == C(kind in SRC)), ('IsValidHeader', lambda v: v == C(kind == 'Header'))):
            f = db.func(CFG + '::' + name)
            E, st, fr = ctx.engine(fixed(kind))
            st.types[L[0]] = CFG
            for s, k, v in E.call_fn(f, L, [P_], st, fr):
                v = E.rv(v, s)
                vs = [(s, v)]
                if v[0] not in ('c', 'enum'):
                    vs = [(s2, C(b)) for s2, b in E.truth(s, v)] if name != 'GetFileExt' else [(s2, E.rv(resolve(E, s2, v), s2)) for s2 in [s]]
                for s2, x in vs:
                    about = [a for a in s2.facts if a[0] == 'has' or a[0] == 'app']
                    rep.ob(k == 'v' and ok(x) and all(any(y == P_ for y in subterms(a)) for a in about), 'kind:%s:%s' % (name, kind), f['loc'], '%s of a file %s is %s' % (name, 'without extension' if kind == 'none' else 'of kind ' + kind, pp(x)[:80]))
            rep.use(E)
        for name, acc in (('ExpectsValidSource', kind in SRC), ('ExpectsValidHeader', kind == 'Header')):
            f = db.func(CFG + '::' + name)
            E, st, fr = ctx.engine(fixed(kind))
            st.types[L[0]] = CFG
            for s, k, v in E.call_fn(f, L, [P_], st, fr):
                rep.ob((k == 'v') == acc and (acc or any(e[0] == 'fatal' for e in s.ev)), 'expect:%s:%s' % (name, kind), f['loc'], '%s %s a file of kind %s' % (name, 'rejects' if acc else 'accepts', kind))
            rep.use(E)
    # the shipped extension sets are disjoint
    for q, v, l in tool_configs(ctx):
        seen = {}
        for fld in SETS:
            x = ctx.engine()[0].field(v, fld)
            if x[0] != 'seq' or any(p[0] != 'one' or p[1][0] != 'c' for p in x[1]):
                raise AnalysisError('anchor: %s of %s is not constant' % (fld, q))
            for p in x[1]:
                rep.ob(seen.setdefault(p[1][1], fld) == fld, 'sets:%s:%s' % (q, p[1][1]), l, '%s lists the extension %s as %s and %s' % (q, p[1][1], seen[p[1][1]], fld))
                rep.ob(p[1][1].startswith('.'), 'sets:dot:%s' % q, l, '%s lists the extension %s, which no file has' % (q, p[1][1]))
    # Target::SelectCompiler / SelectCompileFlags
    exm = field_of_type(db, 'buildcc::Toolchain', 'buildcc::ToolchainExecutables', 'executables')
    tools = {'Asm': 'assembler', 'C': 'c_compiler', 'Cpp': 'cpp_compiler'}
    for i in db.enums[fe]['e']:
        n = i['name'].rsplit('::', 1)[-1]
        v0 = ('enum', i['name'], i['v'])
        for name in ('SelectCompiler', 'SelectCompileFlags'):
            f = db.func('buildcc::Target::' + name)
            E, st, fr = ctx.engine()
            st.types[T[0]] = 'buildcc::Target'
            E.set(st, (T[0], (ctx.names.user,)), USER)
            st.types[TC[0]] = 'buildcc::Toolchain'
            for n_, fd in db.all_fields('buildcc::Target'):
                if 'Toolchain' in fd['t'] and fd['t'].strip().endswith('&'):
                    E.set(st, (T[0], (n_,)), ('ref', TC))
            for s, k, v in E.call_fn(f, T, [v0], st, fr):
                v = E.rv(v, s)
                if n in tools and name == 'SelectCompiler':
                    rd = {x[2] for x in subterms(v) if x[0] == 'fld' and x[1][0] == 'fld' and x[1][2] == exm}
                    rep.ob(k == 'v' and v[0] != 'nullopt' and rd == {tools[n]}, 'select:tool:' + n, f['loc'], 'files of kind %s are compiled with %s' % (n, pp(v)[:80]))
                elif n in tools:
                    rep.ob(k == 'v' and v[0] != 'nullopt' and fields_under(v, USER) == {n.lower() + '_compile_flags'}, 'select:flags:' + n, f['loc'], 'files of kind %s are compiled with the flags %s' % (n, pp(v)[:80]))
                else:
                    rep.ob(k == 'v' and v == ('nullopt',), 'select:none:%s:%s' % (name, n), f['loc'], '%s of kind %s is %s' % (name, n, pp(v)[:80]))
            rep.use(E)
    # target state: what the sources contain
    f = db.func('buildcc::TargetState::SourceDetected')
    S = (('S', 'state'), ())
    asks = {'Asm': 'ContainsAsm', 'C': 'ContainsC', 'Cpp': 'ContainsCpp'}
    for i in db.enums[fe]['e']:
        n = i['name'].rsplit('::', 1)[-1]
        E, st, fr = ctx.engine()
        E.default_construct('buildcc::TargetState', S, st, fr)
        st.types[S[0]] = 'buildcc::TargetState'
        for s, k, v in E.call_fn(f, S, [('enum', i['name'], i['v'])], st, fr):
            if k != 'v':
                rep.bad('state:fails:' + n, f['loc'], 'SourceDetected fails for kind ' + n); continue
            for lang, ask in list(asks.items()) + [('pch', 'ContainsPch')]:
                g = db.func('buildcc::TargetState::' + ask)
                for s2, k2, v2 in E.call_fn(g, S, [], s.copy(), fr):
                    rep.ob(E.rv(v2, s2) == C(lang == n), 'state:%s:%s' % (ask, n), g['loc'], '%s is %s after a %s source was added' % (ask, pp(v2)[:40], n))
        rep.use(E)

def resolve(E, s, v):
    while v[0] == 'ite':
        r = s.facts.get(v[1])
        if r is None:
            r = E.oracle(v[1], s) if E.oracle else None
        if r is None:
            return v
        v = v[2] if r else v[3]
    return v

def tool_configs(ctx):
    out = []
    E, st, fr = ctx.engine()
    loc = (('S', 'tcfg'), ())
    E.default_construct('buildcc::ToolchainConfig', loc, st, fr)
    out.append(('ToolchainConfig', E.get(st, loc), ctx.db.record('buildcc::ToolchainConfig').get('loc', '')))
    for q, fs in sorted(ctx.db.byqn.items()):
        for f in fs:
            if f.get('body') is not None and not f['params'] and (f.get('static') or not f.get('cls')) and short(f.get('rt') or '') == 'buildcc::ToolchainConfig':
                E, st, fr = ctx.engine()
                for s, k, v in E.call_fn(f, None, [], st, fr):
                    if k == 'v':
                        out.append((q, E.rv(v, s), f['loc']))
    return out
