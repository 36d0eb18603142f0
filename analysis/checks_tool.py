"""C29, C30: toolchains and generic targets"""
import itertools, shlex
from base import *
from scn import strip_path
from checks_misc import fatal, fn_any

EXES = ('assembler', 'c_compiler', 'cpp_compiler', 'archiver', 'linker')
GET = ('GetAssembler', 'GetCCompiler', 'GetCppCompiler', 'GetArchiver', 'GetLinker')
DEFAULTS = {'Gcc': ('as', 'gcc', 'g++', 'ar', 'ld'), 'MinGW': ('as', 'gcc', 'g++', 'ar', 'ld'), 'Msvc': ('cl', 'cl', 'cl', 'lib', 'link')}
FAMILY = {'Gcc': 'Gcc', 'MinGW': 'Gcc', 'Clang': 'Gcc', 'Msvc': 'Msvc'}

def enumv(ctx, qn, name):
    for e in ctx.db.enums[qn]['e']:
        if e['name'].endswith('::' + name):
            return ('enum', e['name'], e['v'])
    raise AnalysisError('anchor vanished: %s::%s' % (qn, name))

def inited(ctx, oracle=None):
    E, st, fr = ctx.engine(oracle)
    rs = [s for s, k, v in E.call_fn(fn_any(ctx, 'buildcc::Project::Init'), None, [('init', 'root'), ('init', 'bld')], st, fr) if k == 'v']
    st = rs[0]
    st.ev = ()
    return E, st, fr

def exes_rec(names):
    return rec(('new', 'buildcc::ToolchainExecutables'), dict(zip(EXES, names)))

def ctor_of(ctx, cls, n=None, pick=None):
    q = 'buildcc::%s::%s' % (cls, cls)
    fs = [f for f in ctx.db.byqn.get(q, ()) if f.get('body') is not None and (n is None or len(f['params']) == n) and (pick is None or pick(f))]
    if not fs:
        raise AnalysisError('anchor vanished: constructor of ' + cls)
    return fs[0]

def new_toolchain(ctx, E, st, fr, idv, loc, names=None):
    f = ctor_of(ctx, 'Toolchain', pick=lambda f: len(f['params']) >= 3)
    st.types[loc[0]] = 'buildcc::Toolchain'
    cfg = (('S', 'tccfg'), ())
    st.types[cfg[0]] = 'buildcc::ToolchainConfig'
    args = [idv, ('init', 'tcname'), exes_rec(names) if names else ('init', 'tcexes'), ('ref', cfg)]
    rs = [s for s, k, v in E.run_ctor(f, 'buildcc::Toolchain', loc, args[:len(f['params'])], st, fr) if k == 'v']
    return rs[0]

def getter(ctx, E, s, fr, qn, loc):
    out = []
    for s2, k, v in E.call_fn(fn_any(ctx, qn), loc, [], s.copy(), fr):
        out.append(E.deep(s2, E.rv(v, s2)) if k == 'v' and hasattr(E, 'deep') and False else E.rv(v, s2) if k == 'v' else ('failed', k))
    return out[0] if len(out) == 1 else ('several', tuple(out))

def c29(ctx, rep):
    """Constructors of the specific and the generic targets are interpreted for every id and type and compared getter by getter; Toolchain_generic::New is interpreted for every id,
    with and without executables, configuration, and for an identifier that is free or in use."""
    db = ctx.db
    ids = [e['name'].rsplit('::', 1)[-1] for e in db.enums['buildcc::ToolchainId']['e']]
    types = {'Executable': 'Executable', 'StaticLibrary': 'Static', 'DynamicLibrary': 'Dynamic'}
    cfgfn = {'Executable': 'Executable', 'StaticLibrary': 'StaticLib', 'DynamicLibrary': 'DynamicLib'}
    gets = [q for q, fs in sorted(db.byqn.items()) if fs[0].get('body') is not None and not fs[0]['params'] and q.rsplit('::', 1)[-1].startswith('Get') and
            (q.startswith('buildcc::internal::TargetGetter<') or 'Api<buildcc::TargetInfo>' in q) and not q.endswith('::GetState')]
    rep.need(len(gets) >= 15, 'getters of a target')
    adders = [q for q in sorted(db.byqn) if q.startswith('buildcc::internal::FlagApi<buildcc::Toolchain>::Add')]
    TC, ENV_ = (('S', 'tc'), ()), (('S', 'tenv'), ())
    def target(cls, idv, args):
        E, st, fr = inited(ctx)
        st = new_toolchain(ctx, E, st, fr, idv, TC)
        for q in adders:
            st = [s for s, k, v in E.call_fn(fn_any(ctx, q), TC, [('init', 'flag:' + q.rsplit('::', 1)[-1])], st, fr) if k == 'v'][0]
        st.types[ENV_[0]] = 'buildcc::TargetEnv'
        f = ctor_of(ctx, cls, pick=lambda f: len(f['params']) >= 4)
        S = (('S', 'me'), ())
        st.types[S[0]] = 'buildcc::' + cls
        out = []
        for s, k, v in E.run_ctor(f, 'buildcc::' + cls, S, args, st, fr):
            if k == 'throw' and not any(e[0] == 'fatal' for e in s.ev):
                continue        # the build directory cannot be created
            out.append((k, s, {q: getter(ctx, E, s, fr, q, S) for q in gets} if k == 'v' else None))
        rep.use(E)
        return f, out
    confs = {}
    def conf(fam, t):
        if (fam, t) not in confs:
            f = fn_any(ctx, 'buildcc::%sConfig::%s' % ({'MinGW': 'Mingw'}.get(fam, fam), cfgfn[t]))
            E, st, fr = ctx.engine()
            confs[fam, t] = ctx.config_fields([E.rv(v, s) for s, k, v in E.call_fn(f, None, [], st, fr) if k == 'v'][0]), f['loc']
        return confs[fam, t]
    fams = ('Gcc', 'Msvc', 'MinGW')
    # command configurations per type
    for fam in fams:
        for t in types:
            c, where = conf(fam, t)
            link = c['link_command'][1] if c['link_command'][0] == 'c' else ''
            rep.ob(('{archiver}' in link) == (t == 'StaticLibrary'), 'conf:%s:%s:archiver' % (fam, t), where, '%s targets of %s are %s the archiver' % (t, fam, 'linked with' if '{archiver}' in link else 'linked without'))
            rep.ob(('-shared' in link or '/DLL' in link) == (t == 'DynamicLibrary'), 'conf:%s:%s:shared' % (fam, t), where, '%s targets of %s: shared linking is wrong' % (t, fam))
            rep.ob(c['target_ext'] != c['link_command'] and c['target_ext'][0] == 'c', 'conf:%s:%s:ext' % (fam, t), where, 'the target extension is not a constant')
        exts = [conf(fam, t)[0]['target_ext'] for t in types]
        rep.ob(exts[0] not in exts[1:], 'conf:%s:exts' % fam, conf(fam, 'Executable')[1], 'an executable of %s has the extension of a library' % fam)
    name, tcr, envr = ('init', 'nm'), ('ref', TC), ('ref', ENV_)
    user = rec(('new', 'buildcc::TargetConfig'), {n: ('init', 'user:' + n) for n, f in db.all_fields('buildcc::TargetConfig')})
    for i in ids:
        idv = enumv(ctx, 'buildcc::ToolchainId', i)
        for t, short_ in types.items():
            tv = enumv(ctx, 'buildcc::TargetType', t)
            what = '%s target with toolchain id %s: ' % (t, i)
            gen = [('%sTarget_generic' % short_, lambda c: [name, tcr, envr, c]), ('Target_generic', lambda c: [name, tv, tcr, envr, c])]
            if i not in fams:
                for cls, args in gen:
                    f, rs = target(cls, idv, args(('nullopt',)))
                    for k, s, g in rs:
                        rep.ob(fatal(k, s), 'gen:%s:%s:%s' % (cls, t, i), f['loc'], what + '%s is constructed although the id is not supported' % cls)
                    rep.count('combinations')
                continue
            cls = '%sTarget_%s' % (short_, i.lower())
            if not db.byqn.get('buildcc::%s::%s' % (cls, cls)):
                cls = '%sTarget_%s' % (short_, FAMILY[i].lower())    # typedef
            E0, st0, fr0 = ctx.engine()
            fspec, spec = target(cls, idv, [name, tcr, envr, rec(('new', 'buildcc::TargetConfig'), conf(i, t)[0])])
            _, ucspec = target(cls, idv, [name, tcr, envr, user])
            for k, s, g in spec + ucspec:
                rep.ob(k == 'v', 'spec:%s' % cls, fspec['loc'], what + '%s cannot be constructed' % cls)
                if k != 'v':
                    continue
                for q in gets:
                    if q.endswith('::GetType'):
                        rep.ob(g[q] == tv, 'spec:%s:type' % cls, fspec['loc'], what + '%s has type %s' % (cls, pp(g[q])[:60]))
                    if q.endswith('::GetName'):
                        rep.ob(g[q] == name, 'spec:%s:name' % cls, fspec['loc'], what + '%s has name %s' % (cls, pp(g[q])[:60]))
            # default argument of the specific target
            df = fspec['params'][3].get('def') if isinstance(fspec['params'][3], dict) else None
            if df is not None:
                E1, st1, fr1 = ctx.engine()
                for s, k, v in E1.ev(df, st1, fr1):
                    rep.ob(k == 'v' and ctx.config_fields(E1.rv(v, s)) == conf(i, t)[0], 'spec:%s:default' % cls, fspec['loc'], what + '%s uses another configuration by default' % cls)
            for gcls, args in gen:
                for c, want in ((('nullopt',), spec), (('some', user), ucspec)):
                    f, rs = target(gcls, idv, args(c))
                    rep.count('combinations')
                    if not rep.ob(len(rs) == 1 and rs[0][0] == 'v', 'gen:%s:%s:%s' % (gcls, t, i), f['loc'], what + '%s cannot be constructed' % gcls):
                        continue
                    if not want or want[0][0] != 'v':
                        continue
                    for q in gets:
                        a, b = rs[0][2][q], want[0][2][q]
                        if q.endswith('::GetConfig'):
                            a, b = ctx.config_fields(a), ctx.config_fields(b)
                        n = q.rsplit('::', 1)[-1]
                        rep.ob(a == b, 'gen:%s:%s:%s:%s' % (gcls, t, i, n), f['loc'], what + '%s() of %s differs from %s: %s' % (n, gcls, cls, pp(a)[:140]))
    # toolchains
    new = fn_any(ctx, 'buildcc::Toolchain_generic::New')
    gc = fn_any(ctx, 'buildcc::GlobalToolchainMetadata::GetConfig')
    gi = fn_any(ctx, 'buildcc::GlobalToolchainMetadata::GetInfoCb')
    given = tuple(('init', 'exe:' + n) for n in EXES)
    seen_cb = {}
    for i in ids:
        idv = enumv(ctx, 'buildcc::ToolchainId', i)
        for ex, cf, used in itertools.product((False, True), (False, True), (False, True)):
            E, st, fr = ctx.engine()
            what = 'Toolchain_generic::New(%s, %s executables, %s configuration): ' % (i, 'given' if ex else 'no', 'given' if cf else 'no')
            cfg = rec(('new', 'buildcc::ToolchainConfig'), {n: ('init', 'user:' + n) for n, f in db.all_fields('buildcc::ToolchainConfig')})
            if used:
                st = [s for s, k, v in E.call_fn(new, None, [enumv(ctx, 'buildcc::ToolchainId', 'Gcc'), C('tid'), ('nullopt',), ('nullopt',)], st, fr) if k == 'v'][0]
            st.ev = ()
            rs = E.call_fn(new, None, [idv, C('tid'), ('some', exes_rec(given)) if ex else ('nullopt',), ('some', cfg) if cf else ('nullopt',)], st, fr)
            rep.count('combinations')
            ok = i in DEFAULTS or i in ('Clang', 'Custom') and ex
            for s, k, v in rs:
                if not ok or used:
                    rep.ob(fatal(k, s), 'new:%s:refuse' % i, new['loc'], what + ('the identifier is in use but accepted' if ok else 'is accepted'))
                    continue
                if not rep.ob(k == 'v' and v[0] == 'ref', 'new:%s' % i, new['loc'], what + 'fails'):
                    continue
                L = v[1]
                T = 'buildcc::Toolchain::'
                rep.ob(getter(ctx, E, s, fr, T + 'GetId', L) == idv, 'new:%s:id' % i, new['loc'], what + 'the toolchain has id %s' % pp(getter(ctx, E, s, fr, T + 'GetId', L)))
                rep.ob(getter(ctx, E, s, fr, T + 'GetName', L) == C('tid'), 'new:%s:name' % i, new['loc'], what + 'the toolchain has name %s' % pp(getter(ctx, E, s, fr, T + 'GetName', L))[:60])
                want = given if ex else tuple(C(x) for x in DEFAULTS[i])
                for g, w in zip(GET, want):
                    r = getter(ctx, E, s, fr, T + g, L)
                    rep.ob(r == w, 'new:%s:%s' % (i, g), new['loc'], what + '%s() is %s' % (g, pp(r)[:60]))
                # configuration and info callback
                for f, n in ((gc, 'config'), (gi, 'info')):
                    for s2, k2, v2 in E.call_fn(f, None, [idv], s.copy(), fr):
                        if not rep.ob(k2 == 'v', 'meta:%s:%s' % (i, n), f['loc'], 'there is no toolchain %s for %s' % (n, i)):
                            continue
                        glob = E.rv(v2, s2)
                        if n == 'info':
                            mine = getter(ctx, E, s, fr, 'buildcc::ToolchainVerify<buildcc::Toolchain>::GetToolchainInfoCb', L)
                            seen_cb[i] = mine
                            rep.ob(mine == glob, 'new:%s:info' % i, new['loc'], what + 'the verification callback is not the one for %s' % i)
                        else:
                            mine = getter(ctx, E, s, fr, T + 'GetConfig', L)
                            flds = [x for x, _ in db.all_fields('buildcc::ToolchainConfig')]
                            exp = cfg if cf else glob
                            bad = [x for x in flds if E.field(mine, x) != E.field(exp, x)]
                            key = 'new:%s:userconfig' % i if cf else 'new:%s:config' % i
                            rep.ob(not bad, key, new['loc'], what + ('the given configuration is replaced' if cf else 'the configuration is not the one for %s: %s' % (i, ', '.join(bad))))
            rep.use(E)
    for a in ('Gcc', 'MinGW', 'Clang', 'Msvc'):
        for b in ('Gcc', 'MinGW', 'Clang', 'Msvc'):
            if a in seen_cb and b in seen_cb:
                rep.ob((seen_cb[a] == seen_cb[b]) == (FAMILY[a] == FAMILY[b]), 'info:%s:%s' % (a, b), gi['loc'], '%s and %s: wrong verification callback' % (a, b))
    E, st, fr = ctx.engine()
    for fam in ('Gcc', 'MinGW', 'Clang', 'Msvc'):
        for s, k, v in E.call_fn(gc, None, [enumv(ctx, 'buildcc::ToolchainId', fam)], st.copy(), fr):
            o = E.field(E.rv(v, s), 'obj_ext')
            want = C('.obj') if fam == 'Msvc' else C('.o')
            rep.ob(o == want, 'meta:%s:obj' % fam, gc['loc'], 'object files of %s end in %s' % (fam, pp(o)))
            inc = E.field(E.rv(v, s), 'prefix_include_dir')
            rep.ob(inc == (C('/I') if fam == 'Msvc' else C('-I')), 'meta:%s:inc' % fam, gc['loc'], 'the include prefix of %s is %s' % (fam, pp(inc)))

# ---------------------------------------------------------------------------------------------------------------- C30
class Disk:
    """constant directories: state -> answers of the file system"""
    NAMES = ('as', 'gcc-1.2', 'g++', 'ar', 'ld')
    def __init__(self, dirs, names=NAMES):
        self.d, self.names = dirs, names
    def ents(self, d):
        s = self.d.get(d)
        names = list(self.names)
        uniq = sorted(set(names))
        if s in (None, 'missing', 'noexist-error', 'unlistable'):
            return []
        if s == 'complete':
            return ['zz.txt'] + uniq
        if s == 'other':
            return ['readme', 'gcc.txt']
        if s == 'empty':
            return []
        kind, _, n = s.partition(':')
        if kind == 'without':
            return [x for x in uniq if x != n] + ['x' + n, n + 'x']
        if kind == 'suffixed':
            return [x for x in uniq if x != n] + [n + '.txt']
        return uniq             # notfile:<n>, filerr:<n>
    def locate(self, t):
        t = strip(t)
        if t[0] == 'dirent':
            d = strip(t[1])
            return (d[1], t[2]) if d[0] == 'c' else None
        if t[0] == 'direntpath':
            return self.locate(t[1])
        if t[0] == 'div':
            a, b = strip(t[1]), strip(t[2])
            if a[0] == 'c' and b[0] == 'c':
                return (a[1], b[1])
        if t[0] == 'c' and isinstance(t[1], str):
            if t[1] in self.d:
                return (t[1], None)
            d, _, n = t[1].rpartition('/')
            return (d, n)
        return None
    def entry(self, d, n):
        s = self.d.get(d, 'missing')
        if n is None:
            return {'missing': 'no', 'noexist-error': 'error', 'unlistable': 'dir'}.get(s, 'dir')
        if s == 'notfile:' + n:
            return 'dir'
        if s == 'filerr:' + n:
            return 'error'
        return 'file' if n in self.ents(d) else 'no'
    def __call__(self, a, st):
        if a[0] == 'eq' and NULL in a[1:3] and any(x[0] in ('c', 'app') for x in a[1:3]):
            return None if any(x[0] == 'app' for x in a[1:3]) else False
        if a[0] == 'app' and str(a[1]).startswith('dirent::') or a[0] == 'fs':
            name = a[1].rsplit('::', 1)[-1]
            w = self.locate(a[2][0])
            if w is None:
                return None
            k = self.entry(*w)
            if name == 'exists':
                return k in ('file', 'dir')
            if name == 'is_regular_file':
                return k == 'file'
            if name == 'is_directory':
                return k == 'dir'
            return None
        if a[0] == 'errval' and a[1][0] == 'errc':
            w = self.locate(a[1][2][0])
            if w is None:
                return None
            k = self.entry(*w)
            if a[1][1] in ('directory_iterator', 'recursive_directory_iterator'):
                return self.d.get(w[0], 'missing') in ('missing', 'noexist-error', 'unlistable')
            return k == 'error' or k == 'no' and a[1][1] not in ('exists', 'is_regular_file', 'is_directory')
        if a[0] == 'errval':
            return False
        return None

def strip(t):
    while t[0] in ('path', 'str', 'lexnorm', 'disp0'):
        t = t[1]
    return t

def cstr(t):
    """the constant string a term denotes, or None"""
    k = t[0]
    if k == 'c':
        return t[1] if isinstance(t[1], str) else None
    if k in ('path', 'str', 'lexnorm', 'ln', 'mp') and len(t) == 2:
        return cstr(t[1])
    if k == 'app' and t[1].rsplit('::', 1)[-1] in ('generic_string', 'generic_path', 'make_preferred', 'lexically_normal') and len(t[2]) == 1:
        return cstr(t[2][0])
    if k == 'div':
        a, b = cstr(t[1]), cstr(t[2])
        return None if a is None or b is None else b if b.startswith('/') else a.rstrip('/') + '/' + b
    if k == 'cat':
        ps = [cstr(x) for x in t[1]]
        return None if None in ps else ''.join(ps)
    if k == 'disp':
        a = cstr(t[1])
        return None if a is None else '"%s"' % a if ' ' in a else a
    if k == 'ite':
        c, neg = t[1], False
        while c[0] == 'not':
            c, neg = c[1], not neg
        if c[0] == 'app' and len(c) > 2 and len(c[2]) == 2 or c[0] == 'contains':
            x, y = c[2] if c[0] == 'app' else c[1:3]
            x, y = cstr(x), cstr(y)
            if x is not None and y is not None and 'contains' in (c[0] if c[0] != 'app' else c[1]):
                return cstr(t[2] if (y in x) != neg else t[3])
    return None

def built(E, cmd):
    """the constant command line a Command constructs, or None"""
    vals = cmd_args(E, cmd)
    pat = cstr(cmd[2][1]) if vals is not None and len(cmd[2]) > 1 else None
    if pat is None:
        return None
    vals = {k: cstr(v) for k, v in vals.items()}
    names = PLACE.findall(pat)
    if any(vals.get(n) is None for n in names):
        return None
    for n in names:
        pat = pat.replace('{%s}' % n, vals[n])
    return pat

def c30(ctx, rep):
    """ToolchainFind::Find and ToolchainVerify::Verify are interpreted on constant search paths, environment variables and directory contents covering every way in which an
    executable can be missing; the information callbacks of the supported toolchains on every combination of failing queries."""
    db = ctx.db
    find = fn_any(ctx, 'buildcc::ToolchainFind<buildcc::Toolchain>::Find')
    S, CFG = (('S', 'tc'), ()), (('S', 'cfg'), ())
    def setup(disk, env, envs, paths):
        E, st, fr = ctx.engine(disk)
        E.env = env
        E.dirs = lambda p: disk.ents(p[1]) if p[0] == 'c' else None
        st.types[CFG[0]] = 'buildcc::ToolchainFindConfig'
        st = new_toolchain(ctx, E, st, fr, enumv(ctx, 'buildcc::ToolchainId', 'Gcc'), S, tuple(C(x) for x in disk.names))
        E.set(st, (CFG[0], ('env_vars',)), ('seq', tuple(('one', C(x)) for x in envs)))
        E.set(st, (CFG[0], ('absolute_search_paths',)), ('seq', tuple(('one', ('path', C(x))) for x in paths)))
        return E, st, fr
    states = ['complete', 'missing', 'noexist-error', 'unlistable', 'empty', 'other']
    for n in Disk.NAMES:
        states += ['without:' + n, 'notfile:' + n, 'filerr:' + n, 'suffixed:' + n]
    cases = []
    for s in states:
        cases.append(({'/d0': s}, {}, (), ('/d0',)))
        cases.append(({'/d0': s}, {'PATH': '/d0'}, ('PATH',), ()))
    three = ('complete', 'missing', 'noexist-error', 'unlistable', 'without:ar', 'filerr:ld')
    for a, b in itertools.product(three, three):
        cases.append(({'/d0': a, '/d1': b}, {'X': '/d1'}, ('X',), ('/d0',)))
        cases.append(({'/d0': a, '/d1': b}, {'X': '/d0:/d1'}, ('X',), ()))
        if ctx.tier == 'thorough':
            for c in three:
                cases.append(({'/d0': a, '/d1': b, '/d2': c}, {'X': '/d2', 'Y': '/d0:/d1'}, ('Y', 'X'), ()))
                cases.append(({'/d0': a, '/d1': b, '/d2': c}, {'X': '/d2'}, ('X',), ('/d1', '/d0')))
    all3 = {'/d0': 'complete', '/d1': 'complete', '/d2': 'complete'}
    cases += [(all3, {'X': '/d2::/d1', 'Y': '/d0'}, ('X', 'Y'), ()), (all3, {'X': '/d2:/d1:'}, ('X',), ('/d0',)), (all3, {'X': ''}, ('X',), ()), (all3, {'X': ''}, ('X',), ('/d1', '/d0')),
              (all3, {'X': '/d0'}, (), ()), (all3, {}, ('X',), ('/d0',)), (all3, {'X': '/d0'}, ('X', 'Z'), ()), ({'/with space/d': 'complete'}, {'X': '/with space/d'}, ('X',), ())]
    def expected(dirs, env, envs, paths):
        if any(e not in env for e in envs):
            return None
        order = list(paths) + [p for e in envs for p in env[e].split(':')]
        return [p for p in order if dirs.get(p) == 'complete']
    for names in (Disk.NAMES, ('cl', 'cl', 'cl', 'lib', 'link')):
        for dirs, env, envs, paths in cases if names is Disk.NAMES else [(d, e, v, p) for d, e, v, p in cases if not any(':' in x for x in d.values())]:
            disk = Disk(dirs, names)
            E, st, fr = setup(disk, env, envs, paths)
            want = expected(dirs, env, envs, paths)
            what = 'Find(%s; %s) with %s: ' % (','.join(paths), ','.join('%s=%s' % (e, env.get(e, 'unset')) for e in envs), ', '.join('%s %s' % x for x in sorted(dirs.items())))
            tag = sorted(dirs.values())[0].split(':')[0] if len(dirs) == 1 else 'several'
            rs = E.call_fn(find, S, [('ref', CFG)], st, fr)
            rep.ob(bool(rs), 'find:none', find['loc'], what + 'does not return')
            for s, k, v in rs:
                if want is None:
                    rep.ob(fatal(k, s), 'find:noenv', find['loc'], what + 'a missing environment variable is ignored')
                    continue
                if not rep.ob(k == 'v', 'find:throw', find['loc'], what + 'ends with %s' % ('an exception of the file system' if k == 'throw' else k)):
                    continue
                v = E.rv(v, s)
                got = [strip(p[1])[1] if p[0] == 'one' and strip(p[1])[0] == 'c' else pp(p)[:60] for p in v[1]] if v[0] == 'seq' else [pp(v)[:80]]
                rep.ob(got == want, 'find:' + tag, find['loc'], what + 'finds %s instead of %s' % (got, want))
            rep.use(E)
            rep.count('searches')
    # Verify
    ver = fn_any(ctx, 'buildcc::ToolchainVerify<buildcc::Toolchain>::Verify')
    setcb = fn_any(ctx, 'buildcc::ToolchainVerify<buildcc::Toolchain>::SetToolchainInfoCb')
    for found in ([], ['/t0'], ['/t0', '/t1'], ['/with space/t']):
        for cb in ('none', 'empty', 'info'):
            dirs = {p: 'complete' for p in found} or {'/t0': 'missing'}
            E, st, fr = setup(Disk(dirs), {}, (), found or ('/t0',))
            if cb != 'none':
                UCB = ('fn', '@usercb', '@usercb')
                seen = []
                info = rec(('new', 'buildcc::ToolchainCompilerInfo'), {'path': ('init', 'cbpath'), 'compiler_version': ('init', 'ver'), 'target_arch': ('init', 'arch')})
                def usercb(E_, e_, args, st_, fr_, seen=seen, cb=cb, info=info):
                    seen.append(tuple(E_.rv(a, st_) for a in args))
                    return [(st_, 'v', ('some', info) if cb == 'info' else ('nullopt',))]
                E.stubs['@usercb'] = usercb
                st = [s for s, k, v in E.call_fn(setcb, S, [UCB], st, fr) if k == 'v'][0]
            rs = E.call_fn(ver, S, [('ref', CFG)], st, fr)
            rep.count('verifications')
            what = 'Verify with %d toolchains found and %s: ' % (len(found), {'none': 'no callback', 'empty': 'a callback that fails', 'info': 'a callback that succeeds'}[cb])
            ok = bool(found) and cb == 'info'
            rep.ob(bool(rs), 'verify:none', ver['loc'], what + 'does not return')
            for s, k, v in rs:
                exes = [getter(ctx, E, s, fr, 'buildcc::Toolchain::' + g, S) for g in GET]
                if not ok:
                    rep.ob(fatal(k, s), 'verify:%s' % cb, ver['loc'], what + 'is not a fatal error')
                    rep.ob(exes == [C(x) for x in Disk.NAMES], 'verify:%s:exes' % cb, ver['loc'], what + 'the executables were changed all the same')
                    continue
                if not rep.ob(k == 'v', 'verify:ok', ver['loc'], what + 'fails'):
                    continue
                for n, x, name in zip(EXES, exes, Disk.NAMES):
                    rep.ob(cstr(x) == found[0] + '/' + name, 'verify:' + n, ver['loc'], what + 'the %s becomes %s' % (n, pp(x)[:120]))
                r = E.rv(v, s)
                for n, w in (('compiler_version', ('init', 'ver')), ('target_arch', ('init', 'arch'))):
                    rep.ob(E.field(r, n) == w, 'verify:info:' + n, ver['loc'], what + '%s is %s' % (n, pp(E.field(r, n))[:80]))
                rep.ob(strip(E.field(r, 'path')) == C(found[0]), 'verify:info:path', ver['loc'], what + 'the reported path is %s' % pp(E.field(r, 'path'))[:80])
                rep.ob(len(seen) == 1, 'verify:called', ver['loc'], what + 'the callback runs %d times' % len(seen))
                for a in seen:
                    e0 = a[0]
                    for n, name in zip(EXES, Disk.NAMES):
                        rep.ob(cstr(E.field(e0, n)) == found[0] + '/' + name, 'verify:cb:' + n, ver['loc'], what + 'the callback is given %s as %s' % (pp(E.field(e0, n))[:80], n))
            rep.use(E)
    # information callbacks of the supported toolchains
    gi = fn_any(ctx, 'buildcc::GlobalToolchainMetadata::GetInfoCb')
    ids = [e['name'].rsplit('::', 1)[-1] for e in db.enums['buildcc::ToolchainId']['e']]
    VARS = ('VSCMD_VER', 'VSCMD_ARG_HOST_ARCH', 'VSCMD_ARG_TGT_ARCH')
    for i in ids:
        fam = FAMILY.get(i)
        outs = ('ok', 'fail', 'empty', 'failout')
        cases = list(itertools.product(outs, outs)) if fam == 'Gcc' else list(itertools.product((True, False), repeat=3)) if fam == 'Msvc' else [()]
        for base, case in itertools.product(('/x/', '/x y/') if fam == 'Gcc' else ('/x/',), cases):
            given = tuple(C(base + n) for n in Disk.NAMES)
            E, st, fr = ctx.engine(lambda a, s: None)
            E.env = {n: n.lower() for n, p in zip(VARS, case) if p} if fam == 'Msvc' else {}
            ran = []
            def execute(E_, e_, args, st_, fr_, ran=ran, case=case, base=base):
                cmd = E_.rv(args[0], st_)
                txt = cstr(cmd) or built(E_, cmd) or pp(cmd)
                try:
                    words = shlex.split(txt)
                except ValueError:
                    words = []
                which = {'-dumpversion': 0, '-dumpmachine': 1}.get(words[1]) if len(words) == 2 and words[0] == base + 'g++' else None
                ran.append(txt)
                if which is None:
                    return [(st_, 'v', FALSE)]
                if len(args) > 2 and args[2][0] == 'ptr' and case[which] in ('ok', 'failout'):
                    E_.set(st_, args[2][1], ('seq', (('one', ('init', 'out%d' % which)), ('one', ('init', 'more%d' % which)))))
                return [(st_, 'v', C(case[which] in ('ok', 'empty')))]
            E.stubs['buildcc::env::Command::Execute'] = execute
            for s, k, v in E.call_fn(gi, None, [enumv(ctx, 'buildcc::ToolchainId', i)], st, fr):
                cb = E.rv(v, s)
                rs = E.call_value(cb, [exes_rec(given)], s, fr)
                what = 'toolchain information of %s, %s: ' % (i, {'Gcc': 'version %s, architecture %s' % (case + ('', ''))[:2], 'Msvc': 'with %s' % (', '.join(sorted(E.env)) or 'no variable')}.get(fam, 'not supported'))
                rep.ob(bool(rs), 'info:%s:none' % i, gi['loc'], what + 'does not return')
                ok = case == ('ok', 'ok') if fam == 'Gcc' else all(case) if fam == 'Msvc' else False
                for s2, k2, v2 in rs:
                    if not rep.ob(k2 == 'v', 'info:%s:kind' % i, gi['loc'], what + 'ends with ' + k2):
                        continue
                    r = E.rv(v2, s2)
                    if r[0] == 'ref':
                        r = E.rv(r, s2)
                    if not ok:
                        rep.ob(r == ('nullopt',), 'info:%s:fail' % i, gi['loc'], what + 'reports %s' % pp(r)[:120])
                        continue
                    if not rep.ob(r[0] == 'some', 'info:%s:ok' % i, gi['loc'], what + 'reports nothing (commands %s)' % ran):
                        continue
                    ver_, arch = (('init', 'out0'), ('init', 'out1')) if fam == 'Gcc' else (C('vscmd_ver'), C('vscmd_arg_host_arch_vscmd_arg_tgt_arch'))
                    a, b = E.field(r[1], 'compiler_version'), E.field(r[1], 'target_arch')
                    rep.ob(a == ver_ or cstr(a) is not None and cstr(a) == cstr(ver_), 'info:%s:version' % i, gi['loc'], what + 'the version is %s' % pp(a)[:100])
                    rep.ob(b == arch or cstr(b) is not None and cstr(b) == cstr(arch), 'info:%s:arch' % i, gi['loc'], what + 'the architecture is %s' % pp(b)[:100])
            rep.use(E)
            rep.count('queries')
