"""C35-C37: the build executable, the library it builds, the executable search plugin"""
import re
from base import *
import checks_reg as R
from target import SCHEMA, USER
import checks_api as A
import checks_env as CE
from scn import strip_path
import models

BE = 'buildcc::BuildEnvSetup'
BEF = 'buildexe/src/build_env_setup.cpp'
HOMEF = 'buildexe/src/build_env_home.cpp'
MAINF = 'buildexe/buildexe.cpp'
ARGF = 'buildexe/src/args_setup.cpp'
VERF = 'buildexe/src/toolchain_setup.cpp'
LIB = ('init', 'lib')

def oroot(i):
    return ('S', 'obj:' + i)

def storage_stubs(ctx, made):
    """ScopedStorage: objects by id; `made` initialises a new object"""
    db = ctx.db
    def cls_of(e):
        f = db.fn.get(e['fn']['usr'])
        if f is None:
            raise AnalysisError('unknown instance of a storage function')
        return short(f['rt']).rstrip('& ')
    def ident(E, s, x):
        v = E.rv(x, s)
        return v[1] if v[0] == 'c' else pp(v)
    def add(E, e, args, s, fr):
        i, cls = ident(E, s, args[1]), cls_of(e)
        s.types[oroot(i)] = cls
        made(E, s, i, cls)
        s.emit(('new', i, cls, tuple(E.rv(x, s) for x in args[2:])))
        return V(s, ('ref', (oroot(i), ())))
    def ref(E, e, args, s, fr):
        i, cls = ident(E, s, args[1]), cls_of(e)
        if oroot(i) not in s.types:
            s.types[oroot(i)] = cls
            made(E, s, i, cls)
        return V(s, ('ref', (oroot(i), ())))
    return {'buildcc::ScopedStorage::Add': add, 'buildcc::ScopedStorage::Ref': ref, 'buildcc::ScopedStorage::ConstRef': ref}

def target_of(E, s, x):
    """the storage object a reference denotes, seen through base classes"""
    r = x
    while r[0] in ('ref', 'ptr') and r[1][0][0] != 'S':
        r = s.store.get(r[1][0], r)
        if r[0] not in ('ref', 'ptr'):
            return None
    return r[1][0][1][4:] if r[0] in ('ref', 'ptr') and str(r[1][0][1]).startswith('obj:') else None

def reg_stubs(ctx, names):
    def build(E, e, args, s, fr):
        n = target_of(E, s, args[2])
        out = []
        for s2, k, v in E.call_value(args[1], [args[2]] + list(args[3:]), s, fr):
            if k != 'v':
                out.append((s2, k, v)); continue
            s2.emit(('reg', n, E.get(s2, (oroot(n), (names.user,))) if n else None))
            out.append((s2, 'v', VOID))
        return out
    def dep(E, e, args, s, fr):
        s.emit(('regdep', target_of(E, s, args[1]), target_of(E, s, args[2])))
        return V(s, VOID)
    def tbuild(E, e, args, s, fr):
        n = target_of(E, s, args[0])
        s.emit(('tbuild', n, E.get(s, (oroot(n), (names.user,))) if n else None))
        return V(s, VOID)
    return {'buildcc::Reg::Instance::Build': build, 'buildcc::Reg::Instance::Dep': dep, 'buildcc::Target::Build': tbuild,
            'buildcc::Reg::Ref': lambda E, e, a, s, fr: V(s, ('ref', (('S', 'reg'), ())))}

# command line field -> API that adds one value of it
INPUTS = (('source_files', 'SourceApi', 'AddSource', None), ('include_dirs', 'IncludeApi', 'AddIncludeDir', None), ('lib_dirs', 'LibApi', 'AddLibDir', None),
          ('external_lib_deps', 'LibApi', 'AddLibDep', 'basic_string'), ('preprocessor_flags', 'FlagApi', 'AddPreprocessorFlag', None),
          ('common_compile_flags', 'FlagApi', 'AddCommonCompileFlag', None), ('asm_compile_flags', 'FlagApi', 'AddAsmCompileFlag', None),
          ('c_compile_flags', 'FlagApi', 'AddCCompileFlag', None), ('cpp_compile_flags', 'FlagApi', 'AddCppCompileFlag', None), ('link_flags', 'FlagApi', 'AddLinkFlag', None))
SYNCED = ('include_dirs', 'headers', 'libs', 'external_libs', 'preprocessor_flags', 'cpp_compile_flags', 'link_flags')

class AppScn:
    """kinds: symbol -> kind of file"""
    def __init__(self, kinds, facts=None):
        self.kinds = kinds
        self.facts = facts or {}
        self.base = A.kind_oracle(self.kind)
    def kind(self, a):
        w = {x[1] for x in subterms(a) if x[0] == 'init' and x[1] in self.kinds}
        return self.kinds[next(iter(w))] if len(w) == 1 else None
    def __call__(self, a, st):
        if a in self.facts:
            return self.facts[a]
        if a[0] == 'errval':
            return False
        if a[0] == 'init' and re.search(r'init(ialized)?_?$', str(a[1])):
            return True
        if a[0] in ('eq', 'contains') and not any(x[0] == 'fld' and x[2] in A.SETS for x in subterms(a)):
            w = [{x[1] for x in subterms(t) if x[0] == 'init'} for t in a[1:3] if isinstance(t, tuple)]
            if len(w) == 2 and w[0] and w[1] and w[0] != w[1]:
                return False
        r = self.base(a, st)
        return r

def home(ctx, st, done):
    """the state of the home directory class before / after its Init"""
    n = 0
    for gk, g in ctx.db.globals.items():
        if g['qn'].startswith('buildcc::BuildccHome::'):
            if 'path' in g['t']:
                if done:
                    st.store[('G', gk)] = ('init', 'home:' + g['qn'].rsplit('::', 1)[-1])
            elif g['t'] == 'bool':
                n += 1
                st.store[('G', gk)] = C(done)
    if n != 1:
        raise AnalysisError('anchor: initialisation flag of BuildccHome')

def lst(*names):
    return mkseq([('one', ('init', n)) for n in names])

def setup(ctx, rep, mode, fields, libs=(), files=(), kinds=None, save=True, state=True, facts=None):
    db, names = ctx.db, ctx.names
    def made(E, s, i, cls):
        if db.record(cls) is not None and names.user in {n for n, _ in db.all_fields(cls)}:
            E.set(s, (oroot(i), (names.user,)), USER if i != 'libbuildcc' else LIB)
    E, st, fr = ctx.engine(AppScn(kinds or {}, facts), storage_stubs(ctx, made))
    E.stubs.update(reg_stubs(ctx, names))
    E.ginit = False
    st.store[R.reg_global(ctx)] = ('ptr', (('S', 'reg'), ()))
    E.stubs['buildcc::BuildBuildCC::Setup'] = lambda E, e, a, s, fr: (s.emit(('pkgsetup', target_of(E, s, a[0]), E.rv(a[1], s))), V(s, VOID))[1]
    def sv(E, e, a, s, fr):
        vals = [E.rv(x, s) for x in a]
        s.emit(('save', tuple(vals)))
        return V(s, C(save))
    E.stubs['buildcc::env::save_file'] = sv
    home(ctx, st, True)
    this = (('S', 'bes'), ()); st.types[this[0]] = BE
    ar = (('S', 'args'), ()); st.types[ar[0]] = 'buildcc::BuildExeArgs'
    fl = {short(f['t']): n for n, f in db.all_fields(BE)}
    for t in ('buildcc::BuildExeArgs',):
        if t not in fl:
            raise AnalysisError('anchor: field of type %s in BuildEnvSetup' % t)
    E.set(st, (this[0], (fl['buildcc::BuildExeArgs'],)), ('ref', ar))
    af = {short(f['t']): n for n, f in db.all_fields('buildcc::BuildExeArgs')}
    E.set(st, (ar[0], (af['buildcc::BuildExeMode'],)), enumv(db, 'buildcc::BuildExeMode', mode))
    for f, _, _, _ in INPUTS:
        E.set(st, (ar[0], (af['buildcc::ArgTargetInputs'], f)), lst(*fields.get(f, ())))
    E.set(st, (ar[0], (af['buildcc::ArgLibsInfo'], 'lib_build_files')), lst(*files))
    E.set(st, (ar[0], (af['buildcc::ArgLibsInfo'], 'libs_info')),
          mkseq([('one', rec(('new', 'buildcc::LibInfo'), {'lib_name': ('init', n + '.name'), 'absolute_lib_path': ('init', n + '.path')})) for n in libs]))
    state = (('S', 'state'), ()); st.types[state[0]] = 'buildcc::ArgToolchainState'
    E.set(st, (state[0], ('build',)), C(True))
    rs = E.call_fn(db.func(BE + '::Setup'), this, [('ref', state)], st, fr)
    rep.use(E)
    return E, [(s, k, v) for s, k, v in rs if k != 'throw' or any(e[0] == 'fatal' for e in s.ev)], fr, af

def reference(ctx, E0, s0, calls, kinds, facts=None):
    """the contents after those API calls on the same target"""
    E, st, fr = ctx.engine(AppScn(kinds, facts))
    st.types.update(s0.types)
    for r, v in s0.store.items():
        if r[0] == 'S' and r != oroot('UserTarget'):
            st.store[r] = v
    loc = (oroot('UserTarget'), ())
    base = s0.store.get(loc[0])
    if base is not None:
        st.store[loc[0]] = base
    E.set(st, (loc[0], (ctx.names.user,)), USER)
    for f, args in calls:
        args = list(args)
        for p in f['params'][len(args):]:
            args.append(C(False) if short(p['t']) == 'bool' else C(''))
        rs = [(s, k, v) for s, k, v in E.call_fn(f, loc, args, st, fr) if k == 'v']
        if len(rs) != 1:
            raise AnalysisError('%s has %d results on a concrete argument' % (f['qn'], len(rs)))
        st = rs[0][0]
    return E.get(st, (loc[0], (ctx.names.user,)))

def parts_of(v):
    return [p for p in v[1]] if v[0] == 'seq' else [('all', v)]

def same_user(ctx, E, a, b):
    """names of the fields in which two contents differ"""
    return [f for f in ctx.kinds if E.field(a, f) != E.field(b, f)]

SYNCED = ('include_dirs', 'headers', 'libs', 'external_libs', 'preprocessor_flags', 'cpp_compile_flags', 'link_flags')

def own(ctx, E, user, f):
    """(values added to field f in order, wholesale copies from another target)"""
    new, old = E.field(user, f), ('fld', USER, f)
    for _ in range(3):
        if new == old:
            return [], []
        if new[0] == 'rec' and len(new[2]) == 1:
            old = E.field(old, new[2][0][0])
            new = new[2][0][1]
            continue
        break
    if new[0] != 'seq' or ('all', old) not in new[1]:
        return None, []
    ps = [p for p in new[1] if p != ('all', old)]
    lib = [p for p in ps if p[0] in ('all', 'many') and mentions(p[1], LIB)]
    return [p for p in ps if p not in lib], [p[1] for p in lib]

def inputs_of(ctx, rep):
    db = ctx.db
    kinds = {'s1': 'Cpp', 's2': 'C', 's3': 'Asm', 'l1': 'Cpp', 'l2': 'Header', 'l3': 'none'}
    modes = sorted(x['name'].rsplit('::', 1)[-1] for x in db.enums['buildcc::BuildExeMode']['e'])
    if set(modes) != {'Immediate', 'Script'}:
        raise AnalysisError('anchor: modes of the build executable: %s' % modes)
    full = {f: ('s1', 's2', 's3') if f == 'source_files' else (f + '1', f + '2') for f, _, _, _ in INPUTS}
    cases = [(m, x, (), ()) for m in modes for x in ([full, {}] + [{f: full[f]} for f in full])]
    cases += [('Script', full, ('z1', 'z2'), ('l1', 'l2', 'l3')), ('Script', {}, ('z1',), ('l2',)), ('Script', {}, (), ('l1',)), ('Script', {}, ('z1',), ('l3',)), ('Immediate', full, ('z1',), ('l1', 'l2'))]
    for mode, fields, libs, files in cases:
        E, rs, fr, af = setup(ctx, rep, mode, fields, libs, files, kinds)
        rep.need(len(rs), 'BuildEnvSetup::Setup has no result')
        rep.count('setups', len(rs))
        script = mode == 'Script'
        tracked = set()
        for s, k, v in rs:
            if k != 'v':
                rep.bad('app:fatal:' + mode, BEF, 'setting up the build of the user target fails in %s mode' % mode.lower()); continue
            new = [e for e in s.ev if e[0] == 'new']
            ut = [e for e in new if e[1] == 'UserTarget']
            g = lambda *p: E.get(s, (('S', 'args'), p))
            rep.ob(len(ut) == 1, 'app:target', BEF, 'the user target is created %d times' % len(ut))
            if len(ut) != 1:
                continue
            vals = ut[0][3]
            rep.ob(g(af['buildcc::ArgTargetInfo'], 'name') in vals and g(af['buildcc::ArgTargetInfo'], 'type') in vals, 'app:target:id', BEF, 'the user target is not created with the name and type given on the command line')
            env = [x for x in vals if x[0] == 'rec' and x[1] == ('new', 'buildcc::TargetEnv')]
            rel = g(af['buildcc::ArgTargetInfo'], 'relative_to_root')
            rootf = [n for n, f in db.all_fields('buildcc::TargetEnv') if 'root' in n]
            ok = len(env) == 1 and CE.comps(E.field(env[0], rootf[0]))[-1:] == CE.comps(rel)[-1:]
            rep.ob(ok, 'app:target:root', BEF, 'the root directory of the user target is not the one given on the command line')
            builds = [e for e in s.ev if e[0] == 'tbuild' and e[1] == 'UserTarget']
            regs = [e for e in s.ev if e[0] == 'reg' and e[1] == 'UserTarget']
            rep.ob(len(builds) == 1, 'app:build', BEF, 'the user target is built %d times in %s mode' % (len(builds), mode.lower()))
            rep.ob(len(regs) == 1, 'app:reg', BEF, 'the user target is registered %d times in %s mode' % (len(regs), mode.lower()))
            if len(builds) != 1 or len(regs) != 1:
                continue
            u = builds[0][2]
            calls = [(A.api(ctx, c, m, pt), [('init', x)]) for f, c, m, pt in INPUTS for x in fields.get(f, ())]
            ref = reference(ctx, E, s, calls, kinds)
            bdt = lambda t: any(x[0] == 'fld' and 'build_dir' in str(x[2]) for x in subterms(t))
            for f in ctx.kinds:
                a, copies = own(ctx, E, u, f)
                b, _ = own(ctx, E, ref, f)
                if a is None or b is None:
                    rep.bad('app:lost:' + f, BEF, 'contents of %s are replaced' % f); continue
                if script:
                    if f in ('include_dirs', 'headers'):
                        gen = [p for p in a if bdt(p)]
                        if gen:
                            tracked.add(f)
                        a = [p for p in a if p not in gen]
                    if f == 'libs':
                        mine = [p for p in a if mentions(p, oroot('libbuildcc')) or 'obj:libbuildcc' in repr(p) or p[0] == 'one' and mentions(p, LIB)]
                        rep.ob(len(mine) >= 1, 'app:libdep', BEF, 'the user target is not linked with the buildcc library in script mode')
                        a = [p for p in a if p not in mine]
                    if f == 'link_flags':
                        a = [p for p in a if p[1][0] != 'c']
                    fs = {x for x in files if kinds[x] == 'Header'} if f in ('include_dirs', 'headers') else {x for x in files if kinds[x] != 'Header' and kinds[x] != 'none'} if f == 'sources' else set()
                    of = lambda p: {x[1] for x in subterms(p) if x[0] == 'init'} & set(files)
                    for x in sorted(fs):
                        mine = [p for p in a if of(p) == {x}]
                        rep.ob(len(mine) == 1 and repr(mine[0]).count('parent_path') == (f == 'include_dirs'), 'app:lib:' + f, BEF,
                               'a %s file of a library is not added to the %s of the user target' % ('header' if kinds[x] == 'Header' else 'source', f.replace('_', ' ')))
                    extra = [p for p in a if of(p) and not of(p) <= fs]
                    rep.ob(not extra, 'app:libextra:' + f, BEF, 'a library file of another kind is added to the %s of the user target' % f.replace('_', ' '))
                    a = [p for p in a if not of(p)]
                    if f in SYNCED:
                        rep.ob(any(mentions(c, LIB) and f in repr(c) for c in copies), 'app:sync:' + f, BEF, 'the user target does not take over the %s of the buildcc library in script mode' % f.replace('_', ' '))
                else:
                    rep.ob(not copies, 'app:nosync:' + f, BEF, 'the user target takes over %s of the buildcc library although none is used' % f)
                rep.ob(a == b, 'app:input:' + f, BEF, 'the %s of the user target are %s instead of %s' % (f.replace('_', ' '), [pp(p)[:60] for p in a][:4], [pp(p)[:60] for p in b][:4]))
            deps = [e[1:] for e in s.ev if e[0] == 'regdep']
            pk = [e for e in new if e[2] == 'buildcc::BuildBuildCC']
            ps = [e for e in s.ev if e[0] == 'pkgsetup']
            if not script:
                rep.ob(not deps and not pk, 'app:immediate', BEF, 'the buildcc library is built in immediate mode')
                continue
            rep.ob(len(pk) == 1 and len(ps) == 1 and E.field(ps[0][2], 'build') == C(True), 'app:pkg', BEF, 'the buildcc library is not set up exactly once for building in script mode')
            rep.ob(deps == [('UserTarget', 'libbuildcc')], 'app:dep', BEF, 'the user target does not wait for the buildcc library: dependencies %s' % deps)
            ix = [i for i, e in enumerate(s.ev) if e[0] in ('regdep',)]
            if ix and ps:
                rep.ob(s.ev.index(ps[0]) < ix[0] and s.ev.index(regs[0]) < ix[0], 'app:deporder', BEF, 'the dependency is declared before both builders are registered')
            if pk:
                e0 = [x for x in pk[0][3] if x[0] == 'rec' and x[1] == ('new', 'buildcc::TargetEnv')]
                rep.ob(len(e0) == 1 and 'buildcc_base_' in repr(E.field(e0[0], rootf[0])), 'app:pkgroot', BEF, 'the buildcc library is not built from {BUILDCC_HOME}/buildcc')
            sv = [e for e in s.ev if e[0] == 'save']
            rep.ob(len(sv) == 1 and s.ev.index(sv[0]) < s.ev.index(builds[0]), 'app:libdirs', BEF, 'the header with the library directories is not written before the user target is built')
            for e in sv:
                path, data = strip_path(e[1][0]), e[1][1]
                cs = CE.comps(path)
                rep.ob(bdt(path) and cs[-1:] == [C('buildexe_lib_dirs.h')], 'app:libdirs:path', BEF, 'the header with the library directories is written to %s' % pp(path)[:100])
                for z in libs:
                    rep.ob(any(declares(x, ('init', z + '.name'), ('init', z + '.path')) for x in subterms(data) if x[0] == 'cat'), 'app:libdirs:lib', BEF,
                           'the generated header does not give the directory of every library under its name')

        for f in ('include_dirs', 'headers') if script else ():
            rep.ob(f in tracked, 'app:generated:' + f, BEF, 'the generated header with the library directories is missing from the %s of the user target' % f.replace('_', ' '))

def declares(cat, name, path):
    ps = list(cat[1])
    if name not in ps or path not in ps:
        return False
    i, j = ps.index(name), ps.index(path)
    return i + 1 < j and j + 1 < len(ps) and ps[j - 1][0] == 'c' and ps[j - 1][1].rstrip(' ').endswith('= "') and ps[j + 1][0] == 'c' and ps[j + 1][1].startswith('"')

def run_user(ctx, rep):
    """the script mode command"""
    db = ctx.db
    for cfgs in ((), ('c1',), ('c1', 'c2')):
        for ok in (True, False):
            E, st, fr = ctx.engine(AppScn({}), storage_stubs(ctx, lambda *a: None))
            E.ginit = False
            def ex(E, e, a, s, fr):
                s.emit(('exec', E.rv(a[0], s)))
                return V(s, C(ok))
            E.stubs['buildcc::env::Command::Execute'] = ex
            this = (('S', 'bes'), ()); st.types[this[0]] = BE
            info = (('S', 'script'), ()); st.types[info[0]] = 'buildcc::ArgScriptInfo'
            E.set(st, (info[0], ('configs',)), lst(*cfgs))
            rs = E.call_fn(db.func(BE + '::RunUserTarget'), this, [('ref', info)], st, fr)
            rep.use(E)
            rep.need(len(rs), 'RunUserTarget has no result')
            for s, k, v in rs:
                es = [e for e in s.ev if e[0] == 'exec']
                rep.ob(len(es) == 1, 'app:run', BEF, 'the user target is run %d times' % len(es))
                rep.ob((k == 'v') == ok, 'app:run:' + ('ok' if ok else 'fail'), BEF, 'the run of the user target %s but the build executable %s' % (('succeeds', 'fails') if ok else ('fails', 'reports success')))
                for e in es:
                    ps = flat(e[1])
                    tp = [i for i, p in enumerate(ps) if 'obj:UserTarget' in repr(p)]
                    rep.ob(tp == [0] and ps[0][0] == 'disp', 'app:run:exe', BEF, 'the command that runs the user target does not start with its (quoted) path: %s' % pp(e[1])[:160])
                    seen = [(next((x[1] for x in subterms(p) if x[0] == 'init' and x[1] in cfgs), None), i) for i, p in enumerate(ps)]
                    got = [x for x, i in seen if x]
                    rep.ob(got == list(cfgs), 'app:run:configs', BEF, 'the configuration files are not handed over once each, in order: %s' % pp(e[1])[:200])
                    for x, i in seen:
                        if x:
                            before = ''.join(p[1] for p in ps[max(0, i - 1):i] if p[0] == 'c' and isinstance(p[1], str))
                            rep.ob(before.endswith(' --config ') or before.endswith('--config=') and ps[i - 1][1].startswith(' '), 'app:run:config', BEF, 'a configuration file is not handed over as --config: %s' % pp(e[1])[:200])
                            rep.ob(ps[i][0] == 'disp', 'app:run:quote', BEF, 'a configuration file with a space in its path is split in two: %s' % pp(e[1])[:200])

def flat(t):
    """pieces of a string: constants joined, lists spelled out with their separator"""
    def go(t):
        if t[0] == 'cat':
            return [y for x in t[1] for y in go(x)]
        if t[0] == 'join' and t[1][0] == 'seq' and t[2][0] == 'c' and all(p[0] == 'one' for p in t[1][1]):
            out = []
            for n, p in enumerate(t[1][1]):
                out += ([t[2]] if n else []) + go(p[1])
            return out
        if t[0] == 'str' and t[1][0] == 'disp':
            return go(t[1])
        return [t]
    out = []
    for x in go(t):
        if out and out[-1][0] == 'c' and x[0] == 'c' and isinstance(x[1], str) and isinstance(out[-1][1], str):
            out[-1] = C(out[-1][1] + x[1])
        else:
            out.append(x)
    return out

def home_init(ctx, rep):
    db = ctx.db
    f = db.func('buildcc::BuildccHome::Init')
    DIRS = {'GetBuildccHomeDir': [], 'GetBuildccBaseDir': ['buildcc'], 'GetBuildccLibsDir': ['libs'], 'GetBuildccExtensionsDir': ['extensions']}
    def run(env, missing):
        def scn(a, st):
            if a[0] == 'fs' and a[1] == 'exists' or a[0] == 'app' and str(a[1]).endswith('exists'):
                c = [x[1] for x in CE.comps(strip_path(a[2][0]))[1:] if x[0] == 'c']
                return not (missing is not None and c == missing)
            if 'getenv' in repr(a):
                return env if a[0] != 'eq' else (not env)
            if a[0] == 'errval':
                return False
            return None
        E, st, fr = ctx.engine(scn)
        E.env = {'BUILDCC_HOME': '/HH'} if env else {}
        rs = E.call_fn(f, None, [], st, fr)
        rep.use(E)
        return E, rs, fr
    for missing in [None] + list(DIRS.values()):
        E, rs, fr = run(True, missing)
        rep.need(len(rs), 'BuildccHome::Init has no result')
        for s, k, v in rs:
            if k == 'throw' and not any(e[0] == 'fatal' for e in s.ev):
                continue        # file system error
            rep.ob((k == 'v') == (missing is None), 'home:' + ('missing' if missing is not None else 'ok'), HOMEF,
                   'the home directory is refused although it is complete' if missing is None else 'a home directory without /%s is accepted' % '/'.join(missing))
            if k != 'v':
                continue
            for g, want in DIRS.items():
                r = [(s2, k2, v2) for s2, k2, v2 in E.call_fn(db.func('buildcc::BuildccHome::' + g), None, [], s.copy(), fr)]
                t = E.rv(r[0][2], r[0][0]) if len(r) == 1 and r[0][1] == 'v' else None
                cs = CE.comps(strip_path(t)) if t is not None else []
                rep.ob(t is not None and '/HH' in repr(cs[:1]) and [x[1] for x in cs[1:]] == want, 'home:' + g, HOMEF, '%s gives %s' % (g, pp(t)[:100] if t is not None else 'an error'))
            for s2, k2, v2 in E.call_fn(f, None, [], s.copy(), fr):
                rep.ob(k2 != 'v', 'home:twice', HOMEF, 'the home directory can be initialised twice')
    E, rs, fr = run(False, None)
    for s, k, v in rs:
        rep.ob(k != 'v', 'home:env', HOMEF, 'a missing BUILDCC_HOME is accepted')
    E, st, fr = ctx.engine(AppScn({}))
    for g in DIRS:
        for s, k, v in E.call_fn(db.func('buildcc::BuildccHome::' + g), None, [], st.copy(), fr):
            rep.ob(k != 'v', 'home:early', HOMEF, '%s can be used before the home directory is known' % g)

def program(ctx, rep):
    """the steps of the executable"""
    db = ctx.db
    fs = [f for f in db.byqn.get('main', ()) if f['loc'].startswith('buildexe/') and f.get('body') is not None]
    if len(fs) != 1:
        raise AnalysisError('anchor: main of the build executable')
    STEPS = {'buildcc::BuildccHome::Init': 'home', 'buildcc::BuildExeArgs::Setup': 'args', 'buildcc::Reg::Init': 'reg', 'buildcc::Reg::Run': 'run',
             'buildcc::ArgToolchain::ConstructToolchain': 'toolchain', 'buildcc::Toolchain::Verify': 'verify', 'buildcc::ToolchainVerify<buildcc::Toolchain>::Verify': 'verify', 'buildcc::host_toolchain_verify': 'hostverify',
             BE + '::Setup': 'setup', BE + '::RunUserTarget': 'rununser', 'buildcc::plugin::ClangCompileCommands::Generate': 'commands'}
    for q in db.byqn:
        if q.endswith('::Verify') and 'ToolchainVerify' in q:
            STEPS[q] = 'verify'
    for mode in ('Immediate', 'Script'):
        for failing in (None, 'home', 'verify', 'hostverify', 'setup', 'run', 'rununser'):
            if failing in ('hostverify', 'rununser') and mode == 'Immediate':
                continue
            E, st, fr = ctx.engine(AppScn({}), storage_stubs(ctx, lambda *a: None))
            E.ginit = False
            def step(name, q):
                f = db.byqn[q][0]
                def stub(E, e, a, s, fr):
                    if name == 'setup' and len(a) > 1:
                        b = E.as_ref(s, fr, a[1])
                        s.emit(('setupstate', E.get(s, (b[1][0], b[1][1] + ('build',)))))
                    s.emit(('step', name))
                    if name == failing:
                        return [(s, 'throw', ('exc', 'failed'))]
                    if name == 'args' and short(f.get('rt') or '') == 'void':
                        this = E.as_ref(s, fr, a[0])[1]
                        af = {short(x['t']): n for n, x in db.all_fields('buildcc::BuildExeArgs')}
                        E.set(s, (this[0], this[1] + (af['buildcc::BuildExeMode'],)), enumv(db, 'buildcc::BuildExeMode', mode))
                    rt = f.get('rt') or 'void'
                    if rt.rstrip().endswith('&'):
                        r = ('S', 'made:' + name); s.types[r] = short(rt).rstrip('& ')
                        return V(s, ('ref', (r, ())))
                    return V(s, VOID if rt == 'void' else ('init', 'res:' + name))
                return stub
            for q, n in STEPS.items():
                if q in db.byqn:
                    E.stubs[q] = step(n, q)
            E.stubs['buildcc::Reg::Call'] = lambda E, e, a, s, fr: V(s, ('new', 'buildcc::Reg::CallbackInstance'))
            for q in ('buildcc::Reg::CallbackInstance::Func',):
                E.stubs[q] = lambda E, e, a, s, fr: V(s, a[0])
            st.store[R.reg_global(ctx)] = ('ptr', (('S', 'reg'), ()))
            rs = E.call_fn(fs[0], None, [('init', 'argc'), ('init', 'argv')], st, fr)
            rep.use(E)
            rep.need(len(rs), 'main has no result')
            rep.count('program_runs', len(rs))
            for s, k, v in rs:
                got = [e[1] for e in s.ev if e[0] == 'step']
                if k == 'throw' and failing is None:
                    continue
                i = lambda n: got.index(n) if n in got else None
                def first(a, b, m):
                    if i(b) is not None:
                        rep.ob(i(a) is not None and i(a) < i(b), 'main:%s:%s' % (a, b), MAINF, m)
                first('home', 'args', 'the command line is declared before the home directory is known')
                first('args', 'toolchain', 'the toolchain is built before the command line is read')
                first('reg', 'setup', 'builders are registered before Reg::Init')
                first('verify', 'setup', 'builders are set up with a toolchain that was not verified')
                first('verify', 'hostverify', 'the host toolchain is tried before it was found')
                first('setup', 'run', 'Reg::Run comes before the builders are registered')
                first('run', 'rununser', 'the user target is run before it is built')
                if failing:
                    rep.ob(k != 'v', 'main:fail:' + failing, MAINF, 'the build executable reports success although a step fails (%s)' % failing)
                    order = got[got.index(failing) + 1:] if failing in got else []
                    rep.ob(not [x for x in order if x in ('run', 'rununser', 'setup')], 'main:after:' + failing, MAINF, 'the build goes on after a failure (%s)' % failing)
                    continue
                rep.ob(k == 'v' and E.rv(v, s) in (C(0), VOID), 'main:ok', MAINF, 'the build executable fails although every step succeeds')
                for n in ('home', 'args', 'reg', 'toolchain', 'verify', 'setup', 'run'):
                    rep.ob(got.count(n) == 1, 'main:once:' + n, MAINF, 'the step %s runs %d times' % (n, got.count(n)))
                for n in ('rununser', 'hostverify'):
                    rep.ob(got.count(n) == (1 if mode == 'Script' else 0), 'main:%s:%s' % (mode, n), MAINF, 'in %s mode the %s %d times' % (mode.lower(), 'user target is run' if n == 'rununser' else 'host toolchain is tried', got.count(n)))
                rep.ob(got.count('commands') == 1 and i('commands') > i('setup'), 'main:commands', MAINF, 'compile_commands.json is not written for the user target')
                bs = [e[1] for e in s.ev if e[0] == 'setupstate']
                rep.ob(bs == [C(True)], 'main:state', MAINF, 'the builders are not set up for building')

def host_verify(ctx, rep):
    """the trial build of the host toolchain"""
    db = ctx.db
    f = db.func('buildcc::host_toolchain_verify')
    X = 'buildcc::ExecutableTarget_generic'
    ids = [x['name'].rsplit('::', 1)[-1] for x in db.enums['buildcc::ToolchainId']['e']]
    for tid in ids:
        for built, ran in ((True, True), (False, True), (True, False)):
            E, st, fr = ctx.engine(AppScn({'verify_host_toolchain': 'Cpp'}))
            E.ginit = False
            E.oracle = lambda a, st, o=E.oracle: A.fixed('Cpp')(a, st) if A.fixed('Cpp')(a, st) is not None else o(a, st)
            def ctor(E, e, a, s, fr):
                loc = e['ctor_loc']
                s.types[loc[0]] = s.types.get(loc[0], X) if loc[1] else X
                E.set(s, loc, ('init', 'vtarget'))
                E.set(s, (loc[0], loc[1] + (ctx.names.user,)), USER)
                s.emit(('vnew', loc, tuple(E.rv(x, s) for x in a)))
                return V(s, VOID)
            E.stubs[X + '::ExecutableTarget_generic'] = ctor
            def tb(E, e, a, s, fr):
                r = E.as_ref(s, fr, a[0])[1]
                s.emit(('tbuild', r, E.get(s, (r[0], r[1] + (ctx.names.user,)))))
                return V(s, VOID)
            E.stubs['buildcc::Target::Build'] = tb
            def sv(E, e, a, s, fr):
                s.emit(('save', tuple(E.rv(x, s) for x in a)))
                return V(s, C(True))
            E.stubs['buildcc::env::save_file'] = sv
            def ex(E, e, a, s, fr):
                s.emit(('exec', E.rv(a[0], s)))
                return V(s, C(ran))
            E.stubs['buildcc::env::Command::Execute'] = ex
            E.stubs['buildcc::env::get_task_state'] = lambda E, e, a, s, fr: V(s, enumv(db, 'buildcc::env::TaskState', 'SUCCESS' if built or not any(x[0] == 'tbuild' for x in s.ev) else 'FAILURE'))
            tc = (('S', 'toolchain'), ()); st.types[tc[0]] = 'buildcc::Toolchain'
            idf = [n for n, x in db.all_fields('buildcc::Toolchain') if short(x['t']) == 'buildcc::ToolchainId']
            E.set(st, (tc[0], (idf[0],)), enumv(db, 'buildcc::ToolchainId', tid))
            rs = E.call_fn(f, None, [('ref', tc)], st, fr)
            rep.use(E)
            rep.need(len(rs), 'host_toolchain_verify has no result')
            for s, k, v in rs:
                if k == 'throw' and not any(e[0] == 'fatal' for e in s.ev):
                    continue        # file system error
                tb = [e for e in s.ev if e[0] == 'tbuild']
                xs = [e for e in s.ev if e[0] == 'exec']
                sv = [e for e in s.ev if e[0] == 'save']
                if not built or not ran:
                    rep.ob(k != 'v', 'verify:' + ('build' if not built else 'run'), VERF, 'the host toolchain is accepted although the trial program %s' % ('cannot be built' if not built else 'cannot be run'))
                    continue
                if tid in ('Gcc', 'Msvc', 'MinGW'):
                    rep.ob(k == 'v', 'verify:' + tid, VERF, 'a working %s toolchain is refused' % tid)
                if k != 'v':
                    continue
                rep.ob(len(sv) == 1 and len(tb) == 1 and s.ev.index(sv[0]) < s.ev.index(tb[0]), 'verify:steps', VERF, 'the trial program is not written and built')
                rep.ob(len(xs) == 1 and bool(tb) and s.ev.index(tb[0]) < s.ev.index(xs[0]), 'verify:runs', VERF, 'the trial program is not run')
                if len(sv) == 1 and len(tb) == 1:
                    src, _ = own(ctx, E, tb[0][2], 'sources')
                    fl = CE.comps(strip_path(sv[0][1][0]))
                    got = [CE.comps(strip_path(E.field(p[1], 'path'))) for p in src or ()]
                    rep.ob(len(got) == 1 and got[0][-1:] == fl[-1:], 'verify:source', VERF, 'the trial target does not compile the file that was written: %s' % [pp(p)[:120] for p in src or ()])
                    flags, _ = own(ctx, E, tb[0][2], 'cpp_compile_flags')
                    rep.ob(any('c++17' in repr(p) for p in flags or ()), 'verify:std', VERF, 'the trial program is not compiled as C++17')
                for e in xs:
                    ps = flat(e[1])
                    rep.ob('vtarget' in repr(ps[0]) and ps[0][0] == 'disp', 'verify:exec', VERF, 'the trial program is run by its unquoted path, which is split at spaces: %s' % pp(e[1])[:120])

def libs_options(ctx, rep):
    """the options of the installed libraries"""
    import checks_tool as T
    db = ctx.db
    f = db.func('buildcc::ArgLibsInfo::Add')
    fields = {n: short(x['t']) for n, x in db.all_fields('buildcc::ArgLibsInfo')}
    info = [n for n, t in fields.items() if 'LibInfo' in t]
    files = [n for n, t in fields.items() if 'path' in t and 'LibInfo' not in t]
    if len(info) != 1 or len(files) != 1:
        raise AnalysisError('anchor: members of ArgLibsInfo')
    libs = [n for n, x in db.all_fields('buildcc::LibInfo')]
    for ents in ({}, {'fmt': 'dir'}, {'fmt': 'dir', 'my lib': 'dir'}, {'fmt': 'dir', 'readme.md': 'file', 'json': 'dir'}, {'readme.md': 'file'}, None):
        for root in ('/h/libs', '/my home/libs'):
            def oracle(a, st):
                if a[0] == 'errval':
                    return ents is None and a[1][0] == 'errc' and a[1][1] == 'directory_iterator'
                if a[0] == 'fs' or a[0] == 'app' and str(a[1]).startswith('dirent::'):
                    w = T.cstr(T.strip(a[2][0])) if a[2][0][0] != 'dirent' else None
                    n = a[2][0][2] if a[2][0][0] == 'dirent' else w.rsplit('/', 1)[-1] if w else None
                    if isinstance(n, tuple):
                        n = T.cstr(n)
                    kd = (ents or {}).get(n)
                    return {'is_directory': kd == 'dir', 'is_regular_file': kd == 'file', 'exists': kd is not None}.get(a[1].rsplit('::', 1)[-1])
                if a[0] == 'init' and re.search(r'init(ialized)?_?$', str(a[1])):
                    return True
                return None
            E, st, fr = ctx.engine(oracle)
            E.ginit = False
            E.dirs = lambda p: list(ents or ())
            home(ctx, st, True)
            for g in ('GetBuildccLibsDir',):
                E.stubs['buildcc::BuildccHome::' + g] = lambda E, e, a, s, fr: V(s, ('path', C(root)))
            this = (('S', 'li'), ()); st.types[this[0]] = 'buildcc::ArgLibsInfo'
            for n in info + files:
                E.set(st, (this[0], (n,)), mkseq([]))
            app = (('S', 'app'), ()); st.types[app[0]] = 'CLI::App'
            rs = E.call_fn(f, this, [('ref', app)], st, fr)
            rep.use(E)
            what = 'libraries %s below %s: ' % (', '.join(ents) if ents else 'unreadable' if ents is None else 'none', root)
            rep.ob(bool(rs), 'libs:none', ARGF, what + 'no result')
            for s, k, v in rs:
                if k == 'throw' and not any(e[0] == 'fatal' for e in s.ev):
                    continue
                if ents is None:
                    rep.ob(k != 'v', 'libs:unreadable', ARGF, what + 'is not an error')
                    continue
                if not rep.ob(k == 'v', 'libs:fails', ARGF, what + 'is an error'):
                    continue
                rep.count('library_sets')
                want = [n for n in ents if ents[n] == 'dir']
                got = E.get(s, (this[0], (info[0],)))
                got = [p[1] for p in got[1]] if got[0] == 'seq' else []
                texts = [{T.cstr(E.rv(E.field(x, n), s)) for n in libs} for x in got]
                rep.ob(texts == [{n, root + '/' + n} for n in want], 'libs:info', ARGF, what + 'the script is told %s' % [sorted(map(str, t)) for t in texts])
                opts = [e for e in s.ev if e[0] == 'cli' and e[1] == 'add_option_function']
                rep.ob([T.cstr(e[3][0]) for e in opts] == ['--' + n for n in want], 'libs:options', ARGF, what + 'options are %s' % [pp(e[3][0])[:60] for e in opts])
                s0 = s
                for e, n in list(zip(opts, want)):
                    cb = e[3][1][2] if e[3][1][0] == 'at' else e[3][1]
                    r2 = [x for x in E.call_value(cb, [mkseq([('one', C('a.cpp')), ('one', C('b c.cpp'))])], s0.copy(), fr) if x[1] == 'v']
                    if not rep.ob(len(r2) == 1, 'libs:callback', ARGF, what + 'the option of %s has %d outcomes' % (n, len(r2))):
                        continue
                    bs, fs = (E.get(x, (this[0], (files[0],))) for x in (s0, r2[0][0]))
                    new = fs[1][len(bs[1]):] if fs[0] == bs[0] == 'seq' and fs[1][:len(bs[1])] == bs[1] else None
                    rep.ob(new is not None and [T.cstr(p[1]) for p in new] == [root + '/' + n + '/' + x for x in ('a.cpp', 'b c.cpp')], 'libs:files', ARGF, what + 'the option of %s adds %s' % (n, pp(fs)[:200]))
                    s0 = r2[0][0]

def mode_option(ctx, rep):
    """--mode selects the mode it names"""
    import checks_misc as M
    db = ctx.db
    f = db.func('buildcc::BuildExeArgs::SetupBuildMode')
    E, st, fr = ctx.engine()
    this = (('S', 'args'), ()); st.types[this[0]] = 'buildcc::BuildExeArgs'
    app = (('S', 'app'), ()); st.types[app[0]] = 'CLI::App'
    mf = [n for n, x in db.all_fields('buildcc::BuildExeArgs') if short(x['t']) == 'buildcc::BuildExeMode'][0]
    rs = E.call_fn(f, this, [('ref', app)], st, fr)
    rep.use(E)
    rep.need(len(rs), 'no result of SetupBuildMode')
    for s, k, v in rs:
        os_ = M.options(s).get('--mode', [])
        if not rep.ob(k == 'v' and len(os_) == 1, 'mode:declared', ARGF, '--mode is declared %d times' % len(os_)):
            continue
        o = os_[0]
        rep.ob(o['loc'] == (this[0], (mf,)) and o['required'], 'mode:bound', ARGF, '--mode is not a required option for the mode')
        m = M.name_map(E, o['transform']) if o['transform'] else None
        names = {x['name'].rsplit('::', 1)[-1].lower() for x in db.enums['buildcc::BuildExeMode']['e']}
        rep.ob(m is not None and {k[1].lower() for k, v in m} == names and all(v[0] == 'enum' and v[1].rsplit('::', 1)[-1].lower() == k[1].lower() for k, v in m), 'mode:names', ARGF, '--mode names select other modes: %s' % [(pp(a), pp(b)) for a, b in m or ()])

def c35(ctx, rep):
    """Interprets the build executable"""
    inputs_of(ctx, rep)
    libs_options(ctx, rep)
    mode_option(ctx, rep)
    run_user(ctx, rep)
    home_init(ctx, rep)
    program(ctx, rep)
    host_verify(ctx, rep)

FINDF = 'buildcc/plugins/src/buildcc_find.cpp'

def c37(ctx, rep):
    """The search plugin is interpreted on constant environment variables and directory contents, with the regular expression left open: which of the names it matches is enumerated."""
    import checks_tool as T
    import itertools
    db = ctx.db
    Q = 'buildcc::plugin::BuildccFind'
    find = db.func(Q + '::Search')
    get = db.func(Q + '::GetPathMatches')
    ctors = [g for g in db.byqn.get(Q + '::BuildccFind', ()) if g.get('body') is not None and len(g['params']) >= 2]
    if len(ctors) != 1:
        raise AnalysisError('anchor: constructor of BuildccFind')
    types = [x['name'].rsplit('::', 1)[-1] for x in db.enums[Q + '::Type']['e']]
    NAMES_ = ('gcc', 'gcc-12', 'g.c')
    D = {'/d0': NAMES_, '/d1': ('gcc',), '/d2': (), '/e e': ('gcc', 'g.c')}
    envs = [({'A': '/d0'}, ('A',)), ({'A': '/d0:/d1'}, ('A',)), ({'A': '/d1:/d0'}, ('A',)), ({'A': '/bad:/d0'}, ('A',)), ({'A': '/d1', 'B': '/d0'}, ('B', 'A')), ({'A': '/d1', 'B': '/d0'}, ('A', 'B')),
            ({}, ('A',)), ({'B': '/d0'}, ('A', 'B')), ({'A': '/d2'}, ('A',)), ({'A': '/bad'}, ('A',)), ({'A': ''}, ('A',)), ({'A': '/d1::/d2:/e e'}, ('A',)), ({'A': '/d0'}, ()), ({'A': '/d1:/d1'}, ('A',)),
            ({'A': '/d1', 'B': '/bad:/d2', 'X': '/e e:/d0'}, ('A', 'Z', 'B', 'X'))]
    if ctx.tier == 'thorough':
        for a, b, c in itertools.product(('/d0', '/d1', '/bad', '/e e'), repeat=3):
            envs += [({'A': a + ':' + b, 'B': c}, ('A', 'B')), ({'A': a + ':' + b + ':' + c}, ('A',))]
    for late in (False, True):
        for env, vars_ in envs:
            for r in range(len(NAMES_) + 1):
                for hit in itertools.combinations(NAMES_, r):
                    if late and (len(hit) != 1):
                        continue
                    for ty in types if hit == NAMES_ else ['HostExecutable']:
                        def oracle(a, st):
                            if a[0] == 'eq' and NULL in a[1:3] and any(x[0] == 'c' for x in a[1:3]):
                                return False
                            if a[0] == 'errval':
                                if a[1][0] == 'errc' and a[1][1] == 'directory_iterator':
                                    return T.cstr(T.strip(a[1][2][0])) not in D
                                return None
                            if a[0] == 'app' and a[1].endswith('regex_match') and len(a[2]) >= 2:
                                x = a[2][1]
                                if not (x[0] == 'app' and 'basic_regex' in x[1] and strip_path(x[2][0]) == ('init', 'regex')):
                                    return None
                                if not all(o[0] == 'init' and str(o[1]).rsplit('@', 1)[-1] in ('ECMAScript', 'match_default') for o in x[2][1:] + a[2][2:]):
                                    return None     # another language of expressions
                                n = T.cstr(T.strip(a[2][0]))
                                return None if n is None else n in hit
                            if a[0] == 'app' and a[1] == 'path::has_filename':
                                return bool(T.cstr(a[2][0])) and not T.cstr(a[2][0]).endswith('/')
                            return None
                        E, st, fr = ctx.engine(oracle)
                        E.env = env
                        E.dirs = lambda p: list(D.get(p[1], ())) if p[0] == 'c' else None
                        this = (('S', 'bf'), ()); st.types[this[0]] = Q
                        vs = mkseq([('one', C(x)) for x in vars_])
                        rs = E.run_ctor(ctors[0], Q, this, [('init', 'regex'), enumv(db, Q + '::Type', ty)] + ([mkseq([])] if late else [vs]), st, fr)
                        ok = [x for x in rs if x[1] == 'v']
                        rep.need(len(ok), 'constructor of BuildccFind has no result')
                        st = ok[0][0]
                        if late:
                            for n in vars_:
                                o = [x for x in E.call_fn(db.func(Q + '::AddHostEnvVar'), this, [C(n)], st, fr) if x[1] == 'v']
                                rep.need(len(o), 'AddHostEnvVar has no result')
                                st = o[0][0]
                        want = [p + '/' + n for v in vars_ for p in (env.get(v) or '').split(':') for n in D.get(p, ()) if n in hit] if ty == 'HostExecutable' else []
                        what = 'search of %s for %s: ' % (', '.join('%s=%s' % (v, env.get(v, 'unset')) for v in vars_), '|'.join(hit) or 'nothing')
                        rs = E.call_fn(find, this, [], st, fr)
                        rep.ob(bool(rs), 'search:none', FINDF, what + 'does not return')
                        rep.count('searches')
                        for s, k, v in rs:
                            if not rep.ob(k == 'v', 'search:fails', FINDF, what + 'ends with an exception'):
                                continue
                            for s2, k2, m in E.call_fn(get, this, [], s, fr):
                                m = E.rv(m, s2)
                                got = [T.cstr(p[1]) for p in m[1]] if m[0] == 'seq' and all(p[0] == 'one' for p in m[1]) else [pp(m)[:100]]
                                rep.ob(got == want, 'search:matches' if ty == 'HostExecutable' else 'search:type', FINDF, what + 'finds %s instead of %s' % (got, want))
                            rep.ob(E.rv(v, s) == C(bool(want)), 'search:result', FINDF, what + 'returns %s although %d entries match' % (pp(E.rv(v, s))[:60], len(want)))
                        rep.use(E)

BOOTF = 'bootstrap/src/build_buildcc.cpp'
APIS = ('GlobSources', 'GlobHeaders', 'AddIncludeDir', 'AddSource', 'AddHeader', 'AddLibDep', 'AddPreprocessorFlag', 'AddLinkFlag', 'AddCppCompileFlag', 'Insert', 'Build', 'AddLibDir', 'AddCommonCompileFlag')
TEST = ('test', 'mock', 'expect_tests', 'tests')

def api_stubs(ctx):
    out = {}
    def mk(n):
        def stub(E, e, a, s, fr):
            s.emit(('call', n, tuple(x if x[0] == 'ref' else E.rv(x, s) for x in a)))
            return V(s, VOID)
        return stub
    for q in ctx.db.byqn:
        n = q.rsplit('::', 1)[-1]
        if n in APIS and ('Api<' in q or q == 'buildcc::Target::Build'):
            out[q] = mk(n)
    if len(out) < len(APIS) - 2:
        raise AnalysisError('anchor: target API of the bootstrap callbacks')
    return out

def sources_below(root):
    """directories with sources / headers of the library, relative to root"""
    import os
    src, hdr = {}, {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in TEST and not x.startswith(('.', '_'))]
        r = os.path.relpath(d, root).replace(os.sep, '/')
        for f in fs:
            if f.endswith(('.cpp', '.cc', '.cxx', '.c')):
                src.setdefault('' if r == '.' else r, []).append(f)
            elif f.endswith(('.h', '.hpp')):
                hdr.setdefault('' if r == '.' else r, []).append(f)
    return src, hdr

def norm(t):
    import checks_tool as T
    s = T.cstr(strip_path(t))
    if s is None:
        return None
    return '/'.join(x for x in s.split('/') if x not in ('', '.'))

def own_calls(s, r):
    """API calls on one object"""
    out = []
    for e in s.ev:
        if e[0] == 'call' and e[2] and e[2][0][0] == 'ref' and e[2][0][1][0] == r:
            out.append(e)
    return out

def c36(ctx, rep):
    """The callbacks which describe libbuildcc and its third party libraries are interpreted; the directories they name are compared with the source tree."""
    import extract, os
    db = ctx.db
    f = db.func('buildcc::buildcc_cb')
    src, hdr = sources_below(os.path.join(extract.REPO, 'buildcc'))
    rep.need(len(src) > 8 and len(hdr) > 8, 'source tree of libbuildcc')
    NP = len(f['params'])
    ids = [x['name'].rsplit('::', 1)[-1] for x in db.enums['buildcc::ToolchainId']['e']]
    O = lambda i: (('S', 'o%d' % i), ())
    for tid in ids:
        def oracle(a, st):
            return True if a[0] == 'init' and re.search(r'init(ialized)?_?$', str(a[1])) else None
        E, st, fr = ctx.engine(oracle, api_stubs(ctx))
        E.ginit = False
        E.stubs['buildcc::Toolchain::GetId'] = lambda E, e, a, s, fr: V(s, enumv(db, 'buildcc::ToolchainId', tid))
        for i in range(NP):
            st.types[O(i)[0]] = 'buildcc::Target' if i in (0, NP - 1) else 'buildcc::TargetInfo'
        rs = E.call_fn(f, None, [('ref', O(i)) for i in range(NP)], st, fr)
        rep.use(E)
        rep.need(len(rs), 'buildcc_cb has no result')
        for s, k, v in rs:
            rep.ob(k == 'v', 'lib:fails', BOOTF, 'libbuildcc cannot be described with %s' % tid)
            cs = own_calls(s, O(0)[0])
            rep.count('api_calls', len(cs))
            args = lambda n: [e[2] for e in cs if e[1] == n]
            globs = [norm(a[1]) for a in args('GlobSources')]
            single = [norm(a[1]) for a in args('AddSource')]
            for d in sorted(src):
                ok = d in globs or all((d + '/' + x).strip('/') in single for x in src[d])
                rep.ob(ok, 'lib:src:' + d, BOOTF, 'the sources of %s are not part of libbuildcc' % d)
                rep.ob(globs.count(d) <= 1, 'lib:src2:' + d, BOOTF, 'the sources of %s are added twice' % d)
            for d in globs:
                rep.ob(d is not None and d in src, 'lib:nosrc:%s' % d, BOOTF, 'sources are taken from %s, which has none' % d)
            incs = [(norm(a[1]), len(a) > 2 and a[2] == C(True)) for a in args('AddIncludeDir')]
            hglobs = [norm(a[1]) for a in args('GlobHeaders')] + [d for d, g in incs if g] 
            hsingle = [norm(a[1]) for a in args('AddHeader')]
            for d in sorted(hdr):
                root = d[:d.index('include') + len('include')] if 'include' in d.split('/') else d
                rep.ob(root in [x for x, _ in incs], 'lib:inc:' + root, BOOTF, '%s is not an include directory of libbuildcc' % (root or '.'))
                ok = d in hglobs or all((d + '/' + x).strip('/') in hsingle for x in hdr[d])
                rep.ob(ok, 'lib:hdr:' + d, BOOTF, 'a change to a header of %s does not rebuild libbuildcc' % (d or '.'))
                rep.count('header_directories')
            opts = {}
            for a in args('Insert'):
                if a[1][0] == 'ref':
                    o = E.rv(a[2], s)
                    while o[0] == 'ref':
                        o = E.get(s, o[1])
                    opts[a[1][1][0]] = {p[1][1].rsplit('::', 1)[-1] for p in o[1] if p[1][0] == 'enum'} if o[0] == 'seq' else set()
            for i in range(1, NP):
                got = opts.get(O(i)[0])
                rep.ob(got is not None and {'IncludeDirs', 'HeaderFiles'} <= got, 'lib:insert:%d' % i, BOOTF, 'include directories and headers of %s are not those of libbuildcc' % f['params'][i]['name'])
            deps = args('AddLibDep')
            rep.ob(any(a[1][0] == 'ref' and a[1][1][0] == O(NP - 1)[0] for a in deps), 'lib:tpl', BOOTF, 'libbuildcc is not linked with the process library')
            fl = {pp(a[1]) for a in args('AddPreprocessorFlag')}
            import checks_tool as T
            fl = {T.cstr(strip_path(a[1])) for a in args('AddPreprocessorFlag')}
            if tid == 'Gcc':
                rep.ob({'-DFMT_HEADER_ONLY=1', '-DSPDLOG_FMT_EXTERNAL'} <= fl, 'lib:flags', BOOTF, 'fmt and spdlog are not used header only: %s' % sorted(map(str, fl)))
                rep.ob(any(T.cstr(strip_path(E.rv(a[1], s))) == '-lpthread' for a in deps if a[1][0] != 'ref' or a[1][1][0] != O(NP - 1)[0]), 'lib:pthread', BOOTF, 'libbuildcc is not linked with threads')
            names = [e[1] for e in cs]
            rep.ob(names.count('Build') == 1 and names[-1] == 'Build', 'lib:build', BOOTF, 'libbuildcc is built %d times, or changed after it was' % names.count('Build'))
    third_party(ctx, rep)
    package(ctx, rep)

def third_party(ctx, rep):
    """what the libraries libbuildcc needs consist of"""
    import checks_tool as T
    db = ctx.db
    want = {'nlohmann_json_ho_cb': 'include', 'cli11_ho_cb': 'include', 'fmt_ho_cb': 'include', 'spdlog_ho_cb': 'include', 'taskflow_ho_cb': '', 'tpl_cb': ''}
    for q, inc in want.items():
        f = db.func('buildcc::' + q)
        E, st, fr = ctx.engine(AppScn({}), api_stubs(ctx))
        o = (('S', 'o'), ()); st.types[o[0]] = 'buildcc::Target' if q == 'tpl_cb' else 'buildcc::TargetInfo'
        rs = E.call_fn(f, None, [('ref', o)], st, fr)
        rep.use(E)
        rep.need(len(rs), '%s has no result' % q)
        for s, k, v in rs:
            cs = own_calls(s, o[0])
            args = lambda n: [norm(e[2][1]) for e in cs if e[1] == n]
            w = f['loc']
            rep.ob(k == 'v' and inc in args('AddIncludeDir'), 'third:inc:' + q, w, 'the include directory of the library is missing')
            hs = args('GlobHeaders') + args('AddHeader')
            rep.ob(bool(hs) and all(h is not None and (not inc or h.startswith(inc + '/')) for h in hs), 'third:hdr:' + q, w, 'the headers of the library are missing')
            if q == 'tpl_cb':
                rep.ob(sorted(map(str, args('AddSource'))) == ['process.cpp', 'process_unix.cpp'], 'third:src', w, 'the process library is built from %s on Linux' % args('AddSource'))
                n = [e[1] for e in cs]
                rep.ob(n.count('Build') == 1 and n[-1] == 'Build', 'third:build', w, 'the process library is built %d times, or changed after it was' % n.count('Build'))

def package(ctx, rep):
    """the package: which library lives where, and how they are registered"""
    import extract
    db = ctx.db
    B = 'buildcc::BuildBuildCC'
    made = {}
    st0 = {}
    new = storage_stubs(ctx, lambda *a: None)
    E, st, fr = ctx.engine(AppScn({}), new)
    this = (('S', 'pkg'), ()); st.types[this[0]] = B
    ef = [n for n, x in db.all_fields(B) if short(x['t']) == 'buildcc::TargetEnv'][0]
    tf = [n for n, x in db.all_fields(B) if 'BaseToolchain' in x['t'] or 'Toolchain' in short(x['t'])][0]
    E.set(st, (this[0], (tf,)), ('ref', (('S', 'tc'), ())))
    st.types[('S', 'tc')] = 'buildcc::Toolchain'
    TE = 'buildcc::TargetEnv'
    E.stubs[TE + '::GetTargetRootDir'] = lambda E, e, a, s, fr: V(s, ('init', 'ROOT'))
    E.stubs[TE + '::GetTargetBuildDir'] = lambda E, e, a, s, fr: V(s, ('init', 'BUILD'))
    E.stubs[TE + '::TargetEnv'] = lambda E, e, a, s, fr: (E.set(s, e['ctor_loc'], ('app', 'tenv', tuple(E.rv(x, s) for x in a))), V(s, VOID))[1]
    rs = [x for x in E.call_fn(db.func(B + '::Initialize'), this, [], st, fr) if x[1] == 'v']
    rep.use(E)
    rep.need(len(rs) == 1, 'outcomes of Initialize', )
    s0 = rs[0][0]
    objs = {}
    for e in s0.ev:
        if e[0] == 'new':
            env = [x for a in e[3] for x in subterms(a) if x[0] == 'app' and x[1] == 'tenv']
            objs[e[1]] = (e[2], tuple(tuple(CE.comps(strip_path(x))) for x in env[0][2]) if env else None, e[3])
    rep.count('libraries', len(objs))
    roots = [o[1][0] for o in objs.values() if o[1]]
    rep.ob(len(set(roots)) == len(roots) == len(objs), 'pkg:roots', BOOTF, 'two libraries have the same root directory')
    for i, (cls, env, args) in objs.items():
        rep.ob(env is not None and len(env) == 2 and env[1] == tuple(CE.comps(('init', 'BUILD'))), 'pkg:build:' + i, BOOTF, '%s is not built below the build directory of the package' % i)
        if 'Target_' in cls:
            rep.ob(args[0] == C(i), 'pkg:name:' + i, BOOTF, '%s has the name %s' % (i, pp(args[0])))
    # registration
    names = ctx.names
    s1 = s0.copy(); s1.ev = ()
    E.stubs['buildcc::Reg::Toolchain'] = lambda E, e, a, s, fr: (s.emit(('regtc', E.rv(a[0], s) if a[0][0] != 'ref' else a[0])), V(s, ('new', short(db.byqn['buildcc::Reg::Toolchain'][0]['rt']).rstrip('& '))))[1]
    def rec_(n):
        def stub(E, e, a, s, fr):
            s.emit(('r', n, tuple(E.rv(x, s) if x[0] != 'ref' or E.rv(x, s)[0] in ('fn', 'clo') else (target_of(E, s, x) or (x[1][0][1] if x[1][0][0] == 'S' else pp(x))) for x in a[1:])))
            return V(s, a[0])
        return stub
    for n in ('Func', 'Build', 'Dep'):
        for q in db.byqn:
            if re.fullmatch(r'buildcc::Reg::\w*Instance::' + n, q):
                E.stubs[q] = rec_(n)
    rs = E.call_fn(db.func(B + '::Setup'), this, [('init', 'state')], s1, fr)
    rep.use(E)
    rep.need(len(rs), 'Setup has no result')
    def fname(x):
        return x[2].rsplit('::', 1)[-1] if isinstance(x, tuple) and x[0] == 'fn' else pp(x) if isinstance(x, tuple) else str(x)
    def obj(which):
        c = [i for i, o in objs.items() if o[1] and any(which in pp(y).lower() for y in o[1][0][-1:])]
        if not rep.ob(len(c) == 1, 'pkg:dir:' + which, BOOTF, '%d libraries of the package have the root directory of %s' % (len(c), which)):
            return '-'
        return c[0]
    want = {'nlohmann_json_ho_cb': 'json', 'cli11_ho_cb': 'cli11', 'fmt_ho_cb': 'fmt', 'spdlog_ho_cb': 'spdlog', 'taskflow_ho_cb': 'taskflow', 'tpl_cb': 'tiny-process', 'buildcc_cb': 'buildcc'}
    cbp = [p['name'] for p in db.func('buildcc::buildcc_cb')['params']]
    for s, k, v in rs:
        rep.ob(k == 'v', 'pkg:setup', BOOTF, 'the package cannot be registered')
        ev = [(n, [fname(x) for x in a]) for n, a in ((e[1], e[2]) for e in s.ev if e[0] == 'r')]
        pos = {}
        for cb, w in want.items():
            o = obj(w)
            xs = [(i, n, a) for i, (n, a) in enumerate(ev) if a[0] == cb]
            if not rep.ob(len(xs) == 1 and xs[0][2][1] == o, 'pkg:cb:' + cb, BOOTF, '%s is called %d times%s' % (cb, len(xs), ' for ' + xs[0][2][1] if xs else '')):
                continue
            rep.ob(xs[0][1] == ('Build' if cb in ('tpl_cb', 'buildcc_cb') else 'Func'), 'pkg:how:' + cb, BOOTF, '%s is registered through %s' % (cb, xs[0][1]))
            pos[cb] = xs[0]
        if 'buildcc_cb' in pos:
            i, n, a = pos['buildcc_cb']
            for cb in want:
                if cb in pos and cb != 'buildcc_cb':
                    rep.ob(pos[cb][0] < i, 'pkg:order:' + cb, BOOTF, '%s runs after libbuildcc was described' % cb)
            for p, x in zip(cbp[1:], a[2:]):
                w = [y for c, y in want.items() if c.replace('_cb', '').split('_ho')[0].split('_')[-1] in p.lower()]
                rep.ob(len(w) == 1 and x == obj(w[0]), 'pkg:arg:' + p, BOOTF, 'libbuildcc is given %s as %s' % (x, p))
        for t in ('tiny-process', 'buildcc'):
            cb = 'tpl_cb' if t != 'buildcc' else 'buildcc_cb'
            fl = [i for i, (n, a) in enumerate(ev) if a[0] not in want and n == 'Func' and len(a) > 1 and a[1] == obj(t)]
            rep.ob(len(fl) >= 1 and (cb not in pos or fl[0] < pos[cb][0]), 'pkg:flags:' + t, BOOTF, 'the common flags are not set before %s is built' % obj(t))
        deps = [a for n, a in ev if n == 'Dep']
        rep.ob([obj('buildcc'), obj('tiny-process')] in deps, 'pkg:dep', BOOTF, 'libbuildcc is not registered as depending on the process library: %s' % deps)
