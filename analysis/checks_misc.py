"""C25-...: storage, command line arguments, files, plugins, toolchains, shared state"""
import itertools
from base import *
from scn import strip_path

def fatal(k, s):
    return k in ('exit', 'throw') and any(e[0] == 'fatal' for e in s.ev)

def fn_ta(ctx, qn, ta):
    fs = [f for f in ctx.db.byqn.get(qn, ()) if f.get('body') is not None and (f.get('ta') or [''])[0] == ta]
    if not fs:
        raise AnalysisError('anchor vanished: %s<%s>' % (qn, ta))
    return fs[0]

def fn_any(ctx, qn):
    fs = [f for f in ctx.db.byqn.get(qn, ()) if f.get('body') is not None]
    if not fs:
        raise AnalysisError('anchor vanished: ' + qn)
    return fs[0]

def c25(ctx, rep):
    """Every history of Add and Clear up to the bound over two ids and two types, with every query after every step, is interpreted and compared with a map from id to
    (type, object); objects alive = objects created and not destroyed."""
    W, Gd = 'vp_inst::Widget', 'vp_inst::Gadget'
    depth = 3 if ctx.tier == 'quick' else 4
    for cls in ('buildcc::ScopedStorage', 'buildcc::Storage'):
        F = {}
        for t in (W, Gd):
            for n in ('Add', 'ConstRef', 'Ref', 'Valid'):
                F[n, t] = fn_ta(ctx, cls + '::' + n, t)
        F['Clear'] = fn_any(ctx, cls + '::Clear')
        F['Contains'] = fn_any(ctx, cls + '::Contains')
        S = (('S', 'storage'), ())
        E, st, fr = ctx.engine()
        this = None
        if cls.endswith('ScopedStorage'):
            st.types[S[0]] = cls
            dc = E.default_ctor(cls)
            rs = E.run_ctor(dc, cls, S, [], st, fr) if dc is not None else E.default_construct(cls, S, st, fr)
            st = rs[0][0]
            this = S
        def loc_of(s, v):
            return v[1] if v[0] == 'ref' else None
        def step(s, op):
            s = s.copy()
            s.ev = tuple(e for e in s.ev if e[0] in ('new', 'delete', 'delete2'))
            if op == 'Clear':
                return E.call_fn(F['Clear'], this, [], s, fr)
            _, t, i, val = op
            return E.call_fn(F['Add', t], this, [C(i), C(val)], s, fr)
        def alive(s):
            new = [('ptr', e[2]) for e in s.ev if e[0] == 'new']
            dead = [e[1] for e in s.ev if e[0] == 'delete']
            return [x for x in new if x not in dead], new, dead, [e for e in s.ev if e[0] == 'delete2']
        def probe(s, model, hist):
            rep.count('states')
            for i in ('x', 'y', 'z'):
                what = 'after %s: ' % (hist or 'nothing')
                for s2, k, v in E.call_fn(F['Contains'], this, [C(i)], s.copy(), fr):
                    for s3, b in E.truth(s2, E.rv(v, s2)):
                        rep.ob(k == 'v' and b == (i in model), '%s:contains' % cls, F['Contains']['loc'], what + 'Contains(%s) is %s' % (i, b))
                for t in (W, Gd):
                    good = i in model and model[i][0] == t
                    tn = t.split('::')[-1]
                    for s2, k, v in E.call_fn(F['Valid', t], this, [C(i)], s.copy(), fr):
                        for s3, b in E.truth(s2, E.rv(v, s2)):
                            rep.ob(k == 'v' and b == good, '%s:valid' % cls, F['Valid', t]['loc'], what + 'Valid<%s>(%s) is %s' % (tn, i, b))
                    for n in ('ConstRef', 'Ref'):
                        s0 = s.copy()
                        s0.ev = ()
                        for s2, k, v in E.call_fn(F[n, t], this, [C(i)], s0, fr):
                            if good:
                                rep.ob(k == 'v' and loc_of(s2, v) == model[i][1], '%s:ref' % cls, F[n, t]['loc'], what + '%s<%s>(%s) does not give the object that was added' % (n, tn, i))
                            else:
                                rep.ob(fatal(k, s2), '%s:badref' % cls, F[n, t]['loc'], what + '%s<%s>(%s) gives an object although %s' % (n, tn, i, 'the id holds another type' if i in model else 'the id is unknown'))
        def go(s, model, hist, n):
            probe(s, model, hist)
            if n == 0:
                return
            for op in (('Add', W, 'x', n), ('Add', Gd, 'x', n), ('Add', W, 'y', n), 'Clear'):
                name = op if op == 'Clear' else 'Add<%s>(%s)' % (op[1].split('::')[-1], op[2])
                rs = step(s, op)
                what = 'after %s: ' % (hist or 'nothing')
                rep.ob(bool(rs), '%s:none' % cls, F['Clear']['loc'], what + name + ' never returns')
                for s2, k, v in rs:
                    live, new, dead, twice = alive(s2)
                    m2 = dict(model)
                    where = F['Clear']['loc'] if op == 'Clear' else F['Add', op[1]]['loc']
                    if op == 'Clear':
                        m2 = {}
                        if not rep.ob(k == 'v', '%s:clear' % cls, where, what + 'Clear fails'):
                            continue
                    elif op[2] in model:
                        rep.ob(fatal(k, s2), '%s:dup' % cls, where, what + name + ' is accepted although the id is in use')
                    else:
                        if not rep.ob(k == 'v' and v[0] == 'ref', '%s:add' % cls, where, what + name + ' fails'):
                            continue
                        m2[op[2]] = (op[1], v[1])
                        val = E.field(E.get(s2, v[1]), 'value')
                        rep.ob(val == C(op[3]), '%s:value' % cls, where, what + name + ' does not construct the object from the given arguments')
                    rep.ob(not twice, '%s:twice' % cls, where, what + name + ' destroys an object twice')
                    want = [('ptr', l) for t, l in m2.values()]
                    rep.ob(all(x in want for x in live), '%s:leak' % cls, where, what + name + ' leaves an object behind that nobody owns')
                    rep.ob(all(x not in dead for x in want), '%s:early' % cls, where, what + name + ' destroys an object that is still in use')
                    if k == 'v':
                        go(s2, m2, (hist + ', ' if hist else '') + name, n - 1)
        go(st, {}, '', depth)
        rep.use(E)
    dt = [f for f in ctx.db.byqn.get('buildcc::ScopedStorage::~ScopedStorage', ()) if f.get('body') is not None]
    if dt:
        E, st, fr = ctx.engine()
        S = (('S', 'storage'), ())
        st.types[S[0]] = 'buildcc::ScopedStorage'
        st = E.default_construct('buildcc::ScopedStorage', S, st, fr)[0][0]
        add = fn_ta(ctx, 'buildcc::ScopedStorage::Add', W)
        for s, k, v in E.call_fn(add, S, [C('x'), C(1)], st, fr):
            for s2, k2, v2 in E.call_fn(dt[0], S, [], s, fr):
                new = [('ptr', e[2]) for e in s2.ev if e[0] == 'new']
                dead = [e[1] for e in s2.ev if e[0] == 'delete']
                rep.ob(k2 == 'v' and bool(dead) and all(x in dead for x in new), 'dtor', dt[0]['loc'], 'the destructor of the storage does not destroy what it owns')
        rep.use(E)

# option -> member it stands for, per registering operation
TOOLCHAIN_OPTS = {'--build': ('state', 'build'), '--test': ('state', 'test'), '--id': ('id',), '--name': ('name',), '--asm_compiler': ('executables', 'assembler'),
                  '--c_compiler': ('executables', 'c_compiler'), '--cpp_compiler': ('executables', 'cpp_compiler'), '--archiver': ('executables', 'archiver'), '--linker': ('executables', 'linker')}
TARGET_OPTS = {'--compile_command': ('compile_command',), '--link_command': ('link_command',)}
INFO_OPTS = {'--name': ('name',), '--type': ('type',), '--relative_to_root': ('relative_to_root',)}
INPUT_OPTS = {'--srcs': ('source_files',), '--includes': ('include_dirs',), '--lib_dirs': ('lib_dirs',), '--external_libs': ('external_lib_deps',),
              '--preprocessor_flags': ('preprocessor_flags',), '--common_compile_flags': ('common_compile_flags',), '--asm_compile_flags': ('asm_compile_flags',),
              '--c_compile_flags': ('c_compile_flags',), '--cpp_compile_flags': ('cpp_compile_flags',), '--link_flags': ('link_flags',)}
SCRIPT_OPTS = {'--configs': ('configs',)}
ADDERS = ('add_option', 'add_flag', 'add_option_function')

def cli_parent(o):
    """chain of sub command names above an option or app object"""
    out = []
    while o[0] == 'cliobj':
        if o[1] == 'at':
            out.append(('app', o[2]))
            break
        if o[1] == 'add_subcommand':
            out.append(('sub', o[2][1][0]))
        o = o[2][2]
    return tuple(reversed(out))

def options(s):
    """option name -> list of (kind, bound location, owner chain, defaults, required, transform, line)"""
    out = {}
    for e in s.ev:
        if e[0] == 'cli' and e[1] in ADDERS and e[3] and e[3][0][0] == 'c':
            obj = ('cliobj', e[1], (e[1], e[3][:1], e[2]))
            ref = [x for x in e[3][1:] if x[0] == 'at']
            d = dict(kind=e[1], loc=ref[0][1] if ref else None, chain=cli_parent(e[2]), defaults=[], required=False, transform=None, line=e[4])
            for x in s.ev:
                if x[0] == 'cli' and x[2] == obj:
                    if x[1] == 'default_val':
                        d['defaults'].append(x[3][0])
                    elif x[1] == 'required':
                        d['required'] = x[3] in ((), (TRUE,))
                    elif x[1] in ('transform', 'check'):
                        d['transform'] = x[3][0]
            out.setdefault(e[3][0][1], []).append(d)
    return out

def name_map(E, t):
    """string -> enumerator of a transformer"""
    for x in subterms(t):
        if x[0] == 'seq' and x[1] and all(p[0] == 'one' for p in x[1]):
            ks = [(E.field(p[1], 'first'), E.field(p[1], 'second')) for p in x[1]]
            if all(k[0] == 'c' and isinstance(k[1], str) for k, v in ks):
                return ks
    return None

def c26(ctx, rep):
    """The code that declares the command line is interpreted; every option must be bound to the member its name stands for, below its own sub command, and fall back to
    the same member of the initial value; names of enumerators must be complete and one to one; the getters must return what the options write."""
    db = ctx.db
    init = fn_any(ctx, 'buildcc::Args::Init')
    def started():
        E, st, fr = ctx.engine()
        rs = [s for s, k, v in E.call_fn(init, None, [], st, fr) if k == 'v']
        if len(rs) != 1:
            raise AnalysisError('anchor: Args::Init has %d outcomes' % len(rs))
        return E, rs[0], fr
    def enum_map(E, what, opt, t, names):
        m = name_map(E, t) if t is not None else None
        if not rep.ob(m is not None, 'map:' + what, opt['line'], '%s accepts no named values' % what):
            return
        low = lambda s: s.split('::')[-1].lower().replace('_', '')
        for k, v in m:
            rep.ob(v[0] == 'enum' and low(v[1]) == low(k[1]), 'map:%s:%s' % (what, k[1]), opt['line'], '%s %s selects %s' % (what, k[1], pp(v)))
        vs = [v[1].split('::')[-1] for k, v in m if v[0] == 'enum']
        rep.ob(len(set(vs)) == len(vs), 'map:%s:once' % what, opt['line'], '%s has two names for one value' % what)
        rep.ob(all(any(low(n) == low(v) for v in vs) for n in names), 'map:%s:all' % what, opt['line'], '%s does not name all of %s' % (what, ', '.join(names)))
    def bound(E, s, table, obj, ini, chain, what, where):
        os_ = options(s)
        for o in sorted(set(os_) | set(table)):
            got = os_.get(o, [])
            if o not in table:
                # another option may be added, but not one that writes a member another option stands for
                for g in got:
                    rep.ob(not (g['loc'] and g['loc'][0] == obj[0] and g['loc'][1] in table.values()), 'opt:%s:%s' % (what, o), g['line'], '%s of %s writes a member that another option stands for' % (o, what))
                continue
            if not rep.ob(len(got) == 1, 'opt:%s:%s:once' % (what, o), where, '%s of %s is declared %d times' % (o, what, len(got))):
                continue
            g = got[0]
            rep.ob(g['loc'] == (obj[0], obj[1] + table[o]), 'opt:%s:%s' % (what, o), g['line'], '%s of %s writes %s' % (o, what, pp(g['loc'])[:120] if g['loc'] else 'nothing'))
            rep.ob(g['chain'] == chain, 'opt:%s:%s:app' % (what, o), g['line'], '%s of %s is declared below %s' % (o, what, pp(g['chain'])[:120]))
            if ini is not None and g['kind'] == 'add_option':
                want = (ini[0], ini[1] + table[o])
                rep.ob(len(g['defaults']) == 1 and (g['defaults'][0][0] == 'at' and g['defaults'][0][1] == want or g['defaults'][0] == E.get(s, want)), 'opt:%s:%s:default' % (what, o), g['line'], '%s of %s falls back to %s' % (o, what, pp(g['defaults'])[:120]))
        return os_
    E, st, fr = started()
    app = None
    # root options and their getters
    os_ = options(st)
    for o, getter, req in (('--clean', 'Clean', False), ('--loglevel', 'GetLogLevel', False), ('--root_dir', 'GetProjectRootDir', True), ('--build_dir', 'GetProjectBuildDir', True)):
        f = fn_any(ctx, 'buildcc::Args::' + getter)
        got = os_.get(o, [])
        if not rep.ob(len(got) == 1 and got[0]['loc'] is not None, 'root:%s' % o, init['loc'], 'option %s is declared %d times' % (o, len(got))):
            continue
        app = got[0]['chain'][0][1]
        rep.ob(len(got[0]['chain']) == 1, 'root:%s:app' % o, got[0]['line'], '%s is not an option of the program itself' % o)
        rep.ob(got[0]['required'] == req or not req, 'root:%s:required' % o, got[0]['line'], '%s can be left out' % o)
        s0 = st.copy()
        E.set(s0, got[0]['loc'], ('init', 'parsed'))
        for s, k, v in E.call_fn(f, None, [], s0, fr):
            rep.ob(k == 'v' and E.rv(v, s) == ('init', 'parsed'), 'root:%s:get' % o, f['loc'], '%s() does not return what %s was set to' % (getter, o))
        rep.count('options')
    if '--loglevel' in os_:
        enum_map(E, '--loglevel', os_['--loglevel'][0], os_['--loglevel'][0]['transform'], ('Trace', 'Debug', 'Info', 'Warning', 'Critical'))
    # initialised once
    s0 = st.copy(); s0.ev = ()
    for s, k, v in E.call_fn(init, None, [], s0, fr):
        rep.ob(k == 'v' and not [e for e in s.ev if e[0] == 'cli'], 'init:twice', init['loc'], 'a second Args::Init declares the options again')
    out, ini = (('S', 'out'), ()), (('S', 'ini'), ())
    inst = (('S', 'inst'), ())
    for name, cls, table, sub in (('AddToolchain', 'buildcc::ArgToolchain', TOOLCHAIN_OPTS, 'toolchain'), ('AddTarget', 'buildcc::ArgTarget', TARGET_OPTS, 'target')):
        f = fn_any(ctx, 'buildcc::Args::Instance::' + name)
        s0 = st.copy(); s0.ev = ()
        s0.types[out[0]] = s0.types[ini[0]] = cls
        rs = E.call_fn(f, inst, [('init', 'nm'), ('init', 'desc'), ('ref', out), ('ref', ini)], s0, fr)
        rep.ob(len(rs) == 1 and rs[0][1] == 'v', 'add:' + name, f['loc'], '%s can fail' % name)
        for s, k, v in rs:
            if k != 'v':
                continue
            os_ = bound(E, s, table, out, ini, (('app', app), ('sub', C(sub)), ('sub', ('init', 'nm'))), name, f['loc'])
            rep.count('options', len(os_))
            if '--id' in os_:
                enum_map(E, '--id', os_['--id'][0], os_['--id'][0]['transform'], ('Gcc', 'Msvc', 'MinGW', 'Clang', 'Custom'))
            rep.ob(all(E.get(s, (l, p)) == E.get(st, (l, p)) for l, p in (ini,)), 'add:%s:initial' % name, f['loc'], '%s changes the initial value' % name)
    # custom data gets the program itself
    f = fn_any(ctx, 'buildcc::Args::Instance::AddCustomCallback')
    s0 = st.copy(); s0.ev = ()
    for s, k, v in E.call_fn(f, inst, [('init', 'cb')], s0, fr):
        cb = [e for e in s.ev if e[0] == 'usercb']
        rep.ob(len(cb) == 1 and cb[0][1] == ('init', 'cb') and cb[0][2][0] == E.get(st, app), 'custom:cb', f['loc'], 'the custom callback does not get the command line once')
    f = fn_any(ctx, 'buildcc::Args::Instance::AddCustomData')
    s0 = st.copy(); s0.ev = ()
    for s, k, v in E.call_fn(f, inst, [('ref', (('S', 'data'), ()))], s0, fr):
        cb = [e for e in s.ev if e[0] == 'virt' and e[1].endswith('ArgCustom::Add')]
        rep.ob(k == 'v' and len(cb) == 1, 'custom:data', f['loc'], 'custom data is added %d times' % len(cb))
    # parse
    f = fn_any(ctx, 'buildcc::Args::Instance::Parse')
    s0 = st.copy(); s0.ev = ()
    seen = set()
    for s, k, v in E.call_fn(f, inst if not f.get('static') else None, [('init', 'argc'), ('init', 'argv')], s0, fr):
        p = [e for e in s.ev if e[0] == 'cli' and e[1] == 'parse']
        bad = [e for e in s.ev if e[0] == 'cli' and e[1] == 'exit']
        rep.ob(len(p) == 1 and p[0][3][:2] == (('init', 'argc'), ('init', 'argv')) and p[0][2] == ('cliobj', 'at', app), 'parse:args', f['loc'], 'Parse does not parse the given arguments once')
        if bad:
            seen.add('bad')
            rep.ob(k == 'exit' and any(x[0] == 'app' and str(x[1]) == 'CLI::exit' for x in subterms(v)), 'parse:exit', f['loc'], 'a parse error does not end the program with the exit status of the parser')
        else:
            seen.add('ok')
            rep.ob(k == 'v', 'parse:ok', f['loc'], 'Parse lets a parse error out or ends the program after a successful parse')
    rep.ob(seen == {'ok', 'bad'}, 'parse:cases', f['loc'], 'Parse does not handle both a successful parse and a parse error')
    # IsParsed
    f = fn_any(ctx, 'buildcc::Args::IsParsed')
    for ans in (True, False):
        E.oracle = lambda a, s: ans if a[0] == 'app' and a[1] == 'CLI::parsed' else None
        for s, k, v in E.call_fn(f, None, [], st.copy(), fr):
            for s2, b in E.truth(s, E.rv(v, s)):
                rep.ob(k == 'v' and b == ans, 'isparsed', f['loc'], 'IsParsed is %s although the command line was %sparsed' % (b, '' if ans else 'not '))
    E.oracle = lambda a, s: None
    E0, st0, fr0 = ctx.engine()
    for s, k, v in E0.call_fn(f, None, [], st0, fr0):
        rep.ob(k == 'v' and E0.rv(v, s) == FALSE, 'isparsed:noinit', f['loc'], 'IsParsed without Init is %s' % pp(E0.rv(v, s))[:80])
    rep.use(E)
    # Reg::Init: project directories and log level come from the command line
    f = fn_any(ctx, 'buildcc::Reg::Init')
    os_ = options(st)
    vals = {o: ('init', 'parsed' + o) for o in ('--root_dir', '--build_dir', '--loglevel')}
    for ok in (True, False):
        E, st1, fr = started()
        E.oracle = lambda a, s: ok if a[0] == 'app' and a[1] == 'CLI::parsed' else None
        lv = []
        def setlevel(E, e, args, st, fr):
            st.emit(('loglevel', E.rv(args[0], st)))
            return V(st, VOID)
        E.stubs['buildcc::env::set_log_level'] = setlevel
        for o, v in vals.items():
            if os_.get(o) and os_[o][0]['loc']:
                E.set(st1, os_[o][0]['loc'], v)
        st1.ev = ()
        normal = 0
        for s, k, v in E.call_fn(f, None, [], st1, fr):
            if not ok:
                rep.ob(fatal(k, s), 'reg:unparsed', f['loc'], 'Reg::Init succeeds before the command line was parsed')
                continue
            if k == 'throw':
                continue        # current_path failed
            normal += 1
            for getter, o in (('GetRootDir', '--root_dir'), ('GetBuildDir', '--build_dir')):
                g = fn_any(ctx, 'buildcc::Project::' + getter)
                for s2, k2, v2 in E.call_fn(g, None, [], s.copy(), fr):
                    t = E.rv(v2, s2)
                    core = strip_path(t)
                    rep.ob(core[0] == 'div' and strip_path(core[2]) == vals[o] and any(x[0] == 'fs' and x[1] == 'current_path' for x in subterms(core[1])), 'reg:' + o, f['loc'], 'the project directory is %s instead of the current directory / %s' % (pp(t)[:120], o))
            g = fn_any(ctx, 'buildcc::Project::IsInit')
            for s2, k2, v2 in E.call_fn(g, None, [], s.copy(), fr):
                rep.ob(E.rv(v2, s2) == TRUE, 'reg:init', f['loc'], 'the project is not initialised after Reg::Init')
            ll = [e[1] for e in s.ev if e[0] == 'loglevel']
            rep.ob(ll and ll[-1] == vals['--loglevel'], 'reg:loglevel', f['loc'], 'the log level is %s after Reg::Init' % (pp(ll[-1]) if ll else 'not set'))
        if ok:
            rep.ob(normal >= 1, 'reg:normal', f['loc'], 'Reg::Init does not return')
        rep.use(E)
    # what the parsed values are used for
    for cls, member, qn in (('buildcc::ArgTarget', 'GetTargetConfig', 'buildcc::TargetConfig'),):
        f = fn_any(ctx, cls + '::' + member)
        E, st1, fr = ctx.engine()
        st1.types[out[0]] = cls
        for s, k, v in E.call_fn(f, out, [], st1, fr):
            val = E.rv(v, s)
            for m in ('compile_command', 'link_command'):
                rep.ob(k == 'v' and E.field(val, m) == ('fld', ('init', 'out'), m), 'config:' + m, f['loc'], 'GetTargetConfig sets %s to %s' % (m, pp(E.field(val, m))[:80]))
    # buildexe
    exe_app = (('S', 'app'), ())
    for cls, table, chain, req in (('ArgTargetInfo', INFO_OPTS, (), ('--name', '--type', '--relative_to_root')), ('ArgTargetInputs', INPUT_OPTS, (), ()), ('ArgScriptInfo', SCRIPT_OPTS, (('sub', C('script')),), ())):
        f = fn_any(ctx, 'buildcc::%s::Add' % cls)
        E, st1, fr = ctx.engine()
        me = (('S', cls), ())
        st1.types[me[0]] = 'buildcc::' + cls
        for s, k, v in E.call_fn(f, me, [('ref', exe_app)], st1, fr):
            if not rep.ob(k == 'v', 'exe:' + cls, f['loc'], '%s::Add fails' % cls):
                continue
            os_ = bound(E, s, table, me, None, (('app', exe_app),) + chain, cls, f['loc'])
            for o in req:
                if o in os_:
                    rep.ob(os_[o][0]['required'], 'exe:%s:required' % o, os_[o][0]['line'], '%s can be left out' % o)
            if '--type' in os_ and cls == 'ArgTargetInfo':
                enum_map(E, '--type', os_['--type'][0], os_['--type'][0]['transform'], ('Executable', 'StaticLibrary', 'DynamicLibrary'))
        rep.use(E)
    rep.need(rep.counts.get('options', 0), 'options')

def chain(v):
    """stream value -> (constructor arguments, operations applied so far)"""
    ops = []
    while v[0] == 'mut':
        ops.append((v[1].split('::')[-1], v[3]))
        v = v[2]
    return v, tuple(reversed(ops))

class Streams:
    """Answers questions about streams for one fault scenario (C++ standard semantics of the state bits)."""
    def __init__(self, scn, extra=()):
        self.scn, self.extra = scn, dict(extra)
    def bits(self, v):
        src, ops = chain(v)
        names = [o[0] for o in ops]
        scn = self.scn
        opened = src[0] == 'stream' and len(src[2]) > 0 or 'open' in names
        fail = bad = eof = False
        out = 'ofstream' in str(src) or 'fstream' in str(src) and 'ifstream' not in str(src)
        if scn == 'noopen' and opened:
            fail = True
        if 'stringstream' in str(src):
            if any(o[0] in ('<<', 'operator<<') and any(x[0] == 'app' and x[1] == 'stream::rdbuf' for a in o[1] for x in subterms(a)) for o in ops):
                fail = fail or scn in ('readerr', 'empty')
            return fail, bad, eof
        if scn == 'write' and any(n in ('write', '<<', 'operator<<', 'put') for n in names):
            fail = bad = True
        if scn == 'flush':
            wrote = False
            for n in names:
                if n in ('write', '<<', 'operator<<', 'put'):
                    wrote = True
                elif wrote and n == 'close':
                    fail = True
                elif wrote and n == 'flush':
                    fail = bad = True
        if scn == 'readerr' and any(n in ('peek', 'get', 'getline', 'read') for n in names):
            fail = bad = True
        if scn == 'short' and 'read' in names:
            fail = eof = True
        if any(n in ('peek', 'get', 'getline') for n in names):
            eof = True
        return fail, bad, eof
    def __call__(self, a, s):
        if a[0] == 'eq' and NULL in a[1:3]:
            return False
        if a[0] == 'app' and str(a[1]).startswith('stream::'):
            q = a[1][8:]
            fail, bad, eof = self.bits(a[2][0])
            return {'is_open': self.scn != 'noopen', 'fail': fail, 'bad': bad, 'eof': eof, 'good': not (fail or bad or eof)}.get(q)
        for t, r in self.extra.items():
            if a == t:
                return r
        if a[0] == 'fs' and a[1] == 'is_directory':
            return self.scn == 'dir'
        if a[0] == 'errval':
            return self.scn == 'staterr'
        if a[0] == 'fs' and a[1] in ('exists', 'is_regular_file'):
            return self.scn not in ('dir', 'noopen')
        return None

def file_streams(s, cls):
    return [(e[2], e[3]) for e in s.ev if e[0] == 'open' and cls in e[1] and len(e[2]) > 0] + [(e[3], e[4]) for e in s.ev if e[0] == 'stream' and e[1] == 'open']

def c27(ctx, rep):
    """save_file and load_file are interpreted once per fault scenario (nothing fails, null arguments, cannot open, write fails, only the final flush fails, read error,
    short read, directory, stat fails, empty file) with the C++ semantics of the stream state bits; the result must be true exactly when everything was written or read."""
    def eng(scn, extra=()):
        E, st, fr = ctx.engine(Streams(scn, extra))
        for q in ('buildcc::env::save_file', 'buildcc::env::load_file'):
            E.stubs.pop(q, None)
        return E, st, fr
    name, nargs = ('init', 'name'), 0
    saves = [f for f in ctx.db.byqn.get('buildcc::env::save_file', ()) if f.get('body') is not None]
    loads = [f for f in ctx.db.byqn.get('buildcc::env::load_file', ()) if f.get('body') is not None]
    rep.need(len(saves) >= 1 and len(loads) >= 1, 'save_file and load_file')
    for f in saves:
        raw = [p for p in f['params'] if 'unsigned' in p['t'] or 'size_t' in p['t']]
        for scn in ('ok', 'noopen', 'write', 'flush', 'nullname', 'nullbuf'):
            for binary in (True, False):
                if scn == 'nullbuf' and not raw:
                    continue
                E, st, fr = eng(scn)
                args = []
                for i, p in enumerate(f['params']):
                    if i == 0:
                        args.append(NULL if scn == 'nullname' else name)
                    elif i == 1:
                        args.append(NULL if scn == 'nullbuf' else ('init', 'buf'))
                    elif p['t'] == 'bool':
                        args.append(C(binary))
                    else:
                        args.append(('init', 'len'))
                rs = E.call_fn(f, None, args, st, fr)
                rep.ob(bool(rs), 'save:none', f['loc'], 'save_file does not return')
                for s, k, v in rs:
                    if not rep.ob(k == 'v', 'save:%s:kind' % scn, f['loc'], 'save_file ends with %s when %s' % (k, scn)):
                        continue
                    opened = file_streams(s, 'fstream')
                    writes = [e for e in s.ev if e[0] == 'stream' and e[1] == 'write' or e[0] == 'stream<<']
                    for s2, b in E.truth(s, E.rv(v, s)):
                        rep.ob(b == (scn == 'ok'), 'save:%s' % scn, f['loc'], 'save_file returns %s %s' % (b, {'ok': 'although everything was written', 'noopen': 'although the file cannot be opened',
                               'write': 'although writing fails', 'flush': 'although writing out the buffered data fails', 'nullname': 'for a null name', 'nullbuf': 'for a null buffer'}[scn]))
                    if scn.startswith('null'):
                        rep.ob(not opened, 'save:%s:open' % scn, f['loc'], 'save_file touches a file for a null argument')
                        continue
                    rep.ob(len(opened) == 1 and opened[0][0][0] in (name, ('path', name)), 'save:file', f['loc'], 'save_file opens %s' % pp([o[0][:1] for o in opened])[:80])
                    for o, l in opened:
                        flags = str(o[1:])
                        rep.ob('@app' not in flags and '@ate' not in flags and not ('@in' in flags and '@trunc' not in flags), 'save:mode', l, 'save_file does not replace the old content of the file')
                    if scn == 'ok':
                        good = len(writes) == 1
                        if good:
                            w = writes[0]
                            vals = w[3] if w[0] == 'stream' else (w[2],)
                            ln_ = ('init', 'len')
                            if w[0] == 'stream':
                                good = len(vals) == 2 and vals[0] == ('init', 'buf') and (vals[1] == ln_ if raw else vals[1][:2] == ('app', 'size') or 'size' in str(vals[1])[:20] and ('init', 'buf') in list(subterms(vals[1])))
                            else:
                                good = vals[0] == ('init', 'buf') and not raw or ('init', 'buf') in list(subterms(vals[0])) and (not raw or ln_ in list(subterms(vals[0])))
                        rep.ob(good, 'save:data', f['loc'], 'save_file does not write the given data exactly once: %s' % pp([w[3] if w[0] == 'stream' else w[2] for w in writes])[:120])
                rep.use(E)
                rep.count('scenarios')
    out = (('S', 'buf'), ())
    for f in loads:
        for scn in ('ok', 'empty', 'noopen', 'readerr', 'short', 'dir', 'staterr', 'nullname', 'nullbuf'):
            for binary in (True, False):
                if scn == 'short' and not binary or scn == 'readerr' and binary and False:
                    continue
                E, st, fr = eng(scn)
                st.types[out[0]] = 'std::string'
                args = []
                for i, p in enumerate(f['params']):
                    if i == 0:
                        args.append(NULL if scn == 'nullname' else name)
                    elif p['t'] == 'bool':
                        args.append(C(binary))
                    else:
                        args.append(NULL if scn == 'nullbuf' else ('ptr', out))
                rs = E.call_fn(f, None, args, st, fr)
                rep.ob(bool(rs), 'load:none', f['loc'], 'load_file does not return')
                for s, k, v in rs:
                    if k == 'throw' and binary and scn not in ('nullname', 'nullbuf', 'dir', 'staterr', 'noopen'):
                        continue        # the size of the file cannot be read: documented to terminate
                    if not rep.ob(k == 'v', 'load:%s:kind' % scn, f['loc'], 'load_file ends with %s when %s' % (k, scn)):
                        continue
                    for s2, b in E.truth(s, E.rv(v, s)):
                        rep.ob(b == (scn in ('ok', 'empty')), 'load:%s' % scn, f['loc'], 'load_file (%s) returns %s %s' % ('binary' if binary else 'text', b, {'ok': 'although everything was read',
                               'empty': 'for an empty file', 'noopen': 'although the file cannot be opened', 'readerr': 'although reading the content fails', 'short': 'although only a part of the content was read',
                               'dir': 'for a directory', 'staterr': 'although the kind of file is unknown', 'nullname': 'for a null name', 'nullbuf': 'for a null buffer'}[scn]))
                    opened = file_streams(s, 'fstream')
                    if scn.startswith('null'):
                        rep.ob(not opened, 'load:%s:open' % scn, f['loc'], 'load_file touches a file for a null argument')
                    elif scn == 'ok':
                        rep.ob(len(opened) == 1 and opened[0][0][0] in (name, ('path', name)), 'load:file', f['loc'], 'load_file opens %s' % pp([o[0][:1] for o in opened])[:80])
                        val = E.get(s, out)
                        reads = [e for e in s.ev if e[0] == 'stream' and e[1] == 'read']
                        if reads:
                            r = reads[0][3]
                            good = len(reads) == 1 and len(r) == 2 and any(x[0] == 'fs' and x[1] == 'file_size' for x in subterms(r[1])) and val in list(subterms(r[0])) + list(subterms(r[1])) and \
                                any(x[0] == 'fs' and x[1] == 'file_size' and strip_path(x[2][0]) == name for x in subterms(val)) and \
                                (r[1][0] == 'size' or r[1][:2] == ('fs', 'file_size')) and all(x[3] and x[3][0][:2] == ('fs', 'file_size') for x in subterms(val) if x[0] == 'mut' and 'resize' in str(x[1]))
                        else:
                            good = any(x[0] == 'stream' and len(x) == 3 and x[2] and x[2][0] in (name, ('path', name)) for x in subterms(val)) and \
                                not any(x[0] == 'mut' and x[1] not in ('<<', 'open') and 'peek' not in str(x[1]) for x in subterms(val))
                        rep.ob(good, 'load:data', f['loc'], 'load_file (%s) does not deliver the content of the file: %s' % ('binary' if binary else 'text', pp(val)[:120]))
                rep.use(E)
                rep.count('scenarios')

def c28(ctx, rep):
    """Generate is interpreted for every combination of built and not built targets; the saved text must be the JSON dump of exactly one entry per source of every target."""
    cls = 'buildcc::plugin::ClangCompileCommands'
    gen = fn_any(ctx, cls + '::Generate')
    add = fn_any(ctx, cls + '::AddTarget')
    ctor = [f for f in ctx.db.byqn.get(cls + '::ClangCompileCommands', ()) if f.get('body') is not None and len(f['params']) == 1 and 'vector' in f['params'][0]['t']]
    rep.need(len(ctor) == 1, 'constructor of ClangCompileCommands')
    pinit = fn_any(ctx, 'buildcc::Project::Init')
    gcc = fn_any(ctx, 'buildcc::Target::GetCompileCommand') if ctx.db.byqn.get('buildcc::Target::GetCompileCommand') else [f for q, fs in ctx.db.byqn.items() if q.endswith('::GetCompileCommand') for f in fs if f.get('body') is not None][0]
    built = [f for q, fs in ctx.db.byqn.items() if q.endswith('::IsBuilt') for f in fs if f.get('body') is not None]
    rep.need(len(built) >= 1, 'IsBuilt')
    S = (('S', 'cc'), ())
    tn = ('t1', 't2', 't3')
    # AddTarget refuses null
    E, st, fr = ctx.engine()
    st.types[S[0]] = cls
    for s, k, v in E.call_fn(add, S, [NULL], st, fr):
        rep.ob(fatal(k, s), 'null', add['loc'], 'AddTarget accepts a null target')
    n = 2 if ctx.tier == 'quick' else 3
    for count in range(0, n + 1):
        for state in itertools.product((False, True), repeat=count):
            for saved in (True, False):
                ask = {}
                def oracle(a, s):
                    if a in ask:
                        return ask[a]
                    if a[0] == 'saveok':
                        return saved
                    if a[0] == 'has':
                        return True
                    return None
                E, st, fr = ctx.engine(oracle)
                st = [s for s, k, v in E.call_fn(pinit, None, [('init', 'root'), ('init', 'bld')], st, fr) if k == 'v'][0]
                st.types[S[0]] = cls
                ptrs = []
                want = []
                for i in range(count):
                    T = (('S', tn[i]), ())
                    st.types[T[0]] = 'buildcc::Target'
                    srcs = [C('%s_a.cpp' % tn[i]), ('init', '%s_src' % tn[i])]
                    E.set(st, (T[0], ('user_', 'sources', 'infos_')), ('seq', tuple(('one', rec(('new', 'buildcc::PathInfo'), {'path': x, 'hash': C('')})) for x in srcs)))
                    for g in built:
                        for s, k, v in E.call_fn(g, T, [], st.copy(), fr):
                            ask[E.rv(v, s)] = state[i]
                    for x in srcs:
                        for s, k, v in E.call_fn(gcc, T, [('path', x)], st.copy(), fr):
                            if k == 'v':
                                want.append((x, E.rv(v, s)))
                    ptrs.append(('ptr', T))
                first = ptrs[:1]
                rs = E.run_ctor(ctor[0], cls, S, [('seq', tuple(('one', p) for p in first))], st, fr)
                st = rs[0][0]
                for p in ptrs[1:]:
                    st = [s for s, k, v in E.call_fn(add, S, [p], st, fr) if k == 'v'][0]
                st.ev = ()
                what = 'with %s: ' % (', '.join('%s %s' % (t, 'built' if b else 'not built') for t, b in zip(tn, state)) or 'no target')
                rs = E.call_fn(gen, S, [], st, fr)
                rep.ob(bool(rs), 'none', gen['loc'], what + 'Generate does not return')
                for s, k, v in rs:
                    sv = [e for e in s.ev if e[0] == 'save']
                    if not any(state):
                        rep.ob(k == 'v' and not sv, 'idle', gen['loc'], what + 'Generate writes the file')
                        continue
                    if not rep.ob(len(sv) == 1, 'once', gen['loc'], what + 'Generate writes the file %d times' % len(sv)):
                        continue
                    p = strip_path(sv[0][1])
                    rep.ob(p[0] == 'div' and strip_path(p[1]) == ('init', 'bld') and strip_path(p[2]) == C('compile_commands.json'), 'file', sv[0][-1], what + 'Generate writes %s' % pp(sv[0][1])[:120])
                    if not saved:
                        rep.ob(fatal(k, s), 'savefail', gen['loc'], what + 'a failed write of compile_commands.json is not fatal')
                        continue
                    rep.ob(k == 'v', 'normal', gen['loc'], what + 'Generate fails')
                    doc = sv[0][2]
                    if not rep.ob(doc[0] == 'jdump', 'json', sv[0][-1], what + 'the text written is not the dump of a JSON value'):
                        continue
                    doc = doc[1]
                    ents = [x[1] for x in doc[1]] if doc[0] == 'seq' and all(x[0] == 'one' for x in doc[1]) else None
                    if not rep.ob(ents is not None, 'array', sv[0][-1], what + 'compile_commands.json is not a list of entries: %s' % pp(doc)[:100]):
                        continue
                    got = []
                    for x in ents:
                        d = {kk[1][1]: jstr(vv) for kk, vv in (x[2] if x[0] == 'rec' else ()) if isinstance(kk, tuple) and kk[0] == 'at' and kk[1][0] == 'c'}
                        fl = d.get('file')
                        rep.ob(d.get('directory') is not None and plain(d['directory']) == ('init', 'bld'), 'directory', gen['loc'], what + 'the directory of an entry is %s' % pp(d.get('directory'))[:100])
                        got.append((plain(fl) if fl is not None else None, d.get('command')))
                    for w in want:
                        rep.ob(got.count(w) == 1, 'entry', gen['loc'], what + 'there are %d entries for source %s with its command' % (got.count(w), pp(w[0])))
                    rep.ob(all(g in want for g in got), 'extra', gen['loc'], what + 'an entry does not belong to a source: %s' % pp([g for g in got if g not in want])[:160])
                rep.use(E)
                rep.count('scenarios')

def jstr(v):
    while v[0] == 'json':
        v = v[2]
    return v

def plain(v):
    """the path a string stands for, None if it is quoted or otherwise decorated"""
    return strip_path(v) if not any(x[0] in ('disp', 'cat') for x in subterms(v)) else None
