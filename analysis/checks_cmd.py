"""C16-C18: commands - what goes into them, quoting, construction and execution"""
from base import *
from scn import *
from checks_target import run, EXTS

CMD = 'buildcc::env::Command'
EXE = {'Asm': 'assembler', 'C': 'c_compiler', 'Cpp': 'cpp_compiler'}
FLAGS = {'Asm': 'asm_compile_flags', 'C': 'c_compile_flags', 'Cpp': 'cpp_compile_flags'}
TOOLF = {'asm_compiler': 'assembler', 'c_compiler': 'c_compiler', 'cpp_compiler': 'cpp_compiler', 'archiver': 'archiver', 'linker': 'linker'}

def value_subterms(t):
    """subterms that contribute to the text (conditions of ite left out)"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        if x and x[0] == 'ite':
            stack += [x[2], x[3]]
        else:
            stack.extend(x)

def reads(t, root):
    out = set()
    for x in value_subterms(t):
        if len(x) == 3 and x[0] == 'fld' and x[1] == root:
            out.add(x[2])
    return out

def tool_reads(t, member):
    """members of toolchain.<member> mentioned"""
    return {x[2] for x in value_subterms(t) if len(x) == 3 and x[0] == 'fld' and x[1] == ('fld', ('init', 'toolchain'), member)}

def members(ctx):
    """names of the executables / config members of Toolchain"""
    db = ctx.db
    return (field_of_type(db, 'buildcc::Toolchain', 'buildcc::ToolchainExecutables', 'executables'),
            field_of_type(db, 'buildcc::Toolchain', 'buildcc::ToolchainConfig', 'config'))

def c16(ctx, rep):
    """Every command of abstract first builds (asm/C/C++ x with/without PCH) is decoded into placeholder -> value; every placeholder of every shipped command
    pattern must be supplied, and each value must be made of exactly the user flags, directories, libraries, tool and files that placeholder stands for."""
    exm, cfm = members(ctx)
    pats = {r: {} for r in ('pch_command', 'compile_command', 'link_command')}
    for q, v, l in ctx.configs():
        cf = ctx.config_fields(v)
        for r in pats:
            p = cf.get(r)
            if p is None or p[0] != 'c':
                raise AnalysisError('anchor: %s of %s is not a constant' % (r, q))
            pats[r][q] = (p[1], l)
    n = 0
    lists = {f for f, k in ctx.kinds.items() if k == 'list'}
    for ext in EXTS:
        for pch in (False, True):
            if pch and ext == 'Asm':
                continue
            B, ss = run(ctx, rep, Scn(ctx.kinds, loaded=False, pch=pch), ext=ext)
            for s in ss:
                for role in pats:
                    for e in execs(s, role):
                        args = cmd_args(B.E, e[1])
                        n += 1
                        if role == 'link_command':
                            opt = {'target': ext}
                        for q, (p, l) in pats[role].items():
                            miss = sorted(set(PLACE.findall(p)) - set(args))
                            rep.ob(not miss, 'closure:%s:%s:%s' % (role, q, pch), l, 'the %s of %s uses {%s}, which is not supplied%s' % (role, q, '}, {'.join(miss), '' if pch else ' without precompiled headers'))
                        one_command(ctx, rep, B, role, args, e, ext, pch, exm, cfm, lists)
    rep.need(n, 'no command')

def one_command(ctx, rep, B, role, args, e, ext, pch, exm, cfm, lists):
    where = e[3]
    def want(name, fields, what=None):
        if name not in args:
            return
        got = reads(args[name], USER)
        rep.ob(got == set(fields), 'content:%s:%s:%s' % (role, name, ext), where, '{%s} of the %s (%s) is made of %s instead of %s' % (name, role, ext, sorted(got) or 'nothing', sorted(fields)))
    for name in args:
        if name in lists and name not in ('pch_compile_flags', 'pch_object_flags'):
            want(name, [name])
    for name in ('pch_compile_flags', 'pch_object_flags'):
        want(name, [name] if pch else [])
    for name in ('include_dirs', 'lib_dirs'):
        if name in args:
            pf = tool_reads(args[name], cfm)
            rep.ob(pf == {'prefix_' + name[:-1]}, 'prefix:%s:%s' % (role, name), where, '{%s} is prefixed with %s' % (name, sorted(pf)))
    want('lib_deps', ['libs', 'external_libs'])
    if role != 'link_command':
        want('compile_flags', [FLAGS[ext]])
        got = tool_reads(args.get('compiler', C('')), exm)
        rep.ob(got == {EXE[ext]}, 'tool:%s:%s' % (role, ext), where, 'the %s of a %s file uses the tool %s' % (role, ext, sorted(got)))
    for name, f in TOOLF.items():
        if name in args:
            got = tool_reads(args[name], exm)
            rep.ob(got == {f}, 'tool:%s' % name, where, '{%s} is %s' % (name, sorted(got)))
    if role == 'compile_command':
        want('input', ['sources'])
        k1 = elem_keys(args['input'], (USER, 'sources')) if 'input' in args else set()
        k2 = elem_keys(args['output'], (USER, 'sources')) if 'output' in args else set()
        rep.ob(len(k1) == 1 and k1 == k2, 'pair:compile', where, 'input and output of a compile command belong to different sources')
    if role == 'link_command' and 'compiled_sources' in args:
        got = reads(args['compiled_sources'], USER)
        rep.ob(got == {'sources'}, 'content:link:objects', where, 'the objects linked are made from %s' % sorted(got))
    # order of user supplied flags is kept: values are joins over the list itself
    for name in args:
        for x in value_subterms(args[name]):
            if x[0] in ('filter', 'minus', 'minusimg', 'sorted', 'uset', 'mut') and fields_under(x, USER) & lists:
                rep.bad('content:subset:%s' % name, where, '{%s} is not made of every element in order: %s' % (name, pp(x)[:120]))

# ---------------------------------------------------------------- quoting
def path_leaves(ctx, t, exm):
    """path valued parts of a command text that are not in display (quoted) form"""
    out = []
    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == 'disp':
            return
        if x[0] == 'ite':
            go(x[2]); go(x[3]); return
        if x[0] == 'join' and len(x) > 3 and 'filesystem::path' in str(x[3]):
            return
        if x[0] == 'img' and len(x) == 3:
            go(x[2]); return
        if x[0] == 'fld' and len(x) == 3:
            if x[1] == USER:
                k = ctx.kinds.get(x[2])
                t_ = short(ctx.db.field(SCHEMA, x[2])['t'])
                if k == 'info' or t_ == 'buildcc::internal::PathList':
                    out.append(x)
                return
            if x[1] == ('fld', ('init', 'toolchain'), exm):
                out.append(x); return
            if x[1] == ('init', 'tenv'):
                out.append(x); return
        for y in x[1:]:
            if isinstance(y, tuple):
                go(y)
    go(t)
    return out

def c17(ctx, rep):
    """In every command of every abstract build, each file or directory name must enter the text through the quoting display form; the display form itself is
    interpreted with and without a space in the name. File names handed to the file system must be the plain form, never the quoted one."""
    exm, cfm = members(ctx)
    n = 0
    for ext in EXTS:
        for pch in (False, True):
            if pch and ext == 'Asm':
                continue
            B, ss = run(ctx, rep, Scn(ctx.kinds, loaded=False, pch=pch), ext=ext)
            for s in ss:
                for e in s.ev:
                    if e[0] == 'exec':
                        role = role_of(e[1])
                        for name, v in (cmd_args(B.E, e[1]) or {}).items():
                            n += 1
                            bad = path_leaves(ctx, v, exm)
                            rep.ob(not bad, 'quote:%s:%s' % (role, name), e[3], '{%s} of the %s is not quoted when a path contains a space: %s' % (name, role, pp(bad[0])[:100] if bad else ''))
                    elif e[0] in ('save', 'loadfile', 'stat'):
                        q = [x for x in value_subterms(e[1]) if x[0] == 'disp']
                        rep.ob(not q, 'plain:%s' % e[0], e[4] if e[0] == 'save' else e[2] if e[0] == 'stat' else e[3],
                               'a quoted display name is used as file name: %s' % pp(e[1])[:120])
    rep.need(n, 'no command')
    # flags the shipped targets add themselves
    for q, fs_ in sorted(ctx.db.byqn.items()):
        for f in fs_:
            if f.get('body') is None or not f['params'] or not q.startswith('buildcc::Default') or short(f['params'][0]['t']) not in ('buildcc::Target', 'buildcc::BaseTarget'):
                continue
            E, st, fr = ctx.engine()
            st.types[T[0]] = 'buildcc::Target'
            flags = []
            def add(E, e, args, st, fr):
                flags.append((E.rv(args[1], st), e.get('l')))
                return V(st, VOID)
            for qq in ctx.db.byqn:
                if qq.rsplit('::', 1)[-1].startswith('Add') and qq.rsplit('::', 1)[-1].endswith('Flag') and 'FlagApi' in qq:
                    E.stubs[qq] = add
            E.call_fn(f, None, [('ref', T)], st, fr)
            rep.use(E)
            for v, l in flags:
                ps = [x for x in value_subterms(v) if x[0] in ('str', 'path', 'mp', 'ln') and not inside_disp(v, x)]
                rep.ob(not [x for x in ps if any(y == ('init', 'target') for y in subterms(x))], 'quote:flag:%s' % q, l, 'a flag added by %s holds an unquoted path: %s' % (q, pp(v)[:120]))
    # display form
    f = ctx.db.func('buildcc::internal::PathInfo::ToPathDisplayString')
    for sp in (True, False):
        E, st, fr = ctx.engine(lambda a, s: spaces(a, sp))
        for s, k, v in E.call_fn(f, None, [('init', 'p')], st, fr):
            v = E.rv(v, s)
            parts = v[1] if v[0] == 'cat' else (v,)
            core = [p for p in parts if p[0] != 'c']
            pre = ''.join(p[1] for p in parts[:parts.index(core[0])]) if core else ''
            post = ''.join(p[1] for p in parts[parts.index(core[0]) + 1:] if p[0] == 'c') if core else ''
            rep.ob(k == 'v' and len(core) == 1 and strip_path(core[0]) == ('init', 'p'), 'display:core', f['loc'], 'the display form of a path is %s' % pp(v)[:100])
            rep.ob((pre, post) == ('"', '"') or not sp and (pre, post) == ('', ''), 'display:quotes:%s' % sp, f['loc'], 'a path %s a space is displayed as %s' % ('with' if sp else 'without', pp(v)[:100]))
        rep.use(E)
    # formatting a path means its display form
    fs_ = [f for f in ctx.db.fn.values() if 'formatter' in f['qn'] and f['name'] == 'format' and f.get('body') is not None and f['params'] and 'filesystem' in f['params'][0]['t']]
    rep.need(len(fs_), 'formatter of paths')
    for f in fs_:
        E, st, fr = ctx.engine(lambda a, s: spaces(a, True))
        for s, k, v in E.call_fn(f, (('S', 'fm'), ()), [('init', 'p'), ('ref', (('S', 'fc'), ()))], st, fr):
            v = E.rv(v, s)
            ok = any(x[0] == 'cat' and len(x[1]) == 3 and x[1][0] == C('"') == x[1][2] and strip_path(x[1][1]) == ('init', 'p') for x in subterms(v))
            rep.ob(k == 'v' and ok, 'display:formatter', f['loc'], 'a formatted path is %s' % pp(v)[:120])
        rep.use(E)
    # plain form and its uses
    f = ctx.db.func('buildcc::internal::PathInfo::ToPathString')
    E, st, fr = ctx.engine()
    for s, k, v in E.call_fn(f, None, [('init', 'p')], st, fr):
        v = E.rv(v, s)
        rep.ob(k == 'v' and strip_path(v) == ('init', 'p') and any(x[0] == 'ln' for x in subterms(v)) and not any(x[0] == 'disp' for x in subterms(v)), 'plain:form', f['loc'], 'the plain form of a path is %s' % pp(v)[:100])
    rep.use(E)
    for q, want in (('buildcc::path_as_string', False), ('buildcc::path_as_display_string', True)):
        f = ctx.db.func(q)
        E, st, fr = ctx.engine(lambda a, s: spaces(a, True))
        for s, k, v in E.call_fn(f, None, [('init', 'p')], st, fr):
            v = E.rv(v, s)
            quoted = v[0] == 'disp' or v[0] == 'cat' and v[1][0] == C('"')
            rep.ob(quoted == want, 'form:' + q, f['loc'], '%s gives %s' % (q, pp(v)[:100]))
        rep.use(E)

def spaces(a, sp):
    """does this condition ask whether the text has a space"""
    cs = [x[1] for x in subterms(a) if x[0] == 'c' and isinstance(x[1], str)]
    if cs == [' '] or sp and len(cs) == 1 and ' ' in cs[0] and a[0] != 'contains':
        return sp
    return None

def inside_disp(t, x):
    for y in value_subterms(t):
        if y[0] == 'disp' and any(z is x or z == x for z in subterms(y)):
            return True
    return False

# ---------------------------------------------------------------- Construct and Execute
def raw(ctx, oracle=None):
    E, st, fr = ctx.engine(oracle)
    for k in (CMD + '::Construct', CMD + '::Execute'):
        E.stubs.pop(k, None)
    return E, st, fr

def strip_cstr(t):
    while t[0] == 'app' and t[1].endswith(('c_str', 'data')) and len(t[2]) == 1:
        t = t[2][0]
    return t

def exit_zero(E, s):
    """what this path assumes about the exit status being 0 (None: nothing)"""
    for a, b in s.facts.items():
        st = [x for x in subterms(a) if x[0] == 'app' and str(x[1]).endswith('get_exit_status')]
        if not st:
            continue
        if a == st[0]:
            return not b
        if a[0] == 'eq' and C(0) in a[1:] and st[0] in a[1:]:
            return b
        return 'other'
    return None

def c18(ctx, rep):
    """Command::Construct and Command::Execute are interpreted on arbitrary patterns, default values, arguments and process outcomes."""
    db = ctx.db
    dv = field_of_type(db, CMD, [short(f['t']) for n, f in db.all_fields(CMD) if head(short(f['t'])) in ('std::unordered_map', 'std::map')][0], 'default values')
    L = (('S', 'cmd'), ())
    DV, AR = ('fld', ('init', 'cmd'), dv), ('init', 'args')
    f = db.func(CMD + '::Construct')
    E, st, fr = raw(ctx)
    st.types[L[0]] = CMD
    def vf(E, e, args, st, fr):
        st.emit(('vformat', tuple(E.rv(a, st) for a in args), e.get('l')))
        s2 = st.copy()
        s2.emit(('formaterror', e.get('l')))
        return [(st, 'v', ('app', 'fmt::vformat', tuple(E.rv(a, st) for a in args))), (s2, 'throw', ('exc', 'fmt::format_error'))]
    for q in ('fmt::vformat', 'fmt::v9::vformat'):
        E.stubs[q] = vf
    n = 0
    for s, k, v in E.call_fn(f, L, [('init', 'pat'), AR], st, fr):
        n += 1
        err = any(e[0] == 'formaterror' for e in s.ev)
        null = any(a[0] == 'eq' and NULL in a[1:] and b and any(x == AR for x in subterms(a)) for a, b in s.facts.items())
        if err or null:
            rep.ob(fatal_out(k, s), 'construct:%s' % ('error' if err else 'null'), f['loc'], 'Construct returns although %s' % ('the pattern could not be expanded' if err else 'an argument has no name'))
            continue
        if k != 'v':
            rep.bad('construct:fails', f['loc'], 'Construct fails on a valid pattern')
            continue
        v = E.rv(v, s)
        rep.ob(v[0] == 'app' and v[1].endswith('vformat') and v[2][0] == ('init', 'pat'), 'construct:pattern', f['loc'], 'the constructed text is %s' % pp(v)[:120])
        pushed = [(x[1], x[2]) for x in subterms(v) if x[0] == 'fmtarg'] + [(x[1], x[2]) for e in s.ev if e[0] == 'extmut' for x in subterms(e) if x[0] == 'fmtarg']
        for coll, what in ((DV, 'default value'), (AR, 'argument')):
            if s.facts.get(('empty', coll)) is True:
                continue
            def there(key):
                el = ('elem', coll, key)
                return any(strip_cstr(a) == ('fld', el, 'first') and b == ('fld', el, 'second') for a, b in pushed)
            for key in (W, O):
                rep.ob(there(key) or there(X), 'construct:' + what.split()[0], f['loc'], 'a %s does not reach the pattern under its own name' % what)
    rep.use(E)
    rep.need(n, 'Construct')
    # default values
    for fn, mk in (('AddDefaultArgument', lambda: [C('k'), ('init', 'v')]), ('AddDefaultArguments', lambda: [('seq', (('one', rec(('new', 'std::pair'), {'first': C('k'), 'second': ('init', 'v')})),))])):
        f = db.func(CMD + '::' + fn)
        for old in ({}, {'j': ('init', 'w')}, {'k': ('init', 'w')}):
            E, st, fr = raw(ctx)
            st.types[L[0]] = CMD
            st.store[L[0]] = ('new', CMD)
            E.set(st, (L[0], (dv,)), ('seq', tuple(('one', rec(('new', 'std::pair'), {'first': C(a), 'second': b})) for a, b in old.items())))
            for s, k, v in E.call_fn(f, L, mk(), st, fr):
                got = E.get(s, (L[0], (dv,)))
                d = {}
                for p in got[1] if got[0] == 'seq' else ():
                    d[E.field(p[1], 'first')] = E.field(p[1], 'second')
                want = {C('k'): ('init', 'v')}
                for a, b in old.items():
                    want[C(a)] = b
                rep.ob(k == 'v' and d == want, 'default:%s:%s' % (fn, '-'.join(old)), f['loc'], '%s leaves the default values %s' % (fn, pp(got)[:120]))
            rep.use(E)
    f = db.func(CMD + '::GetDefaultValueByKey')
    for has in (True, False):
        E, st, fr = raw(ctx)
        st.types[L[0]] = CMD
        st.store[L[0]] = ('new', CMD)
        E.set(st, (L[0], (dv,)), ('seq', tuple(('one', rec(('new', 'std::pair'), {'first': C(a), 'second': ('init', 'v' + a)})) for a in (['j', 'k'] if has else ['j']))))
        for s, k, v in E.call_fn(f, L, [C('k')], st, fr):
            if has:
                rep.ob(k == 'v' and E.rv(v, s) == ('init', 'vk'), 'default:get', f['loc'], 'GetDefaultValueByKey returns %s' % pp(v)[:80])
            else:
                rep.ob(fatal_out(k, s), 'default:missing', f['loc'], 'GetDefaultValueByKey accepts an unknown key')
        rep.use(E)
    # Execute
    f = db.func(CMD + '::Execute')
    E, st, fr = raw(ctx)
    n = 0
    so, se = (('S', 'so'), ()), (('S', 'se'), ())
    for a3, a4 in ((NULL, NULL), (('ptr', so), NULL), (NULL, ('ptr', se)), (('ptr', so), ('ptr', se))):
        E, st, fr = raw(ctx)
        for r in (so, se):
            st.types[r[0]] = 'std::vector<std::string>'
            st.store[r[0]] = ('seq', ())
        def sinks(E, a, s, fr):
            # the handlers run while the process object lives, i.e. inside Execute
            for i, w, own, oth, what in ((2, a3, so, se, 'stdout'), (3, a4, se, so, 'stderr')):
                if w == NULL or len(a) <= i or a[i] == NULL:
                    continue
                for s3, k3, v3 in E.call_value(a[i], [('init', 'bytes'), ('init', 'n')], s.copy(), fr):
                    rep.ob(k3 == 'v' and any(x == ('init', 'bytes') for x in subterms(E.get(s3, own))) and not any(x == ('init', 'bytes') for x in subterms(E.get(s3, oth))),
                           'execute:sink:' + what, f['loc'], 'output of %s does not end up in the given list' % what)
        E.on_process = sinks
        for s, k, v in E.call_fn(f, None, [('init', 'command'), ('init', 'wd'), a3, a4], st, fr):
            n += 1
            if s.facts.get(('empty', ('init', 'command'))) is True:
                rep.ob(fatal_out(k, s), 'execute:empty', f['loc'], 'an empty command is executed')
                continue
            if k != 'v':
                rep.bad('execute:fails', f['loc'], 'Execute fails before running a command')
                continue
            v = E.rv(v, s)
            pr = [x for x in subterms(v) if x[0] == 'app' and 'TinyProcessLib::Process' in str(x[1])] or [x for x in subterms(('t',) + tuple(s.facts)) if x[0] == 'app' and 'TinyProcessLib::Process' in str(x[1])]
            if not rep.ob(bool(pr), 'execute:process', f['loc'], 'the result of Execute does not depend on a process: %s' % pp(v)[:100]):
                continue
            a = pr[0][2]
            rep.ob(a[0] == ('init', 'command'), 'execute:command', f['loc'], 'another command is run: %s' % pp(a[0])[:100])
            rep.ob(any(x == ('init', 'wd') for x in subterms(a[1])), 'execute:wd', f['loc'], 'the working directory is not passed on: %s' % pp(a[1])[:100])
            for i, w, own, oth, what in ((2, a3, so, se, 'stdout'), (3, a4, se, so, 'stderr')):
                h = a[i] if len(a) > i else NULL
                if w == NULL:
                    rep.ob(h == NULL, 'execute:redirect:' + what, f['loc'], '%s is redirected although nobody asked for it' % what)
                    continue
                if not rep.ob(h != NULL, 'execute:drop:' + what, f['loc'], '%s is not redirected to the given list' % what):
                    continue
            for s2, r in E.truth(s, v):
                z = exit_zero(E, s2)
                rep.ob(z in (True, False) and r == z, 'execute:result', f['loc'], 'Execute returns %s when the exit status is %s' % (r, {True: '0', False: 'not 0'}.get(z, 'anything')))
        rep.use(E)
    rep.need(n, 'Execute')

def fatal_out(k, s):
    return k in ('exit', 'throw') and any(e[0] == 'fatal' for e in s.ev)
