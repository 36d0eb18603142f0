"""C01-C08, C11: one target build, decided over scenarios"""
from base import *
from scn import *

EXTS = ('Asm', 'C', 'Cpp')
ROLE = {'pch_command': 'precompile', 'compile_command': 'compile', 'link_command': 'link'}

def success(B, s):
    t = B.task_state(s)
    return t[0] == 'enum' and t[1].endswith('::SUCCESS')

def run(ctx, rep, sc, ext='Cpp', ttype='Executable', stubs=None):
    B = Build(ctx.db, ctx.names, sc, ext=ext, ttype=ttype, stubs=stubs)
    ss = B.full()
    ss = [s for s in ss if not any(e[0] == 'process-exit' for e in s.ev)]
    rep.use(B.E)
    rep.count('scenarios')
    rep.count('final_states', len(ss))
    rep.need(len(ss), 'no complete build in scenario ' + sc.describe())
    return B, ss

def keys(e):
    return elem_keys(e[1], (USER, 'sources'))

def compiles(s, key=W):
    """is a compile of source `key` issued on this path"""
    for e in execs(s, 'compile_command'):
        ks = keys(e)
        if key in ks or X in ks:
            return True
    return False

def task_line(B, s, role):
    """file:line of the task that runs commands of this role"""
    return getattr(B, 'lines', {}).get(role, 'buildcc/lib/target/src/target')

def role_lines(ctx, pch=True):
    """role -> (Execute call line) in a first build"""
    sc = Scn(ctx.kinds, loaded=False, pch=pch)
    B = Build(ctx.db, ctx.names, sc)
    out = {}
    for s in B.full():
        for e in s.ev:
            if e[0] == 'exec':
                out.setdefault(role_of(e[1]), e[3])
    return out

OWNROLE = {'C01': 'compile_command', 'C02': 'pch_command', 'C03': 'link_command'}

def need_roles(ctx, rep=None):
    r = role_lines(ctx)
    for k in ROLE:
        if k not in r:
            if rep is not None and OWNROLE.get(rep.pid) == k:
                rep.bad('first:' + k, 'buildcc/lib/target/src/target', 'a first build does not issue the %s command of its own inputs' % ROLE[k])
            raise AnalysisError('anchor: no %s command issued by a first build' % ROLE[k])
    return r

def requirements(ctx, rep, role, ext, pch):
    """fields of the build record whose value reaches the command of this role"""
    sc = Scn(ctx.kinds, loaded=False, pch=pch)
    B, ss = run(ctx, rep, sc, ext=ext)
    ph = ctx.placeholders(role)
    out = {}
    for s in ss:
        for e in execs(s, role):
            args = cmd_args(B.E, e[1])
            for p in ph:
                if p in args:
                    for f in fields_under(args[p], USER):
                        out.setdefault(f, p)
    return out

def variants(ctx, f):
    v = ('list', 'content') if ctx.kinds.get(f) == 'info' else ('list',)
    return v + (('emptied',) if ctx.kinds.get(f) in ('info', 'list') and f not in ('pchs', 'sources') else ())

def why(s):
    return '; '.join('%s%s' % ('' if b else 'not ', pp(a)[:90]) for a, b in list(s.facts.items())[-4:])

def stale(ctx, rep, role, fields, pch, ext, lines, extra=None):
    """every change of a field must run the role on every path that reports success"""
    for f, reason in sorted(fields.items()):
        for c in variants(ctx, f):
            kw = dict(change={f: 'list' if c == 'emptied' else c}, pch=pch)
            if c == 'emptied':
                kw['empties'] = {f}
            kw.update(extra or {})
            one(ctx, rep, role, Scn(ctx.kinds, **kw), ext, lines, '%s:%s:%s:%s' % (role, f, c, 'pch' if pch else 'nopch'),
                'a change of %s (%s; %s)' % (f, c, reason))

def one(ctx, rep, role, sc, ext, lines, key, what):
    B, ss = run(ctx, rep, sc, ext=ext)
    for s in ss:
        if not success(B, s):
            continue
        if role == 'compile_command':
            ok = compiles(s)
        else:
            ok = bool(execs(s, role))
        cmps = sorted({'/'.join(sorted(fields_under(e[1:], LOAD))) for e in s.ev if e[0] == 'cmp' and fields_under(e[1:], LOAD)})
        rep.ob(ok, key, lines[role],
               '%s does not lead to the %s command before the build reports success (%s); comparisons made: %s'
               % (what, ROLE[role], sc.describe(), ', '.join(cmps)))
    return B, ss

def c01(ctx, rep):
    lines = need_roles(ctx, rep)
    n = 0
    for pch in (False, True):
        for ext in EXTS:
            req = {f: 'reaches the command line' for f in requirements(ctx, rep, 'compile_command', ext, pch)}
            req.pop('sources', None)
            if pch:
                for f in requirements(ctx, rep, 'pch_command', ext, pch):
                    req.setdefault(f, 'compiled into the precompiled header')
                req['pchs'] = 'compiled into the precompiled header'
            req['headers'] = 'declared header'
            req['compile_dependencies'] = 'declared compile dependency'
            n += len(req)
            stale(ctx, rep, 'compile_command', req, pch, ext, lines)
            one(ctx, rep, 'compile_command', Scn(ctx.kinds, loaded=False, pch=pch), ext, lines, 'compile:unloaded:%s' % pch, 'a first build')
            for k in ('updated', 'added'):
                one(ctx, rep, 'compile_command', Scn(ctx.kinds, w=k, pch=pch), ext, lines, 'compile:source-%s:%s' % (k, pch), 'a source that is ' + k)
        # precompiled header dropped altogether
    one(ctx, rep, 'compile_command', Scn(ctx.kinds, change={'pchs': 'list'}, pch=False), 'Cpp', lines, 'compile:pch-dropped',
        'dropping every precompiled header')
    one(ctx, rep, 'compile_command', Scn(ctx.kinds, pch=True, pch_compiled=False), 'Cpp', lines, 'compile:pch-rebuilt', 'rebuilding the precompiled header')
    # pairs of changes must not cancel each other
    if ctx.tier == 'thorough':
        req = sorted(requirements(ctx, rep, 'compile_command', 'Cpp', True)) + ['headers', 'compile_dependencies']
        for i, a in enumerate(req):
            for b in req[i + 1:]:
                if 'sources' in (a, b):
                    continue
                one(ctx, rep, 'compile_command', Scn(ctx.kinds, change={a: 'list', b: 'list'}, pch=True), 'Cpp', lines,
                    'compile:%s+%s' % (a, b), 'changing %s and %s' % (a, b))
    rep.counts['tracked_inputs'] = n
    rep.need(n - 12, 'no field reaches the compile command')

def c02(ctx, rep):
    lines = need_roles(ctx, rep)
    n = 0
    for ext in EXTS:
        req = {f: 'reaches the command line' for f in requirements(ctx, rep, 'pch_command', ext, True)}
        req.pop('sources', None)
        req['pchs'] = 'listed in the generated header'
        req['headers'] = 'declared header'
        n += len(req)
        stale(ctx, rep, 'pch_command', req, True, ext, lines)
        one(ctx, rep, 'pch_command', Scn(ctx.kinds, loaded=False, pch=True), ext, lines, 'pch:unloaded', 'a first build')
        one(ctx, rep, 'pch_command', Scn(ctx.kinds, pch=True, pch_compiled=False), ext, lines, 'pch:notdone', 'a precompile step not recorded as done')
    rep.counts['tracked_inputs'] = n
    rep.need(n - 6, 'no field reaches the precompile command')
    # the generated header lists every user header, and is saved before the command
    B, ss = run(ctx, rep, Scn(ctx.kinds, loaded=False, pch=True))
    for s in ss:
        if not success(B, s):
            continue
        ev = s.ev
        i = next((i for i, e in enumerate(ev) if e[0] == 'exec' and role_of(e[1]) == 'pch_command'), None)
        saves = [e for e in ev[:i] if e[0] == 'save' and 'pchs' in fields_under(e[2], USER)] if i is not None else []
        args = cmd_args(B.E, ev[i][1]) if i is not None else {}
        hdr = [e for e in saves if any(x[0] == 'fld' and x[2] == 'path' for x in subterms(e[2]) if len(x) == 3)]
        rep.ob(bool(hdr), 'pch:header-content', lines['pch_command'], 'the precompile command runs without the aggregated header listing the user headers being saved first')
        if hdr and 'input' in args:
            rep.ob(any(strip_path(e[1]) == strip_path(args['input']) for e in hdr), 'pch:header-path', hdr[0][4],
                   'the aggregated header is saved to %s but the command precompiles %s' % (pp(hdr[0][1])[:160], pp(args['input'])[:160]))

def c03(ctx, rep):
    lines = need_roles(ctx, rep)
    n = 0
    for pch in (False, True):
        req = {f: 'reaches the command line' for f in requirements(ctx, rep, 'link_command', 'Cpp', pch)}
        for f in ('sources', 'pchs', 'name'):
            req.pop(f, None)
        req['libs'] = 'linked library'
        req['link_dependencies'] = 'declared link dependency'
        n += len(req)
        stale(ctx, rep, 'link_command', req, pch, 'Cpp', lines)
        one(ctx, rep, 'link_command', Scn(ctx.kinds, loaded=False, pch=pch), 'Cpp', lines, 'link:unloaded', 'a first build')
        one(ctx, rep, 'link_command', Scn(ctx.kinds, pch=pch, target_linked=False), 'Cpp', lines, 'link:notdone', 'a link step not recorded as done')
        one(ctx, rep, 'link_command', Scn(ctx.kinds, pch=pch, removed=True), 'Cpp', lines, 'link:removed', 'removing a source')
        # whatever recompiles or re-precompiles also relinks
        chg = [dict(change={f: 'list'}) for f in sorted(ctx.kinds) if ctx.kinds[f] in ('info', 'list') and f != 'sources']
        chg += [dict(w='updated'), dict(w='added')]
        for kw in chg:
            sc = Scn(ctx.kinds, pch=pch, **kw)
            B, ss = run(ctx, rep, sc)
            for s in ss:
                if not success(B, s):
                    continue
                i = max([j for j, e in enumerate(s.ev) if e[0] == 'exec' and role_of(e[1]) in ('compile_command', 'pch_command')], default=None)
                if i is None:
                    continue
                ok = any(e[0] == 'exec' and role_of(e[1]) == 'link_command' for e in s.ev[i:])
                rep.ob(ok, 'link:after-compile', lines['link_command'], 'objects are rebuilt without relinking afterwards (%s)' % sc.describe())
    # the link command takes the object of every source, built where the compile command wrote it
    B, ss = run(ctx, rep, Scn(ctx.kinds, loaded=False))
    for s in ss:
        for le in execs(s, 'link_command'):
            a = cmd_args(B.E, le[1]).get('compiled_sources')
            for ce in execs(s, 'compile_command'):
                o = cmd_args(B.E, ce[1]).get('output')
                if a is None or o is None:
                    rep.bad('link:objects', le[3], 'link or compile command has no object placeholder value')
                    continue
                k = [q for q in keys(ce)]
                want = generic(strip_path(o), k)
                got = [generic(strip_path(v), (X,)) for v in join_elems(a)]
                rep.ob(want in got, 'link:objects', le[3], 'the objects linked (%s) are not the objects compiled (%s)' % (pp(a)[:200], pp(o)[:200]))
    rep.counts['tracked_inputs'] = n
    rep.need(n - 4, 'no field reaches the link command')

def generic(t, ks):
    """rename every source element key to X"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == 'elem' and fields_under(t[1], USER) == {'sources'}:
        return ('elem', t[1], X)
    return tuple(generic(x, ks) for x in t)

def join_elems(a):
    out = []
    for x in subterms(a):
        if x[0] == 'img' and len(x) == 3:
            out.append(x[2])
        if x[0] in ('one', 'many') and len(x) == 2 and isinstance(x[1], tuple):
            out.append(x[1])
    return out

def c04(ctx, rep):
    lines = need_roles(ctx)
    for pch in (False, True):
        for ext in EXTS if ctx.tier == 'thorough' else ('Cpp', 'C'):
            for k in ('updated', 'added'):
                for rm in (False, True):
                    sc = Scn(ctx.kinds, w=k, pch=pch, removed=rm)
                    B, ss = run(ctx, rep, sc, ext=ext)
                    for s in ss:
                        if not success(B, s):
                            continue
                        ce = execs(s, 'compile_command')
                        rep.ob(compiles(s), 'inc:%s:missed' % k, lines['compile_command'], 'a source that is %s is not compiled (%s)' % (k, sc.describe()))
                        rep.ob(not any(O in keys(e) or X in keys(e) for e in ce), 'inc:%s:extra' % k, lines['compile_command'],
                               'an unchanged source is compiled although only another source is %s' % k)
                        rep.ob(sum(1 for e in ce if W in keys(e)) <= 1, 'inc:%s:twice' % k, lines['compile_command'], 'a source is compiled twice in one build')
                        rep.ob(bool(execs(s, 'link_command')), 'inc:%s:link' % k, lines['link_command'], 'no relink after a source is %s' % k)
                        rep.ob(not execs(s, 'pch_command'), 'inc:%s:pch' % k, lines['pch_command'], 'the precompiled header is rebuilt although only a source is %s' % k)
                        # input and output of the compile belong to that source
                        for e in ce:
                            a = cmd_args(B.E, e[1])
                            for p in ('input', 'output'):
                                rep.ob(elem_keys(a.get(p, ()), (USER, 'sources')) == {W}, 'inc:%s' % p, e[3],
                                       'the %s of the compile command is not derived from the source being compiled: %s' % (p, pp(a.get(p, ('none',)))[:200]))
            sc = Scn(ctx.kinds, removed=True, pch=pch)
            B, ss = run(ctx, rep, sc, ext=ext)
            for s in ss:
                if success(B, s):
                    rep.ob(not execs(s, 'compile_command'), 'inc:removed:extra', lines['compile_command'], 'removing a source recompiles others')
                    rep.ob(bool(execs(s, 'link_command')), 'inc:removed:link', lines['link_command'], 'removing a source does not relink')

MUT = ('create_directories', 'create_directory', 'remove', 'remove_all', 'rename', 'copy', 'copy_file', 'resize_file', 'create_symlink', 'last_write_time')

def c05(ctx, rep):
    lines = need_roles(ctx)
    base = []
    for pch in (False, True):
        for ne in (True, False, None):
            base.append(dict(pch=pch, nonempty=ne))
        base.append(dict(pch=pch, srcs=False))
        for f in sorted(ctx.kinds):
            if ctx.kinds[f] in ('info', 'list') and f not in ('sources', 'pchs'):
                base.append(dict(pch=pch, empties=(f,)))
    for kw in base:
        for ext in EXTS:
            sc = Scn(ctx.kinds, **kw)
            B, ss = run(ctx, rep, sc, ext=ext)
            for s in ss:
                for e in s.ev:
                    if e[0] == 'exec':
                        rep.bad('null:exec:' + str(role_of(e[1])), e[3], 'nothing changed since the last recorded build, yet the %s command runs (%s; path: %s)' % (ROLE.get(role_of(e[1]), 'unknown'), sc.describe(), why(s)))
                    if e[0] == 'save':
                        rep.bad('null:save', e[4], 'nothing changed since the last recorded build, yet a file is written (%s)' % sc.describe())
                    if e[0] == 'fs' and e[1] in MUT and e[1] != 'create_directories':
                        rep.bad('null:fs:' + e[1], e[3], 'nothing changed since the last recorded build, yet the build calls %s' % e[1])
                rep.ob(success(B, s), 'null:fail', lines['link_command'], 'a build with nothing to do reports failure (%s)' % sc.describe())

# ------------------------------------------------------------------ records
def saved_record(ctx, B, s):
    """[(field -> stored term)] for every save of this target's record"""
    out = []
    for e in s.ev:
        if e[0] == 'save' and e[2][0] == 'jdump':
            out.append((e, e[2][1]))
    return out

def key_map(ctx, rep):
    """json key -> schema field, from the serialiser"""
    E, st, fr = ctx.engine()
    val = ('init', 'recd')
    f = [f for f in ctx.db.byqn.get('buildcc::internal::to_json', ()) if any(short(p['t']).endswith('TargetSchema') for p in f['params'])]
    if len(f) != 1:
        raise AnalysisError('anchor: serialiser of the target record')
    j = (('S', 'j'), ()); st.types[j[0]] = 'nlohmann::json'
    st.store[j[0]] = ('new', 'json')
    src = (('S', 'recd'), ()); st.types[src[0]] = SCHEMA; st.store[src[0]] = val
    rs = E.call_fn(f[0], None, [('ref', j), ('ref', src)], st, fr)
    s = rs[0][0]
    m = {}
    v = E.get(s, j)
    for k, x in json_entries(v):
        fs_ = fields_under(x, val)
        if len(fs_) == 1:
            m[k] = next(iter(fs_))
    rep.use(E)
    if len(m) < 8:
        raise AnalysisError('anchor: serialiser writes only %d known keys' % len(m))
    return m, f[0]['loc']

def json_entries(v):
    out = []
    if v[0] == 'rec':
        for k, x in v[2]:
            if isinstance(k, tuple) and k[0] == 'at' and k[1][0] == 'c':
                out.append((k[1][1], x))
            elif isinstance(k, str):
                out.append((k, x))
    elif v[0] == 'seq':
        for p in v[1]:
            if p[0] == 'one' and p[1][0] == 'rec':
                d = dict(p[1][2])
                if 'first' in d and d['first'][0] == 'c':
                    out.append((d['first'][1], d.get('second')))
    elif v[0] == 'json':
        return json_entries(v[2])
    return out

def records(ctx, km, B, s):
    out = []
    for e, v in saved_record(ctx, B, s):
        d = {}
        for k, x in json_entries(v):
            if k in km:
                d[km[k]] = x
        if d:
            out.append((e, d))
    return out

def unjson(x):
    while isinstance(x, tuple) and x and x[0] == 'json' and len(x) == 3:
        x = x[2]
    return x

def rec_sources(x):
    """element keys of the sources a stored list contains (set), or None if unknown shape"""
    return elem_keys(x, (USER, 'sources'))

# ------------------------------------------------------------ failures
def fail_role(role, key=None):
    def f(cmd):
        if role_of(cmd) != role:
            return True
        if key is None:
            return False
        ks = elem_keys(cmd, (USER, 'sources')) if role == 'compile_command' else set()
        if ks == {key}:
            return False
        if X in ks:
            return None
        return True
    return f

def starts(ctx):
    """the situations a build may start from"""
    out = []
    for pch in (False, True):
        out.append(dict(loaded=False, pch=pch))
        out.append(dict(pch=pch, w='updated'))
        out.append(dict(pch=pch, w='added'))
        out.append(dict(pch=pch, removed=True))
        out.append(dict(pch=pch, change={'preprocessor_flags': 'list'}))
        out.append(dict(pch=pch, change={'headers': 'content'}))
        out.append(dict(pch=pch, change={'libs': 'content'}))
        out.append(dict(pch=pch, target_linked=False))
        if pch:
            out.append(dict(pch=True, pch_compiled=False))
            out.append(dict(pch=True, change={'pchs': 'content'}))
    return out

def faults(ctx, kw):
    yield 'none', {}
    yield 'compile', dict(execok=fail_role('compile_command', W))
    yield 'compile-all', dict(execok=fail_role('compile_command'))
    yield 'link', dict(execok=fail_role('link_command'))
    yield 'save', dict(saveok=False)
    if kw.get('pch'):
        yield 'pch', dict(execok=fail_role('pch_command'))
    for f in sorted(ctx.kinds):
        if ctx.kinds[f] == 'info' and (f != 'pchs' or kw.get('pch')):
            yield 'missing ' + f, dict(missing=f)

def c06(ctx, rep):
    km, kl = key_map(ctx, rep)
    n = 0
    creq = set(requirements(ctx, rep, 'compile_command', 'Cpp', True)) | {'headers', 'compile_dependencies'}
    preq = set(requirements(ctx, rep, 'pch_command', 'Cpp', True)) | {'headers', 'pchs'}
    creq |= preq
    lreq = set(requirements(ctx, rep, 'link_command', 'Cpp', True)) | {'libs', 'link_dependencies'}
    for kw in starts(ctx):
        for fn, fkw in faults(ctx, kw):
            sc = Scn(ctx.kinds, **{**kw, **fkw})
            B, ss = run(ctx, rep, sc)
            chg = set(sc.change)
            for s in ss:
                for e, d in records(ctx, km, B, s):
                    n += 1
                    i = s.ev.index(e)
                    before = s.ev[:i]
                    okc = set()
                    for x in before:
                        if x[0] == 'exec' and x[2] and role_of(x[1]) == 'compile_command':
                            okc |= keys(x)
                    okp = any(x[0] == 'exec' and x[2] and role_of(x[1]) == 'pch_command' for x in before)
                    anyp = any(x[0] == 'exec' and role_of(x[1]) == 'pch_command' for x in before)
                    okl = any(x[0] == 'exec' and x[2] and role_of(x[1]) == 'link_command' for x in before)
                    anyc = any(x[0] == 'exec' and role_of(x[1]) in ('compile_command', 'pch_command') for x in before)
                    src = d.get('sources', ())
                    for k in rec_sources(src):
                        kk = {W, O} if k == X else {k}
                        for q in kk:
                            if q in okc or X in okc:
                                continue
                            same = sc.loaded and not (chg & creq) and not anyp and (q != W or sc.w == 'same')
                            rep.ob(same, 'record:source:%s' % fn, e[4],
                                   'the saved record lists a source whose compile did not succeed in this build (%s, failing step: %s)' % (sc.describe(), fn))
                    if not sc.loaded or fn != 'none':
                        pass
                    p = unjson(d.get('pch_compiled', FALSE))
                    if p != FALSE:
                        ok = okp or (sc.loaded and sc.pch and sc.pch_compiled and not anyp and not (chg & preq))
                        rep.ob(ok, 'record:pch:%s' % fn, e[4], 'the saved record marks the precompiled header as built although that step did not succeed (%s, failing step: %s): %s' % (sc.describe(), fn, pp(p)[:120]))
                    else:
                        rep.ob(True, 'record:pch', e[4], '')
                    t = unjson(d.get('target_linked', FALSE))
                    if t != FALSE:
                        ok = okl or (sc.loaded and sc.target_linked and not anyc and not (chg & lreq) and not sc.removed and fn == 'none')
                        rep.ob(ok, 'record:link:%s' % fn, e[4], 'the saved record marks the target as linked although that step did not succeed (%s, failing step: %s): %s' % (sc.describe(), fn, pp(t)[:120]))
                    else:
                        rep.ob(True, 'record:link', e[4], '')
                    # fields of a step that did not run keep no fresh claim: pchs only with a done precompile
                    pf = unjson(d.get('pchs', ()))
                    if pf != () and fields_under(pf, USER) and not okp:
                        ok = sc.loaded and sc.pch and sc.pch_compiled and not anyp and not (chg & preq)
                        if p != FALSE or not ok:
                            rep.ob(ok or p == FALSE, 'record:pchs:%s' % fn, e[4], 'the saved record adopts the current precompiled-header files although they were not compiled (%s)' % sc.describe())
    rep.counts['records_decoded'] = n
    rep.need(n, 'no saved record')

def started_failed(ctx, rep, B):
    pass

def c07(ctx, rep):
    lines = need_roles(ctx)
    n = 0
    fset = ctx.db.func('buildcc::env::set_task_state')
    for kw in starts(ctx):
        for fn, fkw in faults(ctx, kw):
            sc = Scn(ctx.kinds, **{**kw, **fkw})
            B, ss0 = Build(ctx.db, ctx.names, sc), None
            ss = B.full()
            rep.use(B.E)
            rep.count('scenarios'); rep.count('final_states', len(ss))
            for s in ss:
                for e in s.ev:
                    if e[0] == 'escape':
                        rep.bad('fail:escape', task_of(e[1]), 'an exception leaves the task started at %s without being turned into a build failure (%s, failing step: %s)' % (task_of(e[1]), sc.describe(), fn))
                    if e[0] == 'process-exit':
                        rep.bad('fail:exit', task_of(e[1]), 'a task ends the process instead of reporting failure (%s, %s)' % (sc.describe(), fn))
                bad = [e for e in s.ev if e[0] == 'exec' and not e[2] or e[0] == 'save' and not e[3] or e[0] == 'fatal']
                if bad:
                    n += 1
                    rep.ob(not success(B, s), 'fail:reported:' + fn, str(bad[0][-1] if bad[0][0] != 'fatal' else lines['link_command']),
                           'a failing step (%s) leaves the build reported as successful (%s)' % (fn, sc.describe()))
                # nothing downstream of a failure runs
                first = next((i for i, e in enumerate(s.ev) if e[0] == 'exec' and not e[2]), None)
                if first is not None:
                    r = role_of(s.ev[first][1])
                    later = [e for e in s.ev[first + 1:] if e[0] == 'exec' and (role_of(e[1]) != r or r != 'compile_command')]
                    rep.ob(not later, 'fail:downstream:' + str(r), later[0][3] if later else '', 'after the %s step failed the build still runs the %s command' % (ROLE.get(r), ROLE.get(role_of(later[0][1])) if later else ''))
                for i, e in enumerate(s.ev):
                    if e[0] == 'fatal' and e is not None:
                        later = [x for x in s.ev[i + 1:] if x[0] == 'exec' and role_of(x[1]) != 'compile_command']
                        rep.ob(not later, 'fail:downstream:fatal:' + fn, later[0][3] if later else '', 'after a step failed (%s) the build still runs the %s command' % (fn, ROLE.get(role_of(later[0][1])) if later else ''))
                        break
    # a failure recorded before this target starts
    for pch in (False, True):
        for kw in (dict(loaded=False), dict(w='updated'), dict(change={'libs': 'content'})):
            sc = Scn(ctx.kinds, pch=pch, **kw)
            B = Build(ctx.db, ctx.names, sc)
            built = B.run()
            for s, k, v in built:
                if k != 'v':
                    continue
                fail = enumv(ctx.db, 'buildcc::env::TaskState', 'FAILURE')
                s0 = B.E.call_fn(fset, None, [fail], s, B.fr)[0][0]
                for s1 in B.run_tasks(s0):
                    n += 1
                    ex = execs(s1)
                    rep.ob(not ex, 'fail:prior', ex[0][3] if ex else '', 'a target still runs its %s command after another step of the run has failed' % (ROLE.get(role_of(ex[0][1])) if ex else ''))
                    rep.ob(not success(B, s1), 'fail:sticky', 'buildcc/lib/env', 'an earlier failure is forgotten: the state is success again after this target')
            rep.use(B.E)
    rep.counts['failing_paths'] = n
    rep.need(n, 'no failing path')

def task_of(t):
    return str(t[-1]) if isinstance(t, tuple) else str(t)

def c08(ctx, rep):
    lines = need_roles(ctx)
    for pch in (False, True):
        for kw in (dict(loaded=False), dict(w='updated')):
            sc = Scn(ctx.kinds, pch=pch, **kw)
            B, ss = run(ctx, rep, sc)
            for s in ss:
                if not success(B, s):
                    continue
                where = {}
                edges = [(e[1], e[2]) for e in s.ev if e[0] == 'edge']
                parent = {}
                stack = []
                for e in s.ev:
                    if e[0] == 'task':
                        if stack:
                            parent[e[1]] = stack[0]
                        stack.append(e[1])
                    elif e[0] == 'taskend':
                        if e[1] in stack:
                            while stack and stack.pop() != e[1]:
                                pass
                    elif e[0] == 'detach':
                        rep.bad('order:detach', lines['compile_command'], 'a task group is detached, so later steps do not wait for it')
                    elif e[0] == 'dangling':
                        rep.bad('order:dangling', task_of(e[1]), 'a task captures a local variable by reference that no longer exists when the task runs')
                    elif e[0] == 'exec':
                        r = role_of(e[1])
                        if not stack:
                            rep.bad('order:outside', e[3], 'the %s command runs outside the task graph' % ROLE.get(r))
                        else:
                            where.setdefault(r, set()).add(stack[0])
                    elif e[0] == 'save' and e[2][0] == 'jdump' and stack:
                        where.setdefault('save', set()).add(stack[0])
                seq = (['pch_command'] if pch and 'pch_command' in where else []) + ['compile_command', 'link_command', 'save']
                for a, b in zip(seq, seq[1:]):
                    if a not in where or b not in where:
                        rep.bad('order:missing:%s' % (b if a in where else a), lines['link_command'], 'step %s is not part of a first build' % (b if a in where else a))
                        continue
                    for ta in where[a]:
                        for tb in where[b]:
                            ok = ta != tb and reach(edges, ta, tb)
                            if ta == tb:
                                ok = in_order(s, a, b)
                            rep.ob(ok, 'order:%s-%s' % (a, b), task_of(tb), 'the %s task (%s) does not have to finish before the %s task (%s) starts' % (ROLE.get(a, a), task_of(ta), ROLE.get(b, b), task_of(tb)))
                # different sources may compile concurrently, but never the same task twice
                ts = [e[2] for e in s.ev if e[0] == 'emplace']
                rep.count('tasks', len(ts)); rep.count('edges', len(edges))

def in_order(s, a, b):
    r = lambda e: 'save' if e[0] == 'save' and e[2][0] == 'jdump' else role_of(e[1]) if e[0] == 'exec' else None
    ia = [i for i, e in enumerate(s.ev) if r(e) == a]
    ib = [i for i, e in enumerate(s.ev) if r(e) == b]
    return bool(ia and ib) and max(ia) < min(ib)

def reach(edges, a, b):
    seen = {a}; work = [a]
    while work:
        x = work.pop()
        for p, q in edges:
            if p == x and q not in seen:
                if q == b:
                    return True
                seen.add(q); work.append(q)
    return False

def c11(ctx, rep):
    km, kl = key_map(ctx, rep)
    n = 0
    for kw in starts(ctx):
        for fn, fkw in faults(ctx, kw):
            sc = Scn(ctx.kinds, **{**kw, **fkw})
            B, ss = run(ctx, rep, sc)
            for s in ss:
                rs = records(ctx, km, B, s)
                ran = [i for i, e in enumerate(s.ev) if e[0] == 'exec']
                okx = [i for i in ran if s.ev[i][2]]
                if okx:
                    last = [i for i, e in enumerate(s.ev) if e[0] == 'save' and any(e is r[0] for r in rs)]
                    rep.ob(bool(last) and max(last) > max(okx), 'store:missing:' + fn, s.ev[max(okx)][3],
                           'commands ran but the build record is not saved afterwards (%s, failing step: %s)' % (sc.describe(), fn))
                for e, d in rs:
                    n += 1
                    for f, k in ctx.kinds.items():
                        if f not in d:
                            if f in km.values():
                                rep.bad('store:drops:' + f, e[4], 'the saved record has no %s' % f)
                            continue
                        x = unjson(d[f])
                        if k == 'list' and f:
                            rep.ob(fields_under(x, USER) == {f} and not fields_under(x, LOAD), 'store:value:' + f, e[4], 'the saved %s is not the value this build used: %s' % (f, pp(x)[:160]))
                        elif k == 'info' and f not in ('sources', 'pchs') and success(B, s):
                            rep.ob(fields_under(x, USER) == {f} and fresh(x, USER, f), 'store:fresh:' + f, e[4], 'the saved %s does not carry the fingerprints this build compared: %s' % (f, pp(x)[:160]))
                        elif f == 'pchs' and success(B, s) and sc.pch:
                            rep.ob(fields_under(x, USER) == {f} and fresh(x, USER, f), 'store:fresh:' + f, e[4], 'the saved precompiled headers do not carry the fingerprints this build compared: %s' % pp(x)[:160])
                        elif f == 'sources' and success(B, s):
                            rep.ob(W in rec_sources(x) or X in rec_sources(x), 'store:sources', e[4], 'a source of a successful build is missing from the saved record (%s)' % sc.describe())
                            if rec_sources(x):
                                rep.ob(fresh(x, USER, 'sources'), 'store:fresh:sources', e[4], 'recorded sources carry no fingerprint: %s' % pp(x)[:160])
                        elif f == 'target_linked' and success(B, s):
                            rep.ob(x == TRUE, 'store:linked', e[4], 'a successful build is not recorded as linked: %s' % pp(x)[:80])
                        elif f == 'pch_compiled' and success(B, s):
                            rep.ob((x == TRUE) == sc.pch, 'store:pch', e[4], 'a successful build records the precompiled header step as %s' % pp(x)[:80])
                    if fn == 'compile' and kw.get('loaded') is False:
                        # the others that did compile stay recorded
                        done = set()
                        for q in s.ev[:s.ev.index(e)]:
                            if q[0] == 'exec' and q[2] and role_of(q[1]) == 'compile_command':
                                done |= keys(q)
                        for q in done:
                            rep.ob(q in rec_sources(d.get('sources', ())), 'store:progress', e[4], 'a source that compiled is not recorded because another one failed')
                if fn == 'save':
                    bad = [e for e in s.ev if e[0] == 'save' and not e[3] and e[2][0] == 'jdump']
                    if bad:
                        rep.ob(not success(B, s), 'store:failed', bad[0][4], 'the record could not be saved and the build still reports success (%s)' % sc.describe())
    rep.counts['records_decoded'] = n
    rep.need(n, 'no saved record')
