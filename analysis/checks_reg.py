"""C22-C23: registration of builds, dependencies and tests"""
import itertools
from base import *

INST = 'buildcc::Reg::Instance'
BI = 'buildcc::internal::BuilderInterface'
I = (('S', 'reg'), ())

def fatal(k, s):
    return k in ('exit', 'throw') and any(e[0] == 'fatal' for e in s.ev)

def uid(n):
    return C('[tc]' + n)

def builder(st, n, cls='buildcc::Target'):
    loc = (('S', ('builder', n)), ())
    st.types[loc[0]] = cls
    return loc

def name_of(loc):
    return loc[0][1][1] if loc[0][0] == 'S' and isinstance(loc[0][1], tuple) and loc[0][1][0] == 'builder' else None

def reg_stubs(ctx):
    """the identity of a builder as its public getters give it: ids differ, plain names do not"""
    def by(fn):
        def stub(E, e, args, st, fr):
            loc = args[0][1]
            n = name_of((loc[0], ()))
            if n is None:
                return V(st, ('app', e['fn']['name'], (('at', loc),)))
            return V(st, fn(n, loc))
        return stub
    stubs = {}
    for q in ctx.db.byqn:
        if q.endswith('::GetUniqueId'):
            stubs[q] = by(lambda n, loc: uid(n))
        elif q.endswith('::GetName') and 'Toolchain' not in q:
            stubs[q] = by(lambda n, loc: C('same'))
        elif q.endswith('::GetTaskflow') and 'Reg' not in q:
            stubs[q] = by(lambda n, loc: ('ref', (('S', ('tf', n)), ())))
    if BI + '::GetUniqueId' not in stubs or BI + '::GetTaskflow' not in stubs:
        raise AnalysisError('anchor vanished: BuilderInterface getters')
    return stubs

def instance(ctx, oracle=None):
    E, st, fr = ctx.engine(oracle, reg_stubs(ctx))
    E.graph = True
    st.types[I[0]] = INST
    rs = [s for s, k, v in E.default_construct(INST, I, st, fr) if k == 'v']
    if len(rs) != 1:
        raise AnalysisError('anchor: Reg::Instance construction')
    return E, rs[0], fr

def build_fns(ctx, cls=INST):
    fs = [f for f in ctx.db.byqn.get(cls + '::Build', ()) if f.get('body') is not None and len(f['params']) == 2 and 'std::function' in f['params'][0]['t']]
    if not fs:
        raise AnalysisError('anchor vanished: %s::Build' % cls)
    return fs

def for_type(fs, t):
    for f in fs:
        if f['params'][1]['t'] == 'buildcc::%s &' % t:
            return f
    raise AnalysisError('anchor vanished: Build for ' + t)

def register(E, f, n, st, fr, cls):
    loc = builder(st, n, cls)
    return E.call_fn(f, I, [('init', 'cb:' + n), ('ref', loc)], st, fr)

def edges(st):
    return [p[1] for p in st.store.get(('TF', 'edges'), EMPTY)[1]]

def modules(st):
    """tasks of the build taskflow: (task, module location, name)"""
    out = []
    for r, v in st.store.items():
        if r[0] == 'TF' and r[1] != 'edges' and v[0] == 'seq':
            for p in v[1]:
                t = E_first(p[1])
                if t[0] == 'task':
                    out.append((t, t[2], st.store.get(('TFN', t)), r[1]))
    return out

def E_first(p):
    return dict(p[2]).get('first', p) if p[0] == 'rec' else p

def reach(es, a):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        for (u, v) in es:
            if u == x and v not in seen:
                seen.add(v); todo.append(v)
    return seen

def c22(ctx, rep):
    """The registration code is interpreted on a concrete task graph: every acyclic graph over the bounded number of builders (built by the code itself,
    in every order for the smallest ones) times every ordered pair of builders, registered or not. The outcome of Dep is compared with graph reachability."""
    db = ctx.db
    E, st, fr = instance(ctx)
    fb = for_type(build_fns(ctx), 'Target')
    fg = for_type(build_fns(ctx), 'FileGenerator')
    dep = db.func(INST + '::Dep')
    # registration
    for f, cls, what in ((fb, 'buildcc::Target', 'target'), (fg, 'buildcc::FileGenerator', 'generator')):
        E, st, fr = instance(ctx)
        st.ev = ()
        ok = 0
        for s, k, v in register(E, f, 'a', st, fr, cls):
            if k != 'v':
                rep.ob(any(e[0] == 'cbthrow' for e in s.ev), 'build:fail:' + what, f['loc'], 'registering a new %s fails' % what)
                continue
            ok += 1
            cbs = [e for e in s.ev if e[0] == 'usercb']
            rep.ob(len(cbs) == 1 and cbs[0][1] == ('init', 'cb:a') and len(cbs[0][2]) == 1, 'build:cb:' + what, f['loc'], 'Build of a %s calls the setup callback %d times' % (what, len(cbs)))
            ms = modules(s)
            rep.ob(len(ms) == 1 and ms[0][1] == ('module', (('S', ('tf', 'a')), ())) and ms[0][3][0] == I[0], 'build:task:' + what, f['loc'],
                   'Build of a %s does not put exactly the task flow of that %s into the build task flow' % (what, what))
            # a second registration under the same id is refused
            s.ev = ()
            for s2, k2, v2 in register(E, f, 'a', s.copy(), fr, cls):
                rep.ob(fatal(k2, s2) or any(e[0] == 'cbthrow' for e in s2.ev), 'build:dup:' + what, f['loc'], 'a second Build of the same %s is accepted' % what)
        rep.ob(ok == 1, 'build:ok:' + what, f['loc'], 'registering a %s has %d normal outcomes' % (what, ok))
        rep.use(E)
    # dependency edges
    def setup(names, gens=()):
        E, st, fr = instance(ctx)
        for n in names:
            g = n in gens
            r = [s for s, k, v in register(E, fg if g else fb, n, st, fr, 'buildcc::FileGenerator' if g else 'buildcc::Target') if k == 'v']
            if len(r) != 1:
                rep.bad('build:ok:history', fb['loc'], 'registering a further builder does not succeed')
                return None
            st = r[0]
        st.ev = ()
        builder(st, 'zz')
        return E, st, fr
    def tasks(st):
        d = {}
        for t, m, nm, tf in modules(st):
            if m[0] == 'module' and m[1][0][0] == 'S' and m[1][0][1][0] == 'tf':
                d[t] = m[1][0][1][1]
        return d
    def add(E, st, fr, tgt, d):
        s0 = st.copy()
        s0.ev = ()
        return E.call_fn(dep, I, [('ref', builder(s0, tgt)), ('ref', builder(s0, d))], s0, fr)
    def judge(E, st, fr, es, tgt, d, names, hist):
        """one Dep call in a known graph; returns the successor state"""
        known = tgt in names and d in names
        want = known and tgt != d and (d, tgt) not in es and d not in reach(es, tgt)
        why = 'registered' if not known else 'self' if tgt == d else 'dup' if (d, tgt) in es else 'cycle' if d in reach(es, tgt) else 'ok'
        rs = add(E, st, fr, tgt, d)
        rep.count('Dep calls')
        tn = tasks(st)
        where = dep['loc']
        msg = 'after %s, Dep(%s, %s) ' % (', '.join('Dep(%s, %s)' % (b, a) for a, b in hist) or 'registration', tgt, d)
        if len(rs) != 1:
            if not rs:
                rep.ob(False, 'dep:%s:none' % why, where, msg + 'never returns')
                return None
            for s, k, v in rs:
                good = (k == 'v') == want and (want or fatal(k, s))
                if not good:
                    rep.ob(False, 'dep:%s' % why, where, msg + ('can be refused' if want else 'can be accepted'))
                    return None
            s, k, v = rs[0]
        else:
            s, k, v = rs[0]
        if want:
            if not rep.ob(k == 'v', 'dep:%s' % why, where, msg + 'is refused although it closes no cycle'):
                return None
            new = [(tn.get(a), tn.get(b)) for a, b in edges(s)]
            if not rep.ob(sorted(map(str, new)) == sorted(map(str, list(es) + [(d, tgt)])), 'dep:edge', where, msg + 'leaves the order %s instead of %s' % (sorted(map(str, new)), sorted(list(es) + [(d, tgt)]))):
                return None
            return s
        rep.ob(fatal(k, s), 'dep:%s' % why, where, msg + {'registered': 'is accepted with a builder that was never registered', 'self': 'is accepted (a builder depending on itself)',
               'dup': 'is accepted a second time', 'cycle': 'is accepted and closes a cycle: those builds never run'}.get(why, ''))
        rep.ob(edges(s) == edges(st), 'dep:%s:noedge' % why, where, msg + 'adds an edge although it is refused')
        return None
    def explore(names, allorders, gens=(), probe=None):
        x = setup(names, gens)
        if x is None:
            return
        E, st, fr = x
        cand = list(names) + ['zz']
        seen = set()
        pairs = [(a, b) for a in names for b in names if a != b]
        def go(st, es, hist, start):
            rep.count('graphs')
            nxt = []
            for t in cand:
                for d in cand:
                    s = judge(E, st, fr, set(es), t, d, names, hist)
                    if s is not None:
                        nxt.append(((d, t), s))
            for e2, s in nxt:
                es2 = frozenset(es | {e2})
                key = es2 if not allorders else tuple(hist) + (e2,)
                if not allorders and key in seen:
                    continue
                seen.add(key)
                go(s, es2, hist + [e2], start)
        go(st, frozenset(), [], 0)
        rep.use(E)
    explore(['a', 'b', 'c'], True)
    explore(['a', 'b', 'c', 'd'], False, gens=('b', 'd'))
    # long chains and layered graphs, every closing pair
    n = 6 if ctx.tier == 'quick' else 12
    names = ['n%d' % i for i in range(n)]
    for shape in ('chain', 'layers', 'fan'):
        x = setup(names)
        if x is None:
            break
        E, st, fr = x
        es, hist = set(), []
        if shape == 'chain':
            todo = [(names[i], names[i + 1]) for i in range(n - 1)]
        elif shape == 'layers':
            todo = [(names[i], names[j]) for i in range(n) for j in range(i + 1, n) if i // 2 + 1 == j // 2]
        else:
            todo = [(names[0], m) for m in names[1:-1]] + [(m, names[-1]) for m in names[1:-1]]
        good = True
        for a, b in todo:
            s = judge(E, st, fr, es, b, a, names, hist)
            if s is None:
                good = False
                break
            st = s
            es.add((a, b)); hist.append((a, b))
        if not good:
            break
        for t in names:
            for d in names:
                judge(E, st, fr, es, t, d, names, hist)
        rep.use(E)
    rep.need(rep.counts.get('Dep calls', 0), 'Dep calls')

def reg_global(ctx):
    gs = [g for g in ctx.db.globals.values() if 'unique_ptr' in g['t'] and 'Reg::Instance' in g['t'] or g['t'] in ('buildcc::Reg::Instance *', 'std::shared_ptr<buildcc::Reg::Instance>')]
    if len(gs) != 1:
        raise AnalysisError('anchor: the registration singleton')
    return ('G', gs[0]['gk'])

def counted(st, *key):
    """event that is kept once per occurrence"""
    n = st.store.get(('CNT', key), 0)
    st.store[('CNT', key)] = n + 1
    st.emit(key + (n,))

def run_stubs(results):
    """Execute: the result of each command is chosen by the scenario"""
    def execute(E, e, args, st, fr):
        vals = tuple(E.rv(a, st) for a in args)
        cmd = vals[0]
        which = [x[1][4:] for x in subterms(cmd) if x[0] == 'init' and str(x[1]).startswith('cmd:')]
        if len(which) != 1:
            st.emit(('testexec', 'unknown', 0))
            return V(st, C(True))
        counted(st, 'testexec', which[0])
        for v in vals[1:]:
            if v[0] == 'ptr' and E.access:
                E.access(st, v[1], True)        # captured output
        return V(st, C(results.get(which[0], True)))
    return {'buildcc::env::Command::Execute': execute}

def default_config(E, st, fr):
    loc = (('S', 'testconfig'), ())
    st.types[loc[0]] = 'buildcc::TestConfig'
    cands = [f for f in E.db.byqn.get('buildcc::TestConfig::TestConfig', ()) if f.get('ctor') not in ('copy', 'move') and f.get('body') is not None]
    if not cands:
        raise AnalysisError('anchor vanished: TestConfig constructor')
    f = cands[0]
    oloc = (('S', 'testoutput'), ())
    of = [g for g in E.db.byqn.get('buildcc::TestOutput::TestOutput', ()) if g.get('ctor') not in ('copy', 'move') and g.get('body') is not None]
    if not of:
        raise AnalysisError('anchor vanished: TestOutput constructor')
    return loc, f, oloc, of[0]

def make_config(E, st, fr, typ, out=('init', 'userout'), err=('init', 'usererr'), args=('init', 'testargs'), wd=('init', 'testwd')):
    loc, f, oloc, of = default_config(E, st, fr)
    st.types[oloc[0]] = 'buildcc::TestOutput'
    st = [s for s, k, v in E.run_ctor(of, 'buildcc::TestOutput', oloc, [typ, out, err][:len(of['params'])], st, fr) if k == 'v'][0]
    st = [s for s, k, v in E.run_ctor(f, 'buildcc::TestConfig', loc, [args, wd, ('ref', oloc)][:len(f['params'])], st, fr) if k == 'v'][0]
    return st, ('ref', loc)

def enumerators(db, qn):
    return [('enum', e['name'], e['v']) for e in db.enums[qn]['e']]

def c23(ctx, rep):
    """Reg::Run is interpreted on registered builds and tests for every combination of failing builds, failing tests, failing callback: order of
    build, callback and tests, how often each is run, and whether the failure reaches the caller."""
    db = ctx.db
    run = [f for f in db.byqn.get('buildcc::Reg::Run', ()) if f.get('body') is not None][0]
    test = db.func(INST + '::Test')
    fb = for_type(build_fns(ctx), 'Target')
    G = reg_global(ctx)
    sets = [f for f in db.byqn.get('buildcc::env::set_task_state', ()) if f.get('body') is not None]
    types = enumerators(db, 'buildcc::TestOutput::Type')
    if not sets or not types:
        raise AnalysisError('anchor vanished: set_task_state / TestOutput::Type')
    FAIL = enumv(db, 'buildcc::env::TaskState', 'FAILURE')
    names = ['a', 'b', 'c'] if ctx.tier != 'quick' else ['a', 'b']
    for bad in itertools.product(('ok', 'fail'), repeat=len(names)):
        for tests in itertools.product((None, True, False), repeat=len(names)):
            for cb in (None, 'cb', 'cbfail'):
                res = {n: t for n, t in zip(names, tests) if t is not None}
                def orc(a, s):
                    if any(x == ('init', 'post') for x in subterms(a)):
                        return a[0] != 'null' and not (a[0] == 'eq' and ('null',) in a[1:])
                    return None
                E, st, fr = instance(ctx, orc)
                E.stubs.update(run_stubs(res))
                fails = dict(zip(names, bad))
                def on_module(E, s, m, tid, fr2, fails=fails):
                    n = m[0][1][1] if m[0][0] == 'S' and isinstance(m[0][1], tuple) else None
                    counted(s, 'built', n)
                    if fails.get(n) == 'fail':
                        out = []
                        for s2, k, v in E.call_fn(sets[0], None, [FAIL], s, fr2):
                            out.append((s2, 'n' if k == 'v' else k, v))
                        return out
                    return [(s, 'n', None)]
                E.on_module = on_module
                for n in names:
                    st = [s for s, k, v in register(E, fb, n, st, fr, 'buildcc::Target') if k == 'v'][0]
                st, cfg = make_config(E, st, fr, types[0])
                for n in names:
                    if n in res:
                        rs = [s for s, k, v in E.call_fn(test, I, [('init', 'cmd:' + n), ('ref', builder(st, n)), cfg], st, fr) if k == 'v']
                        if len(rs) != 1:
                            rep.bad('test:register', test['loc'], 'registering a test of a registered target does not succeed')
                            return
                        st = rs[0]
                st.ev = ()
                st.store[G] = ('ptr', I)
                if cb == 'cbfail':
                    # the callback runs further tasks of its own, one of which fails
                    E.on_usercb = lambda E, s, v, fr2: [(s2, k2) for s2, k2, v2 in E.call_fn(sets[0], None, [FAIL], s, fr2)]
                rs = E.call_fn(run, None, [('init', 'post') if cb else ('null',)], st, fr)
                rep.use(E)
                scn = 'builds %s, tests %s, callback %s: ' % (fails, res, cb or 'none')
                rep.count('runs')
                rep.ob(len(rs) > 0, 'run:none', run['loc'], scn + 'Run never returns')
                for s, k, v in rs:
                    ev = s.ev
                    def idx(kind, n=None):
                        return [i for i, e in enumerate(ev) if e[0] == kind and (n is None or e[1] == n)]
                    cbt = any(e[0] == 'cbthrow' for e in ev)
                    rep.ob(not idx('escape'), 'run:escape', run['loc'], scn + 'an exception of a test escapes into the task scheduler')
                    for n in names:
                        rep.ob(len(idx('built', n)) == 1, 'run:built', run['loc'], scn + 'target %s is built %d times' % (n, len(idx('built', n))))
                    anyfail = 'fail' in bad
                    if anyfail:
                        rep.ob(fatal(k, s), 'run:buildfail', run['loc'], scn + 'Run goes on as if the failed build had succeeded')
                        rep.ob(not idx('usercb') and not idx('testexec'), 'run:afterfail', run['loc'], scn + 'the callback or a test is run after a failed build')
                        continue
                    last_build = max(idx('built') or [-1])
                    cbs = idx('usercb')
                    rep.ob(len(cbs) == (1 if cb else 0), 'run:cb', run['loc'], scn + 'the post build callback is called %d times' % len(cbs))
                    rep.ob(all(i > last_build for i in cbs) and all(i > last_build for i in idx('testexec')), 'run:order', run['loc'], scn + 'the callback or a test runs before the builds are finished')
                    rep.ob(all(i > c for c in cbs for i in idx('testexec')), 'run:order2', run['loc'], scn + 'a test runs before the post build callback')
                    if cbt:
                        rep.ob(k != 'v', 'run:cbthrow', run['loc'], scn + 'an exception of the callback is swallowed')
                        continue
                    for n in names:
                        want = 1 if n in res else 0
                        rep.ob(len(idx('testexec', n)) == want, 'run:test', run['loc'], scn + 'the test of %s is run %d times instead of %d' % (n, len(idx('testexec', n)), want))
                    if False in res.values() or cb == 'cbfail':
                        rep.ob(fatal(k, s), 'run:testfail', run['loc'], scn + 'Run reports success although a test or a task failed')
                    else:
                        rep.ob(k == 'v', 'run:success', run['loc'], scn + 'Run fails although everything succeeded')
    # not initialised
    for fnname in ('Run', 'Call', 'Toolchain', 'GetTaskflow'):
        f = [f for f in db.byqn.get('buildcc::Reg::' + fnname, ()) if f.get('body') is not None]
        if not f:
            raise AnalysisError('anchor vanished: Reg::' + fnname)
        E, st, fr = ctx.engine(None, reg_stubs(ctx))
        st.store[G] = ('null',)
        for s, k, v in E.call_fn(f[0], None, [('init', 'arg')] * len(f[0]['params']), st, fr):
            rep.ob(fatal(k, s), 'noinit:' + fnname, f[0]['loc'], 'Reg::%s works without Reg::Init' % fnname)
        rep.use(E)

def c24(ctx, rep):
    """The conditional registration operations are interpreted for every value of their condition; the registration and the running of a test for every kind of
    output redirection: command text, executable, arguments, working directory, redirection targets, result."""
    db = ctx.db
    G = reg_global(ctx)
    TI2, CI = 'buildcc::Reg::ToolchainInstance', 'buildcc::Reg::CallbackInstance'
    B = (C(False), C(True))
    state_t = 'buildcc::ArgToolchainState'
    sf = [n for n, f in db.all_fields(state_t)]
    if not {'build', 'test'} <= set(sf):
        raise AnalysisError('anchor: members of ArgToolchainState')
    test = db.func(INST + '::Test')
    dep = db.func(INST + '::Dep')
    fb = for_type(build_fns(ctx), 'Target')
    def fresh(names=()):
        E, st, fr = instance(ctx)
        pk = []
        def setup(E, e, args, st, fr):
            counted(st, 'package', E.rv(args[1], st) if len(args) > 1 else None)
            return V(st, VOID)
        E.stubs['vp_inst::Package::Setup'] = setup
        for n in names:
            st = [s for s, k, v in register(E, fb, n, st, fr, 'buildcc::Target') if k == 'v'][0]
        st.store[G] = ('ptr', I)
        st.ev = ()
        return E, st, fr
    def inst(E, st, fr, maker, arg):
        f = [f for f in db.byqn.get('buildcc::Reg::' + maker, ()) if f.get('body') is not None]
        if not f:
            raise AnalysisError('anchor vanished: Reg::' + maker)
        rs = [(s, v) for s, k, v in E.call_fn(f[0], None, [arg], st, fr) if k == 'v']
        if len(rs) != 1:
            raise AnalysisError('anchor: Reg::%s has %d outcomes' % (maker, len(rs)))
        s, v = rs[0]
        loc = (('S', 'cond:' + maker), ())
        s.types[loc[0]] = TI2 if maker == 'Toolchain' else CI
        E.set(s, loc, E.rv(v, s))
        return s, loc
    def methods(cls, name, pred=None):
        fs = [f for f in db.byqn.get(cls + '::' + name, ()) if f.get('body') is not None and (pred is None or pred(f))]
        if not fs:
            raise AnalysisError('anchor vanished: %s::%s' % (cls, name))
        return fs
    isfun = lambda f: f['params'] and f['params'][0]['t'] == 'const std::function<void ()> &'
    iscb = lambda f: len(f['params']) == 2 and 'std::function' in f['params'][0]['t']
    cases = []
    for b in (False, True):
        for t in (False, True):
            cases.append(('Toolchain', rec(('new', state_t), {'build': C(b), 'test': C(t)}), b, b and t, 'build=%s test=%s' % (b, t)))
        cases.append(('Call', C(b), b, None, 'condition=%s' % b))
    ntests = lambda E, s: tests_of(ctx, E, s)
    for maker, arg, build, tst, cname in cases:
        cls = TI2 if maker == 'Toolchain' else CI
        for f in methods(cls, 'Func', isfun):
            E, st, fr = fresh()
            s0, loc = inst(E, st, fr, maker, arg)
            s0.ev = ()
            rs = E.call_fn(f, loc, [('init', 'f0')], s0, fr)
            for s, k, v in rs:
                n = len([e for e in s.ev if e[0] == 'usercb'])
                if any(e[0] == 'cbthrow' for e in s.ev):
                    rep.ob(k != 'v' and build, 'func:throw', f['loc'], 'an exception of the callback is swallowed'); continue
                rep.ob(k == 'v' and n == (1 if build else 0), 'func:%s' % maker, f['loc'], '%s(%s).Func calls the callback %d times' % (maker, cname, n))
            rep.ob(any(k == 'v' for s, k, v in rs), 'func:none', f['loc'], 'Func has no normal outcome')
            rep.use(E)
        for f in methods(cls, 'Build', iscb):
            t = f['params'][1]['t'].split('::')[-1].rstrip(' &')
            E, st, fr = fresh()
            s0, loc = inst(E, st, fr, maker, arg)
            s0.ev = ()
            rs = E.call_fn(f, loc, [('init', 'cb:a'), ('ref', builder(s0, 'a', 'buildcc::' + t))], s0, fr)
            good = 0
            for s, k, v in rs:
                if any(e[0] == 'cbthrow' for e in s.ev):
                    rep.ob(build, 'build:throw', f['loc'], 'the setup callback is called although the condition is false'); continue
                n = len([e for e in s.ev if e[0] == 'usercb'])
                m = len(modules(s))
                good += 1
                rep.ob(k == 'v' and n == m == (1 if build else 0), 'build:%s:%s' % (maker, t), f['loc'], '%s(%s).Build of a %s calls the setup callback %d times and registers %d tasks' % (maker, cname, t, n, m))
            rep.ob(good == 1, 'build:outcome', f['loc'], 'Build has %d normal outcomes' % good)
            rep.use(E)
        if maker == 'Call':
            continue
        for f in methods(cls, 'BuildPackage', lambda f: 'vp_inst' in f['params'][0]['t']):
            E, st, fr = fresh()
            s0, loc = inst(E, st, fr, maker, arg)
            s0.ev = ()
            for s, k, v in E.call_fn(f, loc, [('ref', (('S', 'pkg'), ()))], s0, fr):
                p = [e for e in s.ev if e[0] == 'package']
                okk = k == 'v' and len(p) == (1 if build else 0)
                rep.ob(okk, 'package', f['loc'], 'Toolchain(%s).BuildPackage sets the package up %d times' % (cname, len(p)))
                if p:
                    got = E.rv(p[0][1], s) if p[0][1] else None
                    rep.ob(got is not None and all(E.field(got, n) == E.field(arg, n) for n in ('build', 'test')), 'package:state', f['loc'], 'BuildPackage hands another condition to the package')
            rep.use(E)
        for f in methods(cls, 'Dep'):
            E, st, fr = fresh(('a', 'b'))
            s0, loc = inst(E, st, fr, maker, arg)
            for s, k, v in E.call_fn(f, loc, [('ref', builder(s0, 'a')), ('ref', builder(s0, 'b'))], s0, fr):
                tn = {t: m[1][0][1][1] for t, m, nm, tf in modules(s) if m[0] == 'module'}
                es = [(tn.get(a), tn.get(b)) for a, b in edges(s)]
                rep.ob(k == 'v' and es == ([('b', 'a')] if build else []), 'dep', f['loc'], 'Toolchain(%s).Dep(a, b) leaves the order %s' % (cname, es))
            rep.use(E)
        for f in methods(cls, 'Test'):
            E, st, fr = fresh(('a', 'b'))
            s0, loc = inst(E, st, fr, maker, arg)
            s0, cfg = make_config(E, s0, fr, ('init', 'type'))
            rs = E.call_fn(f, loc, [('init', 'cmd:a'), ('ref', builder(s0, 'a')), cfg], s0, fr)
            for s, k, v in rs:
                n = len(ntests(E, s))
                rep.ob(k == 'v' and n == (1 if tst else 0), 'test', f['loc'], 'Toolchain(%s).Test registers %d tests' % (cname, n))
            rep.use(E)
    # Instance::Test
    E, st, fr = fresh(('a', 'b'))
    st, cfg = make_config(E, st, fr, ('init', 'type'))
    for who, again in (('zz', False), ('a', True)):
        s0 = st.copy()
        if again:
            s0 = [s for s, k, v in E.call_fn(test, I, [('init', 'cmd:a'), ('ref', builder(s0, 'a')), cfg], s0, fr) if k == 'v'][0]
        s0.ev = ()
        for s, k, v in E.call_fn(test, I, [('init', 'cmd:2'), ('ref', builder(s0, who)), cfg], s0, fr):
            rep.ob(fatal(k, s), 'test:' + ('dup' if again else 'unregistered'), test['loc'], 'a second test of the same target is accepted' if again else 'a test of a target that was never registered is accepted')
            rep.ob(len(ntests(E, s)) == (1 if again else 0), 'test:stored', test['loc'], 'a refused test is stored')
    rep.use(E)
    # TestRunner
    runner = db.func('buildcc::TestInfo::TestRunner')
    ictor = [f for f in db.byqn.get('buildcc::TestInfo::TestInfo', ()) if f.get('ctor') not in ('copy', 'move') and f.get('body') is not None]
    if not ictor:
        raise AnalysisError('anchor vanished: TestInfo constructor')
    gtp = [f for q in ('buildcc::internal::TargetGetterApi', 'buildcc::Target') for f in db.byqn.get(q + '::GetTargetPath', ()) if f.get('body') is not None]
    OUT, ERR, ARGS, WD = ('init', 'userout'), ('init', 'usererr'), ('init', 'testargs'), ('init', 'testwd')
    WANT = {'DefaultBehaviour': (None, None), 'TestPrintOnStderr': (None, 'own'), 'TestPrintOnStdout': ('own', None), 'TestPrintOnStderrAndStdout': ('own', 'own'), 'UserRedirect': (OUT, ERR)}
    types = enumerators(db, 'buildcc::TestOutput::Type')
    rep.need(len(types), 'TestOutput::Type')
    for ty in types:
        short_t = ty[1].split('::')[-1]
        if short_t not in WANT:
            raise AnalysisError('unknown kind of test output: ' + ty[1])
        for result in (True, False):
            E, st, fr = ctx.engine(None, reg_stubs(ctx))
            got = []
            def execute(E, e, args, st, fr):
                st.emit(('testrun', tuple(E.rv(a, st) for a in args)))
                return V(st, C(result))
            E.stubs['buildcc::env::Command::Execute'] = execute
            E.worker = True
            printed = []
            def loginfo(E, e, args, st, fr):
                st.emit(('log', tuple(E.deep(st, E.rv(a, st)) for a in args)))
                return V(st, VOID)
            tl = builder(st, 'a')
            st, cfg = make_config(E, st, fr, ty, OUT, ERR, ARGS, WD)
            loc = (('S', 'testinfo'), ())
            st.types[loc[0]] = 'buildcc::TestInfo'
            st = [s for s, k, v in E.run_ctor(ictor[0], 'buildcc::TestInfo', loc, [('ref', tl) if 'Target' in p['t'] else cfg if 'TestConfig' in p['t'] else ('init', 'cmd') for p in ictor[0]['params']], st, fr) if k == 'v'][0]
            st.ev = ()
            what = 'test with output %s: ' % short_t
            rs = E.call_fn(runner, loc, [], st, fr)
            rep.ob(bool(rs), 'runner:none', runner['loc'], what + 'never ends')
            for s, k, v in rs:
                ex = [e for e in s.ev if e[0] == 'testrun']
                if not rep.ob(len(ex) == 1, 'runner:once', runner['loc'], what + 'the command is run %d times' % len(ex)):
                    continue
                cmd, wd = ex[0][1][0], ex[0][1][1]
                rep.ob(cmd[0] == 'app' and cmd[1] == 'Construct' and cmd[2][1] == ('init', 'cmd'), 'runner:pattern', runner['loc'], what + 'runs %s instead of the registered command' % pp(cmd)[:100])
                if cmd[0] == 'app' and cmd[1] == 'Construct':
                    exe = cmd_args(E, cmd).get('executable')
                    E2 = E
                    want = target_path(ctx, tl)
                    rep.ob(exe == ('disp', want), 'runner:executable', runner['loc'], what + '{executable} is %s, not the (quoted) file of the target' % pp(exe)[:120])
                    given = cmd[2][2] if len(cmd[2]) > 2 else None
                    rep.ob(given == ARGS or given == ('seq', (('all', ARGS),)), 'runner:args', runner['loc'], what + 'the command gets %s instead of the configured arguments' % pp(given)[:100])
                rep.ob(wd == WD or wd == ('some', WD), 'runner:wd', runner['loc'], what + 'runs in %s instead of the configured directory' % pp(wd)[:80])
                ptrs = []
                for i, want in enumerate(WANT[short_t]):
                    p = ex[0][1][2 + i] if len(ex[0][1]) > 2 + i else ('null',)
                    ptrs.append(p)
                    good = p == ('null',) if want is None else (p[0] == 'ptr' and p[1][0][0] == 'L') if want == 'own' else p == want
                    rep.ob(good, 'runner:redirect:%s:%s' % (short_t, 'stdout' if i == 0 else 'stderr'), runner['loc'], what + '%s of the test goes to %s' % ('stdout' if i == 0 else 'stderr', pp(p)[:80]))
                if WANT[short_t] == ('own', 'own'):
                    rep.ob(ptrs[0] != ptrs[1], 'runner:redirect:same', runner['loc'], what + 'stdout and stderr share one buffer')
                if result:
                    rep.ob(k == 'v', 'runner:ok', runner['loc'], what + 'a successful test is reported as failed')
                else:
                    rep.ob(k == 'throw' and any(e[0] == 'fatal' for e in s.ev), 'runner:fail', runner['loc'], what + 'a failed test is reported as successful')
            rep.use(E)

def tests_of(ctx, E, s):
    """registered tests of the instance"""
    for n, f in ctx.db.all_fields(INST):
        if 'TestInfo' in f['t']:
            v = E.get(s, (I[0], (n,)))
            if v[0] == 'seq' and all(p[0] == 'one' for p in v[1]):
                return list(v[1])
            raise AnalysisError('registered tests cannot be enumerated')
    raise AnalysisError('anchor vanished: tests of Reg::Instance')

def target_path(ctx, loc):
    E, st, fr = ctx.engine()
    st.types[loc[0]] = 'buildcc::Target'
    f = E.method('buildcc::Target', 'GetTargetPath')
    if f is None:
        raise AnalysisError('anchor vanished: Target::GetTargetPath')
    rs = E.call_fn(f, loc, [], st, fr)
    return E.rv(rs[0][2], rs[0][0])
