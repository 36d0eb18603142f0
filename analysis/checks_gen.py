"""C13-C15: custom, file and template generators"""
from base import *
from gen import *
from scn import strip_path
import itertools

GFILE = 'buildcc/lib/target/src/custom_generator/custom_generator.cpp'
KINDS = ('added', 'same', 'input', 'output', 'blob')

def who(t):
    """ids whose recorded (prev) / current (cur) state a term mentions"""
    p, c = set(), set()
    for x in subterms(t):
        if x[0] == 'init' and isinstance(x[1], str):
            if x[1].startswith('prev_'):
                p.add(x[1][5:])
            elif x[1].startswith('cur_'):
                c.add(x[1][4:])
    return p, c

def parts_of(t, i):
    """members of id i mentioned"""
    out = set()
    for x in subterms(t):
        if x[0] == 'fld' and x[1] in (('init', 'prev_' + i), ('init', 'cur_' + i)):
            out.add(x[2])
    return out

def stamped(t, i):
    for x in subterms(t):
        if x[0] == 'fs' and x[1] == 'last_write_time' and 'cur_' + i in repr(x):
            return True
    return False

class GScn:
    def __init__(self, kinds, loaded=True, removed=(), fail=None, saveok=True, blob=None, empty=False):
        self.kinds = kinds
        self.loaded = loaded
        self.removed = removed
        self.fail = fail
        self.saveok = saveok
        self.blob = set(kinds) if blob is None else set(blob)
        self.blob |= {i for i, k in kinds.items() if k == 'blobadded'}
        self.blob -= {i for i, k in kinds.items() if k == 'blobremoved'}
        # ids whose record holds a blob
        self.pblob = {i for i, k in kinds.items() if k != 'blobadded' and (i in self.blob or k == 'blobremoved')}
        self.empty = empty

    def describe(self):
        d = ['id %s: %s' % (i, k) for i, k in sorted(self.kinds.items())]
        if not self.loaded:
            d.append('no usable record')
        for r in self.removed:
            d.append('id %s removed' % r)
        if self.fail:
            d.append('%s fails (%s)' % self.fail)
        if not self.saveok:
            d.append('record cannot be saved')
        return ', '.join(d)

    def prev(self):
        if not self.loaded:
            return None
        return [i for i, k in sorted(self.kinds.items()) if k != 'added'] + list(self.removed)

    def changed(self, i):
        return not self.loaded or self.kinds[i] != 'same'

    def __call__(self, a, st):
        k = a[0]
        if k == 'init':
            return True if 'is_init' in str(a[1]) or 'IsInit' in str(a[1]) else None
        if k == 'saveok':
            return self.saveok
        p, c = who(a)
        if len(p | c) != 1:
            return None
        i = next(iter(p | c))
        if i not in self.kinds:
            return None
        kd = self.kinds[i]
        if k == 'empty':
            m = parts_of(a, i)
            if m == {'inputs'} or m == {'outputs'}:
                return self.empty
            if m == {'userblob'} and p:
                return i not in self.pblob
            if m == {'userblob'} and i not in self.blob:
                return True
            return None
        if k == 'errval':
            if self.fail == (i, 'missing'):
                return None if '§o' in repr(a) else True
            return False
        if k == 'cbres':
            return self.fail != (i, 'callback')
        if k == 'app':
            n = a[1].rsplit('::', 1)[1]
            if n == 'Verify' and p and kd == 'blobadded':
                return False        # nothing is recorded: no handler can accept it
            if n == 'Verify':
                return not (self.fail == (i, 'verify') and i in c)
            if n == 'IsEqual':
                old = [x for x in a[2][1:] if who(x)[0] and parts_of(x, i) == {'userblob'}]
                new = [x for x in a[2][1:] if not who(x)[0] and x[0] == 'app' and x[1].endswith('::Serialize')]
                if len(old) == 1 and len(new) == 1:
                    return kd not in ('blob', 'blobadded')
                if len(old) == 2 or len(new) == 2:
                    return True
            return None
        if k == 'eq':
            if parts_of(a, i) == {'blob_handler'} and NULL in a[1:]:
                return i not in self.blob
            if p and not c and parts_of(a, i) == {'userblob'} and ('seq', ()) in a[1:]:
                return i not in self.pblob
            if not (p and c):
                return None
            x, y = (a[1], a[2]) if who(a[1])[0] else (a[2], a[1])
            if who(x)[1] or who(y)[0]:
                return None
            mx, my = parts_of(x, i), parts_of(y, i)
            if mx == {'inputs'} and my == {'inputs'}:
                if stamped(y, i):
                    return kd != 'input'
                if self.empty:
                    return True
                return False if y[0] == 'fld' and y[2] == 'infos_' else None
            if mx == {'outputs'} and my == {'outputs'}:
                return kd != 'output'
            if mx == {'userblob'} and my == {'userblob'} and i not in self.blob:
                return i not in self.pblob      # without a handler the current blob is empty
            if mx == {'userblob'}:
                return kd not in ('blob', 'blobadded') if y[0] == 'app' and y[1].endswith('::Serialize') else None
        return None

def run_gen(ctx, rep, sc, **kw):
    g = Gen(ctx, sc, sorted(sc.kinds), sc.prev(), **kw)
    ss = []
    for s in g.full():
        th = {next(iter(who(e[1])[1]), None) for e in s.ev if e[0] == 'cbthrow'}
        if sc.fail and sc.fail[1] == 'throw':
            if th - {sc.fail[0]}:
                continue
            if not th and any(e[0] == 'usercb' and sc.fail[0] in who(e[1])[1] for e in s.ev):
                continue
        elif th:
            continue
        ss.append(s)
    rep.use(g.E)
    rep.count('scenarios'); rep.count('final_states', len(ss))
    rep.need(len(ss), 'no complete run in scenario ' + sc.describe())
    return g, ss

def ok_state(g, s):
    t = g.task_state(s)
    return t[0] == 'enum' and t[1].endswith('::SUCCESS')

def calls(s, i):
    return [(n, e) for n, e in enumerate(s.ev) if e[0] == 'usercb' and who(e[1])[1] == {i}]

def saved(g, s):
    """[(event index, event, {id: recorded info})]"""
    out = []
    for n, e in enumerate(s.ev):
        if e[0] != 'save' or e[2][0] != 'jdump':
            continue
        ks = models.jkeys(e[2][1])
        if ks is None:
            raise AnalysisError('generator record is not a JSON object')
        for k, v in ks.items():
            if v[0] == 'json' and models.jkind(v[1]) == 'object':
                d = {}
                if v[2][0] != 'seq':
                    raise AnalysisError('generator record cannot be decoded: ' + pp(v[2])[:120])
                for p in v[2][1]:
                    if p[0] != 'one':
                        raise AnalysisError('generator record cannot be decoded: ' + pp(p)[:120])
                    d[g.E.field(p[1], 'first')[1]] = g.E.field(p[1], 'second')
                out.append((n, e, d))
                break
        else:
            raise AnalysisError('generator record has no id table')
    return out

def base_scns(tier):
    out = [GScn({'a': 'added', 'b': 'added'}, loaded=False), GScn({'a': 'added', 'b': 'added'}, loaded=False, blob=())]
    for x, y in itertools.product(KINDS, KINDS):
        out.append(GScn({'a': x, 'b': y}))
    for x in ('added', 'same', 'input', 'output'):
        out.append(GScn({'a': x, 'b': 'same'}, blob=()))
        out.append(GScn({'a': x, 'b': 'same'}, blob=(), empty=True)) if x != 'input' else None
        out.append(GScn({'a': x}, removed=('r',)))
    for x in ('blobadded', 'blobremoved'):
        for y in ('same', 'added', 'input'):
            out.append(GScn({'a': x, 'b': y}))
            out.append(GScn({'a': y, 'b': x}, blob=()))
    if tier == 'thorough':
        for k in itertools.product(KINDS, repeat=3):
            if k[0] != 'same' or k[1] != 'same':
                out.append(GScn(dict(zip('abc', k))))
        for x, y in itertools.product(KINDS, KINDS):
            out.append(GScn({'a': x, 'b': y}, removed=('r', 'q')))
    return out

def c13(ctx, rep):
    """Whole generator runs are interpreted abstractly (constructor, Build, task graph, comparator, callback, store) for every combination of two ids
    (three in the thorough tier) that are new, unchanged, or changed in one tracked aspect, with and without blob handlers, removed ids, and no record."""
    for sc in base_scns(ctx.tier):
        g, ss = run_gen(ctx, rep, sc)
        for s in ss:
            good = ok_state(g, s)
            rep.ob(good, 'gen:ok', GFILE, 'a run without failing step is reported as failed (%s)' % sc.describe())
            for i in sc.kinds:
                cs = calls(s, i)
                if sc.changed(i):
                    rep.ob(len(cs) == 1, 'gen:stale:%s' % ('first' if not sc.loaded else sc.kinds[i]), GFILE,
                           'the callback of an id that is %s runs %d times (%s)' % (sc.kinds[i], len(cs), sc.describe()))
                else:
                    rep.ob(not cs, 'gen:rerun', cs[0][1][3] if cs else GFILE, 'the callback of an unchanged id runs (%s)' % sc.describe())
                for n, e in cs:
                    v = e[5][0] if e[5] else ('undef',)
                    cur = 'cur_' + i
                    inp, outp, ub = (g.E.field(v, x) for x in ('inputs', 'outputs', 'userblob'))
                    rep.ob(who(inp)[1] == {i} and parts_of(inp, i) == {'inputs'}, 'gen:ctx:inputs', e[3], 'the callback of an id gets other inputs than it declared: %s' % pp(inp)[:120])
                    rep.ob(who(outp)[1] == {i} and parts_of(outp, i) == {'outputs'}, 'gen:ctx:outputs', e[3], 'the callback of an id gets other outputs than it declared: %s' % pp(outp)[:120])
                    if i in sc.blob:
                        rep.ob(ub[0] == 'app' and ub[1].endswith('::Serialize') and who(ub)[1] == {i}, 'gen:ctx:blob', e[3], 'the callback does not get the current blob of its id: %s' % pp(ub)[:120])
                    # fingerprints are taken before the callback, never after
                    late = [q for q in s.ev[n + 1:] if q[0] == 'stat' and who(q[1])[1] == {i}]
                    rep.ob(not late, 'gen:late', late[0][2] if late else GFILE, 'inputs of an id are fingerprinted after its callback ran, so a change made meanwhile is recorded as processed')
            rs = saved(g, s)
            need = any(sc.changed(i) for i in sc.kinds) or sc.removed
            rep.ob(bool(rs) == bool(need) or (not sc.kinds and bool(rs)), 'gen:save:%s' % bool(need), GFILE,
                   'the record is %s (%s)' % ('not saved after callbacks ran' if need else 'rewritten although nothing changed', sc.describe()))
            for n, e, d in rs:
                rep.ob(set(d) == set(sc.kinds), 'gen:ids', e[4], 'the record of a successful run lists %s instead of %s (%s)' % (sorted(d), sorted(sc.kinds), sc.describe()))
                rep.ob(n > max([x for i in sc.kinds for x, _ in calls(s, i)] or [-1]), 'gen:early', e[4], 'the record is saved before a callback has run')
                for i, v in d.items():
                    inp, outp, ub = (g.E.field(v, x) for x in ('inputs', 'outputs', 'userblob'))
                    ok = who(inp)[1] == {i} and not who(inp)[0] and (stamped(inp, i) or sc.empty)
                    rep.ob(ok, 'gen:rec:inputs', e[4], 'the record does not hold the fingerprints of the inputs of the id: %s' % pp(inp)[:120])
                    rep.ob(who(outp)[1] == {i} and parts_of(outp, i) == {'outputs'}, 'gen:rec:outputs', e[4], 'the record does not hold the outputs of the id: %s' % pp(outp)[:120])
                    if i in sc.blob:
                        rep.ob(ub[0] == 'app' and ub[1].endswith('::Serialize') and who(ub)[1] == {i}, 'gen:rec:blob', e[4], 'the record does not hold the blob of the id: %s' % pp(ub)[:120])

def fail_scns(tier):
    out = []
    for how in ('callback', 'throw', 'missing', 'verify'):
        out.append(GScn({'a': 'added', 'b': 'added'}, loaded=False, fail=('a', how)))
        for x, y in itertools.product(KINDS, ('added', 'same', 'input') if tier != 'thorough' else KINDS):
            out.append(GScn({'a': x, 'b': y}, fail=('a', how)))
        out.append(GScn({'a': 'input'}, removed=('r',), fail=('a', how)))
        for x in ('added', 'input', 'output'):
            out.append(GScn({'a': 'same', 'b': x}, blob=(), fail=('b', how))) if how != 'verify' else None
    return out

def c14(ctx, rep):
    """Same interpretation with one failing step: callback returning false or throwing, missing input, rejected blob, unsavable record, failure of an
    earlier builder. Decides failure reporting, exception containment, task join before store, and the decoded saved record."""
    fset = ctx.db.func('buildcc::env::set_task_state')
    for sc in fail_scns(ctx.tier):
        g, ss = run_gen(ctx, rep, sc)
        f, how = sc.fail
        for s in ss:
            failing = any(e[0] == 'fatal' or e[0] == 'cbthrow' for e in s.ev)
            for e in s.ev:
                if e[0] == 'escape':
                    rep.bad('genfail:escape', GFILE, 'an exception leaves a generator task (%s)' % sc.describe())
                if e[0] == 'process-exit':
                    rep.bad('genfail:exit', GFILE, 'a generator task ends the process (%s)' % sc.describe())
                if e[0] == 'detach':
                    rep.bad('genfail:detach', GFILE, 'generator callbacks are detached from the task that stores the record')
            if not failing and not (how in ('callback', 'throw') and calls(s, f)):
                continue
            rep.ob(not ok_state(g, s), 'genfail:reported:' + how, GFILE, 'a failing id leaves the run reported as successful (%s)' % sc.describe())
            for n, e, d in saved(g, s):
                rep.ob(f not in d, 'genfail:recorded:' + how, e[4], 'an id that failed is recorded as done (%s)' % sc.describe())
                for i in sc.kinds:
                    if i != f:
                        cs = calls(s, i)
                        done = bool(cs) or not sc.changed(i) and any(q[0] == 'stat' and who(q[1])[1] == {i} for q in s.ev)
                        if cs:
                            rep.ob(i in d, 'genfail:progress', e[4], 'an id that succeeded is not recorded because another one failed (%s)' % sc.describe())
                        if i in d and sc.changed(i):
                            rep.ob(bool(cs), 'genfail:notrun', e[4], 'an id whose callback did not run is recorded as done (%s)' % sc.describe())
            if how in ('missing', 'verify'):
                rep.ob(not calls(s, f), 'genfail:ran:' + how, GFILE, 'the callback runs although its inputs could not be checked (%s)' % sc.describe())
    for kinds in ({'a': 'added', 'b': 'same'}, {'a': 'input'}, {'a': 'output', 'b': 'blob'}):
        sc = GScn(kinds, saveok=False)
        g, ss = run_gen(ctx, rep, sc)
        for s in ss:
            if any(e[0] == 'save' for e in s.ev):
                rep.ob(not ok_state(g, s), 'genfail:save', GFILE, 'the generator record could not be saved and the run still reports success')
        # an earlier failure
        g = Gen(ctx, GScn(kinds), sorted(kinds), GScn(kinds).prev())
        fail = enumv(ctx.db, 'buildcc::env::TaskState', 'FAILURE')
        g.start = [g.E.call_fn(fset, None, [fail], s, g.fr)[0][0] for s in g.start]
        for s in g.full():
            cb = [e for e in s.ev if e[0] == 'usercb']
            rep.ob(not cb, 'genfail:prior', cb[0][3] if cb else GFILE, 'generator callbacks run after another step of the run has failed')
            rep.ob(not ok_state(g, s), 'genfail:sticky', GFILE, 'an earlier failure is forgotten')
            rep.ob(not saved(g, s) or not cb, 'genfail:priorsave', GFILE, 'a record is saved although nothing ran')
        rep.use(g.E)

FG, TG = 'buildcc::FileGenerator', 'buildcc::TemplateGenerator'
FGF = 'buildcc/lib/target/src/generator/file_generator.cpp'
TGF = 'buildcc/lib/target/src/generator/template_generator.cpp'

def fatal(k, s):
    return k in ('exit', 'throw') and any(e[0] == 'fatal' for e in s.ev)

def constructed(t, x):
    """t holds Construct(x)"""
    return any(y[0] == 'app' and y[1] == 'Construct' and len(y[2]) > 1 and strip_path(y[2][1]) == x for y in subterms(t))

def new_obj(ctx, q, E, st, fr):
    """an object of a class derived from CustomGenerator, constructed through the base constructor"""
    loc = (('S', 'gobj'), ())
    st.types[loc[0]] = q
    st.store[loc[0]] = ('new', q)
    for n, f in ctx.db.all_fields(q):
        if any(f is g for g in ctx.db.record(q).get('fields', ())):
            E.set(st, (loc[0], (n,)), E.default(f['t'], st))
    return loc

def c15(ctx, rep):
    """Interprets registration (AddIdInfo, AddInput/AddOutput/AddCommand, AddTemplate, Build) and the two built-in callbacks on arbitrary patterns: what is
    registered must be the constructed form of exactly what was declared, and each callback must do every step, in order, and report every failure."""
    db = ctx.db
    n = GNames(db)
    # (A) AddIdInfo
    f = db.func(CG + '::AddIdInfo')
    UI = [q for q in db.records if q.endswith('::UserIdInfo')][0]
    for case in ('new', 'duplicate', 'nocb'):
        E, st, fr = ctx.engine()
        loc = new_obj(ctx, CG, E, st, fr)
        E.set(st, (loc[0], (n.user, n.ids)), umap([('a', ('init', 'cur_a'))]))
        vals = {}
        for p in f['params']:
            t = head(short(p['t']))
            vals[p['name']] = t
        names = [p['name'] for p in f['params']]
        args = [C('a' if case == 'duplicate' else 'n'), ('init', 'ins'), ('init', 'outs'), NULL if case == 'nocb' else ('init', 'cb'), ('init', 'handler')][:len(names)]
        cnt = 0
        for s, k, v in E.call_fn(f, loc, args, st, fr):
            cnt += 1
            if case != 'new':
                rep.ob(fatal(k, s), 'reg:' + case, f['loc'], 'AddIdInfo accepts %s' % ('an id that is already registered' if case == 'duplicate' else 'an empty callback'))
                continue
            if k != 'v':
                if 'cb' in repr([a for a in s.facts if 'cb' in repr(a)]):
                    continue
                rep.bad('reg:rejects', f['loc'], 'AddIdInfo rejects a new id with a valid callback')
                continue
            ids = E.get(s, (loc[0], (n.user, n.ids)))
            items = {}
            if ids[0] == 'seq':
                for p in ids[1]:
                    items[E.field(p[1], 'first')] = E.field(p[1], 'second')
            rep.ob(C('a') in items, 'reg:kept', f['loc'], 'registering an id drops another one')
            it = items.get(C('n'))
            if not rep.ob(it is not None, 'reg:stored', f['loc'], 'a registered id is not stored under its own name: %s' % pp(ids)[:120]):
                continue
            for m, src in (('inputs', ('init', 'ins')), ('outputs', ('init', 'outs'))):
                val = E.field(it, m)
                lst = [x for x in member_lists(val)]
                ok = len(lst) == 1 and covers(lst[0], src) or s.facts.get(('empty', src)) is True
                rep.ob(ok, 'reg:' + m, f['loc'], 'the %s of a registered id are not the constructed form of every declared pattern: %s' % (m, pp(val)[:160]))
                oth = ('init', 'outs' if m == 'inputs' else 'ins')
                rep.ob(not any(y == oth for y in subterms(val)), 'reg:mix:' + m, f['loc'], 'inputs and outputs of an id are mixed up')
            rep.ob(any(y == ('init', 'cb') for y in subterms(E.field(it, 'generate_cb'))), 'reg:cb', f['loc'], 'the callback of an id is not the registered one')
            rep.ob(any(y == ('init', 'handler') for y in subterms(E.field(it, 'blob_handler'))), 'reg:handler', f['loc'], 'the blob handler of an id is not the registered one')
        rep.use(E)
        rep.need(cnt, 'AddIdInfo ' + case)
    # (B) FileGenerator
    def reg(E, e, args, st, fr):
        st.emit(('addid', tuple(through(E, st, a) for a in args[1:]), e.get('l')))
        return V(st, VOID)
    def bld(E, e, args, st, fr):
        st.emit(('basebuild', e.get('l')))
        return V(st, VOID)
    stubs = {CG + '::AddIdInfo': reg, CG + '::Build': bld}
    E, st, fr = ctx.engine(None, stubs)
    loc = new_obj(ctx, FG, E, st, fr)
    cur = [st]
    def step(cur, name, args):
        out = []
        for s in cur:
            g = E.method(FG, name)
            for s2, k, v in E.call_fn(g, loc, args, s, fr):
                if k == 'v':
                    out.append(s2)
                else:
                    rep.bad('file:throws:' + name, g['loc'], '%s fails' % g['qn'])
        return out
    for nm, a in (('AddInput', [('init', 'i1')]), ('AddOutput', [('init', 'o1')]), ('AddInput', [('init', 'i2')]), ('AddOutput', [('init', 'o2')]),
                  ('AddCommand', [('init', 'c1'), ('init', 'a1')]), ('AddCommand', [('init', 'c2'), ('init', 'a2')])):
        cur = step(cur, nm, a)
    cur = step(cur, 'Build', [])
    rep.use(E)
    rep.need(len(cur), 'FileGenerator::Build')
    cbs = {}
    for s in cur:
        ev = [e for e in s.ev if e[0] in ('addid', 'basebuild')]
        rep.ob([e[0] for e in ev] == ['addid', 'basebuild'], 'file:order', FGF, 'FileGenerator::Build does not register one id and then build: %s' % [e[0] for e in ev])
        for e in ev:
            if e[0] != 'addid':
                continue
            a = e[1]
            for x, want, what in ((a[1], ('i1', 'i2'), 'inputs'), (a[2], ('o1', 'o2'), 'outputs')):
                have = [w for w in ('i1', 'i2', 'o1', 'o2') if ('init', w) in list(subterms(x))]
                # equal patterns may coincide in the set
                same = [f_ for f_, b in s.facts.items() if b and any(('init', w) in list(subterms(f_)) for w in want)]
                rep.ob(set(have) == set(want) or (same and set(have) and set(have) < set(want)), 'file:' + what, e[2], 'the registered %s are %s' % (what, have))
            h = a[4] if len(a) > 4 else ('undef',)
            pos = [[y for y in walk_order(h) if y[0] == 'app' and y[1] == 'Construct' and y[2][1] == ('init', c)] for c in ('c1', 'c2')]
            if rep.ob(all(pos), 'file:commands', e[2], 'a command added to a file generator is not registered: %s' % pp(h)[:160]):
                order = [y[2][1][1] for y in walk_order(h) if y[0] == 'app' and y[1] == 'Construct']
                rep.ob(order.index('c1') < order.index('c2'), 'file:cmdorder', e[2], 'the commands of a file generator are registered in another order')
                for i in (0, 1):
                    rep.ob(('init', 'a%d' % (i + 1)) in list(subterms(pos[i][0])), 'file:cmdargs', e[2], 'the arguments of a command are lost')
            cbs[a[3]] = e[2]
    for cb, l in cbs.items():
        for fails in (None, 'x1', 'x2'):
            orc = lambda a, s: ('init', fails) not in list(subterms(a)) if a[0] == 'execok' else None
            E, st, fr = ctx.engine(orc)
            cmds = ('seq', (('one', ('init', 'x1')), ('one', ('init', 'x2'))))
            for q in db.byqn:
                if q.startswith('buildcc::TypedCustomBlobHandler') and q.endswith('::Deserialize'):
                    E.stubs[q] = lambda E, e, args, s, fr: V(s, cmds)
            cl = (('S', 'ctx'), ()); st.types[cl[0]] = 'buildcc::CustomGeneratorContext'
            cnt = 0
            for s, k, v in E.call_value(cb, [("ref", cl)], st, fr):
                cnt += 1
                ex = [(e[1][1], e[2]) for e in s.ev if e[0] == 'exec' and e[1][0] == 'init']
                want = [('x1', fails != 'x1')] + ([('x2', fails != 'x2')] if fails != 'x1' else [])
                rep.ob(ex == want, 'file:run:%s' % (fails or 'ok'), FGF, 'the commands run are %s instead of %s' % (ex, want))
                if k != 'v':
                    rep.ob(fails is not None, 'file:runfail', FGF, 'the file generator callback fails although every command succeeded')
                    continue
                for s2, r in E.truth(s, E.rv(v, s)):
                    rep.ob(r == (fails is None), 'file:result:%s' % (fails or 'ok'), FGF, 'the file generator callback returns %s when %s' % (r, 'command %s fails' % fails if fails else 'every command succeeds'))
            rep.use(E)
            rep.need(cnt, 'file generator callback')
    rep.need(len(cbs), 'file generator callback')
    # (C) TemplateGenerator
    E, st, fr = ctx.engine(None, stubs)
    loc = new_obj(ctx, TG, E, st, fr)
    cur = [st]
    for i in ('1', '2'):
        nxt = []
        for s in cur:
            nxt += [s2 for s2, k, v in E.call_fn(E.method(TG, 'AddTemplate'), loc, [('init', 'i' + i), ('init', 'o' + i)], s, fr) if k == 'v']
        cur = nxt
    fin = []
    for s in cur:
        for s2, k, v in E.call_fn(E.method(TG, 'Build'), loc, [], s, fr):
            if k == 'v':
                fin.append(s2)
            else:
                rep.bad('tmpl:throws', TGF, 'TemplateGenerator::Build fails')
    rep.use(E)
    rep.need(len(fin), 'TemplateGenerator::Build')
    cbs = {}
    for s in fin:
        ev = [e for e in s.ev if e[0] in ('addid', 'basebuild')]
        rep.ob([e[0] for e in ev] == ['addid', 'addid', 'basebuild'], 'tmpl:order', TGF, 'TemplateGenerator::Build does not register every template and then build: %s' % [e[0] for e in ev])
        ids = []
        for i, e in zip(('1', '2'), [e for e in ev if e[0] == 'addid']):
            a = e[1]
            have = [[w for w in ('i1', 'i2', 'o1', 'o2') if ('init', w) in list(subterms(x))] for x in (a[0], a[1], a[2])]
            rep.ob(have == [['i' + i], ['i' + i], ['o' + i]], 'tmpl:own', e[2], 'a template is not registered under its own input with its own input and output: %s' % have)
            ids.append(a[0])
            cut = [y for y in subterms(a[0]) if y and y[0] in ('app', 'fn', 'fs') and any(str(y[1]).rsplit('::', 1)[-1] == m for m in
                   ('filename', 'stem', 'extension', 'parent_path', 'root_path', 'root_name', 'replace_extension', 'remove_filename', 'hash', 'substr', 'size'))]
            cut += [y for y in subterms(a[0]) if y and y[0] in ('filename', 'stem', 'extension', 'parent', 'parent_path', 'size', 'narrow')]
            rep.ob(not cut, 'tmpl:clash', e[2], 'templates with different input paths can get the same id, so one of them cannot be registered: %s' % (pp(cut[0])[:120] if cut else ''))
            cbs[a[3]] = e[2]
        rep.ob(len(set(ids)) == len(ids), 'tmpl:ids', TGF, 'two templates share one id')
    for cb, l in cbs.items():
        for lo, so in ((True, True), (False, True), (True, False)):
            E, st, fr = ctx.engine(lambda a, s: lo if a[0] == 'loadok' else so if a[0] == 'saveok' else None)
            cl = (('S', 'ctx'), ()); st.types[cl[0]] = 'buildcc::CustomGeneratorContext'
            E.set(st, (cl[0], ('inputs',)), ('seq', (('one', ('init', 'in')),)))
            E.set(st, (cl[0], ('outputs',)), ('seq', (('one', ('init', 'out')),)))
            cnt = 0
            for s, k, v in E.call_value(cb, [("ref", cl)], st, fr):
                cnt += 1
                ld = [e for e in s.ev if e[0] == 'loadfile']
                sv = [e for e in s.ev if e[0] == 'save']
                rep.ob(len(ld) == 1 and strip_path(ld[0][1]) == ('init', 'in'), 'tmpl:load', TGF, 'the template callback reads %s' % [pp(e[1]) for e in ld])
                if lo:
                    if rep.ob(len(sv) == 1 and strip_path(sv[0][1]) == ('init', 'out'), 'tmpl:save', TGF, 'the template callback writes %s' % [pp(e[1]) for e in sv]):
                        d = sv[0][2]
                        rep.ob(d[0] == 'app' and d[1] == 'Construct' and d[2][1] == ('filecontent', ld[0][1]), 'tmpl:content', sv[0][4], 'the file written is not the expanded template: %s' % pp(d)[:160])
                else:
                    rep.ob(not sv, 'tmpl:nosave', TGF, 'an output is written although the template could not be read')
                if k == 'v':
                    for s2, r in E.truth(s, E.rv(v, s)):
                        rep.ob(r == (lo and so), 'tmpl:result:%s:%s' % (lo, so), TGF, 'the template callback returns %s (template read: %s, output written: %s)' % (r, lo, so))
                else:
                    rep.ob(not (lo and so), 'tmpl:fails', TGF, 'the template callback fails although every step succeeded')
            rep.use(E)
            rep.need(cnt, 'template callback')
    rep.need(len(cbs), 'template callback')

def through(E, st, v):
    v = E.deep(st, v)
    for x in [v]:
        if x[0] == 'ptr':
            return E.deep(st, E.get(st, x[1]))
    return v

def walk_order(t):
    if not isinstance(t, tuple):
        return
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from (y for y in walk_order(x) if y)

def member_lists(v):
    """the list values held by a wrapper record"""
    if v[0] == 'rec' and not v[2]:
        return
    if v[0] == 'rec':
        for k, x in v[2]:
            yield from member_lists(x) if x[0] == 'rec' and x[1][0] == 'new' else [x]
    else:
        yield v

def covers(lst, src):
    """lst has, for every element e of src, an element made of Construct(e)"""
    def made(t, key):
        return any(y[0] == 'app' and y[1] == 'Construct' and strip_path(y[2][1]) == ('elem', src, key) for y in subterms(t))
    if lst[0] == 'img':
        return lst[1] == src and made(lst[2], '§X')
    if lst[0] == 'seq':
        ks = [(p[0], k) for p in lst[1] for k in ('§w', '§o', '§X') if made(p[1], k)]
        return {('one', '§w'), ('many', '§o')} <= set(ks) or ('all', '§X') in ks or any(p[0] == 'all' and covers(p[1], src) for p in lst[1])
    return False
