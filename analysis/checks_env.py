"""C31-C34: shared state, builders' environment, blob handlers, object paths"""
from base import *
from scn import strip_path
import models

CB = 'buildcc::CustomBlobHandler'
BLOBF = 'buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h'

class BlobScn:
    """p: recorded bytes, c: current bytes"""
    def __init__(self, pk='ok', ck='ok', rel='same'):
        self.kind = {'p': pk, 'c': ck}
        self.rel = rel

    def decoded(self, t):
        """which blob a term decodes, or None"""
        w = {x[1] for x in subterms(t) if x[0] == 'init' and x[1] in ('p', 'c')}
        return next(iter(w)) if len(w) == 1 else None

    def __call__(self, a, st):
        if a[0] == 'discarded':
            b = self.decoded(a)
            if b is None:
                return None
            k = self.kind[b]
            strict = [x for x in subterms(a) if x[0] == 'app' and '::from_' in x[1]]
            if k == 'trailing' and strict:
                fl = [x for x in strict[0][2] if x in (C(True), C(False))]
                return not fl or fl[0] == C(True)
            return k == 'corrupt'
        if a[0] == 'eq':
            w = {self.decoded(a[1]), self.decoded(a[2])}
            if w == {'p', 'c'} and all(x[0] in ('init', 'jget') for x in a[1:3]):
                if ('init', 'p') in a[1:] and ('init', 'c') in a[1:]:
                    return self.rel == 'same'
                return self.rel in ('same', 'equal')
        if a[0] == 'app' and a[1].endswith('::IsEqual'):
            return self.rel in ('same', 'equal')
        if a[0] == 'app' and a[1].endswith('::Verify'):
            b = self.decoded(a)
            return self.kind[b] == 'ok' if b else None
        return None

def c33(ctx, rep):
    """Interprets the typed blob handler and the base-class comparison on arbitrary bytes: round trip of the value, equality exactly when the decoded values are
    equal, truncated or over-long blobs rejected, comparison only after both sides were verified, and the value read when it is serialised."""
    db = ctx.db
    insts = sorted(q for q in db.records if q.startswith('buildcc::TypedCustomBlobHandler<'))
    if not insts:
        raise AnalysisError('anchor: no instance of TypedCustomBlobHandler')
    classes = sorted(q[:-len('::Deserialize')] for q in db.byqn if q.startswith('buildcc::TypedCustomBlobHandler<') and q.endswith('::Deserialize'))
    if not classes:
        raise AnalysisError('anchor: no TypedCustomBlobHandler::Deserialize')
    for T in classes:
        ctor = [f for f in db.byqn.get(T + '::TypedCustomBlobHandler', []) if len(f['params']) == 1 and f.get('body') is not None]
        if not ctor:
            raise AnalysisError('anchor: constructor of ' + T)
        arg = short(ctor[0]['params'][0]['t'])
        R = next((r for r in insts if arg in r), insts[0])
        def obj(sc):
            E, st, fr = ctx.engine(sc)
            d = (('S', 'data'), ())
            st.types[d[0]] = ctor[0]['params'][0]['t']
            st.store[d[0]] = ('init', 'data')
            h = (('S', 'handler'), ())
            st.types[h[0]] = R
            st.store[h[0]] = ('new', R)
            out = []
            for s, k, v in E.run_ctor(ctor[0], R, h, [('ref', d)], st, fr):
                if k != 'v':
                    rep.bad('blob:ctor', ctor[0]['loc'], 'a typed blob handler cannot be constructed')
                else:
                    out.append(s)
            rep.use(E)
            return E, out, fr, h, d
        def call(q, sc, args, prep=None):
            E, ss, fr, h, d = obj(sc)
            f = db.func(q)
            for st in ss:
                if prep:
                    prep(E, st, d)
                for s, k, v in E.call_fn(f, None if f.get('static') else h, args, st, fr):
                    yield E, s, k, (E.rv(v, s) if k == 'v' else v), f
            rep.use(E)
        # round trip, and the value is the one at the time of serialising
        n = 0
        def newer(E, st, d):
            st.store[d[0]] = ('init', 'later')
        for E, s, k, v, f in call(T + '::Serialize', BlobScn(), [], newer):
            n += 1
            if k != 'v':
                rep.bad('blob:ser', f['loc'], 'serialising a value can fail'); continue
            rep.ob('later' in repr(v) or "('S', 'data')" in repr(v), 'blob:ser:stale', f['loc'], 'a value changed after the handler was created is serialised in its old form')
            st2 = s
            for x in subterms(v):
                if x[0] == 'ref' and x[1] == (('S', 'data'), ()):
                    break
            fd = db.func(T + '::Deserialize')
            m = 0
            for s2, k2, v2 in E.call_fn(fd, None, [v], s.copy(), Frame0(E, s)):
                m += 1
                good = k2 == 'v'
                if good:
                    w = E.rv(v2, s2)
                    if w[0] in ('ref', 'ptr'):
                        w = E.get(s2, w[1])
                    good = w == ('init', 'later')
                rep.ob(good, 'blob:roundtrip', f['loc'], 'reading back a serialised value gives %s instead of the value' % (pp(w)[:100] if k2 == 'v' else 'an error'))
            rep.need(m, 'Deserialize has no result')
        rep.need(n, 'Serialize has no result')
        for kind in ('ok', 'corrupt', 'trailing'):
            for E, s, k, v, f in call(T + '::Verify', BlobScn(ck=kind), [('init', 'c')]):
                if kind == 'ok':
                    rep.ob(k == 'v' and E.truth(s, v) and all(b for _, b in E.truth(s, v)), 'blob:verify:ok', f['loc'], 'a well-formed blob is rejected')
                else:
                    rep.ob(k != 'v' or not any(b for _, b in E.truth(s, v)), 'blob:verify:' + kind, f['loc'],
                           'a %s blob is accepted' % ('truncated or damaged' if kind == 'corrupt' else 'blob followed by garbage'))
        for rel in ('same', 'equal', 'differ'):
            n = 0
            for E, s, k, v, f in call(T + '::IsEqual', BlobScn(rel=rel), [('init', 'p'), ('init', 'c')]):
                if k != 'v':
                    continue        # a value of another shape
                for _, b in E.truth(s, v):
                    n += 1
                    rep.ob(b == (rel != 'differ'), 'blob:eq:' + rel, f['loc'], 'two blobs with %s values are reported as %s' % ('different' if rel == 'differ' else 'equal', 'equal' if b else 'different'))
            rep.need(n, 'IsEqual has no result')
    # comparison in the base class
    f = db.func(CB + '::CheckChanged')
    for pk in ('ok', 'corrupt'):
        for ck in ('ok', 'corrupt'):
            for rel in ('same', 'differ'):
                E, st, fr = ctx.engine(BlobScn(pk, ck, rel))
                h = (('S', 'handler'), ())
                st.types[h[0]] = CB
                st.store[h[0]] = ('init', 'handler')
                n = 0
                for s, k, v in E.call_fn(f, h, [('init', 'p'), ('init', 'c')], st, fr):
                    n += 1
                    if (pk, ck) != ('ok', 'ok'):
                        rep.ob(k in ('exit', 'throw'), 'blob:check:' + ('recorded' if pk != 'ok' else 'current'), f['loc'], 'a %s blob the handler rejects is compared anyway' % ('recorded' if pk != 'ok' else 'current'))
                        continue
                    rep.ob(k == 'v', 'blob:check:fatal', f['loc'], 'comparing two valid blobs fails')
                    for _, b in E.truth(s, v) if k == 'v' else ():
                        rep.ob(b == (rel == 'differ'), 'blob:check:' + rel, f['loc'], 'blobs the handler calls %s are reported as %s' % ('equal' if rel == 'same' else 'different', 'changed' if b else 'unchanged'))
                rep.need(n, 'CheckChanged has no result')
                rep.use(E)
    g = db.func(CB + '::GetSerializedData')
    for good in (True, False):
        def orc(a, st):
            return good if a[0] == 'app' and a[1].endswith('::Verify') else None
        E, st, fr = ctx.engine(orc)
        h = (('S', 'handler'), ())
        st.types[h[0]] = CB
        st.store[h[0]] = ('init', 'handler')
        n = 0
        for s, k, v in E.call_fn(g, h, [], st, fr):
            n += 1
            if good:
                v = E.rv(v, s) if k == 'v' else v
                rep.ob(k == 'v' and v[0] == 'app' and v[1].endswith('::Serialize'), 'blob:data', g['loc'], 'the serialised data is not what the handler produced')
            else:
                rep.ob(k in ('exit', 'throw'), 'blob:data:bad', g['loc'], 'a blob the handler itself rejects is used')
        rep.need(n, 'GetSerializedData has no result')
        rep.use(E)

def Frame0(E, st):
    from engine import Frame
    return Frame(st.fresh(), None, None, 0)

# ------------------------------------------------------------------ C34 --
from target import *
OBJF = 'buildcc/lib/target/src/target/friend/compile_object.cpp'

class ObjScn:
    """two sources; `same`: their object paths are equal; `inside`: both lie below the target root"""
    def __init__(self, same, inside=None):
        self.same = same
        self.inside = inside

    def srcs(self, t):
        return {x[1] for x in subterms(t) if x[0] == 'init' and x[1] in ('src1', 'src2')}

    def __call__(self, a, st):
        if a[0] == 'init' and 'is_init' in str(a[1]):
            return True
        if a[0] == 'errval':
            return False
        if a[0] in ('contains', 'startswith') and ('c', '..') in a[1:] and self.inside is not None:
            return not self.inside
        if a[0] == 'eq':
            x, y = self.srcs(a[1]), self.srcs(a[2])
            if len(x) == 1 and len(y) == 1 and x != y:
                # the paths themselves, or what the paths are mapped to
                return False if not any(q[0] in ('div', 'fld', 'app', 'mut', 'ite') for z in a[1:3] for q in subterms(z)) else self.same
        return None

def source_builds(ctx, rep, scn, names, ext='Cpp'):
    """Target::Build on a target that declares exactly the given source files"""
    B = Build(ctx.db, ctx.names, scn, ext=ext)
    E = B.E
    em = ctx.db.func(PATHINFO_T + '::Emplace')
    keep = E.set
    def hook(s, loc, v):
        keep(s, loc, v)
        if v == USER:
            E.default_construct(SCHEMA, loc, s, B.fr)
            for n in names:
                rs = E.call_fn(em, (loc[0], loc[1] + ('sources',)), [('init', n), C('')], s, B.fr)
                if [k for _, k, _ in rs] != ['v'] or rs[0][0] is not s:
                    raise AnalysisError('adding a source to a list of sources branches')
    E.set = hook
    rs = B.run()
    E.set = keep
    rep.use(E)
    rep.count('builds', len(rs))
    return B, [(s, k, v) for s, k, v in rs if k != 'throw' or any(e[0] == 'fatal' for e in s.ev)]

def objects_of(s):
    """output path terms of all sources mentioned in the constructed state"""
    out = {}
    for root, v in s.store.items():
        for x in subterms(v):
            if x[0] == 'one' and x[1][0] == 'rec':
                d = dict(x[1][2])
                if 'first' in d and 'second' in d and d['second'][0] == 'rec':
                    ks = {y[1] for y in subterms(d['first']) if y[0] == 'init' and y[1] in ('src1', 'src2')}
                    o = dict(d['second'][2]).get('output')
                    if len(ks) == 1 and o is not None:
                        out[next(iter(ks))] = o
    return out

PARTIAL = ('path::filename', 'path::stem', 'path::extension', 'path::parent_path')

def without(t, parts):
    """t with those projections of a source path replaced by constants"""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ('app',) and t[1] in parts and any(y[0] == 'init' and y[1] in ('src1', 'src2') for y in subterms(t)):
        return ('c', '#')
    return tuple(without(x, parts) for x in t)

def c34(ctx, rep):
    """Interprets Target::Build on a target with two arbitrary sources. Whatever the source to object mapping is, two different sources whose objects coincide
    must be refused before anything is compiled; sources whose objects differ, and one source listed twice, must be accepted. For sources below the target root
    the mapping itself (a path expression over the source path) may not discard the directory, the name or the extension of the source."""
    for names, same, inside, want in ((('src1', 'src2'), True, None, False), (('src1', 'src2'), False, None, True), (('src1', 'src1'), None, None, True),
                                      (('src1',), None, None, True), (('src1', 'src2'), False, True, True)):
        B, rs = source_builds(ctx, rep, ObjScn(same, inside), names)
        rep.need(len(rs), 'Target::Build has no result')
        for s, k, v in rs:
            if want:
                rep.ob(k == 'v', 'obj:refused:%d' % len(set(names)), OBJF, 'a target is refused although its sources have different object files' if len(set(names)) > 1
                       else 'a target with one source is refused')
            else:
                rep.ob(k != 'v', 'obj:shared', OBJF, 'two different sources that map to the same object file are both accepted: one overwrites the other')
            if inside and k == 'v':
                ob = objects_of(s)
                rep.need(len(ob), 'no source to object relation found')
                for n, o in [(n, w) for n, t in ob.items() for w in variants(t)]:
                    dep = lambda t: any(y[0] == 'init' and y[1] == n for y in subterms(t))
                    rep.ob(dep(o), 'obj:const', OBJF, 'the object path does not depend on the source path')
                    rep.ob(dep(without(o, ('path::filename', 'path::stem', 'path::extension'))), 'obj:dir', OBJF,
                           'sources of the same name in different directories get the same object: the object path is %s' % pp(o)[:160])
                    rep.ob(dep(without(o, ('path::parent_path', 'path::stem'))) and dep(without(o, ('path::parent_path', 'path::extension'))), 'obj:name', OBJF,
                           'sources that differ in %s get the same object: the object path is %s' % ('the extension', pp(o)[:160]))
                    rep.ob(not any(y[0] == 'mut' for y in subterms(o)), 'obj:lossy', OBJF, 'characters of a source path below the target root are replaced: %s' % pp(o)[:160])

def variants(t, limit=64):
    """the values a term can take for sources below the target root (one per combination of undecided conditions)"""
    c = next((x for x in subterms(t) if x[:1] == ('ite',)), None)
    if c is None or limit <= 1:
        return [t]
    def put(u, new):
        if u == c:
            return new
        return tuple(put(x, new) for x in u) if isinstance(u, tuple) else u
    if c[1][0] in ('contains', 'startswith') and ('c', '..') in c[1][1:]:
        return variants(put(t, c[3]), limit)
    return variants(put(t, c[2]), limit // 2) + variants(put(t, c[3]), limit // 2)

# ------------------------------------------------------------------ C32 --
ENVF = 'buildcc/lib/target/include/target/common/target_env.h'
PRJF = 'buildcc/lib/env/src/env.cpp'
TGTF = 'buildcc/lib/target/src/target/target.cpp'
CGF = 'buildcc/lib/target/src/custom_generator/custom_generator.cpp'
PRJ = 'buildcc::Project::'

def plain(t):
    """path term without normalisation and conversion wrappers"""
    while isinstance(t, tuple) and t and (t[0] in ('mp', 'ln', 'path', 'str', 'disp') or t[0] == 'some'):
        t = t[1]
    return t

def rval(E, s, v):
    v = E.rv(v, s)
    while v[0] in ('ref', 'ptr'):
        v = E.rv(E.get(s, v[1]), s)
    return v

def comps(t):
    """components of a path term: a / b / c -> [a, b, c]"""
    t = plain(t)
    if t[:1] == ('div',):
        return comps(t[1]) + comps(t[2])
    return [t]

def same_path(t, *want):
    w = [c for x in want for c in comps(x)]
    return comps(t) == w

class PrjScn:
    def __init__(self, init=True):
        self.init = init
    def __call__(self, a, st):
        if a[0] == 'init' and ('is_init' in str(a[1]) or 'IsInit' in str(a[1])):
            return self.init
        if a[0] == 'errval':
            return False
        return None

def c32(ctx, rep):
    """Interprets Project::Init/Deinit, the three TargetEnv constructors, the Target and CustomGenerator constructors and the generator pattern functions on
    arbitrary directories and names, and compares what the getters then return with the directories, names and patterns that were declared."""
    db = ctx.db
    def getter(E, s, fr, q, obj, args=()):
        rs = [(s2, k, v) for s2, k, v in E.call_fn(db.func(q), obj, list(args), s.copy(), fr)]
        if len(rs) != 1 or rs[0][1] != 'v':
            return None
        return rval(E, rs[0][0], rs[0][2])
    # (A) project
    E, st, fr = ctx.engine()
    rep.use(E)
    ii = getter(E, st, fr, PRJ + 'IsInit', None)
    rep.ob(ii == C(False), 'prj:start', PRJF, 'the project counts as initialised before Project::Init')
    n = 0
    for s, k, v in E.call_fn(db.func(PRJ + 'Init'), None, [('init', 'root'), ('init', 'build')], st, fr):
        n += 1
        if k != 'v':
            rep.bad('prj:fail', PRJF, 'Project::Init can fail'); continue
        rep.ob(getter(E, s, fr, PRJ + 'IsInit', None) == C(True), 'prj:init', PRJF, 'the project does not count as initialised after Project::Init')
        for g, w in (('GetRootDir', 'root'), ('GetBuildDir', 'build')):
            t = getter(E, s, fr, PRJ + g, None)
            rep.ob(t is not None and same_path(t, ('init', w)), 'prj:' + w, PRJF, 'Project::%s is %s after Init' % (g, pp(t)[:100] if t else 'undefined'))
        for s2, k2, v2 in E.call_fn(db.func(PRJ + 'Init'), None, [('init', 'root2'), ('init', 'build2')], s.copy(), fr):
            for g, w in (('GetRootDir', 'root2'), ('GetBuildDir', 'build2')):
                t = getter(E, s2, fr, PRJ + g, None)
                rep.ob(k2 == 'v' and t is not None and same_path(t, ('init', w)), 'prj:again', PRJF, 'a second Project::Init does not take effect')
        for s2, k2, v2 in E.call_fn(db.func(PRJ + 'Deinit'), None, [], s.copy(), fr):
            rep.ob(getter(E, s2, fr, PRJ + 'IsInit', None) == C(False), 'prj:deinit', PRJF, 'the project still counts as initialised after Project::Deinit')
            for g in ('GetRootDir', 'GetBuildDir'):
                t = getter(E, s2, fr, PRJ + g, None)
                rep.ob(t is not None and not any(x[0] == 'init' for x in subterms(t)), 'prj:deinit:dirs', PRJF, 'Project::%s still returns the old directory after Deinit' % g)
    rep.need(n, 'Project::Init has no result')
    # (B) environments
    def project(E, st, fr):
        rs = E.call_fn(db.func(PRJ + 'Init'), None, [('init', 'root'), ('init', 'build')], st, fr)
        if len(rs) != 1 or rs[0][1] != 'v':
            raise AnalysisError('Project::Init does not return')
        return rs[0][0]
    TE = 'buildcc::TargetEnv'
    for f in db.byqn.get(TE + '::TargetEnv', ()):
        if f.get('body') is None or any(TE in short(p['t']) for p in f['params']):
            continue
        E, st, fr = ctx.engine()
        st = project(E, st, fr)
        loc = (('S', 'tenv'), ())
        st.types[loc[0]] = TE; st.store[loc[0]] = ('new', TE)
        two = len(f['params']) == 2
        n = 0
        for s, k, v in E.run_ctor(f, TE, loc, [('init', 'a'), ('init', 'b')][:len(f['params'])], st, fr):
            n += 1
            r = getter(E, s, fr, TE + '::GetTargetRootDir', loc)
            b = getter(E, s, fr, TE + '::GetTargetBuildDir', loc)
            wr = [('init', 'a')] if two else [('init', 'root'), ('init', 'a')]
            wb = [('init', 'b')] if two else [('init', 'build')]
            rep.ob(k == 'v' and r is not None and same_path(r, *wr), 'env:root:%d' % len(f['params']), ENVF, 'the root directory of an environment is %s instead of %s' % (pp(r)[:100] if r else '?', ' / '.join(x[1] for x in wr)))
            rep.ob(k == 'v' and b is not None and same_path(b, *wb), 'env:build:%d' % len(f['params']), ENVF, 'the build directory of an environment is %s instead of %s' % (pp(b)[:100] if b else '?', wb[0][1]))
        rep.need(n, 'TargetEnv constructor has no result'); rep.use(E)
    # (C) targets
    ct = [f for f in db.byqn.get('buildcc::Target::Target', ()) if f.get('ctor') == 'other' and f.get('body') is not None]
    if not ct:
        raise AnalysisError('anchor vanished: Target constructor')
    ct = ct[0]
    names = [e['name'].rsplit('::', 1)[1] for e in db.enums['buildcc::TargetType']['e']]
    good = [x for x in names if x not in ('Undefined',)]
    for init in (True, False):
        for ty in names:
            E, st, fr = ctx.engine(PrjScn(init))
            E.ginit = False
            tc = (('S', 'toolchain'), ()); st.types[tc[0]] = 'buildcc::Toolchain'
            env = (('S', 'tenv'), ()); st.types[env[0]] = TE
            cfg = (('S', 'tconfig'), ()); st.types[cfg[0]] = 'buildcc::TargetConfig'
            T0 = (('S', 'target'), ()); st.types[T0[0]] = 'buildcc::Target'; st.store[T0[0]] = ('new', 'buildcc::Target')
            tcn = getter(E, st, fr, 'buildcc::Toolchain::GetName', tc)
            er, eb = getter(E, st, fr, TE + '::GetTargetRootDir', env), getter(E, st, fr, TE + '::GetTargetBuildDir', env)
            known = {'buildcc::Toolchain': ('ref', tc), TE: ('ref', env), 'buildcc::TargetConfig': ('ref', cfg), 'buildcc::TargetType': enumv(db, 'buildcc::TargetType', ty)}
            args = [known.get(short(p['t']), ('init', 'tname')) for p in ct['params']]
            ok = init and ty in good
            n = 0
            for s, k, v in E.run_ctor(ct, 'buildcc::Target', T0, args, st, fr):
                fat = any(e[0] == 'fatal' for e in s.ev)
                if k == 'throw' and not fat:
                    continue
                n += 1
                if not ok:
                    rep.ob(k != 'v', 'tgt:pre:' + ('type' if init else 'init'), TGTF, 'a target can be constructed %s' % ('with the invalid type ' + ty if init else 'before the project is initialised'))
                    continue
                if k != 'v':
                    rep.bad('tgt:refused', TGTF, 'a valid target (%s) cannot be constructed' % ty); continue
                eo = (T0[0], ())
                tenv = [fl for fl, f2 in db.all_fields('buildcc::Target') if short(f2['t']) == TE]
                for g, want in (('GetTargetRootDir', [er]), ('GetTargetBuildDir', [eb, tcn, ('init', 'tname')])):
                    t = getter(E, s, fr, TE + '::' + g, (T0[0], (tenv[0],)))
                    rep.ob(t is not None and same_path(t, *want), 'tgt:' + g, ENVF if 'Root' in g else 'buildcc/lib/target/include/target/target.h',
                           '%s of a target is %s' % (g, pp(t)[:140] if t else '?'))
                bd = comps(getter(E, s, fr, TE + '::GetTargetBuildDir', (T0[0], (tenv[0],))))
                u = getter(E, s, fr, BI_ID, T0)
                dep = lambda t, w: t is not None and any(y == w for y in subterms(t))
                rep.ob(dep(u, ('init', 'tname')) and dep(u, tcn), 'tgt:id', TGTF, 'targets that differ in %s get the same identifier: %s' % ('name' if dep(u, tcn) else 'toolchain', pp(u)[:100] if u else '?'))
                for g in ('GetBinaryPath', 'GetTargetPath'):
                    q = [x for x in db.byqn if x.endswith('::' + g) and 'TargetGetter<' in x]
                    t = getter(E, s, fr, q[0], T0) if q else None
                    rep.ob(t is not None and comps(t)[:-1] == bd and dep(comps(t)[-1], ('init', 'tname')), 'tgt:' + g, 'buildcc/lib/target/include/target/target.h',
                           '%s of a target is not a file named after it in its build directory: %s' % (g, pp(t)[:140] if t else '?'))
                made = [e for e in s.ev if e[0] == 'fs' and e[1] == 'create_directories']
                rep.ob(any(comps(e[2][0]) == bd for e in made), 'tgt:mkdir', TGTF, 'the build directory of a target is not created')
            rep.need(n, 'Target constructor has no result'); rep.use(E)
    # (D) generators
    CG = 'buildcc::CustomGenerator'
    cc = [f for f in db.byqn.get(CG + '::CustomGenerator', ()) if f.get('body') is not None and not any(CG in short(p['t']) for p in f['params'])]
    if not cc:
        raise AnalysisError('anchor vanished: CustomGenerator constructor')
    for init in (True, False):
        E, st, fr = ctx.engine(PrjScn(init))
        if init:
            st = project(E, st, fr)
        else:
            E.ginit = False
        env = (('S', 'tenv'), ()); st.types[env[0]] = TE
        G0 = (('S', 'gen'), ()); st.types[G0[0]] = CG; st.store[G0[0]] = ('new', CG)
        er, eb = getter(E, st, fr, TE + '::GetTargetRootDir', env), getter(E, st, fr, TE + '::GetTargetBuildDir', env)
        args = [('ref', env) if short(p['t']) == TE else ('init', 'gname') for p in cc[0]['params']]
        n = 0
        for s, k, v in E.run_ctor(cc[0], CG, G0, args, st, fr):
            fat = any(e[0] == 'fatal' for e in s.ev)
            if k == 'throw' and not fat:
                continue
            n += 1
            if not init:
                rep.ob(k != 'v', 'gen:pre', CGF, 'a generator can be constructed before the project is initialised'); continue
            if k != 'v':
                rep.bad('gen:refused', CGF, 'a generator cannot be constructed'); continue
            root = getter(E, s, fr, CG + '::GetRootDir', G0)
            bd = getter(E, s, fr, CG + '::GetBuildDir', G0)
            rep.ob(root is not None and same_path(root, er), 'gen:root', CGF, 'the root directory of a generator is %s' % (pp(root)[:100] if root else '?'))
            rep.ob(bd is not None and same_path(bd, eb, ('init', 'gname')), 'gen:build', CGF, 'the build directory of a generator is %s' % (pp(bd)[:100] if bd else '?'))
            b = getter(E, s, fr, CG + '::GetBinaryPath', G0)
            rep.ob(b is not None and comps(b)[:-1] == comps(bd) and any(y == ('init', 'gname') for y in subterms(comps(b)[-1])), 'gen:record', CGF,
                   'the record of a generator is not a file named after it in its build directory: %s' % (pp(b)[:100] if b else '?'))
            made = [e for e in s.ev if e[0] == 'fs' and e[1] == 'create_directories']
            rep.ob(any(comps(e[2][0]) == comps(bd) for e in made), 'gen:mkdir', CGF, 'the build directory of a generator is not created')
            u = getter(E, s, fr, BI_ID, G0)
            rep.ob(u is not None and any(y == ('init', 'gname') for y in subterms(u)), 'gen:id', CGF, 'the identifier of a generator does not hold its name')
            for key, want in (('project_root_dir', [('init', 'root')]), ('project_build_dir', [('init', 'build')]), ('current_root_dir', [root]), ('current_build_dir', [bd])):
                t = getter(E, s, fr, CG + '::Get', G0, [C(key)])
                rep.ob(t is not None and same_path(t, *want), 'gen:reserved:' + key, CGF, 'the pattern {%s} stands for %s' % (key, pp(t)[:100] if t else 'nothing'))
            # user patterns
            m = 0
            for s2, k2, v2 in E.call_fn(db.func(CG + '::AddPattern'), G0, [C('ident'), ('init', 'pattern')], s.copy(), fr):
                if k2 != 'v':
                    continue
                m += 1
                t = getter(E, s2, fr, CG + '::Get', G0, [C('ident')])
                rep.ob(t is not None and constructs(t, ('init', 'pattern')), 'gen:pattern', CGF, 'the value of an added pattern is %s instead of its expansion' % (pp(t)[:100] if t else '?'))
            rep.need(m, 'AddPattern has no result')
            m = 0
            mp = (('S', 'pats'), ())
            s3 = s.copy()
            s3.types[mp[0]] = 'std::unordered_map<std::string, std::string>'
            s3.store[mp[0]] = ('seq', tuple(('one', ('rec', ('new', 'std::pair'), (('first', C(a)), ('second', ('init', 'v_' + a))))) for a in ('x', 'y')))
            for s2, k2, v2 in E.call_fn(db.func(CG + '::AddPatterns'), G0, [('ref', mp)], s3, fr):
                if k2 != 'v':
                    continue
                m += 1
                for a in ('x', 'y'):
                    t = getter(E, s2, fr, CG + '::Get', G0, [C(a)])
                    rep.ob(t is not None and constructs(t, ('init', 'v_' + a)), 'gen:patterns', CGF, 'AddPatterns registers %s for a pattern' % (pp(t)[:100] if t else 'nothing'))
            rep.need(m, 'AddPatterns has no result')
            for s2, k2, v2 in E.call_fn(db.func(CG + '::ParsePattern'), G0, [('init', 'pattern'), ('init', 'arguments')], s.copy(), fr):
                t = rval(E, s2, v2) if k2 == 'v' else None
                rep.ob(t is not None and constructs(t, ('init', 'pattern')) and any(y == ('init', 'arguments') for y in subterms(t)), 'gen:parse', CGF, 'ParsePattern does not expand the pattern with the given arguments')
        rep.need(n, 'CustomGenerator constructor has no result'); rep.use(E)

BI_ID = 'buildcc::internal::BuilderInterface::GetUniqueId'

def constructs(t, x):
    return any(y[0] == 'app' and y[1] == 'Construct' and len(y[2]) > 1 and plain(y[2][1]) == x for y in subterms(t))

# ------------------------------------------------------------------ C31 --
import gen, checks_gen

class Trace:
    """memory accesses of the task instances of one abstract run"""
    def __init__(self, E, priv):
        self.E = E
        self.priv = priv            # roots owned by one builder
        self.acc = {}
        self.tasks = {}
        E.access = self.hook

    def hook(self, st, loc, write):
        E = self.E
        if not E.tstack or loc[0][0] in ('T', 'TF', 'TFD', 'CNT') or loc[0] in E.tls or loc[0][0] == 'G' and (E.db.globals.get(loc[0][1]) or {}).get('tls'):
            return
        inst, tid, group = E.tstack[-1]
        self.tasks[inst] = (tid, group, tuple(x[0] for x in E.tstack[:-1]))
        self.acc.setdefault(inst, set()).add((loc, write, st.locks, E.curl, E.shallow))

def overlap(a, b):
    return a[0] == b[0] and (a[1][:len(b[1])] == b[1] or b[1][:len(a[1])] == a[1])

def atomic(ctx, st, loc):
    t = None
    if loc[0][0] == 'G':
        g = ctx.db.globals.get(loc[0][1])
        t = g['t'] if g else None
    t = t or st.types.get(loc[0])
    for p in loc[1]:
        if t is None or not isinstance(p, str):
            return False
        fs = {n: f for n, f in ctx.db.all_fields(short(t))} if ctx.db.record(short(t)) is not None else {}
        t = fs[p]['t'] if p in fs else None
    return t is not None and head(short(t)) in ('std::atomic', 'std::mutex', 'std::atomic_bool', 'std::shared_mutex', 'std::recursive_mutex', 'std::once_flag', 'std::atomic_flag')

def lname(loc):
    r = loc[0][1]
    base = r[-1] if isinstance(r, tuple) else r
    return '.'.join([str(base).rsplit('@', 1)[-1]] + [x if isinstance(x, str) else '[]' for x in loc[1]])

def races(ctx, rep, tr, st, before, what):
    """conflicting accesses of task instances that may run at the same time"""
    insts = sorted(tr.tasks)
    pairs = 0
    for n, i in enumerate(insts):
        for j in insts[n:]:
            ti, tj = tr.tasks[i], tr.tasks[j]
            if i != j and (i in tj[2] or j in ti[2]):
                # a parent and its child: the child starts when the parent waits for it
                shared = lambda loc: loc[0][0] == 'G' or loc[0][0] == 'S' and loc[0] not in tr.priv
                local = False
            elif i != j and not before(ti, tj) and not before(tj, ti):
                local = True        # same builder, unordered
            else:
                local = False       # ordered here, but unordered across two builders
            for a, wa, la, ca, sa in tr.acc.get(i, ()):
                for b, wb, lb, cb, sb in tr.acc.get(j, ()):
                    if not (wa or wb) or not overlap(a, b) or sa and len(b[1]) > len(a[1]) or sb and len(a[1]) > len(b[1]):
                        continue
                    glob = a[0][0] == 'G' or a[0][0] == 'S' and a[0] not in tr.priv
                    if not local and not glob:
                        continue
                    if atomic(ctx, st, a) or atomic(ctx, st, b):
                        continue
                    pairs += 1
                    common = set(la) & set(lb)
                    if glob:
                        common = {x for x in common if x[0][0] == 'G' or x[0][0] == 'S' and x[0] not in tr.priv}
                    w = ca if wa else cb
                    o = cb if wa else ca
                    rep.ob(bool(common), 'race:%s' % lname(a if len(a[1]) >= len(b[1]) else b), w,
                           '%s: %s is %s at %s and written at %s by tasks that may run at the same time, without a common lock' % (what, lname(a), 'written' if wa and wb else 'read', o, w))
    rep.count('access_pairs', pairs)
    rep.count('task_instances', len(insts))
    rep.count('accesses', sum(len(x) for x in tr.acc.values()))

class RaceScn(ObjScn):
    def __init__(self, pch, loaded, changed, execok=True):
        ObjScn.__init__(self, False)
        self.pch, self.loaded, self.changed, self.execok = pch, loaded, changed, execok
    def __call__(self, a, st):
        if a == ('init', 'loaded') or a[0] == 'loadok':
            return self.loaded
        if a[0] in ('execok', 'saveok'):
            return self.execok
        if a[0] == 'eq' and 'load' in repr(a):
            return not self.changed
        return ObjScn.__call__(self, a, st)

def ordered(edges):
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)
    def reach(a, b):
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            for y in succ.get(x, ()):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y); todo.append(y)
        return False
    return reach

def c31(ctx, rep):
    """Lockset analysis of the abstract runs: every memory access of every task instance (compile steps of one target, callbacks of one generator, tests) is
    recorded with the locks held. Instances that no task-graph edge orders, and tasks of two different builders, may not access one location with a write unless
    they hold a common lock or the location is atomic."""
    # targets
    for loaded, changed, ok in ((False, True, True), (True, True, True), (False, True, False)):
        scn = RaceScn(False, loaded, changed, ok)
        B, rs = source_builds(ctx, rep, scn, ('src1', 'src2'))
        E = B.E
        done = 0
        for s, k, v in rs:
            if k != 'v':
                continue
            tr = Trace(E, {T[0]})
            for q in B.run_tasks(s):
                done += 1
            ts, ed = B.tasks(s)
            reach = ordered(ed)
            def before(x, y):
                return x[1] is None and y[1] is None and reach(x[0], y[0]) or bool(x[1] is None and y[2]) or bool(y[1] is None and x[2])
            races(ctx, rep, tr, s, before, 'build of a target')
            E.access = None
        rep.need(done, 'no run of a target with two sources')
        rep.use(E)
    # generators
    for sc in (checks_gen.GScn({'a': 'added', 'b': 'added'}, loaded=False), checks_gen.GScn({'a': 'input', 'b': 'blob'}), checks_gen.GScn({'a': 'same', 'b': 'added'}),
               checks_gen.GScn({'a': 'added', 'b': 'added'}, loaded=False, fail=('a', 'callback')), checks_gen.GScn({'a': 'output', 'b': 'added'}, fail=('b', 'missing'))):
        g = gen.Gen(ctx, sc, sorted(sc.kinds), sc.prev())
        tr = Trace(g.E, {gen.G[0]})
        out = g.full()
        rep.need(len(out), 'no run of a generator with two ids')
        g.E.access = None
        races(ctx, rep, tr, out[0], lambda x, y: bool(x[1] is None or y[1] is None), 'run of a generator')
        rep.use(g.E)
    # tests
    import checks_reg as R
    tf = ctx.db.func(R.INST + '::Test')
    run = [f for f in ctx.db.byqn.get('buildcc::Reg::Run', ()) if f.get('body') is not None][0]
    fb = R.for_type(R.build_fns(ctx), 'Target')
    GI = R.reg_global(ctx)
    for typ in R.enumerators(ctx.db, 'buildcc::TestOutput::Type'):
        for res in ({'a': True, 'b': True}, {'a': False, 'b': False}):
            E, st, fr = R.instance(ctx, None)
            E.stubs.update(R.run_stubs(res))
            E.on_module = lambda E, s, m, tid, fr2: [(s, 'n', None)]
            for n in ('a', 'b'):
                st = [s for s, k, v in R.register(E, fb, n, st, fr, 'buildcc::Target') if k == 'v'][0]
            st, cfg = R.make_config(E, st, fr, typ)
            for n in ('a', 'b'):
                st = [s for s, k, v in E.call_fn(tf, R.I, [('init', 'cmd:' + n), ('ref', R.builder(st, n)), cfg], st, fr) if k == 'v'][0]
            st.ev = ()
            st.store[GI] = ('ptr', R.I)
            tr = Trace(E, set())
            rs = E.call_fn(run, None, [NULL], st, fr)
            E.access = None
            tests = [i for i, t in tr.tasks.items() if t[1] is not None]
            rep.need(len(rs), 'Reg::Run has no result')
            tr.priv = {a[0] for x in tr.acc.values() for a, *_ in x if a[0][0] == 'S'}
            races(ctx, rep, tr, rs[0][0], lambda x, y: x[1] != y[1], 'run of tests')
            rep.count('test_instances', len(tr.tasks))
            rep.use(E)
    # helpers every task uses, replaced by models above
    for q in ('buildcc::env::Command::Execute', 'buildcc::env::Command::Construct', 'buildcc::env::save_file', 'buildcc::env::load_file', 'buildcc::env::assert_handle_fatal',
              'buildcc::env::set_task_state', 'buildcc::env::get_task_state', 'buildcc::env::log_trace', 'buildcc::env::log_debug', 'buildcc::env::log_info',
              'buildcc::env::log_warning', 'buildcc::env::log_critical'):
        fs = [f for f in ctx.db.byqn.get(q, ()) if f.get('body') is not None]
        rep.need(len(fs), 'anchor vanished: ' + q)
        for f in fs:
            E, st, fr = ctx.engine()
            E.stubs.pop(q, None)
            E.worker = True
            this = None
            if f.get('cls') and not f.get('static'):
                this = (('S', 'this'), ())
                st.types[this[0]] = f['cls']
            tr = Trace(E, set())
            args = []
            for n, p in enumerate(f['params']):
                if short(p['t']).rstrip().endswith('*') and 'char' not in p['t'].split('std::')[0] or p['t'].rstrip().endswith('&') and not p['t'].startswith('const'):
                    r = ('S', 'arg%d' % n)
                    tr.priv.add(r)
                    st.types[r] = short(p['t']).rstrip('*& ')
                    args.append(('ptr' if p['t'].rstrip().endswith('*') else 'ref', (r, ())))
                else:
                    args.append(('init', 'arg%d' % n))
            E.tstack.append((1, q, None))
            rs = E.call_fn(f, this, args, st, fr)
            E.tstack.pop()
            E.access = None
            rep.need(len(rs), q + ' has no result')
            tr.tasks.setdefault(1, (q, None, ()))
            races(ctx, rep, tr, rs[0][0], lambda x, y: True, q)
            rep.count('helpers')
            rep.use(E)
