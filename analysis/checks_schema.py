"""C09, C10, C12: build records on disk and file fingerprints"""
from base import *
from scn import *
import models

NSI = 'buildcc::internal::'
SERI = NSI + 'SerializationInterface'

def json_types(ctx):
    """repository types with both to_json and from_json"""
    out = {}
    for name in ('to_json', 'from_json'):
        for u, f in ctx.db.fn.items():
            if f['name'] == name and len(f['params']) == 2 and f.get('body') is not None and f['qn'].startswith('buildcc::'):
                out.setdefault(short(f['params'][1]['t']), {})[name] = f
    recs = {t: d for t, d in out.items() if ctx.db.record(t) is not None}
    enums = {t: d for t, d in out.items() if t in ctx.db.enums}
    if len(recs) < 5 or not enums:
        raise AnalysisError('anchor: only %d record types with JSON conversions' % len(recs))
    return recs, enums

def same(ctx, E, t, a, b, path=''):
    """first differing member of two values of type t, or None"""
    if a == b:
        return None
    if ctx.db.record(t) is not None and not models.find_json_fn(E, 'from_json', t) is None or ctx.db.record(t) is not None and short(t).startswith('buildcc::'):
        for n, f in ctx.db.all_fields(t):
            d = same(ctx, E, f['t'], E.field(a, n), E.field(b, n), path + '.' + n)
            if d:
                return d
        return None
    return (path or '.', a, b)

def where(f):
    return f.get('loc', '')

def serializers(ctx):
    out = []
    for q, r in ctx.db.records.items():
        if any(short(b['t']) == SERI for b in r.get('bases', ())):
            o = (('S', 'ser'), ())
            ld = Names._last(getter_loc(ctx.db, q, 'GetLoad', o))
            sd = Names._last(getter_loc(ctx.db, q, 'GetStore', o))
            out.append((q, ld, sd))
    if len(out) < 2:
        raise AnalysisError('anchor: %d serializers' % len(out))
    return sorted(out)

def is_loaded(ctx, E, s, fr, q, loc):
    f = E.method(q, 'IsLoaded')
    rs = E.call_fn(f, loc, [], s, fr)
    return E.rv(rs[0][2], rs[0][0])

def make_ser(ctx, q, loc, path, E, st, fr):
    """construct a serializer for file `path`"""
    ct = [f for f in ctx.db.byqn.get(q + '::' + q.rsplit('::', 1)[1], ()) if f.get('ctor') == 'other' and f.get('body') is not None]
    if not ct:
        raise AnalysisError('anchor vanished: constructor of ' + q)
    st.types[loc[0]] = q
    st.store[loc[0]] = ('new', q)
    return [s for s, k, v in E.run_ctor(ct[0], q, loc, [path], st, fr) if k == 'v']

def loader(content, ok=True):
    def f(E, e, args, st, fr):
        p = E.rv(args[0], st)
        st.emit(('loadfile', p, ok, e.get('l')))
        if ok:
            E.set(st, args[2][1], content)
        return V(st, C(ok))
    return f

def c09(ctx, rep):
    """Round trip decided by abstract composition: for every repository type with JSON conversions, from_json is interpreted on the exact result of
    to_json of an arbitrary value; every member must come back as the same term and no exception path may exist. For every serializer the whole chain
    UpdateStore'd record -> Store -> file text -> Load is composed and the loaded record compared member by member. Enumerators are tried one by one."""
    recs, enums = json_types(ctx)
    for t, d in sorted(recs.items()):
        for n in ('to_json', 'from_json'):
            if n not in d:
                raise AnalysisError('anchor: %s has no %s' % (t, n))
        E, st, fr = ctx.engine()
        E.json_opaque = False
        st.types[('S', 'r')] = t
        src = (('S', 'r'), ())
        v0 = ('init', 'r')
        # enumerations are tried value by value below; here they are taken as opaque values
        E.json_opaque = True
        n = 0
        for s, k, v in models.to_json(E, st, fr, ('ref', src), t):
            if k != 'v':
                rep.bad('roundtrip:throws:' + t, where(d['to_json']), 'writing a %s can fail' % t)
                continue
            for s2, k2, v2 in models.json_get(E, s, fr, v, t):
                n += 1
                if k2 != 'v':
                    rep.bad('roundtrip:rejects:' + t, where(d['from_json']), 'a %s that was written by this program is rejected when read back (%s)' % (t, pp(v2)))
                    continue
                for fn, fd in ctx.db.all_fields(t):
                    df = same(ctx, E, fd['t'], E.field(v0, fn), E.field(v2, fn), fn)
                    rep.ob(df is None, 'roundtrip:%s:%s' % (t, fn), where(d['from_json']),
                           'member %s of %s does not survive being written and read back: read %s' % (df[0] if df else fn, t, pp(df[2])[:120] if df else ''))
        rep.use(E)
        rep.need(n, 'round trip of ' + t)
    for t, d in sorted(enums.items()):
        for en in ctx.db.enums[t]['e']:
            E, st, fr = ctx.engine()
            E.json_opaque = False
            v0 = ('enum', en['name'], en['v'])
            for s, k, v in models.to_json(E, st, fr, v0, t):
                rs = models.json_get(E, s, fr, v, t) if k == 'v' else [(s, k, v)]
                for s2, k2, v2 in rs:
                    v2 = E.rv(v2, s2) if k2 == 'v' else v2
                    rep.ob(k2 == 'v' and v2 == v0, 'roundtrip:%s:%s' % (t, en['name']), where(d['from_json']), '%s is read back as %s' % (en['name'], pp(v2)))
            rep.use(E)
    for q, ld, sd in serializers(ctx):
        E, st, fr = ctx.engine()
        A, Bl = (('S', 'serA'), ()), (('S', 'serB'), ())
        T_ = ctx.db.field(q, sd)['t']
        for s in make_ser(ctx, q, A, ('init', 'file'), E, st, fr):
            E.set(s, (A[0], (sd,)), ('init', 'record'))
            for s2, k2, v2 in E.call_fn(E.method(q, 'StoreToFile'), A, [], s, fr):
                if k2 != 'v':
                    rep.bad('chain:throws:' + q, where(E.method(q, 'StoreToFile')), 'saving a record can throw')
                    continue
                sv = [e for e in s2.ev if e[0] == 'save']
                if not rep.ob(len(sv) == 1, 'chain:save:' + q, where(E.method(q, 'StoreToFile')), 'StoreToFile of %s writes %d files' % (q, len(sv))):
                    continue
                res = E.rv(v2, s2)
                rep.ob(res == C(sv[0][3]), 'chain:result:' + q, sv[0][4], 'StoreToFile of %s does not return whether the file was written' % q)
                if not sv[0][3]:
                    continue
                E2, st2, fr2 = ctx.engine()
                E2.stubs['buildcc::env::load_file'] = loader(sv[0][2])
                for s3 in make_ser(ctx, q, Bl, ('init', 'file'), E2, st2, fr2):
                    for s4, k4, v4 in E2.call_fn(E2.method(q, 'LoadFromFile'), Bl, [], s3, fr2):
                        lf = [e for e in s4.ev if e[0] == 'loadfile']
                        rep.ob(len(lf) == 1 and lf[0][1] == sv[0][1], 'chain:file:' + q, sv[0][4], '%s reads %s but writes %s' % (q, pp(lf[0][1]) if lf else 'nothing', pp(sv[0][1])))
                        rep.ob(k4 == 'v' and E2.rv(v4, s4) == TRUE, 'chain:load:' + q, where(E2.method(q, 'LoadFromFile')), 'a record saved by %s is not accepted when loaded again' % q)
                        if k4 != 'v':
                            continue
                        rep.ob(is_loaded(ctx, E2, s4, fr2, q, Bl) == TRUE, 'chain:isloaded:' + q, where(E2.method(q, 'LoadFromFile')), 'IsLoaded is not set after a record was loaded')
                        got = E2.get(s4, (Bl[0], (ld,)))
                        for fn, fd in ctx.db.all_fields(T_):
                            df = same(ctx, E2, fd['t'], E2.field(('init', 'record'), fn), E2.field(got, fn), fn)
                            rep.ob(df is None, 'chain:%s:%s' % (q, fn), sv[0][4], 'member %s of the record of %s does not survive saving and loading: %s' % (fn, q, pp(df[2])[:120] if df else ''))
                rep.use(E2)
        rep.use(E)

def c10(ctx, rep):
    """Interprets LoadFromFile of every serializer for an unreadable file, unparsable text, arbitrary parsed JSON, and a well-formed record with each member
    in turn missing or of another JSON kind; all paths must return false, leave IsLoaded false and let no exception out. Then whole first builds are
    interpreted with an unreadable / unparsable record: every step must run."""
    for q, ld, sd in serializers(ctx):
        T_ = ctx.db.field(q, ld)['t']
        E, st, fr = ctx.engine()
        st.types[('S', 'r')] = short(T_)
        js = [v for s, k, v in models.to_json(E, st, fr, ('ref', (('S', 'r'), ())), T_) if k == 'v']
        base = js[0]
        if models.jkeys(base) is None:
            raise AnalysisError('record of %s is not written as a JSON object' % q)
        lf = E.method(q, 'LoadFromFile')
        def case(name, content, ok, expect, oracle=None):
            E, st, fr = ctx.engine(oracle)
            E.stubs['buildcc::env::load_file'] = loader(content, ok)
            loc = (('S', 'serA'), ())
            n = 0
            for s in make_ser(ctx, q, loc, ('init', 'file'), E, st, fr):
                rep.ob(is_loaded(ctx, E, s, fr, q, loc) == FALSE, 'unusable:initial:' + q, where(lf), 'IsLoaded is set before anything was loaded')
                for s2, k2, v2 in E.call_fn(lf, loc, [], s, fr):
                    n += 1
                    if k2 == 'throw':
                        rep.bad('unusable:throws:%s' % q, where(lf), 'loading %s (%s) lets an exception out: %s' % (name, q, pp(v2)))
                        continue
                    if k2 != 'v':
                        rep.bad('unusable:exit:%s' % q, where(lf), 'loading %s (%s) ends the program' % (name, q))
                        continue
                    il = is_loaded(ctx, E, s2, fr, q, loc)
                    rs = E.truth(s2, E.rv(v2, s2))
                    r = C(rs[0][1]) if len({b for _, b in rs}) == 1 else E.rv(v2, s2)
                    rep.ob(all(b2 == b for s3, b in rs for _, b2 in E.truth(s3, il)), 'unusable:agree:' + q, where(lf), 'LoadFromFile and IsLoaded disagree (%s): %s / %s' % (name, pp(r), pp(il)))
                    if expect is not None:
                        rep.ob(r == C(expect), 'unusable:%s:%s' % (name, q), where(lf), 'LoadFromFile of %s returns %s for %s' % (q, pp(r), name))
            rep.use(E)
            rep.need(n, name)
        case('a file that cannot be read', None, False, False)
        disc = lambda a, st: True if a[0] == 'discarded' else None
        case('text that is not JSON', ('init', 'text'), True, False, disc)
        case('arbitrary JSON', ('init', 'text'), True, None)
        case('a JSON value that is not an object', ('jdump', ('json', 'std::nullptr_t', NULL)), True, False)
        ks = models.jkeys(base)
        for k in sorted(ks, key=repr):
            rest = {('at', a): b for a, b in ks.items() if a != k}
            case('a record without "%s"' % pp(k).strip("'"), ('jdump', rec(('new', 'json'), rest)), True, False)
            if ks[k][0] == 'json' and short(ks[k][1]) in ctx.db.enums:
                continue
            rest[('at', k)] = ('json', 'std::nullptr_t', NULL)
            case('a record whose "%s" is null' % pp(k).strip("'"), ('jdump', rec(('new', 'json'), rest)), True, False)
    # a target whose record is unusable is built from scratch
    for what in ('unreadable', 'unparsable'):
        for pch in (False, True):
            sc = Scn(ctx.kinds, loaded=False, pch=pch)
            def orc(a, st, sc=sc, what=what):
                if a[0] == 'loadok':
                    return what != 'unreadable'
                if a[0] == 'discarded':
                    return True
                return sc(a, st)
            B = Build(ctx.db, ctx.names, orc, fresh_load=False)
            ss = [s for s in B.full() if not any(e[0] == 'process-exit' for e in s.ev)]
            rep.use(B.E)
            rep.need(len(ss), 'no build with an unusable record')
            for s in ss:
                t = B.task_state(s)
                if not (t[0] == 'enum' and t[1].endswith('::SUCCESS')):
                    continue
                for role in ['compile_command', 'link_command'] + (['pch_command'] if pch else []):
                    rep.ob(bool(execs(s, role)), 'unusable:build:%s:%s' % (what, role), 'buildcc/lib/target/src/target/build.cpp', 'with an %s record the %s is not run' % (what, role))

PIL = NSI + 'PathInfoList'
PI = NSI + 'PathInfo'
INJ = ('to_string', 'count', 'time_since_epoch')

def lossy(t):
    """first operation between the timestamp and the fingerprint that can map different times to one text"""
    x = t
    while True:
        if x[0] == 'fs' and x[1] == 'last_write_time':
            return None
        if x[0] in ('cat', 'seq'):
            ps = [p for p in x[1] if any(y[0] == 'fs' for y in subterms(p))]
            if len(ps) != 1:
                return x
            x = ps[0] if x[0] == 'cat' else ps[0][1]
            continue
        if x[0] == 'app' and any(x[1] == n or x[1].endswith('::' + n) for n in INJ):
            x = x[2][0]
            continue
        if x[0] in ('str', 'conv') and len(x) == 2:
            x = x[1]
            continue
        return x

LOSSYC = ('size', 'uset', 'sorted')

def compare_fn(ctx, q, rep, a, b):
    """(name, function) of the equality operations of q"""
    out = [f for n in ('operator==', 'IsEqual') for f in ctx.db.byqn.get(q + '::' + n, ()) if f.get('body') is not None and len(f['params']) == 1]
    if not out:
        raise AnalysisError('anchor vanished: comparison of ' + q)
    return out

# files read by the command of each role: they must be fingerprinted before it starts
CONSUMED = {'pch_command': ('pchs', 'headers'), 'compile_command': ('sources', 'headers', 'compile_dependencies'), 'link_command': ('libs', 'link_dependencies')}

def c12(ctx, rep):
    """Interprets ComputeHash, ComputeHashForAll and the equality operators on arbitrary arguments: the fingerprint must be an injective function of the
    current modification time of exactly the given file, unavailable files must be fatal, equality must depend on every path and fingerprint. Whole builds
    are then interpreted: every file a command consumes must be fingerprinted before that command is first run and not again afterwards."""
    db = ctx.db
    f = db.func(PIL + '::ComputeHash')
    for err in (False, True):
        E, st, fr = ctx.engine(lambda a, s: err if a[0] == 'errval' else None)
        n = 0
        for s, k, v in E.call_fn(f, None, [('init', 'p')], st, fr):
            n += 1
            if err:
                rep.ob(k != 'v', 'hash:missing', where(f), 'a file whose modification time cannot be read still gets a fingerprint')
                continue
            if k != 'v':
                rep.bad('hash:fails', where(f), 'fingerprinting an existing file fails')
                continue
            v = E.rv(v, s)
            ts = [x for x in subterms(v) if x[0] == 'fs' and x[1] == 'last_write_time']
            if not rep.ob(bool(ts), 'hash:source', where(f), 'the fingerprint %s does not depend on the modification time of the file' % pp(v)[:100]):
                continue
            rep.ob(all(strip_path(x[2][0]) == ('init', 'p') for x in ts), 'hash:path', where(f), 'the fingerprint is taken from another file: %s' % pp(ts[0][2][0])[:100])
            l = lossy(v)
            rep.ob(l is None, 'hash:lossy', where(f), 'different modification times can give one fingerprint: %s' % (pp(l)[:140] if l else ''))
        rep.use(E)
        rep.need(n, 'ComputeHash')
    # every element
    E, st, fr = ctx.engine(lambda a, s: False if a[0] in ('errval', 'empty') else None)
    loc = (('S', 'pl'), ()); st.types[loc[0]] = PIL
    g = db.func(PIL + '::ComputeHashForAll')
    gi = db.func(PIL + '::GetPathInfos')
    n = 0
    for s, k, v in E.call_fn(g, loc, [], st, fr):
        if k != 'v':
            rep.bad('hashall:fails', where(g), 'fingerprinting existing files fails')
            continue
        n += 1
        lst = E.rv(E.call_fn(gi, loc, [], s, fr)[0][2], s)
        els = elements(E, lst)
        rep.ob(bool(els), 'hashall:none', where(g), 'ComputeHashForAll drops the elements')
        for cond, el in els:
            p, h = E.field(el, 'path'), E.field(el, 'hash')
            ts = [x for x in subterms(h) if x[0] == 'fs' and x[1] == 'last_write_time']
            rep.ob(bool(ts) and all(strip_path(x[2][0]) == strip_path(p) for x in ts), 'hashall:each', where(g),
                   'after ComputeHashForAll an element does not hold the current fingerprint of its own file: path %s, fingerprint %s' % (pp(p)[:80], pp(h)[:120]))
    rep.use(E)
    rep.need(n, 'ComputeHashForAll')
    # equality
    for q, a, b in ((PI, ('init', 'a'), ('init', 'b')), (PIL, ('init', 'a'), ('init', 'b')), (NSI + 'PathList', ('init', 'a'), ('init', 'b'))):
        for f in compare_fn(ctx, q, rep, a, b):
            for diff in ([], ['path'], ['hash'], ['path', 'hash']) if q == PI else ([], ['*']):
                def orc(at, s):
                    if at[0] == 'eq':
                        ms = {x[2] for x in subterms(at) if x[0] == 'fld'}
                        if q == PI:
                            return not (ms & set(diff)) if ms else None
                        if at[1][0] == 'fld' and at[2][0] == 'fld' and at[1][2] == at[2][2] and {at[1][1], at[2][1]} == {a, b}:
                            return not diff
                        if not diff:
                            return True
                    return None
                E, st, fr = ctx.engine(orc)
                la, lb = (('S', 'a'), ()), (('S', 'b'), ())
                st.types[la[0]] = st.types[lb[0]] = q
                n = 0
                for s, k, v in E.call_fn(f, la, [('ref', lb)], st, fr):
                    if k != 'v':
                        rep.bad('eq:throws:' + q, where(f), 'comparing %s fails' % q)
                        continue
                    for s2, r in E.truth(s, E.rv(v, s)):
                        n += 1
                        if not diff:
                            rep.ob(r, 'eq:same:' + q, where(f), '%s compares equal values as different' % f['qn'])
                        elif q == PI or any(x[0] == 'eq' and x[1][0] == 'fld' and b_ is False for x, b_ in s2.facts.items()):
                            rep.ob(not r, 'eq:diff:%s:%s' % (q, '+'.join(diff)), where(f), '%s treats values as equal that differ in %s' % (f['qn'], ' and '.join(diff)))
                        else:
                            # element-wise comparison: equal only when sizes and every element were compared equal
                            cm = [x for x, b_ in s2.facts.items() if x[0] == 'eq' and b_ and x[1][0] not in LOSSYC and x[2][0] not in LOSSYC] + [x for x, b_ in s2.facts.items() if x[0] == 'empty' and b_]
                            rep.ob(not r or bool(cm), 'eq:blind:' + q, where(f), '%s can report equality without comparing elements' % f['qn'])
                rep.use(E)
                rep.need(n, 'comparison of ' + q)
    # when files are fingerprinted relative to the commands that read them
    from checks_target import run
    seen = {}
    for ext in ('C', 'Cpp', 'Asm'):
        for pch in (False, True):
            scs = [Scn(ctx.kinds, loaded=False, pch=pch), Scn(ctx.kinds, pch=pch, change={'common_compile_flags': 'list'}), Scn(ctx.kinds, pch=pch, w='updated'),
                   Scn(ctx.kinds, pch=pch, target_linked=False), Scn(ctx.kinds, pch=pch, change={'headers': 'content'})]
            if pch:
                scs.append(Scn(ctx.kinds, pch=pch, pch_compiled=False))
            for sc in scs:
                B, ss = run(ctx, rep, sc, ext=ext)
                for s in ss:
                    for role, fs_ in CONSUMED.items():
                        ix = [i for i, e in enumerate(s.ev) if e[0] == 'exec' and role_of(e[1]) == role]
                        if not ix:
                            continue
                        for fl in fs_:
                            if ctx.kinds.get(fl) != 'info':
                                continue
                            st_ = [(i, e) for i, e in enumerate(s.ev) if e[0] == 'stat' and fields_under(e[1], USER) == {fl}]
                            late = [e for i, e in st_ if i > ix[0] and (fl != 'sources' or elem_keys(e[1], (USER, fl)) & elem_keys(s.ev[ix[0]][1], (USER, fl)))]
                            rep.ob(not late, 'late:%s:%s' % (role, fl), late[0][2] if late else '', '%s are fingerprinted after the %s has read them, so a change made in between is recorded as built' % (fl, role))
                            rep.ob(any(i < ix[0] for i, e in st_), 'unseen:%s:%s' % (role, fl), s.ev[ix[0]][3], '%s are not fingerprinted before the %s runs' % (fl, role))
                            seen[role] = 1
    rep.need(len(seen) == 3, 'roles with consumed files')

def elements(E, lst):
    """representative elements of a list value"""
    if lst[0] == 'seq':
        out = []
        for p in lst[1]:
            if p[0] == 'one' or p[0] == 'many':
                out.append((p, p[1]))
            else:
                out += elements(E, p[1])
        return out
    if lst[0] == 'img':
        return [(lst, lst[2])]
    return [(lst, ('elem', lst, W))]
