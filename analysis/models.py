"""Models of the external library functions the repository calls (std, fmt,
nlohmann json, taskflow, CLI11).  Only value/effect semantics, no code runs."""
import re
from engine import *
from engine import rec, cat, mkseq, append, seq_parts, subst, mentions, head, short, is_ref, Frame
from engine import SETLIKE

def V(rs, v):
    return [(rs, 'v', v)]

PATHT = 'std::filesystem::path'

def unpath(v):
    return v[1] if v[0] == 'path' else ('str', v)

def strip(p):
    while isinstance(p, tuple) and p and p[0] in ('ln', 'mp', 'path', 'str', 'disp') and len(p) == 2:
        p = p[1]
    return p

def topath(v):
    if v[0] == 'str':
        return v[1]
    if v[0] in ('path',):
        return v
    return ('path', v)

# ------------------------------------------------------------ constructors --
def ctor(E, e, vs, st, fr):
    t = short(e.get('t') or e.get('cls') or '')
    h = head(t)
    fn = e['fn']
    kind = fn.get('ctor')
    pt = fn.get('pt', [])
    vals = [E.rv(v, st) for v in vs]
    if h == 'std::basic_string':
        if not vals:
            return V(st, C(''))
        if len(vs) >= 2 and vals[0][0] == 'iter' and vals[1][0] == 'iter':
            return V(st, ('app', 'substr', (E.get(st, vals[0][1]), vals[0], vals[1])))
        if len(vals) >= 2 and pt and 'char *' in pt[0] and len(pt) > 1 and 'allocator' not in pt[1]:
            return V(st, ('app', 'string', tuple(vals[:2])))
        if pt and pt[0].startswith('unsigned long') and len(vals) >= 2:
            return V(st, ('app', 'fill', tuple(vals[:2])))
        if pt and 'initializer_list' in pt[0] and vals[0][0] == 'seq':
            return V(st, cat([p[1] if p[1][0] == 'c' and isinstance(p[1][1], str) else ('app', 'chr', (p[1],)) for p in vals[0][1]]))
        return V(st, vals[0])
    if h == 'std::basic_string_view':
        return V(st, vals[0] if vals else C(''))
    if h == 'std::filesystem::path':
        if not vals:
            return V(st, ('path', C('')))
        if kind in ('copy', 'move') or (pt and 'filesystem::path' in pt[0]):
            return V(st, vals[0])
        return V(st, topath(vals[0]))
    if h in VECLIKE or h in MAPLIKE:
        if not vals or (kind == 'default'):
            return V(st, EMPTY)
        if kind in ('copy', 'move'):
            if kind == 'move' and vs[0][0] == 'ref':
                pass
            return V(st, vals[0])
        if len(vals) >= 2 and vals[0][0] == 'iter' and vals[1][0] == 'iter':
            return V(st, iter_range(E, st, vals[0], vals[1]))
        if pt and ('initializer_list' in pt[0] or vals[0][0] == 'seq'):
            return V(st, conv_elems(E, vals[0], t))
        if vals and pt and ('unsigned long' in pt[0] or 'size_type' in pt[0]):
            if vals[0] == C(0):
                return V(st, EMPTY)
            if vals[0][0] == 'c' and isinstance(vals[0][1], int) and 0 < vals[0][1] <= 16 and h == 'std::vector':
                v0 = vals[1] if len(vals) > 1 and 'allocator' not in pt[1] else E.default(elem_type(t), st)
                return V(st, mkseq([('one', v0)] * vals[0][1]))
            return V(st, ('app', 'vec', tuple(vals)))
        return V(st, vals[0])
    if h == 'std::pair':
        if kind in ('copy', 'move') or (len(vals) == 1):
            return V(st, vals[0])
        if len(vals) == 2:
            ft = pair_types(t)
            return V(st, rec(('new', 'std::pair'), {'first': coerce(vals[0], ft[0]), 'second': coerce(vals[1], ft[1])}))
        return V(st, rec(('new', 'std::pair'), {}))
    if h == 'std::optional':
        if not vals or vals[0][0] == 'c' and vals[0][1] == 'nullopt' or (pt and 'nullopt_t' in pt[0]):
            return V(st, ('nullopt',))
        if kind in ('copy', 'move') or (pt and head(pt[0]) == 'std::optional'):
            return V(st, vals[0])
        inner = t[t.find('<') + 1:]
        return V(st, ('some', coerce(vals[0], inner)))
    if h in ATOMIC:
        return V(st, vals[0] if vals else E.default(t[t.find('<') + 1:t.rfind('>')], st) if '<' in t else C(False))
    if h in ('std::function',):
        if not vals:
            return V(st, NULL)
        return V(st, callable_value(E, vs[0], st))
    if h in ('std::shared_ptr', 'std::unique_ptr'):
        if not vals:
            return V(st, NULL)
        return V(st, vals[0])
    if h == 'std::allocator' or h in ('std::hash', 'std::equal_to', 'std::less'):
        return V(st, VOID)
    if h == 'nlohmann::basic_json':
        if not vals:
            return V(st, ('new', 'json'))
        if kind in ('copy', 'move') or (pt and head(pt[0]) == 'nlohmann::basic_json'):
            return V(st, vals[0])
        if 'initializer_list' in (pt[0] if pt else ''):
            return V(st, jwrap(E, vals[0]))
        return to_json(E, st, fr, vs[0], (e.get('at') or [''])[0])
    if h == 'nlohmann::detail::json_ref':
        if 'initializer_list' in (pt[0] if pt else ''):
            return V(st, jwrap(E, vals[0]))
        return to_json(E, st, fr, vs[0], (e.get('at') or [''])[0])
    if h == 'fmt::basic_format_string' or h == 'fmt::basic_string_view':
        return V(st, vals[0])
    if h in ('tf::Task',):
        return V(st, vals[0] if vals else NULL)
    if h == 'std::initializer_list':
        return V(st, vals[0] if vals else EMPTY)
    if h == 'std::error_code':
        return V(st, ('new', 'std::error_code'))
    if h in GUARDS:
        return V(st, ('guard', tuple(v[1] for v in vs if v[0] == 'ref')))
    if h in ('std::basic_stringstream', 'std::basic_istringstream') and vals and vals[0][0] == 'c' and isinstance(vals[0][1], str):
        return V(st, ('sstr', vals[0][1], False))
    if h in ('std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream'):
        st.emit(('open', h, tuple(vals), e.get('l')))
        return V(st, ('stream', h, tuple(vals)))
    if h == 'TinyProcessLib::Process':
        args = tuple(vals)
        st.emit(('process', args, e.get('l')))
        return V(st, ('process', args))
    if h == 'std::filesystem::directory_iterator' or h == 'std::filesystem::recursive_directory_iterator':
        if not vals:
            return V(st, ('iter', None, 'end'))
        if kind in ('copy', 'move'):
            return V(st, vals[0])
        ec = [v for v, p in zip(vs, pt) if 'error_code' in p and v[0] == 'ref']
        for v in ec:
            E.set(st, v[1], ('errc', 'directory_iterator', (vals[0],)))
        ents = E.dirs(strip(vals[0])) if getattr(E, 'dirs', None) and 'recursive' not in h else None
        if ents is not None:
            out = V(st, ('seq', tuple(('one', ('dirent', vals[0], n)) for n in ents)))
            if not any('error_code' in p for p in pt):
                out.append((st.copy(), 'throw', ('exc', 'std::filesystem::filesystem_error')))
            return out
        out = V(st, ('dir', h, vals[0]))
        if not any('error_code' in p for p in pt):
            out.append((st.copy(), 'throw', ('exc', 'std::filesystem::filesystem_error')))
        return out
    if kind in ('copy', 'move') and vals:
        return V(st, vals[0])
    if 'iterator' in h and len(vals) == 1:
        return V(st, vals[0])
    if not vals:
        return V(st, ('new', t))
    return V(st, ('app', 'ctor:' + h, tuple(vals)))

def pair_types(t):
    i = t.find('<')
    if i < 0:
        return ('', '')
    d = 0; parts = []; cur = ''
    for ch in t[i + 1:-1]:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            parts.append(cur.strip()); cur = ''
        else:
            cur += ch
    parts.append(cur.strip())
    return (parts + ['', ''])[:2]

def coerce(v, t):
    """implicit conversion of value to type t (string <-> path)"""
    h = head(t)
    if h == PATHT:
        if v[0] == 'c' and isinstance(v[1], str) or v[0] in ('cat', 'str'):
            return topath(v)
    return v

def conv_elems(E, v, t):
    return v

def callable_value(E, v, st):
    x = E.rv(v, st)
    return x

def iter_range(E, st, a, b):
    """collection denoted by iterator pair"""
    if a[1] is None:
        return ('app', 'range', (a, b))
    base = E.get(st, a[1])
    if a[2] == 'begin' and b[2] == 'end' and a[1] == b[1]:
        return base
    return ('app', 'range', (base, a[2], b[2]))

# ------------------------------------------------------------------ json --
def find_json_fn(E, name, t):
    t = short(t)
    for u, f in E.db.fn.items():
        if f['name'] == name and len(f['params']) == 2 and f.get('body') is not None:
            if short(f['params'][1]['t']) == t:
                return f
    r = E.db.record(t)
    for b in (r or {}).get('bases', ()):
        x = find_json_fn(E, name, b['t'])
        if x:
            return x
    return None

def to_json(E, st, fr, v, t):
    val = E.rv(v, st)
    f = find_json_fn(E, 'to_json', t) if E.db.record(t) is not None or short(t) in E.db.enums else None
    if f is None or getattr(E, 'json_opaque', True) and E.db.record(t) is None:
        return V(st, ('json', short(t), val))
    j = E.tmp(st, fr, ('new', 'json'))
    src = E.as_ref(st, fr, v, t)
    out = []
    for s, k, x in E.call_fn(f, None, [j, src], st, fr):
        if k == 'v':
            out.append((s, 'v', E.get(s, j[1])))
        else:
            out.append((s, k, x))
    return out

def inserted(E, h, v, k):
    """second member of what insert/emplace on a set returns"""
    if h is not None and v[0] == 'seq' and all(p[0] == 'one' for p in v[1]):
        return E.neg(h)
    return ('app', 'inserted', (v, k))

def jkind(t):
    """kind of JSON value a C++ type is written as (None: unknown)"""
    t = short(t)
    h = head(t)
    if h in ('std::basic_string', 'std::basic_string_view') or t in ('char *', 'const char *') or re.match(r'(const )?char\s*\[', t):
        return 'string'
    if t == 'bool':
        return 'boolean'
    if t in ('std::nullptr_t', 'nullptr_t'):
        return 'null'
    if t in ('float', 'double', 'long double') or re.match(r'^(unsigned |signed )?(char|short|int|long|long long)( int)?$', t) or t == 'unsigned':
        return 'number'
    if h in ('std::map', 'std::unordered_map'):
        return 'object'
    if h in ('std::vector', 'std::list', 'std::deque', 'std::set', 'std::unordered_set', 'std::array', 'std::pair', 'std::tuple'):
        return 'array'
    return None

def jvkind(v):
    """kind of a JSON term (None: unknown)"""
    if v[0] == 'json':
        return jkind(v[1])
    if v == ('new', 'json'):
        return 'null'
    if v[0] == 'rec' and v[1] == ('new', 'json'):
        return 'object'
    if v[0] == 'seq':
        return 'array'
    return None

def json_get(E, st, fr, jval, t):
    """value of type t read from json; may throw"""
    f = None
    if E.db.record(t) is not None or short(t) in E.db.enums and not getattr(E, 'json_opaque', True):
        f = find_json_fn(E, 'from_json', t)
    if f is None:
        if jval[0] == 'json':
            if short(jval[1]) == short(t):
                return V(st, jval[2])
            a, b = jkind(jval[1]), jkind(t)
            if a and b and a != b:
                return [(st, 'throw', ('exc', 'nlohmann::detail::type_error'))]
            if a and a == b and a == 'string':
                return V(st, jval[2])
        elif jvkind(jval) == 'null' and jkind(t):
            return [(st, 'throw', ('exc', 'nlohmann::detail::type_error'))]
        return [(st, 'v', ('jget', short(t), jval)), (st.copy(), 'throw', ('exc', 'nlohmann::detail::exception'))]
    out = []
    j = E.tmp(st, fr, jval)
    fr.ntmp += 1
    dst = (('T', fr.id, fr.ntmp), ())
    st.types[dst[0]] = short(t)
    if short(t) in E.db.enums:
        E.set(st, dst, UNDEF)
        ini = V(st, VOID)
    else:
        ini = E.default_construct(short(t), dst, st, fr)
    for s, k, x in ini:
        if k != 'v':
            out.append((s, k, x)); continue
        for s3, k3, x3 in E.call_fn(f, None, [j, ('ref', dst)], s, fr):
            if k3 == 'v':
                out.append((s3, 'v', E.get(s3, dst)))
            else:
                out.append((s3, k3, x3))
    return E.dedupe(out)

def jkeys(v):
    """known keys of a JSON object under construction, else None"""
    if v == ('new', 'json'):
        return {}
    if v[0] == 'rec' and v[1] == ('new', 'json'):
        return {k[1]: x for k, x in v[2] if isinstance(k, tuple) and k[0] == 'at'}
    return None

def jwrap(E, v):
    """json_ref / initializer list element -> JSON term; [string, value] pairs lists become objects"""
    if v[0] == 'seq' and v[1] and all(p[0] == 'one' for p in v[1]):
        el = [jwrap(E, p[1]) for p in v[1]]
        if all(x[0] == 'seq' and len(x[1]) == 2 and x[1][0][1][0] == 'json' and jkind(x[1][0][1][1]) == 'string' for x in el):
            d = {}
            for x in el:
                d.setdefault(('at', x[1][0][1][2]), x[1][1][1])
            return rec(('new', 'json'), d)
        return ('seq', tuple(('one', x) for x in el))
    return v

# ----------------------------------------------------------------- fmt --
def fmt_piece(v, t, E=None):
    t = short(t)
    h = head(t)
    if h == PATHT:
        return ('disp', v)
    if v[0] == 'join':
        return v
    if v[0] in ('c', 'cat', 'str', 'disp'):
        if v[0] == 'c' and not isinstance(v[1], str):
            return C(str(v[1]))
        return v
    return v

_ph = re.compile(r'\{\{|\}\}|\{([^{}]*)\}')
def fmt_format(E, st, fr, f, args, at):
    if f[0] != 'c':
        return V(st, ('app', 'fmt::format', (f,) + tuple(args)))
    parts = []
    pos = 0
    i = 0
    s = f[1]
    for m in _ph.finditer(s):
        parts.append(C(s[pos:m.start()]))
        pos = m.end()
        if m.group(0) == '{{':
            parts.append(C('{'))
        elif m.group(0) == '}}':
            parts.append(C('}'))
        else:
            spec = m.group(1)
            nm = spec.split(':')[0]
            if nm == '':
                idx = i; i += 1
            elif nm.isdigit():
                idx = int(nm)
            else:
                idx = None
                for q, a in enumerate(args):
                    if a[0] == 'fmtarg' and a[1] == nm:
                        idx = q
                if idx is None:
                    return V(st, ('app', 'fmt::format', (f,) + tuple(args)))
            if idx >= len(args):
                return V(st, ('app', 'fmt::format', (f,) + tuple(args)))
            a = args[idx]
            ty = at[idx] if idx < len(at) else ''
            if a[0] == 'fmtarg':
                a, ty = a[2], a[3]
            if head(ty) == 'fmt::join_view':
                parts.append(a)
            else:
                parts.append(fmt_piece(a, ty))
    parts.append(C(s[pos:]))
    return V(st, cat(parts))

# ----------------------------------------------------------------- calls --
NOOP = {'spdlog::set_pattern', 'spdlog::set_level', 'spdlog::log', 'std::atexit', 'atexit'}
THROWING_FS = {'create_directories', 'create_directory', 'exists', 'remove', 'remove_all', 'last_write_time', 'current_path', 'is_directory',
               'file_size', 'copy', 'copy_file', 'rename', 'is_regular_file', 'canonical', 'weakly_canonical', 'absolute', 'equivalent'}
FS_MUT = {'create_directories', 'create_directory', 'remove', 'remove_all', 'copy', 'copy_file', 'rename', 'last_write_time', 'resize_file', 'permissions'}

def vals_of(E, st, args):
    return [E.rv(a, st) for a in args]

def call(E, e, fn, obj, args, st, fr):
    qn = fn['qn']
    name = fn['name']
    cls = fn.get('cls') or ''
    h = head(cls) if cls else ''
    at = e.get('at') or []
    if obj is not None:
        ot = head(e.get('ot') or cls or '')
    # implicit assignment of anything
    if fn.get('assignop') and obj is not None and h not in ('nlohmann::basic_json',) and h not in PTRLIKE and h not in ATOMIC:
        v = E.rv(args[0], st)
        if h == 'std::filesystem::path':
            v = coerce(v, PATHT)
            if v[0] != 'path' and head(at[0] if at else '') != PATHT:
                v = topath(v)
        if h == 'std::optional' and at and head(at[0]) != 'std::optional':
            v = ('some', v) if v[0] != 'nullopt' else v
        E.set(st, obj[1], v)
        return V(st, obj)
    if name == 'operator=' and obj is not None:
        v = E.rv(args[0], st)
        o = E.rv(obj, st)
        if h == 'std::tuple' and o[0] == 'tuple' and len(o) == 3 and o[2]:
            xs = v[1] if v[0] == 'tuple' else [E.field(v, n) for n in ('first', 'second')]
            if len(xs) == len(o[2]):
                for r, x in zip(o[2], xs):
                    if r[0] == 'ref':
                        E.set(st, r[1], x)
                return V(st, obj)
        if h == 'std::optional':
            if at and head(at[0]) == 'std::nullopt_t':
                v = ('nullopt',)
            elif not (at and head(at[0]) == 'std::optional'):
                v = ('some', v)
        elif h == 'std::filesystem::path' and not (at and head(at[0]) == PATHT):
            v = topath(v)
        E.set(st, obj[1], v)
        return V(st, obj)
    # free functions ------------------------------------------------------
    if obj is None:
        f = FREE.get(qn)
        if f is not None:
            return f(E, e, fn, args, st, fr)
        if qn.startswith('std::filesystem::') and not cls:
            return fs_call(E, e, fn, args, st, fr)
        if h == 'nlohmann::basic_json' and name == 'parse':
            return json_parse(E, st, vals_of(E, st, args))
        if h == 'nlohmann::basic_json' and name.startswith('from_') and args:
            v = E.rv(args[0], st)
            if v[0] == 'app' and v[1] == 'nlohmann::basic_json::to_' + name[5:] and len(v[2]) == 1:
                return V(st, v[2][0])
            vs = vals_of(E, st, args)
            flags = [x for x in vs if x[0] == 'c' and isinstance(x[1], bool)]
            rest = [x for x in vs if x not in flags]
            if len(rest) == 2 and all(x[0] == 'iter' for x in rest):
                rest = [E.get(st, rest[0][1])]
            t = ('app', 'nlohmann::basic_json::' + name, tuple(rest + (flags + [TRUE, TRUE])[:2]))
            if t[2][-1] == TRUE:
                return [(s, 'throw', ('exc', 'nlohmann::detail::parse_error')) if b else (s, 'v', t) for s, b in E.truth(st, ('discarded', t))]
            return V(st, t)
        if h == 'nlohmann::basic_json' and name == 'array':
            vs = vals_of(E, st, args)
            return V(st, vs[0] if vs else EMPTY)
        if h == 'nlohmann::basic_json' and name == 'object' and (not args or vals_of(E, st, args)[0] in (EMPTY, ('new', 'std::initializer_list'))):
            return V(st, ('json', 'nullptr_t', NULL))
        if name.startswith('operator'):
            return op_call(E, e, fn, args, st, fr)
        if fn.get('noreturn'):
            return [(st, 'exit', ('exit', tuple(vals_of(E, st, args))))]
        if qn in NOOP:
            return V(st, VOID)
    else:
        key = None
        hc = h or ot
        m = METHODS.get(hc)
        if m is None and hc.startswith('std::') and hc.split('<')[0] in VECLIKE:
            m = METHODS.get(hc)
        if hc in VECLIKE or hc in MAPLIKE or hc in ('std::_Hashtable', 'std::__detail::_Insert'):
            r = coll_call(E, e, fn, obj, args, st, fr)
            if r is not None:
                return r
        if m is not None:
            r = m(E, e, fn, obj, args, st, fr)
            if r is not None:
                return r
        if name in ('operator*', 'operator->') and ('iterator' in hc or hc == 'tf::'):
            r = iter_deref(E, st, fr, E.rv(obj, st))
            if r is not None:
                return V(st, ('ptr', r[1]) if name == 'operator->' and r[0] == 'ref' else r)
        if name == 'operator++' and 'iterator' in hc:
            old = E.rv(obj, st)
            nv = iter_next(old)
            if obj[0] == 'ref':
                E.set(st, obj[1], nv)
            return V(st, old if args else obj)
        if name.startswith('operator') and not name.startswith('operator ') and name not in ('operator()', 'operator[]', 'operator*', 'operator->'):
            r = op_call(E, e, fn, [obj] + list(args), st, fr, method=True)
            if r is not None:
                return r
    return generic(E, e, fn, obj, args, st, fr)

def generic(E, e, fn, obj, args, st, fr):
    qn = fn['qn']
    if '<' in qn:
        q2 = re.sub(r'<.*>', '', qn)
    else:
        q2 = qn
    E.unmodelled[q2] = E.unmodelled.get(q2, 0) + 1
    vals = tuple(vals_of(E, st, args))
    if obj is not None:
        ov = E.rv(obj, st)
        res = ('app', q2, (ov,) + vals)
        if not fn.get('const') and obj[0] == 'ref' and not fn.get('static'):
            st.emit(('extmut', q2, obj[1], vals))
            E.set(st, obj[1], mutated(q2, ov, vals))
            if is_ref(fn.get('rt', '')):
                return V(st, obj)
        return V(st, res)
    # pointer / non-const reference arguments may be written
    for a, p in zip(args, fn.get('pt', [])):
        if a[0] == 'ref' and is_ref(p) and not p.strip().startswith('const') and not p.strip().endswith('&&'):
            E.set(st, a[1], mutated(q2, E.rv(a, st), vals))
    return V(st, ('app', q2, vals))

def mutated(q, old, vals):
    """value after an unknown mutation; repeating the same one is the same summary (keeps loops finite)"""
    x = old
    while x[0] == 'mut':
        if x[1] == q and x[3] == vals:
            return old
        x = x[2]
    return ('mut', q, old, vals)

def listset(E, v):
    if v[0] == 'fld':
        for r in E.db.records.values():
            for f in r.get('fields', ()):
                if f.get('n', f.get('name')) == v[2] and head(short(f.get('t', ''))) in ('std::vector', 'std::list', 'std::deque'):
                    return ('uset', v)
    return v

# ---- operators
def op_call(E, e, fn, args, st, fr, method=False):
    name = fn['name']
    op = name[len('operator'):]
    vals = vals_of(E, st, args)
    if op in ('==', '!=') and len(vals) == 2:
        a, b = vals
        at = [short(x) for x in (e.get('at') or [])]
        a = nopt(a); b = nopt(b)
        if at and head(at[0]) in SETLIKE:
            # a set made from a list forgets order and repetition
            a = listset(E, a); b = listset(E, b)
        # containers of repo records compare element-wise through their operator==
        v = E.eq(a, b)
        if v[0] == 'eq':
            st.emit(('cmp', a, b))
        return V(st, v if op == '==' else E.neg(v))
    if op == '/' and len(vals) == 2:
        return V(st, ('div', coerce(vals[0], PATHT), topath(vals[1]) if vals[1][0] in ('c', 'cat', 'str') else vals[1]))
    if op == '+' and len(vals) == 2:
        return V(st, cat(vals))
    if op in ('+=',) and len(vals) == 2 and args[0][0] == 'ref':
        E.set(st, args[0][1], cat(vals))
        return V(st, args[0])
    if op == '/=' and len(vals) == 2 and args[0][0] == 'ref':
        E.set(st, args[0][1], ('div', vals[0], topath(vals[1]) if vals[1][0] in ('c', 'cat', 'str') else vals[1]))
        return V(st, args[0])
    if op == '<<' and len(vals) == 2:
        if args[0][0] == 'ref':
            st.emit(('stream<<', args[0][1], vals[1]))
            E.set(st, args[0][1], ('mut', '<<', vals[0], (vals[1],)))
            return V(st, args[0])
        return V(st, vals[0])
    if op in ('|', '&', '<', '>', '<=', '>=', '^', '-', '*'):
        if len(vals) == 2:
            return V(st, E.binop(op, vals[0], vals[1]))
    if op == '!':
        return V(st, E.neg(E.boolish(vals[0])))
    if op == 'bool' or op == ' bool':
        return V(st, E.boolish(vals[0]))
    return None if method else V(st, ('app', name, tuple(vals)))

def nopt(v):
    if v == ('c', 'nullopt'):
        return ('nullopt',)
    return v

# ---- iterators
def iter_deref(E, st, fr, it):
    if it[0] == 'ptr':
        return ('ref', it[1])
    if it[0] != 'iter' or it[1] is None:
        if it[0] == 'diriter':
            return ('ref', (('X', it[1]), ()))
        return None
    loc, pos = it[1], it[2]
    if isinstance(pos, tuple):
        if pos[0] == 'el':
            return ('ref', (loc[0], loc[1] + (pos,)))
        if pos[0] == 'part':
            return ('ref', (loc[0], loc[1] + pos[1]))
        if pos[0] in ('find', 'at'):
            k = pos[1]
            v = E.peek(st, loc)
            if pos[0] == 'at' or True:
                keyed = pos[3] if len(pos) > 3 else True
                if keyed:
                    # locate element record
                    if v[0] == 'seq':
                        for i in range(len(v[1]) - 1, -1, -1):
                            p = v[1][i]
                            if p[0] in ('one', 'many') and E.field(p[1], 'first') == k:
                                return ('ref', (loc[0], loc[1] + (('part', i),)))
                            if p[0] == 'all':
                                n = E.iter_key(p[1], k)
                                if n is not None:
                                    return ('ref', (loc[0], loc[1] + (('part', i), ('el', n))))
                    else:
                        n = E.iter_key(v, k)
                        if n is not None:
                            return ('ref', (loc[0], loc[1] + (('el', n),)))
                    return ('ref', (loc[0], loc[1] + (('pairat', k),)))
                return k
    if pos == 'begin':
        v = E.peek(st, loc)
        if v[0] == 'seq' and v[1]:
            p = v[1][0]
            if p[0] == 'one':
                return ('ref', (loc[0], loc[1] + (('part', 0),)))
        return ('app', 'front', (v,))
    return None

def iter_next(it):
    if it[0] == 'iter':
        return ('iter', it[1], ('next', it[2]))
    return ('app', '++', (it,))

# ---- collections
def coll_call(E, e, fn, obj, args, st, fr):
    name = fn['name']
    h = head(fn.get('cls') or '')
    keyed = h in MAPLIKE
    isset = h in SETLIKE
    ref = E.as_ref(st, fr, obj, e.get('ot'))
    loc = ref[1]
    v = E.peek(st, loc)
    vals = vals_of(E, st, args)
    at = e.get('at') or []
    elem_t = elem_type(e.get('ot') or '')
    if name in ('begin', 'cbegin', 'rbegin'):
        return V(st, ('iter', loc, 'begin' if name != 'rbegin' else 'rbegin'))
    if name in ('end', 'cend', 'rend'):
        return V(st, ('iter', loc, 'end' if name != 'rend' else 'rend'))
    if name == 'empty':
        return V(st, E.empty(v))
    if name == 'size':
        if v[0] == 'seq' and all(p[0] == 'one' for p in v[1]):
            return V(st, C(len(v[1])))
        return V(st, ('size', v))
    if name == 'clear':
        E.set(st, loc, EMPTY)
        return V(st, VOID)
    if name in ('push_back', 'push'):
        E.set(st, loc, append(v, ('one', coerce(vals[0], elem_t))))
        return V(st, VOID)
    if name in ('emplace_back',) or (name == 'emplace' and not keyed):
        if isset:
            h = E.has(st, v, vals[0], False)
            if h in (TRUE, FALSE):
                if h == FALSE:
                    E.set(st, loc, append(v, ('one', coerce(vals[0], elem_t))))
                return V(st, rec(('new', 'std::pair'), {'first': ('iter', loc, ('at', vals[0], None, False)), 'second': E.neg(h)}))
            E.set(st, loc, append(v, ('one', coerce(vals[0], elem_t))))
            return V(st, rec(('new', 'std::pair'), {'first': ('iter', loc, ('at', vals[0], None, False)), 'second': inserted(E, h, v, vals[0])}))
        out = []
        for s, k, x in make_elem(E, elem_t, args, at, st, fr):
            if k != 'v':
                out.append((s, k, x)); continue
            cur = E.get(s, loc)
            nv = append(cur, ('one', x))
            E.set(s, loc, nv)
            n = len(nv[1]) - 1 if nv[0] == 'seq' else 0
            out.append((s, 'v', ('ref', (loc[0], loc[1] + (('part', n),)))))
        return out
    if name in ('emplace', 'try_emplace', 'insert', 'insert_or_assign') and keyed:
        if name == 'insert' and len(vals) == 2 and vals[0][0] == 'iter':
            src = iter_range(E, st, vals[0], vals[1])
            new = seq_parts(src)
            old = {E.field(p[1], 'first') for p in seq_parts(v) if p[0] == 'one'}
            if all(p[0] == 'one' for p in seq_parts(v) + new) and all(k[0] == 'c' for k in old):
                add = []
                for p in new:
                    k = E.field(p[1], 'first')
                    if k[0] != 'c':
                        add = None
                        break
                    if k not in old:
                        add.append(p); old.add(k)
                if add is not None:
                    E.set(st, loc, mkseq(seq_parts(v) + tuple(add)))
                    return V(st, VOID)
            E.set(st, loc, mkseq(seq_parts(v) + (('all', src),)))
            return V(st, VOID)
        if name == 'insert' or len(vals) == 1:
            k = E.field(vals[0], 'first'); mk = [(st, 'v', E.field(vals[0], 'second'))]
            if vals[0][0] == 'seq':
                E.set(st, loc, mkseq(seq_parts(v) + vals[0][1]))
                return V(st, VOID)
        else:
            k = vals[0]
            mk = None
        out = []
        hv = E.has(st, v, k, True)
        for s, present in E.truth(st, hv):
            if present and name != 'insert_or_assign':
                out.append((s, 'v', rec(('new', 'std::pair'), {'first': ('iter', loc, ('at', k)), 'second': FALSE})))
                continue
            rs = mk if mk is not None and len(E.truth.__code__.co_varnames) < 0 else None
            if mk is not None:
                rs = [(s, 'v', E.field(vals[0], 'second'))]
            else:
                rs = make_elem(E, map_value_type(e.get('ot') or ''), args[1:], at[1:], s, fr)
            for s2, k2, x2 in rs:
                if k2 != 'v':
                    out.append((s2, k2, x2)); continue
                cur = E.get(s2, loc)
                if present:
                    E.set(s2, loc, E.mapset(cur, k, x2))
                else:
                    E.set(s2, loc, append(drop_key(E, cur, k), ('one', rec(('new', 'std::pair'), {'first': k, 'second': x2}))))
                out.append((s2, 'v', rec(('new', 'std::pair'), {'first': ('iter', loc, ('at', k)), 'second': TRUE})))
        return out
    if name == 'insert':
        if len(vals) == 3 and vals[1][0] == 'iter' or len(vals) == 2 and vals[0][0] == 'iter' and vals[1][0] == 'iter':
            a, b = vals[-2], vals[-1]
            src = iter_range(E, st, a, b)
            add = seq_parts(src)
            pos = vals[0] if len(vals) == 3 else None
            st.emit(('insert-range', loc, src))
            if pos is not None and pos[2] == 'begin' and not isset:
                E.set(st, loc, mkseq(add + seq_parts(v)))
            else:
                E.set(st, loc, mkseq(seq_parts(v) + add))
            return V(st, ('iter', loc, 'begin'))
        if len(vals) == 1:
            if vals[0][0] == 'seq' and at and 'initializer_list' in at[0]:
                E.set(st, loc, mkseq(seq_parts(v) + vals[0][1]))
            else:
                h = E.has(st, v, vals[0], False) if isset else None
                if h in (TRUE, FALSE):
                    if h == FALSE:
                        E.set(st, loc, append(v, ('one', coerce(vals[0], elem_t))))
                    return V(st, rec(('new', 'std::pair'), {'first': ('iter', loc, ('at', vals[0], None, False)), 'second': E.neg(h)}))
                E.set(st, loc, append(v, ('one', coerce(vals[0], elem_t))))
            return V(st, rec(('new', 'std::pair'), {'first': ('iter', loc, ('at', vals[0], None, False)), 'second': inserted(E, h, v, vals[0])}))
        if len(vals) == 2 and vals[0][0] == 'iter':
            part = ('one', coerce(vals[1], elem_t))
            if vals[1][0] == 'seq' and at and 'initializer_list' in at[-1]:
                E.set(st, loc, mkseq(seq_parts(v) + vals[1][1]))
                return V(st, ('iter', loc, 'begin'))
            if vals[0][2] == 'begin':
                E.set(st, loc, mkseq((part,) + seq_parts(v)))
            else:
                E.set(st, loc, append(v, part))
            return V(st, ('iter', loc, 'begin'))
        return None
    if name in ('count', 'contains'):
        hv = E.has(st, v, vals[0], keyed)
        return V(st, ('cnt', hv) if name == 'count' else hv)
    if name == 'find':
        return V(st, ('iter', loc, ('find', vals[0], E.has(st, v, vals[0], keyed), keyed)))
    if name in ('at', 'operator[]'):
        if keyed:
            k = vals[0]
            hv = E.has(st, v, k, True)
            out = []
            for s, present in E.truth(st, hv):
                if present:
                    out.append((s, 'v', at_ref(E, s, loc, k)))
                elif name == 'at':
                    out.append((s, 'throw', ('exc', 'std::out_of_range')))
                else:
                    t = short((fn.get('rt') or '').rstrip().rstrip('&').rstrip()) if name == 'operator[]' else ''
                    if not t or E.db.record(t) is None:
                        t = map_value_type(e.get('ot') or '') or t
                    d = E.default(t, s)
                    if d == UNDEF and name == 'operator[]':
                        # value-initialised
                        d = FALSE if t == 'bool' else NULL if t.endswith('*') else C(0) if t in ('int', 'unsigned int', 'unsigned long', 'long', 'char') else d
                    E.set(s, loc, append(drop_key(E, E.get(s, loc), k), ('one', rec(('new', 'std::pair'), {'first': k, 'second': d}))))
                    out.append((s, 'v', at_ref(E, s, loc, k)))
            return out
        i = vals[0]
        if i[0] == 'idxel':
            er, ep = i[1]
            if er == loc[0] and ep[:len(loc[1])] == loc[1]:
                return V(st, ('ref', i[1]))
            last = ep[-1]
            if last[0] == 'part' and v[0] == 'seq' and last[1] < len(v[1]) and all(p[0] == 'one' for p in v[1][:last[1] + 1]):
                return V(st, ('ref', (loc[0], loc[1] + (last,))))
            # the element of another collection at the same position
            i = ('pos', last)
        if i[0] == 'c' and v[0] == 'seq' and isinstance(i[1], int) and i[1] < len(v[1]) and all(p[0] == 'one' for p in v[1][:i[1] + 1]):
            return V(st, ('ref', (loc[0], loc[1] + (('part', i[1]),))))
        if i[0] == 'app' and len(i[2]) == 2 and i[1] == '-' and i[2][1] == C(1) and i[2][0] == ('size', v) and v[0] == 'seq' and v[1] and v[1][-1][0] == 'one':
            return V(st, ('ref', (loc[0], loc[1] + (('part', len(v[1]) - 1),))))
        out = V(st, ('ref', (loc[0], loc[1] + (('ix', i),))))
        if name == 'at':
            out.append((st.copy(), 'throw', ('exc', 'std::out_of_range')))
        return out
    if name in ('back', 'front', 'top'):
        if v[0] == 'seq' and v[1]:
            i = len(v[1]) - 1 if name == 'back' or name == 'top' and h == 'std::stack' else 0
            if v[1][i][0] == 'one':
                return V(st, ('ref', (loc[0], loc[1] + (('part', i),))))
        return V(st, ('ref', (loc[0], loc[1] + ((name,),))))
    if name in ('pop', 'pop_front', 'pop_back'):
        last = name == 'pop_back' or name == 'pop' and h == 'std::stack'
        if v[0] == 'seq' and v[1] and v[1][-1 if last else 0][0] == 'one':
            E.set(st, loc, mkseq(v[1][:-1] if last else v[1][1:]))
        else:
            E.set(st, loc, ('mut', 'pop_back' if last else 'pop', v, ()))
        return V(st, VOID)
    if name == 'push_front':
        E.set(st, loc, mkseq((('one', coerce(vals[0], elem_t)),) + seq_parts(v)))
        return V(st, VOID)
    if name == 'erase':
        a = vals[0]
        if a[0] == 'iter':
            if isinstance(a[2], tuple) and a[2][0] in ('find', 'at'):
                a = a[2][1]
            elif isinstance(a[2], tuple) and a[2][0] == 'el' and (keyed or isset):
                el = E.elem(v, a[2][1])
                a = E.field(el, 'first') if keyed else el
            else:
                E.set(st, loc, ('mut', 'erase', v, tuple(vals)))
                return V(st, ('iter', loc, 'begin'))
        E.set(st, loc, minus(E, v, a, keyed))
        return V(st, ('cnt', E.has(st, v, a, keyed)))
    if name in ('reserve', 'shrink_to_fit', 'max_load_factor', 'rehash'):
        return V(st, VOID)
    if name == 'data':
        return V(st, v)
    if name == 'assign' and len(vals) == 2 and vals[0][0] == 'iter':
        E.set(st, loc, iter_range(E, st, vals[0], vals[1]))
        return V(st, VOID)
    if name == 'swap':
        o = args[0]
        ov = E.rv(o, st)
        E.set(st, loc, ov)
        if o[0] == 'ref':
            E.set(st, o[1], v)
        return V(st, VOID)
    if name == 'resize':
        E.set(st, loc, ('mut', 'resize', v, tuple(vals)))
        return V(st, VOID)
    return None

def at_ref(E, st, loc, k):
    v = E.peek(st, loc)
    if v[0] == 'seq':
        for i in range(len(v[1]) - 1, -1, -1):
            p = v[1][i]
            if p[0] in ('one', 'many') and E.field(p[1], 'first') == k:
                return ('ref', (loc[0], loc[1] + (('part', i), 'second')))
            if p[0] == 'all':
                n = E.iter_key(p[1], k)
                if n is not None:
                    return ('ref', (loc[0], loc[1] + (('part', i), ('el', n), 'second')))
    else:
        n = E.iter_key(v, k)
        if n is not None:
            return ('ref', (loc[0], loc[1] + (('el', n), 'second')))
    return ('ref', (loc[0], loc[1] + (('at', k),)))

def drop_key(E, v, k):
    return v

def minus(E, v, k, keyed):
    if v[0] == 'seq':
        ps = []
        hit = False
        for p in v[1]:
            if p[0] in ('one',):
                pk = E.field(p[1], 'first') if keyed else p[1]
                if pk == k:
                    hit = True
                    continue
            if p[0] == 'all':
                ps.append(('all', minus(E, p[1], k, keyed)))
                continue
            ps.append(p)
        return mkseq(ps)
    if v[0] == 'minus':
        if k in v[2]:
            return v
        return ('minus', v[1], tuple(sorted(v[2] + (k,), key=repr)))
    return ('minus', v, (k,))

def elem_type(t):
    t = short(t)
    if t.endswith('*'):
        t = t[:-1].strip()
    return pair_types(short(t))[0]

def map_value_type(t):
    t = short(t)
    if t.endswith('*'):
        t = t[:-1].strip()
    return pair_types(short(t))[1]

def make_elem(E, t, args, at, st, fr):
    """construct an element of type t from args"""
    r = E.db.record(t)
    vals = vals_of(E, st, args)
    if r is None:
        if not args:
            return V(st, E.default(t, st))
        if head(t) == 'std::pair' and len(vals) == 2:
            return V(st, rec(('new', 'std::pair'), {'first': vals[0], 'second': vals[1]}))
        v = coerce(vals[0], t)
        if head(t) == 'std::filesystem::path' and at and head(at[0]) != PATHT:
            v = topath(v)
        return V(st, v)
    if len(args) == 1 and at and (short(at[0]) == short(t) or E.db.is_base(t, at[0])):
        return V(st, vals[0])
    if not args:
        fr.ntmp += 1
        loc = (('T', fr.id, fr.ntmp), ())
        dc = E.default_ctor(t)
        rs = E.run_ctor(dc, t, loc, [], st, fr) if dc is not None else E.default_construct(short(t), loc, st, fr)
        return E.then(rs, lambda s, v: V(s, E.get(s, loc)))
    cands = [m for m in r.get('methods', ()) if m.get('ctor') == 'other' and m['usr'] in E.db.fn and len(m['pt']) >= len(args)]
    cands.sort(key=lambda m: len(m['pt']))
    for m in cands:
        f = E.db.fn[m['usr']]
        fr.ntmp += 1
        loc = (('T', fr.id, fr.ntmp), ())
        return E.then(E.run_ctor(f, t, loc, list(args), st, fr), lambda s, v: V(s, E.get(s, loc)))
    fields = E.db.all_fields(t)
    v = ('new', short(t))
    return V(st, rec(v, {n: (vals[i] if i < len(vals) else E.default_field(fd, st)) for i, (n, fd) in enumerate(fields)}))

# ---- strings
def m_string(E, e, fn, obj, args, st, fr):
    name = fn['name']
    v = E.rv(obj, st)
    vals = vals_of(E, st, args)
    if name in ('c_str', 'data', 'str', 'operator basic_string_view', 'view') or name.startswith('operator basic_string_view') or name.startswith('operator std::basic_string_view'):
        return V(st, v)
    if name == 'swap' and obj[0] == 'ref' and args and args[0][0] == 'ref':
        E.set(st, obj[1], vals[0]); E.set(st, args[0][1], v)
        return V(st, VOID)
    if name == 'empty':
        return V(st, E.empty(v))
    if name in ('size', 'length'):
        return V(st, C(len(v[1])) if v[0] == 'c' else ('size', v))
    if name in ('find', 'find_first_of', 'rfind', 'find_last_of'):
        if v[0] == 'c' and vals[0][0] == 'c' and isinstance(vals[0][1], str):
            i = v[1].find(vals[0][1])
            return V(st, C('npos') if i < 0 else C(i))
        a = vals[0]
        if a[0] == 'c' and isinstance(a[1], int):
            a = C(chr(a[1]))
        return V(st, ('strfind', v, a))
    if name == 'assign' and len(vals) == 1 and obj[0] == 'ref':
        E.set(st, obj[1], vals[0])
        return V(st, obj)
    if name in ('append', 'operator+=', 'push_back'):
        a = vals[0]
        if a[0] == 'c' and isinstance(a[1], int):
            a = C(chr(a[1]))
        E.set(st, obj[1], cat([v, a]))
        return V(st, obj)
    if name in ('begin', 'cbegin'):
        return V(st, ('iter', E.as_ref(st, fr, obj)[1], 'begin'))
    if name in ('end', 'cend'):
        return V(st, ('iter', E.as_ref(st, fr, obj)[1], 'end'))
    if name in ('rbegin', 'rend'):
        return V(st, ('iter', E.as_ref(st, fr, obj)[1], name))
    if name == 'clear':
        E.set(st, obj[1], C(''))
        return V(st, VOID)
    if name == 'compare' and len(vals) == 1:
        return V(st, ('strcmp', v, vals[0]))
    if name == 'substr':
        return V(st, ('app', 'substr', (v,) + tuple(vals)))
    return None

def m_path(E, e, fn, obj, args, st, fr):
    name = fn['name']
    v = E.rv(obj, st)
    vals = vals_of(E, st, args)
    if name in ('string', 'c_str', 'native') or name.startswith('operator '):
        return V(st, unpath(v))
    if name in ('generic_string', 'u8string'):
        return V(st, ('app', name, (v,)))
    if name == 'make_preferred':
        nv = ('mp', v) if v[0] not in ('mp', 'ln') else v
        if obj[0] == 'ref':
            E.set(st, obj[1], nv)
            return V(st, obj)
        return V(st, nv)
    if name == 'lexically_normal':
        return V(st, v if v[0] == 'ln' else ('ln', v))
    if name == 'lexically_relative':
        return V(st, ('lrel', v, vals[0]))
    if name == 'empty':
        return V(st, ('empty', v))
    if name == 'append' and len(vals) == 1 or name == 'concat' and len(vals) == 1:
        op = dict(fn, name='operator/=' if name == 'append' else 'operator+=')
        return op_call(E, dict(e, fn=op), op, [obj] + list(args), st, fr)
    if name in ('clear', 'assign') and obj[0] == 'ref' and len(vals) == (name == 'assign'):
        E.set(st, obj[1], ('path', C('')) if name == 'clear' else vals[0])
        return V(st, VOID if name == 'clear' else obj)
    if name == 'swap' and obj[0] == 'ref' and args and args[0][0] == 'ref':
        a = E.get(st, obj[1])
        E.set(st, obj[1], E.get(st, args[0][1])); E.set(st, args[0][1], a)
        return V(st, VOID)
    if name in ('replace_extension', 'replace_filename', 'remove_filename', 'concat', 'append', 'clear'):
        nv = ('app', 'path::' + name, (v,) + tuple(vals))
        if obj[0] == 'ref':
            E.set(st, obj[1], nv)
            return V(st, obj)
        return V(st, nv)
    if name in ('filename', 'extension', 'stem', 'parent_path', 'root_path', 'has_extension', 'has_filename', 'is_absolute', 'is_relative', 'has_parent_path'):
        if name in ('filename', 'stem', 'extension', 'has_extension') and getattr(E, 'dirs', None):
            c = strip(v)
            while c[0] == 'div':
                c = strip(c[2])
            if c[0] == 'c' and isinstance(c[1], str):
                fnm = c[1].rsplit('/', 1)[-1]
                dot = fnm.rfind('.')
                stem, ext = (fnm[:dot], fnm[dot:]) if dot > 0 else (fnm, '')
                if name == 'has_extension':
                    return V(st, C(bool(ext)))
                return V(st, ('path', C({'filename': fnm, 'stem': stem, 'extension': ext}[name])))
        return V(st, ('app', 'path::' + name, (v,)))
    if name in ('operator/=',):
        return op_call(E, e, fn, [obj] + list(args), st, fr)
    return None

ATOMIC = ('std::atomic', 'std::__atomic_base', 'std::atomic_bool', 'std::atomic_int', 'std::atomic_flag')

def m_atomic(E, e, fn, obj, args, st, fr):
    name = fn['name']
    ref = E.as_ref(st, fr, obj)
    v = E.get(st, ref[1])
    if name == 'load' or name == 'test' or name.startswith('operator ') :
        return V(st, v)
    if name in ('store', 'operator='):
        x = E.rv(args[0], st)
        E.set(st, ref[1], x)
        return V(st, x)
    if name in ('exchange', 'test_and_set', 'clear'):
        E.set(st, ref[1], E.rv(args[0], st) if name == 'exchange' else C(name == 'test_and_set'))
        return V(st, v)
    if name in ('fetch_add', 'fetch_sub', 'operator++', 'operator--', 'operator+=', 'operator-='):
        one = E.rv(args[0], st) if args and name not in ('operator++', 'operator--') else C(1)
        d = 1 if name in ('fetch_add', 'operator++', 'operator+=') else -1
        n = C(v[1] + d * one[1]) if v[0] == 'c' and one[0] == 'c' else ('app', name, (v, one))
        E.set(st, ref[1], n)
        post = name.startswith('fetch') or name in ('operator++', 'operator--') and args
        return V(st, v if post else n)
    if name.startswith('compare_exchange'):
        er = E.as_ref(st, fr, args[0])
        want = E.rv(args[1], st)
        out = []
        for s, b in E.truth(st, E.eq(v, E.get(st, er[1]))):
            if b:
                E.set(s, ref[1], want)
            else:
                E.set(s, er[1], v)
            out.append((s, 'v', C(b)))
        return out
    return None

def m_optional(E, e, fn, obj, args, st, fr):
    name = fn['name']
    ref = E.as_ref(st, fr, obj)
    v = E.get(st, ref[1])
    if name in ('has_value',) or name.startswith('operator bool'):
        return V(st, hasv(v))
    if name == 'value':
        out = []
        for s, b in E.truth(st, hasv(v)):
            if b:
                out.append((s, 'v', ('ref', (ref[1][0], ref[1][1] + ('*',)))))
            else:
                out.append((s, 'throw', ('exc', 'std::bad_optional_access')))
        return out
    if name in ('operator*', 'operator->'):
        r = (ref[1][0], ref[1][1] + ('*',))
        return V(st, ('ref', r) if name == 'operator*' else ('ptr', r))
    if name == 'value_or':
        out = []
        for s, b in E.truth(st, hasv(v)):
            if b:
                out.append((s, 'v', E.field(v, '*')))
            else:
                out.append((s, 'v', E.rv(args[0], s)))
        return out
    if name == 'emplace':
        E.set(st, ref[1], ('some', E.rv(args[0], st) if args else VOID))
        return V(st, ('ref', (ref[1][0], ref[1][1] + ('*',))))
    if name == 'reset':
        E.set(st, ref[1], ('nullopt',))
        return V(st, VOID)
    return None

def hasv(v):
    if v[0] == 'some':
        return TRUE
    if v[0] == 'nullopt':
        return FALSE
    return ('hasv', v)

def m_ptr(E, e, fn, obj, args, st, fr):
    name = fn['name']
    v = E.rv(obj, st)
    if name in ('operator->', 'get', 'operator*'):
        if name == 'operator*':
            return V(st, E.deref(st, v))
        if v[0] not in ('ptr', 'null'):
            v = ('ptr', (('X', ('fld', v, '*')), ()))
        return V(st, v)
    if name.startswith('operator bool'):
        return V(st, E.boolish(v) if v[0] in ('ptr', 'null') else E.neg(E.eq(v, NULL)))
    if name == 'reset':
        E.set(st, obj[1], E.rv(args[0], st) if args else NULL)
        return V(st, VOID)
    if name == 'release':
        E.set(st, obj[1], NULL)
        return V(st, v)
    if name == 'operator=':
        E.set(st, obj[1], E.rv(args[0], st))
        return V(st, obj)
    return None

def m_function(E, e, fn, obj, args, st, fr):
    name = fn['name']
    v = E.rv(obj, st)
    if name == 'operator()':
        return E.call_value(v if v[0] not in ('rec',) else obj, args, st, fr, e.get('l'))
    if name.startswith('operator bool'):
        if v[0] in ('clo', 'fn', 'null', 'rec', 'memfn'):
            return V(st, FALSE if v[0] == 'null' else TRUE)
        return V(st, E.neg(E.eq(v, NULL)))
    return None

def m_json(E, e, fn, obj, args, st, fr):
    name = fn['name']
    ref = E.as_ref(st, fr, obj)
    loc = ref[1]
    v = E.get(st, loc)
    vals = vals_of(E, st, args)
    if name == 'operator[]':
        return V(st, ('ref', (loc[0], loc[1] + (('at', vals[0]),))))
    if name == 'operator=':
        E.set(st, loc, vals[0])
        return V(st, ref)
    if name == 'parse':
        return json_parse(E, st, vals)
    if name == 'at':
        r = ('ref', (loc[0], loc[1] + (('at', vals[0]),)))
        ks = jkeys(v)
        thr = (st.copy(), 'throw', ('exc', 'nlohmann::detail::out_of_range'))
        if ks is not None:
            return V(st, r) if vals[0] in ks else [thr]
        if jvkind(v) and jvkind(v) != 'object' and vals[0][0] == 'c' and isinstance(vals[0][1], str):
            return [(st.copy(), 'throw', ('exc', 'nlohmann::detail::type_error'))]
        return [(st, 'v', r), (st.copy(), 'throw', ('exc', 'nlohmann::detail::exception'))]
    if name in ('contains', 'count'):
        ks = jkeys(v)
        if ks is not None:
            return V(st, C(vals[0] in ks) if name == 'contains' else C(1 if vals[0] in ks else 0))
        return V(st, ('contains', v, vals[0]))
    if name == 'value':
        t = e.get('t') or fn.get('rt', '')
        ks = jkeys(v)
        out = []
        if ks is None or vals[0] in ks:
            x = ks[vals[0]] if ks else E.field(v, ('at', vals[0]))
            out += json_get(E, st.copy(), fr, x, t)
        if ks is None or vals[0] not in ks:
            out.append((st, 'v', vals[1]))
        return out
    if name == 'get_to':
        t = (e.get('at') or [''])[0]
        out = []
        for s, k, x in json_get(E, st, fr, v, t):
            if k == 'v':
                E.set(s, args[0][1], x)
                out.append((s, 'v', args[0]))
            else:
                # a failed conversion may leave the destination partially written
                out.append((s, k, x))
        return out
    if name == 'get' or name.startswith('operator ') and not args:
        return json_get(E, st, fr, v, e.get('t') or fn.get('rt', ''))
    if name == 'is_discarded':
        if v[0] == 'parsed':
            return V(st, ('discarded', v))
        return V(st, FALSE if jvkind(v) or v[0] in ('fld',) else ('discarded', v))
    if name in ('is_string', 'is_boolean', 'is_null', 'is_array', 'is_object', 'is_number', 'is_number_integer', 'is_number_unsigned', 'is_number_float'):
        k = jvkind(v)
        w = 'number' if name.startswith('is_number') else name[3:]
        if k and (k != w or name == 'is_number' or w != 'number'):
            return V(st, C(k == w))
        return V(st, ('app', 'json::' + name, (v,)))
    if name == 'dump':
        if len(vals) > 3 and not (vals[3][0] == 'enum' and vals[3][1].endswith('strict')):
            # invalid UTF-8 is replaced or dropped instead of being reported
            return V(st, ('jdump', ('lossy', v)))
        return V(st, ('jdump', v))
    if name == 'push_back' or name == 'emplace_back':
        E.set(st, loc, append(v if v[0] == 'seq' else EMPTY if v[0] == 'new' else v, ('one', jwrap(E, vals[0]) if 'initializer_list' in str(fn.get('pt') or '') else vals[0])))
        return V(st, VOID)
    return None

def json_parse(E, st, vals):
    v = vals[0]
    if v[0] == 'jdump':
        return V(st, v[1])
    out = V(st, ('parsed', v))
    ae = vals[2] if len(vals) > 2 else TRUE
    if ae != FALSE:
        out.append((st.copy(), 'throw', ('exc', 'nlohmann::detail::parse_error')))
    return out

# ---- taskflow
def tf_root(loc):
    return ('TF', loc)

def m_flow(E, e, fn, obj, args, st, fr):
    name = fn['name']
    ref = E.as_ref(st, fr, obj)
    loc = ref[1]
    root = ('TF', loc)
    if name == 'emplace' or name == 'placeholder' or name == 'composed_of' or name == 'for_each' or name == 'condition':
        if name == 'emplace':
            c = E.rv(args[0], st)
        elif name == 'placeholder':
            c = ('nothing',)
        elif name == 'composed_of':
            c = ('module', args[0][1] if args[0][0] == 'ref' else E.rv(args[0], st))
        else:
            c = ('foreach-task', tuple(E.rv(a, st) for a in args))
        tid = ('task', name, c, loc, e.get('l'))
        if name == 'placeholder':
            st.emit(('emplace', loc, tid, st.locks))
            return V(st, tid)
        cur = st.store.get(root, EMPTY)
        st.store[root] = append(cur, ('one', rec(('new', 'std::pair'), {'first': tid, 'second': c})))
        st.emit(('emplace', loc, tid, st.locks))
        return V(st, tid)
    if name == 'join':
        return run_children(E, st, loc, fr)
    if name == 'detach':
        st.emit(('detach', loc))
        return V(st, VOID)
    if name == 'name':
        return V(st, ref)
    if name in ('clear',):
        return V(st, VOID)
    return None

def run_children(E, st, loc, fr):
    """run the tasks emplaced in the subflow at loc (any order: they are independent)"""
    root = ('TF', loc)
    kids = st.store.get(root, EMPTY)
    if kids == EMPTY:
        return V(st, VOID)
    doneroot = ('TFD', loc)
    st.store[doneroot] = kids
    st.store[root] = EMPTY
    def body(s, el):
        pair = E.get(s, el[1])
        c = E.field(pair, 'second')
        tid = E.field(pair, 'first')
        if c[0] == 'module' and E.on_module is not None:
            return E.on_module(E, s, c[1], tid, fr)
        if c[0] == 'foreach-task' and len(c[1]) >= 3:
            return run_each(E, s, c[1], tid, fr)
        if c[0] in ('nothing', 'module', 'foreach-task'):
            return [(s, 'n', None)]
        return run_task(E, s, c, tid, fr, loc)
    rs = E.foreach(st, ('ref', (doneroot, ())), body, fr, 'subflow')
    out = []
    for s, k, v in rs:
        s.store.pop(doneroot, None)
        out.append((s, 'v' if k == 'n' else k, VOID if k == 'n' else v))
    return out

def run_each(E, st, c, tid, fr):
    coll = iter_range(E, st, c[0], c[1])
    ref = E.tmp(st, fr, coll)
    def body(s, el):
        s.emit(('task', tid))
        out = []
        E.ninst += 1
        E.tstack.append((E.ninst, tid, ('each', tid)))
        try:
            rs = E.call_value(c[2], [el], s, fr, 'task')
        finally:
            E.tstack.pop()
        for s2, k, v in rs:
            if k == 'throw':
                s2.emit(('escape', tid, v))
            out.append((s2, 'n' if k in ('v', 'throw') else k, v))
        return out
    return E.foreach(st, ref, body, fr, 'for_each task')

def run_task(E, st, c, tid, fr, group=None):
    E.ninst += 1
    E.tstack.append((E.ninst, tid, group))
    try:
        return run_task1(E, st, c, tid, fr)
    finally:
        E.tstack.pop()

def run_task1(E, st, c, tid, fr):
    """run a task body; its own subflow children are joined at the end.
    returns statement outcomes; an exception that escapes becomes event ('escape',...)"""
    st.emit(('task', tid))
    if c[0] == 'clo':
        for cid, cv in c[2]:
            if cid != 'this' and cv[0] == 'ref' and cv[1][0][0] in ('L', 'T') and cv[1][0] not in st.store:
                st.emit(('dangling', tid, cid))
    args = []
    npar = nparams(E, c)
    sub = None
    if npar >= 1:
        sub = (('S', ('subflow', tid)), ())
        st.store[sub[0]] = ('new', 'tf::Subflow')
        args = [('ref', sub)]
    out = []
    for s, k, v in E.call_value(c, args, st, fr, 'task'):
        if k == 'throw':
            s.emit(('escape', tid, v))
            out.append((s, 'n', None))
        elif k == 'exit':
            out.append((s, 'exit', v))
        else:
            if sub is not None:
                for s2, k2, v2 in run_children(E, s, sub, fr):
                    s2.emit(('taskend', tid))
                    out.append((s2, 'n' if k2 == 'v' else k2, None))
            else:
                s.emit(('taskend', tid))
                out.append((s, 'n', None))
    return E.dedupe(out) if len(out) > 1 else out

def nparams(E, c):
    if c[0] == 'clo':
        lam = E.db.lambdas.get(c[1])
        return len(lam['ops'][0]['params'])
    if c[0] == 'fn':
        f = E.db.fn.get(c[1])
        return len(f['params']) if f else 0
    if c[0] == 'rec' and c[1][0] == 'new':
        f = E.method(c[1][1], 'operator()')
        return len(f['params']) if f else 0
    return 0

def m_task(E, e, fn, obj, args, st, fr):
    name = fn['name']
    v = E.rv(obj, st)
    if name in ('precede', 'succeed'):
        for a in args:
            b = E.rv(a, st)
            edge = (v, b) if name == 'precede' else (b, v)
            root = ('TF', 'edges')
            cur = st.store.get(root, EMPTY)
            st.store[root] = append(cur, ('one', edge))
            st.emit(('edge', edge[0], edge[1]))
        return V(st, obj)
    if name == 'name':
        if not args:
            return V(st, st.store.get(('TFN', v), ('taskname', v)))
        st.store[('TFN', v)] = E.rv(args[0], st)
        st.emit(('named', v, st.store[('TFN', v)]))
        return V(st, obj)
    if name == 'hash_value':
        if E.graph:
            # std::hash of the node address: one number per task
            ids = E.__dict__.setdefault('task_ids', {})
            return V(st, C(1000 + ids.setdefault(v, len(ids))))
        return V(st, ('hash', v))
    if name in ('num_dependents', 'num_successors') and E.graph:
        edges = [p[1] for p in st.store.get(('TF', 'edges'), EMPTY)[1]]
        return V(st, C(len([1 for a, b in edges if (b if name == 'num_dependents' else a) == v])))
    if name == 'work':
        st.emit(('work', v, E.rv(args[0], st)))
        return V(st, obj)
    if name in ('for_each_dependent', 'for_each_successor'):
        coll = ('coll', name, v)
        if E.graph:
            # the whole graph is known: enumerate the real neighbours
            edges = [p[1] for p in st.store.get(('TF', 'edges'), EMPTY)[1]]
            coll = ('seq', tuple(('one', a if name == 'for_each_dependent' else b) for a, b in edges if (b if name == 'for_each_dependent' else a) == v))
        ref = E.tmp(st, fr, coll)
        cb = args[0]
        def body(s, el):
            out = []
            for s2, k2, v2 in E.call_value(cb, [el], s, fr):
                out.append((s2, 'n' if k2 == 'v' else k2, v2))
            return out
        return [(s, 'v' if k == 'n' else k, VOID if k == 'n' else v2) for s, k, v2 in E.foreach(st, ref, body, fr, e.get('l'))]
    if name == 'operator==' or name == 'operator!=':
        q = E.eq(v, E.rv(args[0], st))
        return V(st, q if name == 'operator==' else E.neg(q))
    return None

def m_executor(E, e, fn, obj, args, st, fr):
    name = fn['name']
    ref = E.as_ref(st, fr, obj)
    root = ('EX', ref[1])
    if name in ('run', 'run_n'):
        r = E.as_ref(st, fr, args[0])
        st.emit(('tfrun', r[1], e.get('l')))
        st.store[root] = append(st.store.get(root, EMPTY), ('one', r))
        return V(st, ('future', ref[1]))
    if name == 'wait_for_all':
        return run_pending(E, st, ref[1], fr)
    if name == 'num_workers':
        return V(st, ('app', 'num_workers', ()))
    return None

def run_pending(E, st, ex, fr):
    """everything started on this executor is run to its end, at the latest possible moment"""
    todo = st.store.get(('EX', ex), EMPTY)
    st.store[('EX', ex)] = EMPTY
    was = getattr(E, 'worker', False)
    E.worker = True
    try:
        return run_all(E, st, todo, fr)
    finally:
        E.worker = was

def run_all(E, st, todo, fr):
    sts = [st]
    out = []
    for p in todo[1]:
        nxt = []
        for s in sts:
            for s2, k, v in run_children(E, s, p[1][1], fr):
                if k == 'v':
                    s2.emit(('tfdone', p[1][1]))
                    nxt.append(s2)
                else:
                    out.append((s2, k, v))
        sts = nxt
    return out + [(s, 'v', VOID) for s in sts]

def m_future(E, e, fn, obj, args, st, fr):
    v = E.rv(obj, st)
    if fn['name'] in ('wait', 'get') and v[0] == 'future':
        return run_pending(E, st, v[1], fr)
    return None

def m_errcode(E, e, fn, obj, args, st, fr):
    name = fn['name']
    v = E.rv(obj, st)
    if name == 'value':
        if v[0] == 'new':
            return V(st, C(0))
        return V(st, ('errval', v))
    if name.startswith('operator bool'):
        if v[0] == 'new':
            return V(st, FALSE)
        return V(st, E.neg(E.eq(('errval', v), C(0))))
    if name == 'clear':
        E.set(st, obj[1], ('new', 'std::error_code'))
        return V(st, VOID)
    return None

def m_process(E, e, fn, obj, args, st, fr):
    v = E.rv(obj, st)
    return V(st, ('app', 'process::' + fn['name'], (v,)))

def m_mutex(E, e, fn, obj, args, st, fr):
    name = fn['name']
    if name == 'lock':
        st.locks = st.locks + (obj[1],)
        return V(st, VOID)
    if name == 'unlock':
        l = list(st.locks)
        if obj[1] in l:
            l.remove(obj[1])
        st.locks = tuple(l)
        return V(st, VOID)
    return None

def m_guard(E, e, fn, obj, args, st, fr):
    name = fn['name']
    v = E.rv(obj, st)
    if v[0] == 'guard':
        if name == 'unlock':
            st.locks = tuple(x for x in st.locks if x not in v[1])
            return V(st, VOID)
        if name == 'lock':
            st.locks = st.locks + v[1]
            return V(st, VOID)
    return None

def m_stream(E, e, fn, obj, args, st, fr):
    name = fn['name']
    v = E.rv(obj, st)
    vals = tuple(vals_of(E, st, args))
    if v[0] == 'sstr':
        if name.startswith('operator bool') or name == 'good':
            return V(st, C(not v[2] and (name != 'good' or v[1] is not None)))
        if name in ('fail', 'operator!'):
            return V(st, C(v[2]))
        if name == 'eof':
            return V(st, C(v[1] is None))
        if name == 'bad':
            return V(st, FALSE)
    if name in ('is_open', 'bad', 'good', 'fail', 'eof') or name.startswith('operator bool') or name == 'operator!':
        t = ('app', 'stream::' + ('fail' if name == 'operator!' else 'ok' if name.startswith('operator bool') else name), (v,))
        if t[1] == 'stream::ok':
            t = ('not', ('app', 'stream::fail', (v,)))
        return V(st, t)
    if name in ('write', 'flush', 'close', 'read', 'open', 'put', 'seekg', 'exceptions'):
        st.emit(('stream', name, obj[1] if obj[0] == 'ref' else v, vals, e.get('l')))
        if obj[0] == 'ref':
            E.set(st, obj[1], ('mut', name, v, vals))
        if name == 'read' and args and args[0][0] == 'ref':
            pass
        return V(st, obj)
    if name == 'str':
        return V(st, ('app', 'stream::str', (v,)))
    if name == 'rdbuf':
        return V(st, ('app', 'stream::rdbuf', (v,)))
    if name == 'operator<<':
        st.emit(('stream<<', obj[1] if obj[0] == 'ref' else v, vals[0]))
        if obj[0] == 'ref':
            E.set(st, obj[1], ('mut', '<<', v, vals))
        return V(st, obj)
    return None

def m_typeinfo(E, e, fn, obj, args, st, fr):
    v = E.rv(obj, st)
    if fn['name'] == 'name':
        return V(st, ('tname', v))
    if fn['name'] == 'operator==':
        return V(st, E.eq(v, E.rv(args[0], st)))
    return None

def m_pair(E, e, fn, obj, args, st, fr):
    return None

def m_direntry(E, e, fn, obj, args, st, fr):
    v = E.rv(obj, st)
    if fn['name'] == 'path' or fn['name'].startswith('operator const'):
        if v[0] == 'dirent':
            return V(st, ('div', v[1], C(v[2])))
        return V(st, ('direntpath', v))
    for a, p in zip(args, fn.get('pt', [])):
        if 'error_code' in p and a[0] == 'ref':
            E.set(st, a[1], ('errc', fn['name'], (v,)))
    out = V(st, ('app', 'dirent::' + fn['name'], (v,)))
    if not any('error_code' in p for p in fn.get('pt', [])) and fn['name'] in ('is_regular_file', 'is_directory', 'is_symlink', 'exists', 'file_size', 'status', 'last_write_time'):
        out.append((st.copy(), 'throw', ('exc', 'std::filesystem::filesystem_error')))
    return out

def m_diriter(E, e, fn, obj, args, st, fr):
    return None

def m_cli(E, e, fn, obj, args, st, fr):
    name = fn['name']
    v = E.rv(obj, st) if obj is not None else None
    vals = []
    for a in args:
        vals.append(('at', a[1], E.rv(a, st)) if a[0] == 'ref' else a)
    vals = tuple(vals)
    rt = fn.get('rt', '')
    o = v
    if obj is not None and obj[0] == 'ref' and not (v and v[0] == 'cliobj'):
        o = ('cliobj', 'at', obj[1])
        if obj[1][0][0] == 'X' and isinstance(obj[1][0][1], tuple) and obj[1][0][1][0] == 'fld' and obj[1][0][1][1][0] == 'cliobj':
            o = obj[1][0][1][1]
    st.emit(('cli', name, o, vals, e.get('l')))
    if name == 'parse':
        return [(st, 'v', VOID), (st.copy(), 'throw', ('exc', 'CLI::ParseError'))]
    if 'App' in rt or 'Option' in rt:
        nm = (name, vals[:1], o)
        if name in ('add_option', 'add_flag', 'add_subcommand', 'add_option_group', 'add_option_function', 'set_config', 'set_help_all_flag'):
            r = ('cliobj', name, nm)
        else:
            r = o
        return V(st, r)
    return V(st, ('app', 'CLI::' + name, (o,) + vals))

METHODS = {
    'std::basic_string': m_string, 'std::basic_string_view': m_string,
    'std::filesystem::path': m_path,
    'std::atomic': m_atomic, 'std::__atomic_base': m_atomic, 'std::atomic_flag': m_atomic, 'std::optional': m_optional, 'std::_Optional_base_impl': m_optional,
    'std::unique_ptr': m_ptr, 'std::shared_ptr': m_ptr, 'std::__shared_ptr': m_ptr, 'std::__shared_ptr_access': m_ptr,
    'std::function': m_function,
    'nlohmann::basic_json': m_json,
    'tf::FlowBuilder': m_flow, 'tf::Taskflow': m_flow, 'tf::Subflow': m_flow,
    'tf::Task': m_task,
    'tf::Executor': m_executor, 'tf::Future': m_future, 'std::future': m_future, 'std::__basic_future': m_future,
    'std::error_code': m_errcode,
    'TinyProcessLib::Process': m_process,
    'std::mutex': m_mutex, 'std::unique_lock': m_guard, 'std::lock_guard': m_guard,
    'std::basic_ofstream': m_stream, 'std::basic_ostream': m_stream, 'std::basic_ios': m_stream, 'std::basic_ifstream': m_stream,
    'std::basic_istream': m_stream, 'std::basic_ostringstream': m_stream, 'std::basic_stringstream': m_stream, 'std::basic_istringstream': m_stream,
    'std::type_info': m_typeinfo,
    'std::filesystem::directory_entry': m_direntry,
    'CLI::App': m_cli, 'CLI::Option': m_cli, 'CLI::OptionBase': m_cli, 'CLI::Option_group': m_cli,
}

# ---- free functions
def f_ident(E, e, fn, args, st, fr):
    return V(st, args[0])

def f_format(E, e, fn, args, st, fr):
    f = E.rv(args[0], st)
    at = (e.get('at') or [])[1:]
    return fmt_format(E, st, fr, f, [E.rv(a, st) for a in args[1:]], at)

def f_join(E, e, fn, args, st, fr):
    vals = vals_of(E, st, args)
    at = e.get('at') or []
    if len(vals) == 3:
        return V(st, ('join', iter_range(E, st, vals[0], vals[1]), vals[2], elem_type(at[0]) if at else ''))
    return V(st, ('join', vals[0], vals[1], elem_type(at[0]) if at else ''))

def f_fmtarg(E, e, fn, args, st, fr):
    vals = vals_of(E, st, args)
    at = e.get('at') or ['', '']
    return V(st, ('fmtarg', vals[0][1] if vals[0][0] == 'c' else vals[0], vals[1], at[1] if len(at) > 1 else ''))

def f_get(E, e, fn, args, st, fr):
    ta = (fn.get('ta') or ['0'])[0]
    r = E.as_ref(st, fr, args[0])
    name = {'0': 'first', '1': 'second'}.get(ta, ('get', ta))
    return V(st, ('ref', (r[1][0], r[1][1] + (name,))))

def f_make_pair(E, e, fn, args, st, fr):
    vals = vals_of(E, st, args)
    return V(st, rec(('new', 'std::pair'), {'first': vals[0], 'second': vals[1]}))

def f_make_ptr(E, e, fn, args, st, fr):
    t = (fn.get('ta') or [''])[0]
    root = ('H', st.fresh())
    st.types[root] = short(t)
    loc = (root, ())
    out = []
    for s, k, x in make_elem_at(E, t, args, e.get('at') or [], st, fr, loc):
        out.append((s, k, ('ptr', loc) if k == 'v' else x))
    return out

def make_elem_at(E, t, args, at, st, fr, loc):
    r = E.db.record(t)
    if r is not None:
        if not args:
            dc = E.default_ctor(t)
            return E.run_ctor(dc, t, loc, [], st, fr) if dc is not None else E.default_construct(short(t), loc, st, fr)
        cands = [m for m in r.get('methods', ()) if m.get('ctor') and m['usr'] in E.db.fn and E.db.fn[m['usr']].get('body') is not None and len(m['pt']) >= len(args)]
        cands.sort(key=lambda m: len(m['pt']))
        if cands:
            return E.run_ctor(E.db.fn[cands[0]['usr']], t, loc, list(args), st, fr)
    for s, k, x in make_elem(E, t, args, at, st, fr):
        if k == 'v':
            E.set(s, loc, x)
        return [(s, k, VOID)]

def f_algo(E, e, fn, args, st, fr):
    """for_each / any_of / all_of / none_of / find_if / count_if / transform / copy_if"""
    name = fn['name']
    if name in ('replace', 'sort', 'reverse', 'unique', 'remove', 'remove_if', 'fill'):
        vals = vals_of(E, st, args)
        if vals[0][0] == 'iter' and vals[0][1] is not None:
            loc = vals[0][1]
            E.set(st, loc, ('mut', name, E.get(st, loc), tuple(v if v[0] != 'iter' else v[2] for v in vals)))
        return V(st, ('app', name, tuple(vals)))
    a = [E.rv(x, st) for x in args]
    if not (a[0][0] == 'iter' and a[0][1] is not None and a[0][2] in ('begin', 'rbegin') and a[1][0] == 'iter' and a[1][2] in ('end', 'rend') and a[0][1] == a[1][1]):
        E.unmodelled['std::' + name] = 1
        return V(st, ('app', 'std::' + name, tuple(a)))
    loc = a[0][1]
    cb = args[-1]
    if name == 'for_each':
        def body(s, el):
            return [(s2, 'n' if k2 == 'v' else k2, v2) for s2, k2, v2 in E.call_value(cb, [el], s, fr)]
        return [(s, 'v' if k == 'n' else k, VOID if k == 'n' else v) for s, k, v in E.foreach(st, ('ref', loc), body, fr, e.get('l'))]
    if name in ('any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'find', 'count', 'count_if'):
        mark = ('T', fr.id, 'algo%d' % st.fresh())
        st.store[mark] = NULL
        want = name not in ('all_of', 'find_if_not')
        def body(s, el):
            out = []
            if name in ('find', 'count'):
                rs = [(s, 'v', E.eq(E.rv(el, s), a[2]))]
            else:
                rs = E.call_value(cb, [el], s, fr)
            for s2, k2, v2 in rs:
                if k2 != 'v':
                    out.append((s2, k2, v2)); continue
                for s3, b in E.truth(s2, E.rv(v2, s2)):
                    if b == want:
                        s3.store[mark] = ('ptr', el[1])
                        out.append((s3, 'brk', None))
                    else:
                        out.append((s3, 'n', None))
            return out
        out = []
        for s, k, v in E.foreach(st, ('ref', loc), body, fr, e.get('l')):
            if k != 'n':
                out.append((s, k, v)); continue
            hit = s.store.pop(mark)
            found = hit != NULL
            if name == 'any_of':
                r = C(found)
            elif name in ('all_of', 'none_of'):
                r = C(not found)
            elif name in ('count', 'count_if'):
                r = ('cnt', C(found))
            else:
                if found:
                    p = hit[1][1][len(loc[1]):]
                    r = ('iter', loc, ('part', p))
                else:
                    r = ('iter', loc, 'end')
            out.append((s, 'v', r))
        return out
    if name in ('transform', 'copy_if', 'copy'):
        dst = a[2]
        if dst[0] == 'iter' and dst[1] is not None:
            # overwrites existing elements (often in place)
            old = E.get(st, loc)
            E.set(st, dst[1], ('app', 'std::' + name, (old, E.rv(cb, st) if cb is not None else VOID)))
            return V(st, ('iter', dst[1], 'end'))
        def body(s, el):
            out = []
            if name == 'copy':
                rs = [(s, 'v', E.rv(el, s))]
            else:
                rs = E.call_value(cb, [el], s, fr)
            for s2, k2, v2 in rs:
                if k2 != 'v':
                    out.append((s2, k2, v2)); continue
                if name == 'copy_if':
                    for s3, b in E.truth(s2, E.rv(v2, s2)):
                        if b:
                            push_to(E, s3, dst, E.rv(el, s3))
                        out.append((s3, 'n', None))
                else:
                    push_to(E, s2, dst, E.rv(v2, s2))
                    out.append((s2, 'n', None))
            return out
        return [(s, 'v' if k == 'n' else k, dst if k == 'n' else v) for s, k, v in E.foreach(st, ('ref', loc), body, fr, e.get('l'))]
    if name == 'equal':
        b = a[2]
        if b[0] == 'iter' and b[1] is not None:
            return V(st, E.eq(E.get(st, loc), E.get(st, b[1])))
    return V(st, ('app', 'std::' + name, tuple(a)))

def push_to(E, st, dst, v):
    if dst[0] == 'inserter':
        E.set(st, dst[1], append(E.get(st, dst[1]), ('one', v)))

def f_inserter(E, e, fn, args, st, fr):
    return V(st, ('inserter', args[0][1]))

def f_exit(E, e, fn, args, st, fr):
    return [(st, 'exit', ('exit', tuple(vals_of(E, st, args))))]

def f_begin(E, e, fn, args, st, fr):
    r = E.as_ref(st, fr, args[0])
    return V(st, ('iter', r[1], 'begin' if fn['name'].endswith('begin') else 'end'))

def f_empty(E, e, fn, args, st, fr):
    return V(st, E.empty(E.rv(args[0], st)))

def f_size(E, e, fn, args, st, fr):
    return V(st, ('size', E.rv(args[0], st)))

def f_tie(E, e, fn, args, st, fr):
    vals = vals_of(E, st, args)
    return V(st, ('tuple', tuple(vals), tuple(a if a[0] == 'ref' else VOID for a in args)))

def f_make_tuple(E, e, fn, args, st, fr):
    return V(st, ('tuple', tuple(vals_of(E, st, args)), ()))

def f_swap(E, e, fn, args, st, fr):
    a, b = E.rv(args[0], st), E.rv(args[1], st)
    E.set(st, args[0][1], b); E.set(st, args[1][1], a)
    return V(st, VOID)

def f_exchange(E, e, fn, args, st, fr):
    old = E.rv(args[0], st)
    E.set(st, args[0][1], E.rv(args[1], st))
    return V(st, old)

def f_next(E, e, fn, args, st, fr):
    return V(st, ('app', fn['name'], tuple(vals_of(E, st, args))))

def f_getline(E, e, fn, args, st, fr):
    v = E.rv(args[0], st)
    d = E.rv(args[2], st) if len(args) > 2 else C(10)
    if v[0] != 'sstr' or args[0][0] != 'ref' or args[1][0] != 'ref' or d[0] != 'c':
        if args[0][0] == 'ref':
            E.set(st, args[0][1], ('mut', 'getline', v, ()))
        if args[1][0] == 'ref':
            E.set(st, args[1][1], ('app', 'getline', (v,)))
        return V(st, ('app', 'getline', (v, d)))
    ch = d[1] if isinstance(d[1], str) else chr(d[1])
    if v[1] is None:
        E.set(st, args[0][1], ('sstr', None, True))
    elif v[1] == '':
        E.set(st, args[1][1], C(''))
        E.set(st, args[0][1], ('sstr', None, True))
    else:
        a, sep, b = v[1].partition(ch)
        E.set(st, args[1][1], C(a))
        E.set(st, args[0][1], ('sstr', b if sep else None, False))
    return V(st, args[0])

def f_getenv(E, e, fn, args, st, fr):
    vals = vals_of(E, st, args)
    if getattr(E, 'env', None) is not None and vals[0][0] == 'c':
        return V(st, C(E.env[vals[0][1]]) if vals[0][1] in E.env else NULL)
    return V(st, ('app', 'getenv', tuple(vals_of(E, st, args))))

def f_atexit(E, e, fn, args, st, fr):
    st.emit(('atexit', E.rv(args[0], st)))
    return V(st, C(0))

FREE = {
    'std::move': f_ident, 'std::forward': f_ident, 'std::as_const': f_ident, 'std::make_move_iterator': f_ident, 'std::ref': f_ident, 'std::cref': f_ident,
    'fmt::format': f_format, 'fmt::join': f_join, 'fmt::arg': f_fmtarg,
    'std::get': f_get, 'std::make_pair': f_make_pair,
    'std::make_shared': f_make_ptr, 'std::make_unique': f_make_ptr,
    'std::exit': f_exit, 'exit': f_exit, 'abort': f_exit, 'std::abort': f_exit, 'std::terminate': f_exit, '_exit': f_exit, 'std::_Exit': f_exit, 'quick_exit': f_exit,
    'std::back_inserter': f_inserter, 'std::inserter': f_inserter,
    'std::begin': f_begin, 'std::cbegin': f_begin, 'std::end': f_begin, 'std::cend': f_begin, 'std::empty': f_empty, 'std::size': f_size,
    'std::getline': f_getline, 'getenv': f_getenv, 'std::getenv': f_getenv, 'std::tie': f_tie, 'std::make_tuple': f_make_tuple, 'std::forward_as_tuple': f_make_tuple, 'std::swap': f_swap, 'std::exchange': f_exchange, 'atexit': f_atexit, 'std::atexit': f_atexit,
}
for _n in ('for_each', 'any_of', 'all_of', 'none_of', 'find_if', 'find_if_not', 'find', 'count', 'count_if', 'transform', 'copy_if', 'copy',
           'equal', 'replace', 'sort', 'reverse', 'unique', 'remove', 'remove_if', 'fill'):
    FREE['std::' + _n] = f_algo

def fs_call(E, e, fn, args, st, fr):
    name = fn['name']
    pt = fn.get('pt', [])
    vals = tuple(vals_of(E, st, args))
    if name.startswith('operator'):
        return op_call(E, e, fn, args, st, fr)
    if name in ('begin', 'end'):
        return f_begin(E, e, fn, args, st, fr)
    has_ec = any('error_code' in p for p in pt)
    pv = tuple(v for v, p in zip(vals, pt) if 'error_code' not in p)
    ver = 0
    if name in FS_MUT and not (name == 'last_write_time' and len(pv) == 1):
        st.emit(('fs', name, pv, e.get('l')))
    res = ('fs', name, pv)
    if name == 'last_write_time' and len(pv) == 1:
        st.emit(('stat', pv[0], e.get('l')))
    if has_ec:
        for a, p in zip(args, pt):
            if 'error_code' in p and a[0] == 'ref':
                E.set(st, a[1], ('errc', name, pv))
        return V(st, res)
    out = V(st, res)
    if name in THROWING_FS:
        out.append((st.copy(), 'throw', ('exc', 'std::filesystem::filesystem_error')))
    return out

# ---- iterator / index loops -------------------------------------------------
def _strip(e):
    while e is not None and e['k'] in ('load', 'tobool') :
        e = e['e']
    while e is not None and e['k'] == 'ctor' and len(e.get('args', [])) == 1 and 'iterator' in (e.get('t') or ''):
        e = _strip(e['args'][0])
    return e

def _var_id(e):
    e = _strip(e)
    if e is not None and e['k'] == 'var' and 'gk' not in e['d']:
        return e['d']['id']
    return None

def _is_inc(e, vid):
    e = _strip(e)
    if e is None:
        return False
    if e['k'] == 'un' and e['op'] == '++':
        return _var_id(e['e']) == vid
    if e['k'] == 'call' and e.get('fn', {}).get('name') == 'operator++':
        o = e.get('obj') or (e.get('args') or [None])[0]
        return _var_id(o) == vid
    if e['k'] == 'asg' and e['op'] == '+=' and _var_id(e['a']) == vid and e['b'].get('k') == 'lit' and e['b']['v'] == 1:
        return True
    return False

def _meth(e, names):
    e = _strip(e)
    if e is not None and e['k'] == 'call' and e.get('fn') and e['fn']['name'] in names:
        if e.get('obj') is not None and not e.get('args'):
            return e
        if e.get('obj') is None and len(e.get('args', [])) == 1:
            return e
    return None

def iter_for(E, s, st, fr):
    init = s.get('init')
    if not init or init['k'] != 'decl' or s.get('c') is None or s.get('inc') is None:
        return None
    vs = init['v']
    if not vs or vs[0].get('init') is None:
        return None
    vid = vs[0]['id']
    if not _is_inc(s['inc'], vid):
        return None
    return iter_loop(E, vid, vs, init, s['c'], s['b'], st, fr, s.get('l'))

def iter_loop(E, vid, vs, init, c, b, st, fr, where):
    c = _strip(c)
    endvars = {v['id'] for v in vs[1:] if v.get('init') is not None and _meth(v['init'], ('end', 'cend', 'size'))}
    # iterator form
    if c['k'] == 'call' and c.get('fn', {}).get('name') in ('operator!=',):
        ops = ([c['obj']] if c.get('obj') is not None else []) + c.get('args', [])
    elif c['k'] == 'bin' and c['op'] in ('!=', '<'):
        ops = [c['a'], c['b']]
    elif c['k'] == 'un' and c['op'] == '!' and _strip(c['e'])['k'] in ('call', 'bin'):
        q = _strip(c['e'])
        if q['k'] == 'call' and q['fn']['name'] == 'operator==':
            ops = ([q['obj']] if q.get('obj') is not None else []) + q.get('args', [])
        else:
            return None
    else:
        return None
    if len(ops) != 2 or _var_id(ops[0]) != vid:
        return None
    ini = _strip(vs[0]['init'])
    if assigned(b, vid):
        return None
    if _meth(ini, ('begin', 'cbegin')) is not None and (_meth(ops[1], ('end', 'cend')) or _var_id(ops[1]) in endvars or _var_id(ops[1]) is not None):
        out = []
        for a, k, v in E.ex(init, st, fr) if init is not None else [(st, 'n', None)]:
            if k != 'n':
                out.append((a, k, v)); continue
            it = E.rv(a.store.get(('L', fr.id, vid)), a)
            if it[0] != 'iter' or it[2] != 'begin' or it[1] is None:
                return None
            for a2, k2, en in E.evr(ops[1], a, fr):
                if k2 != 'v' or en[0] != 'iter' or en[2] != 'end' or en[1] != it[1] and not ('directory_iterator' in str(vs[0].get('t')) and en[1] is not None and E.get(a2, en[1]) == E.get(a2, it[1])):
                    return None
                loc = it[1]
                def body(s3, el, loc=loc):
                    rel = el[1][1][len(loc[1]):]
                    s3.store[('L', fr.id, vid)] = ('iter', loc, ('part', rel))
                    return E.ex(b, s3, fr)
                out += E.foreach(a2, ('ref', loc), body, fr, where)
        return out
    # index form
    if ini['k'] in ('lit', 'zero') and ini.get('v', 0) == 0:
        q = _meth(ops[1], ('size',))
        if q is None:
            for v in vs[1:]:
                if v['id'] == _var_id(ops[1]):
                    q = _meth(v['init'], ('size',))
        if q is None:
            return None
        src = q.get('obj') or q['args'][0]
        out = []
        for a, k, ref in E.ev(src, st.copy(), fr):
            if k != 'v':
                out.append((a, k, ref)); continue
            if q.get('arrow'):
                ref = E.deref(a, E.rv(ref, a))
            ref = E.as_ref(a, fr, ref)
            cv = E.get(a, ref[1])
            if cv[0] == 'seq' and all(p[0] == 'one' for p in cv[1]):
                return None       # every element is known: unroll (the body may add elements)
            def body(s3, el):
                s3.store[('L', fr.id, vid)] = ('idxel', el[1])
                return E.ex(b, s3, fr)
            out += E.foreach(a, ref, body, fr, where)
        return out
    return None

def assigned(b, vid):
    stack = [b]
    while stack:
        o = stack.pop()
        if isinstance(o, dict):
            if o.get('k') == 'asg' and _var_id(o['a']) == vid:
                return True
            if o.get('k') == 'un' and o.get('op') in ('++', '--') and _var_id(o['e']) == vid:
                return True
            if o.get('k') == 'call' and (o.get('fn') or {}).get('name') in ('operator++', 'operator--', 'operator=', 'operator+='):
                q = o.get('obj') or (o.get('args') or [None])[0]
                if q is not None and _var_id(q) == vid:
                    return True
            stack.extend(o.values())
        elif isinstance(o, list):
            stack.extend(o)
    return False

def iter_while(E, s, st, fr):
    """auto it = c.begin(); while (it != c.end()) { ...; ++it; }"""
    c = _strip(s['c'])
    if c['k'] == 'call' and c.get('fn', {}).get('name') == 'operator!=':
        ops = ([c['obj']] if c.get('obj') is not None else []) + c.get('args', [])
    elif c['k'] == 'bin' and c['op'] in ('!=', '<'):
        ops = [c['a'], c['b']]
    else:
        return None
    vid = _var_id(ops[0])
    if vid is None or s['b']['k'] != 'seq' or not s['b']['s']:
        return None
    last = s['b']['s'][-1]
    if last['k'] != 'expr' or not _is_inc(last['e'], vid):
        return None
    body_stmts = {'k': 'seq', 's': s['b']['s'][:-1], 'l': s['b'].get('l')}
    if assigned(body_stmts, vid) or has_continue(body_stmts):
        return None
    cur = st.store.get(('L', fr.id, vid))
    if cur is None:
        return None
    if cur[0] == 'iter' and cur[2] == 'begin' and cur[1] is not None:
        loc = cur[1]
        out = []
        for a2, k2, en in E.evr(ops[1], st, fr):
            if k2 != 'v' or en[0] != 'iter' or en[2] != 'end' or en[1] != loc:
                return None
            def body(s3, el):
                rel = el[1][1][len(loc[1]):]
                s3.store[('L', fr.id, vid)] = ('iter', loc, ('part', rel))
                return E.ex(body_stmts, s3, fr)
            out += E.foreach(a2, ('ref', loc), body, fr, s.get('l'))
        return out
    if cur == C(0):
        q = _meth(ops[1], ('size',))
        if q is None:
            return None
        src = q.get('obj') or q['args'][0]
        out = []
        for a, k, ref in E.ev(src, st, fr):
            if k != 'v':
                out.append((a, k, ref)); continue
            if q.get('arrow'):
                ref = E.deref(a, E.rv(ref, a))
            ref = E.as_ref(a, fr, ref)
            def body(s3, el):
                s3.store[('L', fr.id, vid)] = ('idxel', el[1])
                return E.ex(body_stmts, s3, fr)
            out += E.foreach(a, ref, body, fr, s.get('l'))
        return out
    return None

def has_continue(b):
    if isinstance(b, dict):
        if b.get('k') == 'continue':
            return True
        if b.get('k') in ('rfor', 'for', 'while', 'do', 'lambda'):
            return False
        return any(has_continue(x) for x in b.values())
    if isinstance(b, list):
        return any(has_continue(x) for x in b)
    return False
