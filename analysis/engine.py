"""Path-sensitive abstract interpreter over the facts extracted by bccx.

Nothing of the repository is executed: every function body is the syntax tree
clang resolved, every value is a term, every unknown condition is an atom that
splits the analysis state.  See DESIGN.md for the abstract domain."""
import sys
from extract import AnalysisError, REPO
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ terms --
TRUE = ('c', True)
FALSE = ('c', False)
NULL = ('null',)
UNDEF = ('undef',)
VOID = ('void',)
EMPTY = ('seq', ())
X = '\u00a7X'
W = '\u00a7w'
O = '\u00a7o'
P = '\u00a7p'

def C(v):
    return ('c', v)

def is_c(v):
    return v[0] == 'c'

def rec(base, ov):
    """record value with overrides (dict)"""
    if base[0] == 'rec':
        d = dict(base[2]); d.update(ov)
        base, ov = base[1], d
    return ('rec', base, tuple(sorted(ov.items(), key=lambda kv: repr(kv[0]))))

_sub_memo = {}
def subst(t, a, b):
    """replace key a by b inside term t (exact match of sub-tuples/strings in key position)"""
    if t == a:
        return b
    if not isinstance(t, tuple):
        return t
    k = (t, a, b)
    r = _sub_memo.get(k)
    if r is None:
        r = tuple(subst(x, a, b) for x in t)
        if r == t:
            r = t
        if len(_sub_memo) > 400000:
            _sub_memo.clear()
        _sub_memo[k] = r
    return r

_men_memo = {}
def mentions(t, a):
    if t == a:
        return True
    if not isinstance(t, tuple):
        return False
    k = (t, a)
    r = _men_memo.get(k)
    if r is None:
        r = any(mentions(x, a) for x in t)
        if len(_men_memo) > 400000:
            _men_memo.clear()
        _men_memo[k] = r
    return r

def subterms(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        st.extend(x)

def cat(parts):
    """string concatenation"""
    out = []
    for p in parts:
        ps = p[1] if p[0] == 'cat' else (p,)
        for q in ps:
            if q[0] == 'c' and isinstance(q[1], str):
                if q[1] == '':
                    continue
                if out and out[-1][0] == 'c' and isinstance(out[-1][1], str):
                    out[-1] = ('c', out[-1][1] + q[1])
                    continue
            out.append(q)
    if not out:
        return ('c', '')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))

def seq_parts(v):
    if v[0] == 'seq':
        return v[1]
    return (('all', v),)

def mkseq(parts):
    out = []
    for p in parts:
        if p[0] == 'all' and p[1][0] == 'seq':
            out.extend(p[1][1])
        else:
            out.append(p)
    res = []
    for p in out:
        if p[0] == 'many' and p in res:
            continue
        res.append(p)
    if len(res) == 1 and res[0][0] == 'all':
        return res[0][1]
    return ('seq', tuple(res))

def append(v, part):
    return mkseq(seq_parts(v) + (part,))

# ------------------------------------------------------------------- state --
class St:
    __slots__ = ('store', 'facts', 'ev', 'locks', 'ctr', 'types', 'notes')
    def __init__(self):
        self.store = {}
        self.facts = {}
        self.ev = ()
        self.locks = ()
        self.ctr = 0
        self.types = {}
        self.notes = ()
    def copy(self):
        s = St.__new__(St)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.ev = self.ev
        s.locks = self.locks
        s.ctr = self.ctr
        s.types = dict(self.types)
        s.notes = self.notes
        return s
    def fresh(self):
        self.ctr += 1
        return self.ctr
    def emit(self, e):
        if e not in self.ev:
            self.ev = self.ev + (e,)
    def key(self):
        return (tuple(sorted(((repr(k), v) for k, v in self.store.items() if k[0] not in ('T',)), key=lambda kv: kv[0])),
                frozenset(self.facts.items()), self.ev, self.locks)

class Frame:
    __slots__ = ('id', 'fn', 'this', 'caps', 'file', 'retref', 'depth', 'ntmp', 'outer')
    def __init__(self, fid, fn, this, depth):
        self.id = fid
        self.fn = fn
        self.this = this
        self.caps = {}
        self.retref = False
        self.depth = depth
        self.ntmp = 0
        self.outer = ()

def short(t):
    """type string with cv/ref removed"""
    t = t.strip()
    while True:
        o = t
        for p in ('const ', 'struct ', 'class ', 'enum ', 'volatile '):
            if t.startswith(p):
                t = t[len(p):]
        t = t.rstrip()
        if t.endswith('&'):
            t = t[:-1].rstrip()
        if t.endswith('const') and not t[:-5][-1:].isalnum():
            t = t[:-5].rstrip()
        if t == o:
            return t

def is_ref(t):
    return t.rstrip().endswith('&')

def head(t):
    t = short(t)
    i = t.find('<')
    return t if i < 0 else t[:i]

GUARDS = {'std::lock_guard', 'std::scoped_lock', 'std::unique_lock', 'std::shared_lock'}
VECLIKE = {'std::vector', 'std::unordered_set', 'std::set', 'std::initializer_list', 'std::deque', 'std::list', 'std::array', 'fmt::dynamic_format_arg_store',
           'std::queue', 'std::unordered_multiset', 'std::multiset', 'std::stack'}
MAPLIKE = {'std::unordered_map', 'std::map', 'std::unordered_multimap', 'std::multimap'}
SETLIKE = {'std::unordered_set', 'std::set', 'std::unordered_multiset', 'std::multiset'}
PTRLIKE = {'std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'}

# -------------------------------------------------------------- function DB --
class DB:
    def __init__(self, tus):
        self.fn = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.lambdas = {}
        self.byqn = {}
        self.derived = {}
        self.tus = [t["tu"] for t in tus]
        for ti, tu in enumerate(tus):
            for f in tu['functions']:
                if f['qn'] == 'main':
                    f['usr'] += '@' + f['loc'].rsplit(':', 1)[0]
                u = f['usr']
                old = self.fn.get(u)
                if old is None or (old.get('body') is None and f.get('body') is not None):
                    f['tu'] = ti
                    self.fn[u] = f
                if f.get('body') is not None or f.get('inits'):
                    self._index(f, u)
            for r in tu['records']:
                old = self.records.get(r['t'])
                if old is None or len(old.get('methods', ())) < len(r.get('methods', ())):
                    self.records[r['t']] = r
            for e in tu['enums']:
                self.enums[e['qn']] = e
            for g in tu['globals']:
                if self.globals.setdefault(g['gk'], g).get('init') is None and g.get('init') is not None:
                    self.globals[g['gk']] = g
                if g.get('init') is not None:
                    self._index(g['init'], g['gk'])
        for f in self.fn.values():
            self.byqn.setdefault(f['qn'], []).append(f)
        for r in self.records.values():
            for b in r.get('bases', ()):
                self.derived.setdefault(b['t'], []).append(r['t'])
        for r in self.records.values():
            for fl in r.get('fields', ()):
                if fl.get('init') is not None:
                    self._index(fl['init'], r['t'] + '.' + fl['name'])

    def _index(self, node, owner):
        stack = [node]
        while stack:
            o = stack.pop()
            if isinstance(o, dict):
                if o.get('k') == 'lambda':
                    o['key'] = (owner, o['id'])
                    self.lambdas[o['key']] = o
                stack.extend(o.values())
            elif isinstance(o, list):
                stack.extend(o)

    def func(self, qn, npar=None, pred=None):
        fs = [f for f in self.byqn.get(qn, ()) if f.get('body') is not None or f.get('inits')]
        if npar is not None:
            fs = [f for f in fs if len(f['params']) == npar]
        if pred:
            fs = [f for f in fs if pred(f)]
        if not fs:
            raise AnalysisError('anchor vanished: no definition of ' + qn)
        return fs[0]

    def funcs(self, qn):
        return [f for f in self.byqn.get(qn, ()) if f.get('body') is not None]

    def record(self, t):
        return self.records.get(short(t))

    def all_fields(self, t):
        """fields including bases: list of (name, field)"""
        r = self.record(t)
        if r is None:
            return []
        out = []
        for b in r.get('bases', ()):
            out += self.all_fields(b['t'])
        out += [(f['name'], f) for f in r.get('fields', ())]
        return out

    def field(self, t, name):
        for n, f in self.all_fields(t):
            if n == name:
                return f
        return None

    def is_base(self, base, t):
        t = short(t); base = short(base)
        if t == base:
            return True
        r = self.records.get(t)
        return r is not None and any(self.is_base(base, b['t']) for b in r.get('bases', ()))

    def overrider(self, cls, usr):
        """most derived override of virtual method `usr` for dynamic class cls"""
        r = self.record(cls)
        if r is None:
            return None
        for m in r.get('methods', ()):
            if m['usr'] == usr or self._overrides(m, usr):
                return m['usr']
        for b in r.get('bases', ()):
            x = self.overrider(b['t'], usr)
            if x:
                return x
        return None

    def _overrides(self, m, usr, seen=None):
        for o in m.get('over', ()):
            if o == usr:
                return True
            f = self.fn.get(o) or self._decl(o)
            if f and self._overrides(f, usr):
                return True
        return False

    def _decl(self, usr):
        if not hasattr(self, '_decls'):
            self._decls = {}
            for r in self.records.values():
                for m in r.get('methods', ()):
                    self._decls[m['usr']] = m
        return self._decls.get(usr)

# ----------------------------------------------------------------- engine --
class Limit(AnalysisError):
    pass

class Engine:
    def __init__(self, db, oracle=None, stubs=None, max_states=60000):
        self.db = db
        self.oracle = oracle or (lambda atom, st: None)
        self.stubs = stubs or {}
        self.steps = 0
        self.max_states = max_states
        self.called = set()       # usr of repo functions analysed
        self.unmodelled = {}      # qn -> count
        self.access = None        # callback (state, loc, is write) for every memory access
        self.tls = set()          # thread-local locals
        self.tstack = []          # task instances being interpreted, innermost last
        self.ninst = 0
        self.curl = ''
        self.shallow = False
        self.ginit = True         # False: static local variables have been changed by any history
        self.on_usercb = None     # hook: a user callback returns normally
        self.on_module = None     # hook: a composed task flow is run
        self.graph = False        # task graph fully known: neighbours are enumerated
        self.loops = 0
        self.paths = 0
        self.atoms = set()
        import models
        self.m = models

    # ---- locations
    def resolve_root(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root[0] in ('S', 'X'):
                return root[1] if root[0] == 'X' else ('init', root[1])
            if root[0] == 'G':
                return self.global_value(st, root)
            return UNDEF
        return v

    def global_value(self, st, root):
        g = self.db.globals.get(root[1])
        if g is not None and g.get('init') is not None and root not in st.store:
            st.store[root] = ('init', g['qn'])  # recursion guard
            fr = Frame(st.fresh(), None, None, 0)
            rs = self.ev(g['init'], st, fr)
            if len(rs) == 1 and rs[0][1] == 'v':
                s2 = rs[0][0]
                v = self.rv(rs[0][2], s2)
                st.store = s2.store; st.facts = s2.facts; st.ctr = s2.ctr
                st.store[root] = v
                return v
            return ('init', g['qn'])
        return ('init', g['qn'] if g else root[1])

    def get(self, st, loc):
        if self.access is not None:
            self.access(st, loc, False)
        v = self.resolve_root(st, loc[0])
        for s in loc[1]:
            v = self.field(v, s)
        return v

    def peek(self, st, loc):
        """read of the structure of a container, not of its elements"""
        self.shallow = True
        try:
            return self.get(st, loc)
        finally:
            self.shallow = False

    def set(self, st, loc, val):
        if self.access is not None:
            self.access(st, loc, True)
        root, path = loc
        st.store[root] = self._upd(self.resolve_root(st, root), path, val) if path else val

    def _upd(self, v, path, val):
        if not path:
            return val
        s = path[0]
        new = self._upd(self.field(v, s), path[1:], val)
        return self.setfield(v, s, new)

    def field(self, v, s):
        if v[0] == 'ref':
            raise AnalysisError('field of reference')
        if isinstance(s, str):
            if v[0] == 'rec':
                for k, x in v[2]:
                    if k == s:
                        return x
                return self.field(v[1], s)
            if v[0] == 'new':
                return UNDEF
            if s == '*' and v[0] == 'some':
                return v[1]
            if v[0] == 'ite':
                return ('ite', v[1], self.field(v[2], s), self.field(v[3], s))
            return ('fld', v, s)
        if s[0] == 'el':
            return self.elem(v, s[1])
        if s[0] == 'at':
            return self.mapat(v, s[1])
        if s[0] == 'pairat':
            return rec(('new', 'std::pair'), {'first': s[1], 'second': self.mapat(v, s[1])})
        if s[0] == 'part':
            p = v[1][s[1]] if v[0] == 'seq' and s[1] < len(v[1]) else None
            if p is None:
                return ('fld', v, s)
            return p[1]
        if v[0] == 'rec':
            for k, x in v[2]:
                if k == s:
                    return x
            return self.field(v[1], s)
        return ('fld', v, s)

    def setfield(self, v, s, new):
        if isinstance(s, str):
            if s == '*' and v[0] == 'some':
                return ('some', new)
            return rec(v, {s: new})
        if s[0] == 'el':
            return self.setelem(v, s[1], new)
        if s[0] == 'at':
            return self.mapset(v, s[1], new)
        if s[0] == 'pairat':
            return self.mapset(v, s[1], self.field(new, 'second'))
        if s[0] == 'part':
            if v[0] == 'seq' and s[1] < len(v[1]):
                ps = list(v[1]); ps[s[1]] = (ps[s[1]][0], new)
                return ('seq', tuple(ps))
            return rec(v, {s: new})
        return rec(v, {s: new})

    # ---- collections
    def elem(self, v, key):
        if v[0] == 'rec':
            for k, x in v[2]:
                if k == ('el', key):
                    return x
            return self.elem(v[1], key)
        if v[0] == 'img':
            return subst(v[2], ('elem', v[1], X), self.elem(v[1], key))
        if v[0] == 'minus':
            return self.elem(v[1], key)
        if v[0] == 'filter':
            return self.elem(v[1], key)
        return ('elem', v, key)

    def setelem(self, v, key, new):
        if new == self.elem(v, key):
            return v
        return rec(v, {('el', key): new})

    def iter_key(self, v, k):
        """map key equal to the `first` of element key (el) -> el name"""
        for name in self._elnames(k):
            e = self.elem(v, name)
            if self.field(e, 'first') == k:
                return name
        return None

    def _elnames(self, k):
        out = []
        for t in subterms(k):
            if t[0] == 'elem' and t[2] not in out:
                out.append(t[2])
        return out

    def mapat(self, v, k):
        if v[0] == 'rec':
            for kk, x in v[2]:
                if kk == ('at', k):
                    return x
        n = self.iter_key(v, k) if v[0] != 'seq' else None
        if n is not None:
            return self.field(self.elem(v, n), 'second')
        if v[0] == 'seq':
            for p in reversed(v[1]):
                if p[0] == 'one' and self.field(p[1], 'first') == k:
                    return self.field(p[1], 'second')
            for p in reversed(v[1]):
                if p[0] == 'many' and self.field(p[1], 'first') == k:
                    return self.field(p[1], 'second')
            for p in reversed(v[1]):
                if p[0] == 'all':
                    n = self.iter_key(p[1], k)
                    if n is not None:
                        return self.field(self.elem(p[1], n), 'second')
            al = [p for p in v[1] if p[0] == 'all']
            if len(al) == 1:
                return self.mapat(al[0][1], k)
        if v[0] == 'rec':
            return self.mapat(v[1], k)
        if v[0] == 'minus':
            return self.mapat(v[1], k)
        return ('sel', v, k)

    def mapset(self, v, k, new):
        if v[0] == 'seq':
            ps = list(v[1])
            for i in range(len(ps) - 1, -1, -1):
                if ps[i][0] in ('one', 'many') and self.field(ps[i][1], 'first') == k:
                    ps[i] = (ps[i][0], rec(ps[i][1], {'second': new}))
                    return ('seq', tuple(ps))
            for i in range(len(ps) - 1, -1, -1):
                if ps[i][0] == 'all':
                    n = self.iter_key(ps[i][1], k)
                    if n is not None:
                        ps[i] = ('all', self.setelem(ps[i][1], n, rec(self.elem(ps[i][1], n), {'second': new})))
                        return ('seq', tuple(ps))
            if not any(p[0] == 'all' for p in ps):
                return append(v, ('one', rec(('new', 'std::pair'), {'first': k, 'second': new})))
            return rec(v, {('at', k): new})
        n = self.iter_key(v, k)
        if n is not None:
            return self.setelem(v, n, rec(self.elem(v, n), {'second': new}))
        return rec(v, {('at', k): new})

    def has(self, st, v, k, keyed):
        """term/bool for membership of key k (keyed: map)"""
        if v[0] == 'seq':
            unk = []
            for p in v[1]:
                if p[0] in ('one', 'many'):
                    pk = self.field(p[1], 'first') if keyed else p[1]
                    if pk == k:
                        if p[0] == 'one':
                            return TRUE
                        unk.append(('has', v, k))
                        continue
                    e = self.eq(pk, k)
                    if e == TRUE:
                        return TRUE if p[0] == 'one' else ('has', v, k)
                    if e != FALSE:
                        unk.append(e)
                else:
                    h = self.has(st, p[1], k, keyed)
                    if h == TRUE:
                        return TRUE
                    if h != FALSE:
                        unk.append(h)
            if not unk:
                return FALSE
            if len(unk) == 1:
                return unk[0]
            return ('or', tuple(unk))
        if v[0] == 'rec':
            if any(kk == ('at', k) for kk, _ in v[2]):
                return TRUE
            if keyed and self.iter_key(v, k) is not None:
                return TRUE
            return self.has(st, v[1], k, keyed)
        if v[0] == 'minus':
            if k in v[2]:
                return FALSE
            return self.has(st, v[1], k, keyed)
        if v[0] == 'img':
            if keyed and self.iter_key(v, k) is not None:
                return TRUE
            if not keyed:
                for n in self._elnames(k):
                    if self.elem(v, n) == k:
                        return TRUE
            return ('has', v, k)
        if keyed and self.iter_key(v, k) is not None:
            return TRUE
        if k[0] == 'elem' and k[1] == v:
            return TRUE
        return ('has', v, k)

    def empty(self, v):
        if v[0] == 'seq':
            unk = []
            for p in v[1]:
                if p[0] == 'one':
                    return FALSE
                if p[0] == 'many':
                    unk.append(('emptymany', p[1]))
                else:
                    e = self.empty(p[1])
                    if e == FALSE:
                        return FALSE
                    if e != TRUE:
                        unk.append(e)
            if not unk:
                return TRUE
            if len(unk) == 1:
                return unk[0]
            return ('and', tuple(unk))
        if v[0] == 'rec':
            if any(isinstance(k, tuple) and k[0] == 'at' for k, _ in v[2]):
                return FALSE
            return self.empty(v[1])
        if v[0] == 'img':
            return self.empty(v[1])
        if v[0] == 'c' and isinstance(v[1], str):
            return C(v[1] == '')
        if v[0] == 'cat' and any(p[0] == 'c' for p in v[1]):
            return FALSE
        return ('empty', v)

    def eq(self, a, b):
        if a == b and a[0] != 'havoc':
            return TRUE
        if a[0] == 'c' and b[0] == 'c':
            return C(a[1] == b[1])
        if a[0] == 'enum' and b[0] == 'enum':
            return C(a == b)
        if a[0] == b[0] and a[0] == 'typeid' or a[0] == b[0] == 'tname' and a[1][0] == b[1][0] == 'typeid':
            return FALSE
        if a[0] == 'enum' and b[0] == 'c' and isinstance(b[1], int):
            return C(a[2] == b[1])
        if b[0] == 'enum' and a[0] == 'c' and isinstance(a[1], int):
            return C(b[2] == a[1])
        if a[0] in ('null', 'nullopt') and (b[0] in ('clo', 'fn', 'ptr', 'some', 'obj', 'rec') or b[0] == 'c' and isinstance(b[1], str)):
            return FALSE
        if b[0] in ('null', 'nullopt') and (a[0] in ('clo', 'fn', 'ptr', 'some', 'obj', 'rec') or a[0] == 'c' and isinstance(a[1], str)):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x[0] == 'cnt' and y[0] == 'c':
                h = x[1]
                if y[1] == 0:
                    return ('not', h)
                if y[1] == 1:
                    return h
            if x[0] == 'size' and y == ('c', 0):
                return self.empty(x[1])
            if x[0] == 'strfind' and y == ('c', 'npos'):
                return ('not', ('contains', x[1], x[2]))
            if y == TRUE:
                return x
            if y == FALSE:
                return self.neg(x)
            if x[0] == 'iter' and y[0] == 'iter':
                if y[2] == 'end':
                    if x[2] == 'begin':
                        return ('emptyloc', x[1])
                    if isinstance(x[2], tuple) and x[2][0] == 'find':
                        return self.neg(x[2][2])
                    if isinstance(x[2], tuple) and x[2][0] in ('at', 'part'):
                        return FALSE
            if x == ('c', '') :
                return self.empty(y)
        if a[0] == b[0] == 'tuple' and len(a[1]) == len(b[1]):
            es = [self.eq(x, y) for x, y in zip(a[1], b[1])]
            if FALSE in es:
                return FALSE
            es = tuple(x for x in es if x != TRUE)
            return TRUE if not es else es[0] if len(es) == 1 else ('and', es)
        if a[0] == 'ptr' and b[0] == 'null' or a[0] == 'null' and b[0] == 'ptr':
            return FALSE
        if repr(b) < repr(a):
            a, b = b, a
        return ('eq', a, b)

    def neg(self, t):
        if t[0] == 'c':
            return C(not t[1])
        if t[0] == 'not':
            return t[1]
        return ('not', t)

    # ---- deciding conditions
    def truth(self, st, v):
        """list of (st, bool)"""
        if v[0] == 'c':
            return [(st, bool(v[1]) or isinstance(v[1], str))]
        if v[0] == 'not':
            return [(s, not b) for s, b in self.truth(st, v[1])]
        if v[0] in ('null', 'nullopt'):
            return [(st, False)]
        if v[0] in ('clo', 'fn', 'ptr', 'some', 'str'):
            if v[0] != 'str':
                return [(st, True)]
        if v[0] == 'enum':
            return [(st, v[2] != 0)]
        if v[0] == 'cnt':
            return self.truth(st, v[1])
        if v[0] == 'size':
            return [(s, not b) for s, b in self.truth(st, self.empty(v[1]))]
        if v[0] == 'and':
            cur = [st]; out = []
            for t in v[1]:
                nxt = []
                for s in cur:
                    for s2, b in self.truth(s, t):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((s2, False))
                cur = nxt
            return out + [(s, True) for s in cur]
        if v[0] == 'or':
            cur = [st]; out = []
            for t in v[1]:
                nxt = []
                for s in cur:
                    for s2, b in self.truth(s, t):
                        if not b:
                            nxt.append(s2)
                        else:
                            out.append((s2, True))
                cur = nxt
            return out + [(s, False) for s in cur]
        if v[0] == 'ite':
            out = []
            for s, b in self.truth(st, v[1]):
                out += self.truth(s, v[2] if b else v[3])
            return out
        if v[0] == 'emptyloc':
            return self.truth(st, self.empty(self.get(st, v[1])))
        if v[0] == 'eq':
            v2 = self.eq(v[1], v[2])
            if v2[0] != 'eq':
                return self.truth(st, v2)
            for x, y in ((v[1], v[2]), (v[2], v[1])):
                if y[0] == 'ite':
                    out = []
                    for s, b in self.truth(st, y[1]):
                        out += self.truth(s, self.eq(x, y[2] if b else y[3]))
                    return out
        d = self.decide(st, v)
        if d is not None:
            return [(st, d)]
        s2 = st.copy()
        st.facts[v] = True
        s2.facts[v] = False
        return [(st, True), (s2, False)]

    def decide(self, st, atom):
        self.atoms.add(atom)
        d = st.facts.get(atom)
        if d is not None:
            return d
        if atom[0] == 'eq':
            # x == c1 known true, asked x == c2
            a, b = atom[1], atom[2]
            for x, y in ((a, b), (b, a)):
                if y[0] in ('c', 'enum'):
                    for f, val in st.facts.items():
                        if val and f[0] == 'eq':
                            if f[1] == x and f[2][0] in ('c', 'enum') and f[2] != y:
                                return False
                            if f[2] == x and f[1][0] in ('c', 'enum') and f[1] != y:
                                return False
        if atom[0] == 'empty':
            for f, val in st.facts.items():
                if val and f[0] == 'has' and f[1] == atom[1]:
                    return False
        if atom[0] == 'has':
            if st.facts.get(('empty', atom[1])) is True:
                return False
        return self.oracle(atom, st)

    # ---- values
    def rv(self, v, st):
        """value of an expression result (dereference glvalues)"""
        if v[0] == 'ref':
            return self.get(st, v[1])
        return v

    def tmp(self, st, fr, v, t=None):
        fr.ntmp += 1
        root = ('T', fr.id, fr.ntmp)
        st.store[root] = v
        if t:
            st.types[root] = short(t)
        return ('ref', (root, ()))

    def as_ref(self, st, fr, v, t=None):
        if v[0] == 'ref':
            return v
        return self.tmp(st, fr, v, t)

    def deref(self, st, v):
        """pointer value -> ref"""
        if v[0] == 'ptr':
            return ('ref', v[1])
        if v[0] == 'ref':
            return v
        if v[0] == 'iter' and v[1] is not None:
            r = self.m.iter_deref(self, st, None, v)
            if r is not None and r[0] == 'ref':
                return r
        return ('ref', (('X', ('fld', v, '*')), ()))

    def member_loc(self, st, ref, name, cls=None):
        loc = ref[1]
        nl = (loc[0], loc[1] + (name,))
        f = self.db.field(cls, name) if cls else None
        if f is not None and f.get('ref'):
            v = self.get(st, nl)
            if v[0] == 'ref':
                return v
            return ('ref', (('X', v), ()))
        return ('ref', nl)

    def loc_type(self, st, loc):
        """declared/dynamic class of the object at loc (type string) or None"""
        t = st.types.get(loc[0])
        if t is None:
            return None
        for s in loc[1]:
            if isinstance(s, str):
                f = self.db.field(t, s)
                if f is None:
                    return None
                t = short(f['t'])
            else:
                return None
        return t

    # ---- helpers on result lists
    def then(self, rs, f):
        out = []
        for st, k, v in rs:
            if k == 'v':
                out.extend(f(st, v))
            else:
                out.append((st, k, v))
        return out

    def ev_list(self, es, st, fr):
        """evaluate expressions left to right -> [(st,'v',[vals])]"""
        cur = [(st, 'v', [])]
        for e in es:
            nxt = []
            for s, k, vs in cur:
                if k != 'v':
                    nxt.append((s, k, vs))
                    continue
                for s2, k2, v2 in self.ev(e, s, fr):
                    if k2 == 'v':
                        nxt.append((s2, 'v', vs + [v2]))
                    else:
                        nxt.append((s2, k2, v2))
            cur = nxt
        return cur

    def evr(self, e, st, fr):
        return [(s, k, self.rv(v, s) if k == 'v' else v) for s, k, v in self.ev(e, st, fr)]

    def cond(self, e, st, fr):
        """evaluate as condition -> list of (st,'v',bool)|(st,other)"""
        k = e['k']
        if k == 'un' and e['op'] == '!':
            return [(s, kk, (not v) if kk == 'v' else v) for s, kk, v in self.cond(e['e'], st, fr)]
        if k == 'bin' and e['op'] == '&&':
            out = []
            for s, kk, v in self.cond(e['a'], st, fr):
                if kk == 'v' and v:
                    out += self.cond(e['b'], s, fr)
                else:
                    out.append((s, kk, v))
            return out
        if k == 'bin' and e['op'] == '||':
            out = []
            for s, kk, v in self.cond(e['a'], st, fr):
                if kk == 'v' and not v:
                    out += self.cond(e['b'], s, fr)
                else:
                    out.append((s, kk, v))
            return out
        if k in ('tobool',):
            return self.cond(e['e'], st, fr)
        out = []
        for s, kk, v in self.evr(e, st, fr):
            if kk == 'v':
                for s2, b in self.truth(s, v):
                    out.append((s2, 'v', b))
            else:
                out.append((s, kk, v))
        return out

    # ---- expressions
    def ev(self, e, st, fr):
        if e is None:
            return [(st, 'v', VOID)]
        self.steps += 1
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise AnalysisError('expression kind ' + e['k'])
        return m(e, st, fr)

    def e_lit(self, e, st, fr):
        return [(st, 'v', ('c', e['v']))]

    def e_null(self, e, st, fr):
        return [(st, 'v', NULL)]

    def e_zero(self, e, st, fr):
        return [(st, 'v', self.zero(e.get('t', 'int')))]

    def zero(self, t):
        t = short(t)
        if t == 'bool':
            return FALSE
        if t.endswith('*'):
            return NULL
        return C(0)

    def e_this(self, e, st, fr):
        if fr.this is None:
            raise AnalysisError('this outside method')
        return [(st, 'v', ('ptr', fr.this))]

    def e_enum(self, e, st, fr):
        return [(st, 'v', ('enum', e['v'], e['i']))]

    def e_fn(self, e, st, fr):
        return [(st, 'v', ('fn', e['fn']['usr'], e['fn']['qn']))]

    def var_loc(self, d, fr):
        i = d['id']
        if 'gk' in d:
            return (('G', d['gk']), ())
        if i in fr.caps:
            return fr.caps[i]
        if d.get('sl'):
            return (('G', ('sl', fr.fn['usr'] if fr.fn else '', d['name'])), ())
        return (('L', fr.id, i), ())

    def e_var(self, e, st, fr):
        d = e['d']
        if 'gk' in d and d['name'] == 'npos':
            return [(st, 'v', ('c', 'npos'))]
        loc = self.var_loc(d, fr)
        if loc[0] == 'ref':
            return [(st, 'v', loc)]
        raw = st.store.get(loc[0])
        if raw is None and loc[0][0] == 'L' and loc[0][1] == fr.id:
            # a constant of the enclosing function used without capture
            for o in fr.outer:
                if ('L', o, d['id']) in st.store:
                    loc = (('L', o, d['id']), ())
                    raw = st.store[loc[0]]
                    break
        if raw is None and loc[0][0] == 'G':
            raw = self.global_value(st, loc[0])
        if raw is not None and raw[0] == 'ref':
            return [(st, 'v', raw)]
        if 'gk' in d and loc[0] not in st.types:
            st.types[loc[0]] = short(d.get('t', ''))
        return [(st, 'v', ('ref', loc))]

    def e_bind(self, e, st, fr):
        i = e['id']
        if i in fr.caps:
            loc = fr.caps[i]
            return [(st, 'v', loc if loc[0] == 'ref' else ('ref', loc))]
        raw = st.store.get(('L', fr.id, i))
        if raw is not None and raw[0] == 'ref':
            return [(st, 'v', raw)]
        return [(st, 'v', ('ref', (('L', fr.id, i), ())))]

    def e_mem(self, e, st, fr):
        if 'fn' in e and e['fn']:
            # bound member function or static member referenced via object
            return self.then(self.ev(e['b'], st, fr), lambda s, b: [(s, 'v', ('memfn', b, e['fn']['usr']))])
        if e.get('static'):
            return [(st, 'v', ('ref', (('G', e.get('gk') or e['name']), ())))]
        def f(s, b):
            if e.get('arrow'):
                r = self.deref(s, self.rv(b, s))
            else:
                r = self.as_ref(s, fr, b)
            return [(s, 'v', self.member_loc(s, r, e['name'], e.get('cls_t') or e.get('cls')))]
        return self.then(self.ev(e['b'], st, fr), f)

    def e_memptr(self, e, st, fr):
        return [(st, 'v', ('memptr', e['cls'], e['name']))]

    def e_idx(self, e, st, fr):
        def f(s, vs):
            b, i = vs
            i = self.rv(i, s)
            bv = self.rv(b, s)
            if bv[0] == 'c' and isinstance(bv[1], str) and i[0] == 'c' and isinstance(i[1], int):
                return [(s, 'v', C(ord(bv[1][i[1]]) if i[1] < len(bv[1]) else 0))]
            return [(s, 'v', ('app', 'idx', (bv, i)))]
        return self.then(self.ev_list([e['b'], e['i']], st, fr), f)

    def e_un(self, e, st, fr):
        op = e['op']
        if op == '!':
            return [(s, k, self.neg(self.boolish(v)) if k == 'v' else v) for s, k, v in self.evr(e['e'], st, fr)]
        if op == '*':
            return [(s, k, self.deref(s, self.rv(v, s)) if k == 'v' else v) for s, k, v in self.ev(e['e'], st, fr)]
        if op == '&':
            def f(s, v):
                if v[0] == 'ref':
                    return [(s, 'v', ('ptr', v[1]))]
                return [(s, 'v', v if v[0] in ('fn', 'memfn') else ('ptr', self.as_ref(s, fr, v)[1]))]
            return self.then(self.ev(e['e'], st, fr), f)
        if op in ('++', '--'):
            def f(s, v):
                old = self.rv(v, s)
                if old[0] == 'c' and isinstance(old[1], int):
                    new = C(old[1] + (1 if op == '++' else -1))
                else:
                    new = ('app', op, (old,))
                if v[0] == 'ref':
                    self.set(s, v[1], new)
                return [(s, 'v', old if e.get('post') else v)]
            return self.then(self.ev(e['e'], st, fr), f)
        def g(s, v):
            if op == '+':
                return [(s, 'v', v)]
            if v[0] == 'c' and isinstance(v[1], int) and op == '-':
                return [(s, 'v', C(-v[1]))]
            return [(s, 'v', ('app', op, (v,)))]
        return self.then(self.evr(e['e'], st, fr), g)

    def boolish(self, v):
        if v[0] == 'cnt':
            return v[1]
        if v[0] == 'size':
            return self.neg(self.empty(v[1]))
        if v[0] in ('null', 'nullopt'):
            return FALSE
        if v[0] in ('clo', 'fn', 'ptr', 'some'):
            return TRUE
        if v[0] == 'c' and not isinstance(v[1], bool):
            return C(bool(v[1]))
        return v

    def binop(self, op, a, b):
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            return self.neg(self.eq(a, b))
        if op == ',':
            return b
        if a[0] == 'c' and b[0] == 'c' and not isinstance(a[1], str) and not isinstance(b[1], str):
            x, y = a[1], b[1]
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '<': lambda: x < y, '>': lambda: x > y,
                     '<=': lambda: x <= y, '>=': lambda: x >= y, '&': lambda: x & y, '|': lambda: x | y,
                     '^': lambda: x ^ y, '%': lambda: x % y, '/': lambda: x // y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                return C(r)
            except Exception:
                pass
        if op in ('>', '>=', '<', '<='):
            # counts and sizes against constants
            flip = {'>': '<', '<': '>', '>=': '<=', '<=': '>='}
            x, y, o = a, b, op
            if x[0] == 'c':
                x, y, o = b, a, flip[op]
            if x[0] in ('cnt', 'size') and y[0] == 'c':
                ne = x[1] if x[0] == 'cnt' else self.neg(self.empty(x[1]))
                if (o, y[1]) in (('>', 0), ('>=', 1)):
                    return ne
                if (o, y[1]) in (('<=', 0), ('<', 1)):
                    return self.neg(ne)
                if (o, y[1]) == ('>=', 0):
                    return TRUE
                if (o, y[1]) == ('<', 0):
                    return FALSE
        if op == '|' and TRUE in (a, b):
            return TRUE
        if op == '|' and a == FALSE:
            return b
        if op == '|' and b == FALSE:
            return a
        if op == '&' and FALSE in (a, b):
            return FALSE
        if op == '&' and a == TRUE:
            return b
        if op == '&' and b == TRUE:
            return a
        return ('app', op, (a, b))

    def e_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, k, C(v) if k == 'v' else v) for s, k, v in self.cond(e, st, fr)]
        if op == ',':
            return self.then(self.ev(e['a'], st, fr), lambda s, v: self.ev(e['b'], s, fr))
        def f(s, vs):
            if op in ('.*', '->*'):
                m = self.rv(vs[1], s)
                if m[0] == 'memptr':
                    r = self.deref(s, self.rv(vs[0], s)) if op == '->*' else self.as_ref(s, fr, vs[0])
                    return [(s, 'v', self.member_loc(s, r, m[2], m[1]))]
            return [(s, 'v', self.binop(op, self.rv(vs[0], s), self.rv(vs[1], s)))]
        return self.then(self.ev_list([e['a'], e['b']], st, fr), f)

    def e_asg(self, e, st, fr):
        op = e['op']
        def f(s, vs):
            b, a = vs
            bv = self.rv(b, s)
            if op != '=':
                old = self.rv(a, s)
                o = op[:-1]
                bb = self.boolish(bv) if o in ('|', '&') and isinstance(old, tuple) and (old[0] != 'c' or isinstance(old[1], bool)) else bv
                if o in ('|', '&') and not (old[0] == 'c' and isinstance(old[1], int) and not isinstance(old[1], bool)):
                    if o == '|':
                        if old == TRUE or bb == TRUE:
                            bv = TRUE
                        elif old == FALSE:
                            bv = bb
                        elif bb == FALSE:
                            bv = old
                        else:
                            bv = ('or', (old, bb))
                    else:
                        if old == FALSE or bb == FALSE:
                            bv = FALSE
                        elif old == TRUE:
                            bv = bb
                        elif bb == TRUE:
                            bv = old
                        else:
                            bv = ('and', (old, bb))
                else:
                    bv = self.binop(o, old, bv)
            if a[0] == 'ref':
                self.set(s, a[1], bv)
            return [(s, 'v', a)]
        return self.then(self.ev_list([e['b'], e['a']], st, fr), f)

    def e_cond(self, e, st, fr):
        out = []
        for s, k, v in self.cond(e['c'], st, fr):
            if k == 'v':
                out += self.ev(e['a'] if v else e['b'], s, fr)
            else:
                out.append((s, k, v))
        return out

    def e_tobool(self, e, st, fr):
        return [(s, k, self.boolish(v) if k == 'v' else v) for s, k, v in self.evr(e['e'], st, fr)]

    def e_void(self, e, st, fr):
        return [(s, k, VOID if k == 'v' else v) for s, k, v in self.ev(e['e'], st, fr)]

    def e_load(self, e, st, fr):
        return self.evr(e['e'], st, fr)

    def e_narrow(self, e, st, fr):
        out = []
        for s, k, v in self.ev(e['e'], st, fr):
            if k == 'v':
                v = self.rv(v, s)
                if v[0] not in ('c', 'enum'):
                    v = ('narrow', short(e['t']), v)
            out.append((s, k, v))
        return out

    def e_dyncast(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def e_typeid(self, e, st, fr):
        return [(st, 'v', ('typeid', short(e.get('t', '?'))))]

    def e_throw(self, e, st, fr):
        if e.get('e') is None:
            return [(st, 'throw', ('exc', 'rethrow'))]
        return self.then(self.ev(e['e'], st, fr), lambda s, v: [(s, 'throw', ('exc', short(e.get('t', '?'))))])

    def e_delete(self, e, st, fr):
        def f(s, v):
            s.emit(('delete2' if ('delete', v) in s.ev else 'delete', v))
            return [(s, 'v', VOID)]
        return self.then(self.evr(e['e'], st, fr), f)

    def e_new(self, e, st, fr):
        root = ('H', st.fresh())
        st.types[root] = short(e['t'])
        loc = (root, ())
        init = e.get('init')
        if init is None:
            st.store[root] = self.default(e['t'], st)
            return [(st, 'v', ('ptr', loc))]
        def f(s, v):
            s.emit(('new', short(e['t']), loc))
            return [(s, 'v', ('ptr', loc))]
        return self.then(self.ev_into(init, s_loc(loc), st, fr, e['t']), f)

    def e_lambda(self, e, st, fr):
        caps = []
        cur = [(st, 'v', [])]
        for c in e['caps']:
            nxt = []
            for s, k, acc in cur:
                if k != 'v':
                    nxt.append((s, k, acc)); continue
                if c.get('this'):
                    nxt.append((s, 'v', acc + [('this', fr.this)]))
                    continue
                d = c['d']
                if c.get('init') is not None:
                    for s2, k2, v2 in self.ev(c['init'], s, fr):
                        if k2 != 'v':
                            nxt.append((s2, k2, v2))
                        elif c.get('byref'):
                            nxt.append((s2, 'v', acc + [(d['id'], self.as_ref(s2, fr, v2))]))
                        else:
                            nxt.append((s2, 'v', acc + [(d['id'], ('val', self.rv(v2, s2)))]))
                    continue
                ee = {'k': 'var', 'd': d} if not d.get('bind') else {'k': 'bind', 'id': d['id']}
                loc = self.ev(ee, s, fr)[0][2]
                if c.get('byref'):
                    nxt.append((s, 'v', acc + [(d['id'], loc)]))
                else:
                    nxt.append((s, 'v', acc + [(d['id'], ('val', self.rv(loc, s)))]))
            cur = nxt
        key = e.get('key')
        # captured-by-reference variables that the extractor does not list keep the frame
        return [(s, k, ('clo', key, tuple(v), (fr.id,) + fr.outer) if k == 'v' else v) for s, k, v in cur]

    def e_ilist(self, e, st, fr):
        t = e.get('t', '')
        h = head(t)
        a = e.get('a', [])
        ptr = t.replace('const', '').rstrip().endswith('*')
        r = self.db.record(t) if not ptr else None
        def f(s, vs):
            vals = [self.rv(v, s) for v in vs]
            if ptr:
                return [(s, 'v', vals[0] if vals else ('null',))]
            if r is not None:
                fields = e.get('f') or [x[0] for x in self.db.all_fields(t)]
                v = rec(('new', short(t)), {})
                for n, x, y in zip(fields, vals, vs):
                    fd = self.db.field(t, n)
                    if fd is not None and fd.get('ref') and y[0] == 'ref':
                        x = y
                    v = self.setfield(v, n, x)
                # remaining fields: default
                for n, fd in self.db.all_fields(t):
                    if n not in fields[:len(vals)]:
                        v = self.setfield(v, n, self.default_field(fd, s))
                return [(s, 'v', v)]
            if h in VECLIKE or h in MAPLIKE or '[' in t:
                return [(s, 'v', ('seq', tuple(('one', v) for v in vals)))]
            if short(t).endswith(']') :
                return [(s, 'v', ('seq', tuple(('one', v) for v in vals)))]
            if len(vals) == 1:
                if h == 'std::array':
                    return [(s, 'v', vals[0])]
                return [(s, 'v', vals[0])]
            if not vals:
                d = self.default(t, s)
                return [(s, 'v', self.zero(t) if d == UNDEF else d)]
            return [(s, 'v', ('seq', tuple(('one', v) for v in vals)))]
        if h == 'std::array' and len(a) == 1 and a[0].get('k') == 'ilist':
            return self.ev(a[0], st, fr)
        return self.then(self.ev_list(a, st, fr), f)

    # ---- construction
    def default_field(self, fd, st):
        if fd.get('init') is not None:
            fr = Frame(st.fresh(), None, None, 0)
            rs = self.ev(fd['init'], st, fr)
            if len(rs) == 1 and rs[0][1] == 'v':
                return self.rv(rs[0][2], rs[0][0])
            return UNDEF
        return self.default(fd['t'], st)

    def default(self, t, st=None):
        t = short(t)
        h = head(t)
        if h == 'std::basic_string' or h == 'std::basic_string_view':
            return C('')
        if h in VECLIKE or h in MAPLIKE:
            return EMPTY
        if h == 'std::optional':
            return ('nullopt',)
        if h == 'std::filesystem::path':
            return ('path', C(''))
        if h in ('std::function', 'std::shared_ptr', 'std::unique_ptr'):
            return NULL
        if h == 'nlohmann::basic_json':
            return ('new', 'json')
        if h == 'std::pair':
            return rec(('new', 'std::pair'), {})
        r = self.db.record(t)
        if r is not None:
            v = ('new', t)
            ov = {}
            for n, fd in self.db.all_fields(t):
                ov[n] = self.default_field(fd, st) if st is not None else UNDEF
            return rec(v, ov)
        if t in ('bool', 'int') or t.endswith('*') or t in self.db.enums:
            return UNDEF
        return ('new', t)

    def ev_into(self, e, loc, st, fr, t):
        """evaluate initialiser e into location loc"""
        if e['k'] == 'ctor' and self.db.record(e.get('t') or t) is not None:
            return self.construct(e, loc, st, fr)
        if e['k'] == 'ctor' and e.get('elide') and e.get('args') and self.db.record(e.get('t') or t) is not None:
            return self.ev_into(e['args'][0], loc, st, fr, t)
        def f(s, v):
            if v[0] == 'ref' and v[1] == loc:
                return [(s, 'v', VOID)]
            self.set(s, loc, self.rv(v, s))
            return [(s, 'v', VOID)]
        return self.then(self.ev(e, st, fr), f)

    def e_ctor(self, e, st, fr):
        t = e.get('t') or e.get('cls')
        if self.db.record(t) is not None:
            kind = e['fn'].get('ctor')
            if kind in ('copy', 'move') and e['fn']['usr'] not in self.db.fn:
                return self.evr(e['args'][0], st, fr)
            fr.ntmp += 1
            root = ('T', fr.id, fr.ntmp)
            st.types[root] = short(t)
            loc = (root, ())
            return self.then(self.construct(e, loc, st, fr), lambda s, v: [(s, 'v', ('ref', loc))])
        return self.then(self.ev_list(e.get('args', []), st, fr),
                         lambda s, vs: self.m.ctor(self, e, vs, s, fr))

    def e_ictor(self, e, st, fr):
        raise AnalysisError('inherited constructor expression')

    def construct(self, e, loc, st, fr):
        fn = e['fn']
        u = fn['usr']
        t = short(e.get('t') or e.get('cls'))
        kind = fn.get('ctor')
        f = self.db.fn.get(u)
        if not loc[1]:
            st.types.setdefault(loc[0], t)
        if f is None or (f.get('body') is None and not f.get('inits')) or f.get('defaulted'):
            if kind in ('copy', 'move'):
                def g(s, v):
                    self.set(s, loc, self.rv(v, s))
                    return [(s, 'v', VOID)]
                return self.then(self.ev(e['args'][0], st, fr), g)
            if kind == 'default' or not e.get('args'):
                return self.default_construct(t, loc, st, fr)
            # inherited constructor (using Base::Base): forward to base ctor
            bf = self.find_base_ctor(t, e)
            if bf is not None:
                f, u = bf, bf['usr']
            else:
                def g(s, vs):
                    self.set(s, loc, ('app', 'ctor:' + t, tuple(self.rv(v, s) for v in vs)))
                    if t == 'TinyProcessLib::Process' and getattr(self, 'on_process', None):
                        self.on_process(self, tuple(self.rv(v, s) for v in vs), s, fr)
                    return [(s, 'v', VOID)]
                return self.then(self.ev_list(e.get('args', []), st, fr), g)
        stub = self.stubs.get(fn['qn'])
        if stub is not None:
            return self.then(self.ev_list(e.get('args', []), st, fr),
                             lambda s, vs: stub(self, {'fn': fn, 'l': e.get('l'), 'ctor_loc': loc}, vs, s, fr))
        def g(s, vs):
            return self.run_ctor(f, t, loc, vs, s, fr)
        return self.then(self.ev_list(e.get('args', []), st, fr), g)

    def find_base_ctor(self, t, e):
        r = self.db.record(t)
        for b in (r or {}).get('bases', ()):
            br = self.db.record(b['t'])
            if br is None:
                continue
            for m in br.get('methods', ()):
                if m.get('ctor') and m['pt'] == e['fn']['pt'] and m['usr'] in self.db.fn:
                    return self.db.fn[m['usr']]
            x = self.find_base_ctor(b['t'], e)
            if x:
                return x
        return None

    def default_construct(self, t, loc, st, fr):
        r = self.db.record(t)
        cur = [(st, 'v', VOID)]
        if loc[1] == () and st.store.get(loc[0]) is None:
            st.store[loc[0]] = ('new', t)
        elif loc[1] and self.get(st, loc)[0] in ('undef', 'fld'):
            self.set(st, loc, ('new', short(t)))
        for b in r.get('bases', ()):
            if self.db.record(b['t']) is None:
                continue
            dc = self.default_ctor(b['t'])
            if dc is not None:
                cur = self.then(cur, lambda s, v, dc=dc, b=b: self.run_ctor(dc, b['t'], loc, [], s, fr))
            else:
                cur = self.then(cur, lambda s, v, b=b: self.default_construct(b['t'], loc, s, fr))
        for fd in r.get('fields', ()):
            cur = self.then(cur, lambda s, v, fd=fd: self.init_field(fd, loc, s, fr))
        return cur

    def default_ctor(self, t):
        r = self.db.record(t)
        for m in r.get('methods', ()):
            if m.get('ctor') and not m['pt'] and m['usr'] in self.db.fn:
                f = self.db.fn[m['usr']]
                if f.get('body') is not None and not f.get('defaulted'):
                    return f
        return None

    def init_field(self, fd, loc, st, fr):
        floc = (loc[0], loc[1] + (fd['name'],))
        if fd.get('init') is not None:
            fr2 = Frame(st.fresh(), None, loc, fr.depth if fr else 0)
            return self.ev_into(fd['init'], floc, st, fr2, fd['t'])
        if self.db.record(fd['t']) is not None and not fd.get('ref'):
            dc = self.default_ctor(fd['t'])
            if dc is not None:
                return self.run_ctor(dc, fd['t'], floc, [], st, fr)
            return self.default_construct(fd['t'], floc, st, fr)
        self.set(st, floc, self.default(fd['t'], st))
        return [(st, 'v', VOID)]

    def run_ctor(self, f, t, loc, args, st, fr):
        self.called.add(f['usr'])
        fr2 = Frame(st.fresh(), f, loc, fr.depth + 1 if fr else 0)
        if fr2.depth > 80:
            raise AnalysisError('call depth in ' + f['qn'])
        if loc[1] == () and st.store.get(loc[0]) is None:
            st.store[loc[0]] = ('new', short(t))
        elif loc[1] and self.get(st, loc)[0] in ('undef', 'fld'):
            self.set(st, loc, ('new', short(t)))
        self.bind_params(f['params'], args, st, fr2, fr)
        cur = [(st, 'v', VOID)]
        done = set()
        inits = f.get('inits', [])
        order = []
        r = self.db.record(t) or {'bases': [], 'fields': []}
        byf = {i['f']: i for i in inits if i.get('f')}
        for i in inits:
            if i.get('base') or i.get('deleg'):
                order.append(('b', i))
        deleg = any(i.get('deleg') for i in inits)
        bases_done = {short(i['base']) for i in inits if i.get('base')}
        for b in r.get('bases', ()):
            if not deleg and short(b['t']) not in bases_done and self.db.record(b['t']) is not None:
                order.append(('db', b))
        if not deleg:
            for fd in r.get('fields', ()):
                order.append(('f', fd))
        for kind, i in order:
            if kind == 'b':
                e = i['e']
                def g(s, v, e=e, i=i):
                    if e is None:
                        return [(s, 'v', VOID)]
                    if e['k'] == 'ctor':
                        if self.db.record(e.get('t') or e.get('cls')) is None:
                            return [(s, 'v', VOID)]
                        return self.construct(e, loc, s, fr2)
                    if e['k'] == 'ictor':
                        # inheriting constructor: forward own parameters
                        vs = [self.ev({'k': 'var', 'd': p}, s, fr2)[0][2] for p in f['params']]
                        bf = self.db.fn.get(e['fn']['usr'])
                        return self.run_ctor(bf, e['fn'].get('cls'), loc, vs, s, fr2)
                    return self.ev(e, s, fr2)
                cur = self.then(cur, g)
            elif kind == 'db':
                cur = self.then(cur, lambda s, v, b=i: self.default_construct(b['t'], loc, s, fr2))
            else:
                fd = i
                ini = byf.get(fd['name'])
                floc = (loc[0], loc[1] + (fd['name'],))
                def g(s, v, fd=fd, ini=ini, floc=floc):
                    if ini is None or ini.get('e') is None:
                        return self.init_field(fd, loc, s, fr2)
                    if fd.get('ref'):
                        def h(s2, v2):
                            rr = self.as_ref(s2, fr2, v2)
                            # reference members store the referenced location
                            s2.store[floc[0]] = self._upd(self.resolve_root(s2, floc[0]), floc[1], rr)
                            return [(s2, 'v', VOID)]
                        return self.then(self.ev(ini['e'], s, fr2), h)
                    return self.ev_into(ini['e'], floc, s, fr2, fd['t'])
                cur = self.then(cur, g)
        def body(s, v):
            out = []
            for s2, k2, v2 in self.ex(f.get('body'), s, fr2):
                out.append((s2, 'v' if k2 in ('n', 'ret') else k2, VOID if k2 in ('n', 'ret') else v2))
            return out
        cur = self.then(cur, body)
        for s, k, v in cur:
            self.drop_frame(s, fr2, v if k == 'v' else None)
        return cur

    # ---- calls
    def bind_params(self, params, args, st, fr2, fr):
        for i, p in enumerate(params):
            if i >= len(args):
                break
            a = args[i]
            root = ('L', fr2.id, p['id'])
            if is_ref(p['t']):
                r = a if a[0] == 'ref' else self.tmp(st, fr2, a, p['t'])
                st.store[root] = r
            else:
                st.store[root] = self.rv(a, st)
                st.types[root] = short(p['t'])

    def drop_frame(self, st, fr, ret):
        keep = set()
        if ret is not None and ret[0] in ('ref', 'ptr'):
            keep.add(ret[1][0])
        fid = fr.id
        for r in [r for r in st.store if r[0] in ('L', 'T') and r[1] == fid]:
            if r not in keep:
                del st.store[r]
                st.types.pop(r, None)

    def call_fn(self, f, this, args, st, fr):
        """inline a repo function"""
        self.called.add(f['usr'])
        depth = fr.depth + 1 if fr else 0
        if depth > 80:
            raise AnalysisError('call depth in ' + f['qn'])
        fr2 = Frame(st.fresh(), f, this, depth)
        fr2.retref = is_ref(f['rt'])
        self.bind_params(f['params'], args, st, fr2, fr)
        return self.finish_call(f.get('body'), st, fr2, f)

    def finish_call(self, body, st, fr2, f):
        out = []
        locks = st.locks
        rs = self.ex(body, st, fr2)
        if len(rs) > self.max_states:
            raise Limit('state explosion in ' + (f['qn'] if f and 'qn' in f else 'lambda'))
        for s, k, v in rs:
            s.locks = locks
            if k == 'n':
                v, k = VOID, 'v'
            elif k == 'ret':
                k = 'v'
                if not fr2.retref and v[0] == 'ref':
                    v = self.rv(v, s)
            elif k in ('brk', 'cont'):
                raise AnalysisError('break outside loop')
            # returning a reference to a temporary/local of this frame: copy the value out
            if k == 'v' and v[0] == 'ref' and v[1][0][0] in ('L', 'T') and v[1][0][1] == fr2.id:
                v = self.rv(v, s)
            if k == 'v' and v[0] == 'clo':
                pass
            self.drop_frame(s, fr2, v if k == 'v' else None)
            out.append((s, k, v))
        if len(out) > 1:
            out = self.merge(self.dedupe(out))
        return out

    SCALAR = {'c', 'cat', 'path', 'str', 'div', 'mp', 'ln', 'lrel', 'app', 'mut', 'fld', 'ite', 'init', 'disp', 'join', 'undef', 'joinimg', 'elem', 'sel'}
    def merge(self, rs):
        """join states that differ in the outcome of one condition only and
        in scalar (string/path) values: the value becomes a guarded choice"""
        i = 0
        rs = list(rs)
        while i < len(rs):
            j = i + 1
            while j < len(rs):
                m = self.merge2(rs[i], rs[j])
                if m is not None:
                    rs[i] = m
                    del rs[j]
                    j = i + 1
                else:
                    j += 1
            i += 1
        return rs

    def merge2(self, r1, r2):
        (a, k, v), (b, k2, v2) = r1, r2
        if k != k2 or a.ev != b.ev or a.locks != b.locks or k in ('throw', 'exit'):
            return None
        fa, fb = a.facts, b.facts
        diff = None
        if len(fa) != len(fb):
            return None
        for f, val in fa.items():
            o = fb.get(f)
            if o is None:
                return None
            if o != val:
                if diff is not None:
                    return None
                diff = f
        if diff is None:
            return None
        if v != v2 and not (v and v2 and v[0] in self.SCALAR and v2[0] in self.SCALAR and not self._bool(v) and not self._bool(v2)):
            return None
        ch = []
        for r in set(a.store) | set(b.store):
            x, y = a.store.get(r), b.store.get(r)
            if x is y or x == y:
                continue
            if r[0] == 'T':
                ch.append((r, None)); continue
            if x is None or y is None:
                if r[0] == 'L':
                    ch.append((r, None)); continue
                return None
            m = self.mergev(diff, fa[diff], x, y)
            if m is None:
                return None
            ch.append((r, m))
        s = a.copy()
        for r, m in ch:
            if m is None:
                x = a.store.get(r)
                if x is None:
                    x = b.store.get(r)
                s.store[r] = x
            else:
                s.store[r] = m
        s.ctr = max(a.ctr, b.ctr)
        for r, t in b.types.items():
            s.types.setdefault(r, t)
        del s.facts[diff]
        if v != v2:
            v = ('ite', diff, v, v2) if fa[diff] else ('ite', diff, v2, v)
        return (s, k, v)

    @staticmethod
    def _bool(v):
        return v[0] == 'c' and isinstance(v[1], bool)

    def mergev(self, atom, pos, x, y):
        if x == y:
            return x
        if x[0] == 'rec' and y[0] == 'rec' and x[1] == y[1] and [k for k, _ in x[2]] == [k for k, _ in y[2]]:
            out = []
            for (k, p), (_, q) in zip(x[2], y[2]):
                m = self.mergev(atom, pos, p, q)
                if m is None:
                    return None
                out.append((k, m))
            return ('rec', x[1], tuple(out))
        if x[0] in self.SCALAR and y[0] in self.SCALAR and not self._bool(x) and not self._bool(y) and x[0] != 'undef' and y[0] != 'undef':
            return ('ite', atom, x, y) if pos else ('ite', atom, y, x)
        return None

    def dedupe(self, rs):
        seen = set(); out = []
        for s, k, v in rs:
            key = (s.key(), k, v)
            if key in seen:
                continue
            seen.add(key)
            out.append((s, k, v))
        return out

    def call_clo(self, clo, args, st, fr):
        lam = self.db.lambdas.get(clo[1])
        if lam is None:
            raise AnalysisError('unknown lambda')
        ops = lam['ops']
        op = ops[0]
        if len(ops) > 1:
            cand = [o for o in ops if len(o['params']) == len(args)]
            op = cand[0] if cand else op
        fr2 = Frame(st.fresh(), None, None, fr.depth + 1 if fr else 0)
        if fr2.depth > 80:
            raise AnalysisError('call depth in lambda')
        fr2.retref = is_ref(op.get('rt', ''))
        fr2.outer = clo[3] if len(clo) > 3 and isinstance(clo[3], tuple) else ()
        for cid, v in clo[2]:
            if cid == 'this':
                fr2.this = v
            elif v[0] == 'val':
                fr2.ntmp += 1
                root = ('T', fr2.id, fr2.ntmp)
                st.store[root] = v[1]
                fr2.caps[cid] = (root, ())
            else:
                fr2.caps[cid] = v
        self.bind_params(op['params'], args, st, fr2, fr)
        return self.finish_call(op['body'], st, fr2, None)

    def call_value(self, v, args, st, fr, where=None):
        """call a callable value"""
        if v[0] == 'ref':
            lt = self.loc_type(st, v[1])
            vv = self.rv(v, st)
            if vv[0] in ('clo', 'fn', 'memfn', 'null', 'ptr'):
                v = vv
            else:
                cls = vv[1][1] if vv[0] == 'rec' and vv[1][0] == 'new' else lt
                f = self.method(cls, 'operator()') if cls else None
                if f is not None:
                    return self.call_fn(f, v[1], args, st, fr)
                v = vv
        if v[0] == 'clo':
            return self.call_clo(v, args, st, fr)
        if v[0] == 'ptr':
            return self.call_value(self.get(st, v[1]), args, st, fr, where)
        if v[0] == 'fn':
            stub = self.stubs.get(v[2])
            if stub is not None:
                return stub(self, {'fn': {'qn': v[2], 'usr': v[1]}, 'l': where}, args, st, fr)
            f = self.db.fn.get(v[1])
            if f is not None and f.get('body') is not None:
                return self.call_fn(f, None, args, st, fr)
            return [(st, 'v', ('app', v[2], tuple(self.rv(a, st) for a in args)))]
        if v[0] == 'rec' and v[1][0] == 'new':
            f = self.method(v[1][1], 'operator()')
            if f is not None:
                r = self.tmp(st, fr, v, v[1][1])
                return self.call_fn(f, r[1], args, st, fr)
        if v[0] == 'null':
            return [(st, 'throw', ('exc', 'std::bad_function_call'))]
        # unknown (user supplied) callable: may do anything observable only through its result
        vals = tuple(self.rv(a, st) for a in args)
        st.emit(('usercb', v, vals, where, st.locks, tuple(self.deep(st, x) for x in vals)))
        s2 = st.copy()
        s2.emit(('cbthrow', v))
        if self.on_usercb is not None:
            return [(s3, k3, ('cbres', v, vals)) for s3, k3 in self.on_usercb(self, st, v, fr)] + [(s2, 'throw', ('exc', 'user'))]
        return [(st, 'v', ('cbres', v, vals)), (s2, 'throw', ('exc', 'user'))]

    def deep(self, st, v, n=0):
        """value with the references inside resolved"""
        if not isinstance(v, tuple) or n > 12:
            return v
        if len(v) == 2 and v[0] == 'ref' and isinstance(v[1], tuple):
            return self.deep(st, self.get(st, v[1]), n + 1)
        return tuple(self.deep(st, x, n + 1) for x in v)

    def method(self, cls, name):
        r = self.db.record(cls)
        if r is None:
            return None
        for m in r.get('methods', ()):
            if m['name'] == name and m['usr'] in self.db.fn and self.db.fn[m['usr']].get('body') is not None:
                return self.db.fn[m['usr']]
        for b in r.get('bases', ()):
            x = self.method(b['t'], name)
            if x:
                return x
        return None

    def e_call(self, e, st, fr):
        fn = e.get('fn')
        if fn is None:
            # call through a value
            def f(s, vs):
                return self.call_value(vs[0], vs[1:], s, fr, e.get('l'))
            return self.then(self.ev_list([e['callee']] + e.get('args', []), st, fr), f)
        if e.get('obj') is not None:
            def g(s, vs):
                o = vs[0]
                if e.get('arrow'):
                    ov = self.rv(o, s)
                    r = self.deref(s, ov)
                    if ov[0] == 'null':
                        r = ('ref', (('X', ('nullptr-deref',)), ()))
                else:
                    r = o if o[0] == 'ref' else o
                return self.invoke(e, fn, r, vs[1:], s, fr)
            # assignment operators evaluate the right operand first
            return self.then(self.ev_list([e['obj']] + e.get('args', []), st, fr), g)
        return self.then(self.ev_list(e.get('args', []), st, fr),
                         lambda s, vs: self.invoke(e, fn, None, vs, s, fr))

    def invoke(self, e, fn, obj, args, st, fr):
        qn = fn['qn']
        stub = self.stubs.get(qn)
        if stub is not None:
            if obj is not None:
                args = [obj] + list(args)
            self.called.add(fn['usr'])
            return stub(self, e, args, st, fr)
        u = fn['usr']
        if fn.get('lambda') and obj is not None:
            if fn.get('conv'):
                return [(st, 'v', self.rv(obj, st))]
            return self.call_value(obj, args, st, fr, e.get('l'))
        if fn.get('repo') or u in self.db.fn:
            if fn.get('virt') and not e.get('nonvirt') and obj is not None and obj[0] == 'ref':
                t = self.loc_type(st, obj[1])
                v0 = None
                if t is None:
                    vv = self.get(st, obj[1])
                    if vv[0] == 'rec' and vv[1][0] == 'new':
                        t = vv[1][1]
                if t is not None:
                    o = self.db.overrider(t, u)
                    if o:
                        u = o
                f = self.db.fn.get(u)
                if f is None or f.get('body') is None:
                    # pure virtual on an object of unknown class
                    vals = tuple(self.rv(a, st) for a in args)
                    ov = self.get(st, obj[1])
                    st.emit(('virt', qn, ov, vals))
                    return [(st, 'v', ('app', qn, (ov,) + vals))]
            f = self.db.fn.get(u)
            if f is not None and f.get('body') is not None and not f.get('defaulted'):
                this = None
                if obj is not None and not fn.get('static'):
                    this = self.as_ref(st, fr, obj, fn.get('cls'))[1]
                return self.call_fn(f, this, args, st, fr)
            if fn.get('assignop') and obj is not None:
                # implicit copy/move assignment
                self.set(st, obj[1], self.rv(args[0], st))
                return [(st, 'v', obj)]
            if fn.get('name', '').startswith('~'):
                return [(st, 'v', VOID)]
            if fn.get('lambda'):
                return self.call_value(args[0], args[1:], st, fr, e.get('l'))
        return self.m.call(self, e, fn, obj, args, st, fr)

    # ---- statements: return list of (st, kind, val); kinds n ret brk cont throw exit
    def ex(self, s, st, fr):
        if s is None:
            return [(st, 'n', None)]
        self.steps += 1
        self.curl = s.get('l') or self.curl
        if self.steps > 40_000_000:
            raise Limit('step limit')
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise AnalysisError('statement kind ' + s['k'])
        return m(s, st, fr)

    @staticmethod
    def norm(rs):
        return [(s, 'n' if k == 'v' else k, v) for s, k, v in rs]

    def s_seq(self, s, st, fr):
        locks = st.locks
        cur = [(st, 'n', None)]
        for x in s['s']:
            nxt = []
            for a, k, v in cur:
                if k == 'n':
                    nxt.extend(self.ex(x, a, fr))
                else:
                    nxt.append((a, k, v))
            cur = nxt
            if len(cur) > self.max_states:
                raise Limit('state explosion at ' + str(x.get('l')))
        for a, k, v in cur:
            a.locks = locks
        return cur

    def s_nop(self, s, st, fr):
        return [(st, 'n', None)]

    def s_expr(self, s, st, fr):
        return self.norm(self.ev(s['e'], st, fr))

    def s_decl(self, s, st, fr):
        cur = [(st, 'n', None)]
        for v in s['v']:
            nxt = []
            for a, k, x in cur:
                if k != 'n':
                    nxt.append((a, k, x)); continue
                nxt.extend(self.decl1(v, a, fr))
            cur = nxt
        return cur

    def decl1(self, v, st, fr):
        if v.get('id') is None:
            return [(st, 'n', None)]
        t = v.get('t', '')
        if v.get('static'):
            root = ('G', v.get('gk') or ('sl', fr.fn['usr'] if fr.fn else '', v['name']))
            if v.get('tls'):
                self.tls.add(root)
            if root not in st.types:
                st.types[root] = short(t)
            if root not in st.store and (self.ginit or t.startswith('const ')):
                if v.get('init') is not None:
                    def f0(s, x):
                        s.store[root] = self.rv(x, s)
                        return [(s, 'n', None)]
                    out = []
                    for s, k, x in self.ev(v['init'], st, fr):
                        out += f0(s, x) if k == 'v' else [(s, k, x)]
                    return out
                st.store[root] = self.default(t, st)
            return [(st, 'n', None)]
        root = ('L', fr.id, v['id'])
        init = v.get('init')
        binds = v.get('binds')
        if head(t) in GUARDS:
            def g(s, vs):
                locs = []
                ctor_args = vs
                for x in ctor_args:
                    if x[0] == 'ref':
                        locs.append(x[1])
                s.locks = s.locks + tuple(locs)
                s.store[root] = ('guard', tuple(locs))
                return [(s, 'v', VOID)]
            if init is not None and init['k'] == 'ctor':
                return self.norm(self.then(self.ev_list(init['args'], st, fr), g))
        def done(s):
            if binds:
                return self.do_binds(binds, s, fr)
            return [(s, 'n', None)]
        if init is None:
            st.store[root] = self.default(t, st)
            st.types[root] = short(t)
            return done(st)
        out = []
        if v.get('ref') or is_ref(t):
            for s, k, x in self.ev(init, st, fr):
                if k != 'v':
                    out.append((s, k, x)); continue
                s.store[root] = self.as_ref(s, fr, x, t)
                out += done(s)
            return out
        st.types[root] = short(t)
        st.store.pop(root, None)
        if self.db.record(t) is not None and init['k'] == 'ctor':
            rs = self.construct(init, (root, ()), st, fr)
            for s, k, x in rs:
                out += done(s) if k == 'v' else [(s, k, x)]
            return out
        for s, k, x in self.ev(init, st, fr):
            if k != 'v':
                out.append((s, k, x)); continue
            val = self.rv(x, s)
            s.store[root] = val
            out += done(s)
        return out

    def do_binds(self, binds, st, fr):
        cur = [(st, 'n', None)]
        for b in binds:
            e = b.get('hv') or b.get('e')
            nxt = []
            for s, k, v in cur:
                if k != 'n':
                    nxt.append((s, k, v)); continue
                for s2, k2, v2 in self.ev(e, s, fr):
                    if k2 != 'v':
                        nxt.append((s2, k2, v2)); continue
                    s2.store[('L', fr.id, b['id'])] = self.as_ref(s2, fr, v2)
                    nxt.append((s2, 'n', None))
            cur = nxt
        return cur

    def s_return(self, s, st, fr):
        if s.get('e') is None:
            return [(st, 'ret', VOID)]
        out = []
        for a, k, v in self.ev(s['e'], st, fr):
            if k == 'v':
                if not fr.retref:
                    v = self.rv(v, a)
                out.append((a, 'ret', v))
            else:
                out.append((a, k, v))
        return out

    def s_break(self, s, st, fr):
        return [(st, 'brk', None)]

    def s_continue(self, s, st, fr):
        return [(st, 'cont', None)]

    def s_if(self, s, st, fr):
        cur = [(st, 'n', None)]
        if s.get('init'):
            cur = self.ex(s['init'], st, fr)
        out = []
        if s.get('var'):
            nxt = []
            for a, k, v in cur:
                if k == 'n':
                    nxt += self.s_decl({'v': [s['var']]} if 'v' not in s['var'] else s['var'], a, fr)
                else:
                    nxt.append((a, k, v))
            cur = nxt
        for a, k, v in cur:
            if k != 'n':
                out.append((a, k, v)); continue
            if s.get('constexpr') and s.get('cv') is not None:
                br = s['t'] if s['cv'] else s.get('e')
                out += self.ex(br, a, fr)
                continue
            for a2, k2, v2 in self.cond(s['c'], a, fr):
                if k2 != 'v':
                    out.append((a2, k2, v2)); continue
                out += self.ex(s['t'] if v2 else s.get('e'), a2, fr)
        if 1 < len(out) < 12:
            out = self.merge(out)
        return out

    def s_switch(self, s, st, fr):
        cur = [(st, 'n', None)]
        if s.get('init'):
            cur = self.ex(s['init'], st, fr)
        out = []
        items = s['items']
        for a, k, v in cur:
            if k != 'n':
                out.append((a, k, v)); continue
            for a2, k2, v2 in self.evr(s['c'], a, fr):
                if k2 != 'v':
                    out.append((a2, k2, v2)); continue
                pend = [a2]
                for idx, it in enumerate(items):
                    if 'case' not in it:
                        continue
                    nx = []
                    for p in pend:
                        for p2, k3, cv in self.evr(it['case'], p, fr):
                            for p3, b in self.truth(p2, self.eq(v2, cv)):
                                if b:
                                    out += self.run_switch(items, idx, p3, fr)
                                else:
                                    nx.append(p3)
                    pend = nx
                di = [i for i, it in enumerate(items) if 'default' in it]
                for p in pend:
                    if di:
                        out += self.run_switch(items, di[0], p, fr)
                    else:
                        out.append((p, 'n', None))
        return out

    def run_switch(self, items, i, st, fr):
        cur = [(st, 'n', None)]
        locks = st.locks
        for it in items[i:]:
            if 's' not in it:
                continue
            nxt = []
            for a, k, v in cur:
                if k == 'n':
                    nxt += self.ex(it['s'], a, fr)
                else:
                    nxt.append((a, k, v))
            cur = nxt
        out = []
        for a, k, v in cur:
            a.locks = locks
            out.append((a, 'n' if k == 'brk' else k, v))
        return out

    def s_try(self, s, st, fr):
        locks = st.locks
        out = []
        for a, k, v in self.ex(s['b'], st, fr):
            if k != 'throw':
                out.append((a, k, v)); continue
            a.locks = locks
            caught = False
            for h in s['h']:
                m = self.catches(h, v)
                if m:
                    if h.get('var') is not None:
                        hv = h['var']
                        a.store[('L', fr.id, hv['id'])] = v
                    for a2, k2, v2 in self.ex(h['b'], a.copy() if m == 'maybe' else a, fr):
                        if k2 == 'throw' and v2 == ('exc', 'rethrow'):
                            v2 = v
                        out.append((a2, k2, v2))
                    if m == True:
                        caught = True
                        break
            if not caught:
                out.append((a, 'throw', v))
        return out

    EXC_PARENT = {
        'json:parse_error': 'json:exception', 'json:invalid_iterator': 'json:exception', 'json:type_error': 'json:exception',
        'json:out_of_range': 'json:exception', 'json:other_error': 'json:exception', 'json:exception': 'std:exception',
        'std:out_of_range': 'std:logic_error', 'std:length_error': 'std:logic_error', 'std:invalid_argument': 'std:logic_error',
        'std:domain_error': 'std:logic_error', 'std:logic_error': 'std:exception', 'std:runtime_error': 'std:exception',
        'std:range_error': 'std:runtime_error', 'std:overflow_error': 'std:runtime_error', 'std:system_error': 'std:runtime_error',
        'std:filesystem_error': 'std:system_error', 'std:failure': 'std:system_error', 'std:bad_alloc': 'std:exception',
        'std:bad_cast': 'std:exception', 'std:bad_any_cast': 'std:bad_cast', 'std:bad_optional_access': 'std:exception',
        'std:bad_variant_access': 'std:exception', 'std:bad_function_call': 'std:exception', 'std:bad_typeid': 'std:exception',
        'fmt:format_error': 'std:runtime_error',
        'CLI:ParseError': 'CLI:Error', 'CLI:ConstructionError': 'CLI:Error', 'CLI:Error': 'std:runtime_error',
    }
    @staticmethod
    def exc_name(t):
        t = short(t)
        last = t.rsplit('::', 1)[-1]
        if 'nlohmann' in t or 'json' in t:
            return 'json:' + last
        if 'fmt' in t.split('::')[0]:
            return 'fmt:' + last
        if t.startswith('CLI::'):
            return 'CLI:' + last
        if t.startswith('std::') or t.startswith('fs::'):
            return 'std:' + last
        return t
    def exc_bases(self, x):
        """x and every known base class of it"""
        out = []
        while x and x not in out:
            out.append(x)
            if x in self.EXC_PARENT:
                x = self.EXC_PARENT[x]
            elif x.split(':')[0] in ('json', 'fmt', 'CLI'):
                x = {'json': 'json:exception', 'fmt': 'std:runtime_error', 'CLI': 'CLI:ParseError'}[x.split(':')[0]]
            elif x.startswith('std:') and x != 'std:exception':
                x = 'std:exception'
            else:
                r = self.db.record(x)
                bs = [b.get('t', b) if isinstance(b, dict) else b for b in (r or {}).get('bases', ())]
                x = self.exc_name(bs[0]) if bs else None
        return out
    def catches(self, h, exc):
        if h.get('all'):
            return True
        t = self.exc_name(h.get('t') or (h.get('var') or {}).get('t', ''))
        if exc[1] == 'user':
            return 'maybe'
        x = self.exc_name(exc[1])
        if t in self.exc_bases(x):
            return True
        # the static type of what is thrown may only be a base of what really is
        if x in self.exc_bases(t) and x in ('json:exception', 'CLI:Error', 'CLI:ParseError'):
            return 'maybe'
        return False

    # ---- loops
    def s_rfor(self, s, st, fr):
        out = []
        cur = [(st, 'n', None)]
        if s.get('init'):
            cur = self.ex(s['init'], st, fr)
        for a, k, v in cur:
            if k != 'n':
                out.append((a, k, v)); continue
            for a2, k2, rng in self.ev(s['range'], a, fr):
                if k2 != 'v':
                    out.append((a2, k2, rng)); continue
                ref = self.as_ref(a2, fr, rng)
                var = s['var']
                def body(s3, el, var=var):
                    root = ('L', fr.id, var['id'])
                    if var.get('ref') or is_ref(var['t']):
                        s3.store[root] = el
                    else:
                        s3.store[root] = self.rv(el, s3)
                        s3.types[root] = short(var['t'])
                    rs = [(s3, 'n', None)]
                    if var.get('binds'):
                        rs = self.do_binds(var['binds'], s3, fr)
                    o = []
                    for s4, k4, v4 in rs:
                        o += self.ex(s['b'], s4, fr) if k4 == 'n' else [(s4, k4, v4)]
                    return o
                out += self.foreach(a2, ref, body, fr, s.get('l'))
        return out

    def foreach(self, st, ref, body, fr, where=None):
        """iterate the collection at ref; body(st, elemref) -> stmt outcomes.
        returns stmt outcomes with brk/cont resolved"""
        self.loops += 1
        loc = ref[1]
        v = self.peek(st, loc)
        return self._foreach(st, loc, v, body, fr, where, top=True)

    def _foreach(self, st, loc, v, body, fr, where, top=False):
        if v[0] == 'seq':
            cur = [(st, 'n', None)]
            for i, p in enumerate(v[1]):
                nxt = []
                ploc = (loc[0], loc[1] + (('part', i),))
                for a, k, x in cur:
                    if k != 'n':
                        nxt.append((a, k, x)); continue
                    if p[0] == 'one':
                        for a2, k2, x2 in body(a, ('ref', ploc)):
                            if k2 == 'cont':
                                k2 = 'n'
                            nxt.append((a2, k2, x2))
                    elif p[0] == 'many':
                        ks = {t for t in subterms(p[1]) if t[0] == 'elem' and t[2] == O}
                        nxt += self.star(a, lambda s: body(s, ('ref', ploc)), ks, where)
                    else:
                        nxt += self._foreach(a, ploc, p[1], body, fr, where)
                cur = nxt
            if top:
                cur = [(a, 'n' if k == 'brk' else k, x) for a, k, x in cur]
            return cur
        rs = self.symloop(st, loc, v, body, fr, where)
        if top:
            rs = [(a, 'n' if k == 'brk' else k, x) for a, k, x in rs]
        return rs

    def star(self, st, body, kill, where):
        """zero or more executions of body; returns outcomes"""
        seen = {}
        work = [st]
        out = []
        normal = []
        n = 0
        while work:
            s = work.pop()
            for q in kill:
                self.kill(s, q)
                self.manyfy(None, s, q)
            key = s.key()
            if key in seen:
                continue
            seen[key] = True
            normal.append(s)
            n += 1
            if n > 400:
                raise Limit('loop does not stabilise at ' + str(where))
            for a, k, x in body(s.copy()):
                if k in ('n', 'cont'):
                    self.collapse(a, s)
                    work.append(a)
                else:
                    out.append((a, k, x))
        return [(s, 'n', None) for s in normal] + self.dedupe(out)

    def collapse(self, a, before):
        """widening: equal parts appended by successive iterations become one summary part"""
        def conv(v):
            if not isinstance(v, tuple):
                return v
            if len(v) == 2 and v[0] == 'seq':
                ps = []
                for p in v[1]:
                    q = (p[0], conv(p[1]))
                    if q in ps:
                        ps[ps.index(q)] = ('many', q[1])
                        continue
                    if ('many', q[1]) in ps and q[0] in ('one', 'many'):
                        continue
                    ps.append(q)
                return ('seq', tuple(ps))
            if v[0] == 'rec':
                return ('rec', v[1], tuple((k, conv(x)) for k, x in v[2]))
            return v
        for r, v in list(a.store.items()):
            o = before.store.get(r)
            if o is not v and o != v and isinstance(v, tuple) and v[0] in ('seq', 'rec'):
                a.store[r] = conv(v)

    def kill(self, st, el):
        for f in [f for f in st.facts if mentions(f, el)]:
            del st.facts[f]

    def base_of(self, v):
        """underlying symbolic collection"""
        while True:
            if v[0] in ('rec', 'img', 'minus', 'filter'):
                v = v[1]
            else:
                return v

    def symloop(self, st, loc, v, body, fr, where):
        e = self.empty(v)
        if e == TRUE:
            return [(st, 'n', None)]
        base = self.base_of(v)
        # --- uniform attempt
        xk = X
        if any(mentions(val, X) for val in st.store.values()):
            xk = X + str(st.fresh())
        s1 = st.copy()
        nfacts = set(s1.facts)
        elx = ('ref', (loc[0], loc[1] + (('el', xk),)))
        rs = body(s1, elx)
        norm = [r for r in rs if r[1] in ('n', 'cont')]
        other = [r for r in rs if r[1] not in ('n', 'cont')]
        if len(norm) > 1:
            norm = self.dedupe([(a, 'n', None) for a, _, _ in norm])
        if len(norm) == 1 and all(r[1] in ('throw', 'exit') for r in other):
            r = self.summarise(st, norm[0][0], loc, v, base, xk, fr)
            if r is not None:
                s2, needs_nonempty = r
                out = []
                if needs_nonempty:
                    for a, b in self.truth(st.copy(), e):
                        if b:
                            out.append((a, 'n', None))
                        else:
                            s3 = s2.copy()
                            s3.facts.update(a.facts)
                            out.append((s3, 'n', None))
                else:
                    out.append((s2, 'n', None))
                for a, k, x in other:
                    for nm in (O, W):
                        a2 = self.inst(st, a, xk, nm)
                        if a2 is None:
                            continue
                        # exists an element: not empty
                        ok = [q for q in self.truth(a2, e) if not q[1]]
                        for q, _ in ok:
                            out.append((q, k, x))
                return out
        # --- o* w o*
        out = []
        for a, b in self.truth(st, e):
            if b:
                out.append((a, 'n', None)); continue
            def it(nm):
                er = ('ref', (loc[0], loc[1] + (('el', nm),)))
                return lambda s: body(s, er)
            okey = ('elem', base, O)
            def killo(s):
                pass
            pre = self.star(a, it(O), {okey}, where)
            mid = []
            for s, k, x in pre:
                if k != 'n':
                    out.append((s, k, x)); continue
                self.kill(s, okey)
                for s2, k2, x2 in it(W)(s):
                    if k2 in ('n', 'cont'):
                        mid.append(s2)
                    else:
                        out.append((s2, k2, x2))
            mid = [m for m, _, _ in self.dedupe([(m, 'n', None) for m in mid])]
            fin = []
            for m in mid:
                fin += self.star(m, it(O), {okey}, where)
            for s, k, x in fin:
                if k == 'n':
                    self.kill(s, okey)
                    self.manyfy(st, s, okey)
            out += fin
        return self.dedupe(out)

    def manyfy(self, st0, s, ok):
        """parts that mention the summary element 'o' stand for any number of elements"""
        def conv(v):
            if not isinstance(v, tuple) or not mentions(v, ok):
                return v
            if len(v) == 2 and v[0] == 'one' and isinstance(v[1], tuple):
                return ('many', v[1])
            if len(v) == 3 and v[0] == 'minus' and isinstance(v[2], tuple):
                # keys removed for earlier elements; elements have distinct keys
                ks = []
                for q in v[2]:
                    q = subst(q, ok, past)
                    if q not in ks:
                        ks.append(q)
                return ('minus', conv(v[1]), tuple(ks))
            return tuple(conv(x) for x in v)
        past = ('elem', ok[1], P)
        for r, v in list(s.store.items()):
            if mentions(v, ok):
                nv = conv(v)
                if nv is not v:
                    s.store[r] = self.renorm(nv)

    def renorm(self, v):
        if not isinstance(v, tuple):
            return v
        v = tuple(self.renorm(x) for x in v)
        if v and v[0] == 'seq' and len(v) == 2 and isinstance(v[1], tuple):
            return mkseq(v[1])
        return v

    def inst(self, st0, s1, xk, nm):
        """instantiate loop-variable key xk by element name nm in state s1"""
        s = s1.copy()
        a, b = ('el', xk), ('el', nm)
        def sb(t):
            t = subst(t, ('el', xk), ('el', nm))
            return self._subkey(t, xk, nm)
        for r, v in list(s.store.items()):
            if st0.store.get(r) is not v:
                s.store[r] = sb(v)
        s.facts = {sb(k): v for k, v in s.facts.items()}
        s.ev = tuple(sb(x) for x in s.ev)
        return s

    def _subkey(self, t, xk, nm):
        if not isinstance(t, tuple):
            return t
        if len(t) == 3 and t[0] == 'elem' and t[2] == xk:
            return ('elem', self._subkey(t[1], xk, nm), nm)
        return tuple(self._subkey(x, xk, nm) for x in t)

    def summarise(self, st, s1, loc, v, base, xk, fr):
        """all iterations behave alike: fold the effects of one generic iteration."""
        needs = False
        s = s1.copy()
        xel = ('elem', base, xk)
        def gen(old, new, is_coll_at=None):
            nonlocal needs
            if old == new:
                return new
            mx = mentions(new, xk)
            if new[0] == 'seq' or old[0] == 'seq':
                po, pn = seq_parts(old), seq_parts(new)
                if len(po) <= len(pn) and po and pn[:len(po)] != po and all(a[0] == b[0] for a, b in zip(po, pn)):
                    head_ = []
                    for a, b in zip(po, pn):
                        head_.append(a if a == b else (a[0], gen(a[1], b[1])))
                    pn = tuple(head_) + tuple(pn[len(po):])
                    po = tuple(head_)
                if pn[:len(po)] == po:
                    parts = list(po)
                    for p in pn[len(po):]:
                        if p[0] == 'one':
                            if mentions(p[1], xk):
                                parts.append(('all', self.mkimg(base, p[1], xk)))
                            else:
                                needs = True
                                parts.append(('many', p[1]))
                        elif p[0] == 'all' and mentions(p[1], xk):
                            parts.append(('all', ('flat', base, subst(p[1], xel, ('elem', base, X)))))
                        else:
                            needs = True
                            parts.append(p)
                    return mkseq(parts)
            if new[0] == 'rec':
                # element write?
                ob = old[1] if old[0] == 'rec' else old
                od = dict(old[2]) if old[0] == 'rec' else {}
                if new[1] == ob:
                    nd = {}
                    img = None
                    for k, x in new[2]:
                        if k == ('el', xk):
                            img = x
                            continue
                        o = od.get(k)
                        if o is None:
                            o = self.field(old, k) if not (isinstance(k, tuple) and k[0] == 'at') else ('absent',)
                        if o[0] == 'absent' and isinstance(k, tuple) and mentions(k, xk):
                            # map insertion keyed by the element
                            nd.setdefault('__ins', []).append((k[1], x))
                            continue
                        nd[k] = gen(o, x)
                    ins = nd.pop('__ins', [])
                    r = rec(ob, nd) if nd else ob
                    if img is not None:
                        r = self.mkimg2(r, img, base, xk)
                    for kk, x in ins:
                        r = append(r, ('all', self.mkimg(base, rec(('new', 'std::pair'), {'first': kk, 'second': x}), xk)))
                    return r
            if new[0] == 'img' and False:
                pass
            if new[0] == 'cat':
                po = old[1] if old[0] == 'cat' else ((old,) if old != ('c', '') else ())
                if new[1][:len(po)] == po:
                    rest = new[1][len(po):]
                    return cat(tuple(po) + (('joinimg', base, subst(cat(rest), xel, ('elem', base, X))),))
            if old == ('c', '') and mx:
                return ('joinimg', base, subst(new, xel, ('elem', base, X)))
            if new[0] == 'minus' and mx:
                ob = old if old[0] != 'minus' else old[1]
                if new[1] == ob:
                    return ('minusimg', old, subst(('k',) + tuple(x for x in new[2] if mentions(x, xk)), xel, ('elem', base, X)))
            needs = True
            if not mx and not mentions(new, old) :
                return new
            if not mx and old[0] in ('c', 'enum', 'undef'):
                return new
            if mx and not (len(repr(old)) > 3 and mentions(new, old)):
                return ('last', base, subst(new, xel, ('elem', base, X)))
            return ('fold', base, old, new)
        for r, nv in list(s1.store.items()):
            ov = st.store.get(r)
            if ov is nv or ov == nv:
                continue
            if r[0] in ('L', 'T') and r not in st.store:
                # locals of the body
                del s.store[r]
                continue
            if ov is None:
                ov = self.resolve_root(st, r)
                if ov == UNDEF:
                    continue
            if nv[0] == 'ref' or ov[0] == 'ref':
                if nv != ov:
                    del s.store[r]
                continue
            s.store[r] = gen(ov, nv)
            if mentions(s.store[r], xk):
                if xk != X:
                    s.store[r] = subst(s.store[r], xk, X)
        # events and facts
        new_ev = list(s1.ev[len(st.ev):]) if s1.ev[:len(st.ev)] == st.ev else [x for x in s1.ev if x not in st.ev]
        if new_ev:
            needs = True
            s.ev = st.ev
            for x in new_ev:
                if mentions(x, xk):
                    for nm in (O, W):
                        s.emit(self._subkey(subst(x, ('el', xk), ('el', nm)), xk, nm))
                else:
                    s.emit(x)
        facts = dict(st.facts)
        for k, val in s1.facts.items():
            if k in st.facts:
                continue
            if mentions(k, xk):
                for nm in (W,):
                    facts[self._subkey(k, xk, nm)] = val
            else:
                facts[k] = val
        s.facts = facts
        return s, needs

    def mkimg(self, base, val, xk):
        f = subst(self._subkey(val, xk, X) if xk != X else val, ('elem', base, xk), ('elem', base, X))
        if f == ('elem', base, X):
            return base
        return ('img', base, f)

    def mkimg2(self, v, val, base, xk):
        """every element of v replaced by val"""
        if v[0] == 'img':
            return ('img', v[1], self._subkey(val, xk, X))
        if v[0] == 'rec':
            d = {k: x for k, x in v[2] if not (isinstance(k, tuple) and k[0] == 'el')}
            inner = self.mkimg2(v[1], val, base, xk)
            return rec(inner, d) if d else inner
        return ('img', v, self._subkey(val, xk, X))

    # generic loops -------------------------------------------------------
    def s_for(self, s, st, fr):
        r = self.m.iter_for(self, s, st, fr)
        if r is not None:
            return r
        out = []
        cur = self.ex(s.get('init'), st, fr) if s.get('init') else [(st, 'n', None)]
        for a, k, v in cur:
            if k != 'n':
                out.append((a, k, v)); continue
            out += self.while_loop(a, s.get('c'), s.get('inc'), s['b'], fr, s.get('l'))
        return out

    def s_while(self, s, st, fr):
        r = self.m.iter_while(self, s, st, fr)
        if r is not None:
            return r
        return self.while_loop(st, s['c'], None, s['b'], fr, s.get('l'))

    def s_do(self, s, st, fr):
        out = []
        for a, k, v in self.ex(s['b'], st, fr):
            if k in ('n', 'cont'):
                out += self.while_loop(a, s['c'], None, s['b'], fr, s.get('l'))
            else:
                out.append((a, 'n' if k == 'brk' else k, v))
        return out

    def while_loop(self, st, c, inc, body, fr, where):
        """generic loop: exact unrolling while conditions are decided, then a
        small bound of undecided iterations (facts of later iterations havocked)"""
        out = []
        work = [(st, 0)]
        seen = set()
        n = 0
        while work:
            a, und = work.pop()
            n += 1
            if n > 3000:
                raise Limit('loop at ' + str(where))
            a0 = len(a.facts)
            cr = self.cond(c, a, fr) if c is not None else [(a, 'v', True)]
            for b, k, v in cr:
                if k != 'v':
                    out.append((b, k, v)); continue
                if not v:
                    out.append((b, 'n', None)); continue
                u2 = und + (1 if len(cr) > 1 else 0)
                if u2 > 2:
                    continue
                for d, k2, v2 in self.ex(body, b, fr):
                    if k2 in ('n', 'cont'):
                        rs = self.ev(inc, d, fr) if inc is not None else [(d, 'v', None)]
                        for d2, k3, v3 in rs:
                            if k3 == 'v':
                                key = (d2.key(), u2)
                                if key not in seen:
                                    seen.add(key)
                                    work.append((d2, u2))
                            else:
                                out.append((d2, k3, v3))
                    else:
                        out.append((d, 'n' if k2 == 'brk' else k2, v2))
        return self.dedupe(out)

def s_loc(loc):
    return loc
