"""Abstract build of one target: construct Target, Build(), run its task graph."""
from engine import *
import models
from models import run_task
from pp import pp

NS = 'buildcc::'
SCHEMA = 'buildcc::internal::TargetSchema'
TSER = 'buildcc::internal::TargetSerialization'
USER = ('init', 'user')
LOAD = ('init', 'load')
PATHINFO_T = 'buildcc::internal::PathInfoList'

def V(st, v):
    return [(st, 'v', v)]

def noop(E, e, args, st, fr):
    return V(st, VOID)

def st_execute(E, e, args, st, fr):
    cmd = E.rv(args[0], st)
    out = []
    for s, b in E.truth(st, ('execok', cmd)):
        s.emit(('exec', cmd, b, e.get('l')))
        out.append((s, 'v', C(b)))
    return out

def st_construct(E, e, args, st, fr):
    vals = tuple(E.rv(a, st) for a in args)
    return V(st, ('app', 'Construct', vals))

def st_save(E, e, args, st, fr):
    vals = tuple(E.rv(a, st) for a in args)
    out = []
    for s, b in E.truth(st, ('saveok', vals[0])):
        s.emit(('save', vals[0], vals[1], b, e.get('l')))
        out.append((s, 'v', C(b)))
    return out

def st_load(E, e, args, st, fr):
    vals = tuple(E.rv(a, st) for a in args)
    out = []
    for s, b in E.truth(st, ('loadok', vals[0])):
        s.emit(('loadfile', vals[0], b, e.get('l')))
        if b and args[2][0] == 'ptr':
            E.set(s, args[2][1], ('filecontent', vals[0]))
        elif b and vals[2][0] == 'ptr':
            E.set(s, vals[2][1], ('filecontent', vals[0]))
        out.append((s, 'v', C(b)))
    return out

def st_fatal(E, e, args, st, fr):
    st.emit(('fatal',))
    if getattr(E, 'worker', False):
        return [(st, 'throw', ('exc', 'std::exception'))]
    return [(st, 'exit', ('exit', (C(1),)))]

def base_stubs(db):
    stubs = {}
    for q in db.byqn:
        if q.startswith('buildcc::env::log_') or q.startswith('buildcc::env::set_log_'):
            stubs[q] = noop
    for q in ('buildcc::env::log_trace', 'buildcc::env::log_debug', 'buildcc::env::log_info', 'buildcc::env::log_warning', 'buildcc::env::log_critical'):
        stubs[q] = noop
    stubs['buildcc::env::Command::Execute'] = st_execute
    stubs['buildcc::env::Command::Construct'] = st_construct
    stubs['buildcc::env::save_file'] = st_save
    stubs['buildcc::env::load_file'] = st_load
    stubs['buildcc::env::assert_handle_fatal'] = st_fatal
    return stubs

def field_of_type(db, cls, t, what):
    fs = [n for n, f in db.all_fields(cls) if short(f['t']) == t]
    if len(fs) != 1:
        raise AnalysisError('anchor: %s has %d members of type %s (%s)' % (cls, len(fs), t, what))
    return fs[0]

def getter_loc(db, cls, getter, obj):
    """location a const getter returns for object at obj"""
    E = Engine(db, None, base_stubs(db))
    st = St(); fr = Frame(st.fresh(), None, None, 0)
    st.types[obj[0]] = cls
    f = db.func(cls + '::' + getter) if (cls + '::' + getter) in db.byqn else E.method(cls, getter)
    if f is None:
        raise AnalysisError('anchor vanished: ' + cls + '::' + getter)
    rs = E.call_fn(f, obj, [], st, fr)
    return rs[0][2]

def enumv(db, qn, name):
    for e in db.enums.get(qn, {'e': ()})['e']:
        if e['name'] == qn + '::' + name:
            return ('enum', e['name'], e['v'])
    raise AnalysisError('anchor vanished: ' + qn + '::' + name)

class Names:
    """private members located through types and public getters"""
    def __init__(self, db):
        self.user = field_of_type(db, 'buildcc::Target', SCHEMA, 'user schema')
        self.ser = field_of_type(db, 'buildcc::Target', TSER, 'serialization')
        o = (('S', 'ser'), ())
        r = getter_loc(db, TSER, 'GetLoad', o)
        self.load = self._last(r)
        r = getter_loc(db, TSER, 'GetStore', o)
        self.store = self._last(r)
        v = getter_loc(db, TSER, 'IsLoaded', o)
        self.loaded = v[2] if v[0] == 'fld' else None
        if self.loaded is None:
            raise AnalysisError('anchor: IsLoaded does not return a member')
    @staticmethod
    def _last(r):
        if r[0] != 'ref' or not r[1][1]:
            raise AnalysisError('anchor: record getter does not return a member')
        return r[1][1][-1]

T = (('S', 'target'), ())

def schema_fields(db):
    """field -> kind (info: PathInfoList, list, bool, other)"""
    out = {}
    for n, f in db.all_fields(SCHEMA):
        t = short(f['t'])
        if t == PATHINFO_T:
            out[n] = 'info'
        elif t == 'bool':
            out[n] = 'bool'
        elif head(t) == 'std::vector' or t == 'buildcc::internal::PathList':
            out[n] = 'list'
        else:
            out[n] = 'other'
    return out

def fields_under(t, root, out=None):
    """top level fields of `root` that t mentions; '*' if root itself is used"""
    out = set() if out is None else out
    stack = [t]; seen = set()
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if len(x) == 3 and x[0] == 'fld' and x[1] == root:
            out.add(x[2]); continue
        if x == root:
            out.add('*'); continue
        stack.extend(x)
    return out

class Build:
    """one abstract build of a target under a scenario"""
    def __init__(self, db, names, oracle, ext='Cpp', ttype='Executable', stubs=None, fresh_load=True):
        self.db = db
        self.n = names
        self.E = Engine(db, oracle, base_stubs(db))
        self.E.worker = False
        self.E.ginit = False
        self.E.stubs.update(stubs or {})
        st = self.st = St()
        self.fr = Frame(st.fresh(), None, None, 0)
        self.ext = ext
        fx = enumv(db, 'buildcc::FileExt', ext)
        self.E.stubs['buildcc::ToolchainConfig::GetFileExt'] = lambda E, e, a, s, f: V(s, fx)
        self.ttype = enumv(db, 'buildcc::TargetType', ttype)
        if fresh_load:
            def lf(E, e, args, s, f):
                loc = args[0][1]
                E.set(s, (loc[0], loc[1] + (names.load,)), LOAD)
                E.set(s, (loc[0], loc[1] + (names.loaded,)), ('init', 'loaded'))
                s.emit(('load', loc))
                return V(s, ('init', 'loaded'))
            self.E.stubs['buildcc::internal::SerializationInterface::LoadFromFile'] = lf

    def run(self):
        E, st, fr = self.E, self.st, self.fr
        tc = (('S', 'toolchain'), ()); st.types[tc[0]] = 'buildcc::Toolchain'
        env = (('S', 'tenv'), ()); st.types[env[0]] = 'buildcc::TargetEnv'
        cfg = (('S', 'tconfig'), ()); st.types[cfg[0]] = 'buildcc::TargetConfig'
        ct = [f for f in self.db.byqn.get('buildcc::Target::Target', ()) if f.get('ctor') == 'other' and f.get('body') is not None]
        if not ct:
            raise AnalysisError('anchor vanished: Target constructor')
        st.types[T[0]] = 'buildcc::Target'
        st.store[T[0]] = ('new', 'buildcc::Target')
        ct = ct[0]
        known = {'buildcc::Toolchain': ('ref', tc), 'buildcc::TargetEnv': ('ref', env), 'buildcc::TargetConfig': ('ref', cfg), 'buildcc::TargetType': self.ttype}
        args = [known.get(short(p['t']), ('init', 'tname')) for p in ct['params']]
        rs = E.run_ctor(ct, 'buildcc::Target', T, args, st, fr)
        self.ctor = rs
        out = []
        b = self.db.func('buildcc::Target::Build')
        for s, k, v in rs:
            if k != 'v':
                continue
            E.set(s, (T[0], (self.n.user,)), USER)
            s.ev = ()
            out += E.call_fn(b, T, [], s, fr)
        self.built = out
        return out

    def tasks(self, s):
        """(tasks in emplacement order, edges)"""
        ts = [e[2] for e in s.ev if e[0] == 'emplace']
        ed = [(e[1], e[2]) for e in s.ev if e[0] == 'edge']
        return ts, ed

    def topo(self, ts, ed):
        out = []
        left = list(ts)
        while left:
            for t in left:
                if not any(b == t and a in left and a != t for a, b in ed):
                    out.append(t); left.remove(t)
                    break
            else:
                raise AnalysisError('task graph of the target has a cycle')
        return out

    def run_tasks(self, s):
        E = self.E
        ts, ed = self.tasks(s)
        order = self.topo(ts, ed)
        E.worker = True
        cur = [s]
        for t in order:
            nxt = []
            for a in cur:
                for b, k, v in run_task(E, a, t[2], t, self.fr):
                    if k == 'exit':
                        b.emit(('process-exit', t))
                    nxt.append(b)
            cur = [x for x, _, _ in E.dedupe([(q, 'n', None) for q in nxt])]
            if len(cur) > 4000:
                raise Limit('task states')
        E.worker = False
        return cur

    def full(self):
        out = []
        for s, k, v in self.run():
            if k == 'v':
                out += self.run_tasks(s)
        E = self.E
        E.paths += len(out)
        return out

    # ---- observations
    def val(self, s, *path):
        return self.E.get(s, (T[0], tuple(path)))
    def store(self, s):
        return self.val(s, self.n.ser, self.n.store)

    def task_state(self, s):
        f = self.db.func('buildcc::env::get_task_state')
        rs = self.E.call_fn(f, None, [], s.copy(), self.fr)
        return rs[0][2]

def role_of(cmd):
    """which command template an executed command was built from"""
    if cmd[0] == 'app' and cmd[1] == 'Construct' and len(cmd[2]) > 1:
        p = cmd[2][1]
        if p[0] == 'fld':
            return p[2]
    return None

def execs(s, role=None):
    return [e for e in s.ev if e[0] == 'exec' and (role is None or role_of(e[1]) == role)]
