"""Abstract run of one custom generator: construct, register ids, Build(), run its task graph."""
from base import *
import models
from models import run_task

CG = 'buildcc::CustomGenerator'
USCH = 'buildcc::UserCustomGeneratorSchema'
CSER = 'buildcc::internal::CustomGeneratorSerialization'
G = (('S', 'gen'), ())

class GNames:
    def __init__(self, db):
        self.user = field_of_type(db, CG, USCH, 'registered ids')
        self.ser = field_of_type(db, CG, CSER, 'serialization')
        o = (('S', 'ser'), ())
        self.load = Names._last(getter_loc(db, CSER, 'GetLoad', o))
        self.store = Names._last(getter_loc(db, CSER, 'GetStore', o))
        v = getter_loc(db, CSER, 'IsLoaded', o)
        if v[0] != 'fld':
            raise AnalysisError('anchor: IsLoaded does not return a member')
        self.loaded = v[2]
        ids = [n for n, f in db.all_fields(USCH) if head(short(f['t'])) in ('std::unordered_map', 'std::map') and 'UserIdInfo' in f['t']]
        iids = [n for n, f in db.all_fields('buildcc::internal::CustomGeneratorSchema') if head(short(f['t'])) in ('std::unordered_map', 'std::map')]
        if len(ids) != 1 or len(iids) != 1:
            raise AnalysisError('anchor: generator id maps')
        self.ids, self.iids = ids[0], iids[0]

def pair(k, v):
    return rec(('new', 'std::pair'), {'first': k, 'second': v})

def umap(items):
    return ('seq', tuple(('one', pair(C(k), v)) for k, v in items))

class Gen:
    def __init__(self, ctx, oracle, ids, prev, stubs=None, fresh_load=True):
        """ids: current ids, prev: recorded ids or None (no usable record)"""
        db = self.db = ctx.db
        self.n = GNames(db)
        self.E, st, self.fr = ctx.engine(oracle, stubs)
        self.E.ginit = False
        E, fr, n = self.E, self.fr, self.n
        def lf(E, e, args, s, f):
            loc = args[0][1]
            if prev is not None:
                r = rec(('init', 'load'), {n.iids: umap([(i, ('init', 'prev_' + i)) for i in prev])})
                E.set(s, (loc[0], loc[1] + (n.load,)), r)
            E.set(s, (loc[0], loc[1] + (n.loaded,)), C(prev is not None))
            s.emit(('load', loc))
            return V(s, C(prev is not None))
        if fresh_load:
            E.stubs['buildcc::internal::SerializationInterface::LoadFromFile'] = lf
        ct = [f for f in db.byqn.get(CG + '::CustomGenerator', ()) if f.get('ctor') == 'other' and f.get('body') is not None]
        if not ct:
            raise AnalysisError('anchor vanished: CustomGenerator constructor')
        env = (('S', 'tenv'), ()); st.types[env[0]] = 'buildcc::TargetEnv'
        st.types[G[0]] = CG
        st.store[G[0]] = ('new', CG)
        args = [('ref', env) if short(p['t']) == 'buildcc::TargetEnv' else ('init', 'gname') for p in ct[0]['params']]
        self.start = []
        for s, k, v in E.run_ctor(ct[0], CG, G, args, st, fr):
            if k == 'v':
                E.set(s, (G[0], (n.user, n.ids)), umap([(i, ('init', 'cur_' + i)) for i in ids]))
                s.ev = ()
                self.start.append(s)

    def full(self):
        E, fr = self.E, self.fr
        out = []
        for s in self.start:
            for s2, k2, v2 in E.call_fn(self.db.func(CG + '::Build'), G, [], s, fr):
                if k2 != 'v':
                    continue
                E.worker = True
                cur = [s2]
                for e in [e for e in s2.ev if e[0] == 'emplace']:
                    nxt = []
                    for a in cur:
                        for b, k, v in run_task(E, a, e[2][2], e[2], fr):
                            if k == 'exit':
                                b.emit(('process-exit', e[2]))
                            nxt.append(b)
                    cur = nxt
                E.worker = False
                out += cur
        E.paths += len(out)
        return out

    def task_state(self, s):
        f = self.db.func('buildcc::env::get_task_state')
        return self.E.call_fn(f, None, [], s.copy(), self.fr)[0][2]
