"""shared context and reporting of the checks"""
import re
import extract
from engine import *
from target import *
from pp import pp

class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []            # (key, where, message)
        self.seen = set()
        self.obligations = 0
        self.samples = []
        self.functions = set()
        self.paths = 0
        self.loops = 0
        self.atoms = set()
        self.unmodelled = set()
        self.notes = []
        self.counts = {}

    def ob(self, ok, key, where, msg, sample=None):
        """one obligation"""
        self.obligations += 1
        if not ok:
            self.bad(key, where, msg)
        elif len(self.samples) < 12:
            self.samples.append(sample or (key + ' @ ' + str(where)))
        return ok

    def bad(self, key, where, msg):
        if key in self.seen:
            return
        self.seen.add(key)
        self.viol.append((key, where, msg))

    def use(self, E):
        self.functions |= set(E.called)
        self.paths += E.paths
        self.loops += E.loops
        self.atoms |= set(pp(a)[:200] for a in E.atoms)
        self.unmodelled |= set(E.unmodelled)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def need(self, n, what):
        if n <= 0:
            raise AnalysisError('nothing to decide: ' + what)

PLACE = re.compile(r'\{([A-Za-z_][A-Za-z0-9_]*)\}')

class Ctx:
    def __init__(self, tier='quick'):
        self.tier = tier
        self.db = DB(extract.extract_all())
        self._n = self._k = self._p = None

    @property
    def names(self):
        if self._n is None:
            self._n = Names(self.db)
        return self._n

    @property
    def kinds(self):
        if self._k is None:
            self._k = schema_fields(self.db)
            if len(self._k) < 8:
                raise AnalysisError('anchor: build record has only %d fields' % len(self._k))
        return self._k

    def engine(self, oracle=None, stubs=None):
        E = Engine(self.db, oracle, base_stubs(self.db))
        E.stubs.update(stubs or {})
        E.worker = False
        st = St()
        return E, st, Frame(st.fresh(), None, None, 0)

    def configs(self):
        """(name, value record) of every command configuration the library ships"""
        if self._p is None:
            out = []
            E, st, fr = self.engine()
            loc = (('S', 'cfg'), ())
            E.default_construct('buildcc::TargetConfig', loc, st, fr)
            out.append(('TargetConfig', E.get(st, loc), self.db.record('buildcc::TargetConfig').get('loc', '')))
            for q, fs in sorted(self.db.byqn.items()):
                for f in fs:
                    if f.get('static') and f.get('body') is not None and not f['params'] and \
                            short(f.get('rt') or '') == 'buildcc::TargetConfig' and 'ConfigInterface' not in q:
                        E, st, fr = self.engine()
                        for s, k, v in E.call_fn(f, None, [], st, fr):
                            if k == 'v':
                                out.append((q, E.rv(v, s), f['loc']))
            if len(out) < 4:
                raise AnalysisError('anchor: only %d command configurations found' % len(out))
            self._p = out
        return self._p

    def config_fields(self, v):
        E, st, fr = self.engine()
        d = {}
        for n, f in self.db.all_fields('buildcc::TargetConfig'):
            d[n] = E.field(v, n)
        return d

    def placeholders(self, role):
        """names used by any shipped pattern of this role"""
        out = set()
        for q, v, l in self.configs():
            p = self.config_fields(v).get(role)
            if p is None or p[0] != 'c':
                raise AnalysisError('anchor: %s of %s is not a constant' % (role, q))
            out |= set(PLACE.findall(p[1]))
        return out

def cmd_args(E, cmd):
    """placeholder -> value term for a constructed command"""
    if not (cmd[0] == 'app' and cmd[1] == 'Construct'):
        return None
    out = {}
    obj = cmd[2][0]
    colls = []
    if len(cmd[2]) > 2:
        colls.append(cmd[2][2])
    for x in subterms(obj):
        if x[0] == 'seq' or x[0] == 'rec':
            colls.append(x)
    for c in colls:
        collect_pairs(E, c, out)
    return out

def collect_pairs(E, c, out):
    if c[0] == 'seq':
        for p in c[1]:
            if p[0] in ('one', 'many'):
                k, v = E.field(p[1], 'first'), E.field(p[1], 'second')
                if k[0] == 'c' and isinstance(k[1], str):
                    out.setdefault(k[1], v)
            elif p[0] == 'all':
                collect_pairs(E, p[1], out)
    elif c[0] == 'rec':
        for k, v in c[2]:
            if isinstance(k, tuple) and k[0] == 'at' and k[1][0] == 'c':
                out.setdefault(k[1][1], E.field(v, 'second') if v[0] == 'rec' and any(x == 'second' for x, _ in v[2]) else v)
