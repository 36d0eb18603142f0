"""Extraction driver: parses every non-test translation unit of /repo with the
real build's flags through bccx (libTooling) and returns the JSON facts."""
import hashlib, json, os, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
BCCX = os.path.join(BUILD, 'bccx')
CACHE = os.environ.get('VP_CACHE') or os.path.join(BUILD, 'cache')

class AnalysisError(Exception):
    pass

INC = ['buildcc', 'buildcc/schema/include', 'buildcc/lib/env/include',
       'buildcc/lib/toolchain/include', 'buildcc/toolchains/include',
       'buildcc/lib/target/include', 'buildcc/targets/include',
       'buildcc/lib/args/include', 'buildcc/plugins/include',
       'buildexe/include', 'bootstrap/include']

def flags():
    r = ['-std=gnu++17', '-DFMT_SHARED', '-DSPDLOG_COMPILED_LIB',
         '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_SHARED_LIB', '-w',
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    for i in INC:
        r.append('-I%s/%s' % (REPO, i))
    r.append('-I' + os.path.join(VERIF, 'stubs'))
    # Taskflow 3.6 splits the algorithms in separate headers
    r += ['-include', 'taskflow/algorithm/for_each.hpp']
    return r

SKIPDIRS = {'test', 'mock', '_build', 'third_party', 'example', 'examples'}

def sources():
    out = []
    for top in ('buildcc', 'buildexe', 'bootstrap'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in SKIPDIRS)
            for f in sorted(fs):
                if f.endswith(('.cpp', '.cc', '.cxx')):
                    out.append(os.path.join(d, f))
    return out

INCRE = re.compile(r'^\s*#\s*include\s*[<"]([^>"]+)[>"]', re.M)

def closures(srcs):
    """source -> repository files it can include (over-approximated by path suffix), with contents"""
    txt = {}
    for top in ('buildcc', 'buildexe', 'bootstrap'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in SKIPDIRS)
            for f in fs:
                if f.endswith(('.cpp', '.cc', '.cxx', '.h', '.hpp', '.inl', '.ipp')):
                    p = os.path.join(d, f)
                    with open(p, 'rb') as fh:
                        txt[p] = fh.read()
    for s in srcs:
        if s not in txt:
            with open(s, 'rb') as fh:
                txt[s] = fh.read()
    by = {}
    for p in txt:
        by.setdefault(os.path.basename(p), []).append(p)
    inc = {}
    for p, t in txt.items():
        r = set()
        for m in INCRE.findall(t.decode('utf-8', 'replace')):
            if '..' in m:
                r |= set(by.get(os.path.basename(m), ()))
            else:
                r |= {q for q in by.get(os.path.basename(m), ()) if q.endswith('/' + m)}
        inc[p] = r
    out = {}
    for s in srcs:
        seen, todo = {s}, [s]
        while todo:
            for q in inc[todo.pop()]:
                if q not in seen:
                    seen.add(q); todo.append(q)
        out[s] = seen
    return out, txt

def tu_keys(srcs):
    h0 = hashlib.sha256()
    for p in ('tool/extract.cpp', 'analysis/extract.py', 'stubs/process.hpp'):
        with open(os.path.join(VERIF, p), 'rb') as fh:
            h0.update(fh.read())
    cl, txt = closures(srcs)
    out = {}
    for s in srcs:
        h = h0.copy()
        for p in sorted(cl[s]):
            h.update(p.replace(REPO, '').encode() + b'\0' + txt[p] + b'\0')
        h.update(os.path.basename(s).encode())
        out[s] = h.hexdigest()[:24]
    return out

def build_tool(force=False):
    src = os.path.join(VERIF, 'tool/extract.cpp')
    stamp = os.path.join(BUILD, 'bccx.stamp')
    with open(src, 'rb') as f:
        want = hashlib.sha256(f.read()).hexdigest()
    if not force and os.path.exists(BCCX) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = BCCX + '.%d' % os.getpid()
    p = subprocess.run(['clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include',
                        src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1',
                        '-l:libLLVM.so.18.1'], capture_output=True, text=True)
    if p.returncode != 0:
        raise AnalysisError('extractor does not build:\n' + p.stderr[:4000])
    os.rename(tmp, BCCX)
    with open(stamp, 'w') as f:
        f.write(want)

def extract_all(verbose=False):
    """returns list of TU dicts"""
    build_tool()
    srcs = sources() + [os.path.join(VERIF, 'stubs/instantiate.cpp')]
    keys = tu_keys(srcs)
    os.makedirs(CACHE, exist_ok=True)
    fl = flags()
    def path(s):
        return os.path.join(CACHE, keys[s] + '.json')
    def one(s):
        out = path(s)
        if os.path.exists(out):
            return None
        tmp = out + '.%d' % os.getpid()
        p = subprocess.run([BCCX, REPO, os.path.join(VERIF, 'stubs'), tmp, s, '--'] + fl, capture_output=True, text=True)
        if p.returncode != 0 or not os.path.exists(tmp):
            return 'TU %s does not parse:\n%s' % (s, p.stderr[-3000:])
        os.rename(tmp, out)
        return None
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(one, srcs) if e]
    if errs:
        raise AnalysisError('\n'.join(errs))
    try:
        ents = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.endswith('.json')), key=os.path.getmtime)
        for d in ents[:-3000]:
            os.unlink(d)
    except OSError:
        pass
    tus = []
    for s in srcs:
        with open(path(s)) as f:
            tu = json.load(f)
        if tu.get('errors'):
            raise AnalysisError('TU %s has %s compile errors' % (s, tu['errors']))
        tus.append(tu)
    return tus

if __name__ == '__main__':
    t = time.time()
    tus = extract_all()
    print('%d TUs, %d functions, %.1fs' % (len(tus), sum(len(t['functions']) for t in tus), time.time() - t))
