#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]
exit 0: property holds on the current tree; 1: violation; 2: no answer"""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
MODULES = ('checks_target', 'checks_schema', 'checks_gen', 'checks_api', 'checks_cmd', 'checks_tool', 'checks_reg', 'checks_misc', 'checks_env', 'checks_app')

def findings(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                if key.startswith('key='):
                    out.append((key[4:], what))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from base import Ctx, Report
    from extract import AnalysisError
    fn = None
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, 'analysis', m + '.py')):
            mod = importlib.import_module(m)
            fn = getattr(mod, pid.lower(), None)
            if fn:
                break
    if fn is None:
        print('unknown property', pid); return 2
    rep = None
    try:
        ctx = Ctx(tier)
        rep = Report(pid)
        fn(ctx, rep)
        if rep.obligations == 0 and not rep.viol:
            raise AnalysisError('no obligation was generated')
    except Exception as e:
        if os.environ.get('VERIF_TRACE') or not isinstance(e, AnalysisError):
            traceback.print_exc()
        # violations established before the analysis had to stop stand; otherwise there is no answer
        if rep is None or not rep.viol:
            print('ANALYSIS-ERROR property=%s %s' % (pid, e))
            return 2
        print('ANALYSIS-INCOMPLETE property=%s %s' % (pid, e))
    known = findings(pid)
    new = []
    hit = []
    for key, where, msg in rep.viol:
        k = [w for kk, w in known if kk == key]
        if k:
            hit.append((key, where, k[0]))
        else:
            new.append((key, where, msg))
    evd = os.environ.get('VP_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    fnames = sorted({ctx.db.fn[u]['qn'] for u in rep.functions if u in ctx.db.fn})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': (fn.__doc__ or '').strip() or 'abstract interpretation of the extracted program, see DESIGN.md',
            'obligations': rep.obligations,
            'violating': len(rep.viol),
            'functions_analysed': len(fnames),
            'functions': fnames[:300],
            'abstract_paths': rep.paths,
            'loops_summarised': rep.loops,
            'conditions_split_or_decided': len(rep.atoms),
            'translation_units': len(ctx.db.tus) if hasattr(ctx.db, 'tus') else 0,
            'uninterpreted_library_functions': sorted(rep.unmodelled)[:40],
            'samples': rep.samples[:12],
            'counts': rep.counts,
        },
        'assumptions': rep.notes,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    for key, where, what in hit:
        print('KNOWN-FINDING: property=%s %s [%s at %s]' % (pid, what, key, where))
    if new:
        rp = os.path.join(evd, pid + '.replay.txt')
        with open(rp, 'w') as f:
            for key, where, msg in new:
                f.write('%s\n  at   %s\n  why  %s\n' % (key, where, msg))
            f.write('re-run: cd /verif && python3 check.py %s\n' % pid)
        for key, where, msg in new[:20]:
            print('%s: %s [%s]' % (where, msg, key))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d functions=%d paths=%d wall=%.1fs' % (pid, rep.obligations, len(fnames), rep.paths, time.time() - t0))
    return 0

if __name__ == '__main__':
    sys.exit(main())
