#!/usr/bin/env python3
"""check.py <property id> : decide one property of /repo from its source (see DESIGN.md).

exit 0  every decided obligation holds (known findings are listed, not reported as violations)
exit 1  VIOLATION: some obligation is violated, with the construct in the replay file
exit 2  analysis broken: anchors vanished or nothing could be decided
"""
import importlib
import json
import os
import resource
import signal
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from sa.scenario import Analysis, Vanished, Timeout, nested  # noqa: E402


def known(pid):
    p = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)['findings'] if e.get('property') == pid]


def main():
    pid = sys.argv[1]
    root = os.environ.get('VERIF_REPO', '/repo')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in sys.argv
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))     # a MemoryError is undecided; being killed is no answer
    rule = importlib.import_module('rules.' + pid)
    an = Analysis(root)
    broken = None

    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, float(os.environ.get('VERIF_LIMIT', '780')))
    try:
        if os.environ.get('NESTED') != 'only':
            rule.run(an, tier)
        if getattr(rule, 'NESTED', False) or os.environ.get('NESTED'):      # once more with names that are parts of one another
            an.names = nested
            rule.run(an, tier)
    except Vanished as e:
        broken = 'anchor vanished: %s' % e
    except Timeout:
        an.record('analysis', 'undecided', 'analysis time limit', '')
    except Exception as e:      # a construct the machinery cannot handle: what was decided before it still counts
        if verbose:
            import traceback
            traceback.print_exc()
        an.record('analysis', 'undecided', 'analysis stopped: %s: %s' % (type(e).__name__, e), '')
    signal.setitimer(signal.ITIMER_REAL, 0)

    kf = known(pid)
    kkeys = {e['key']: e for e in kf}
    ok = [o for o in an.obs if o.status == 'ok']
    und = [o for o in an.obs if o.status == 'undecided']
    bad = [o for o in an.obs if o.status == 'violated']
    new = [o for o in bad if o.key not in kkeys]
    hit = [o for o in bad if o.key in kkeys]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join('evidence', pid + '.violation.txt')
    rp = os.path.join(HERE, replay)
    if os.path.exists(rp):
        os.remove(rp)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static: abstract interpretation of the repository source (gated value-dependence terms, no execution, no solver). '
                           'Each obligation is a fact about all values of the opaque inputs of one client scenario; rule: ' + rule.RULE,
            'obligations': len(an.obs), 'discharged': len(ok), 'undecided': len(und), 'violated': len(bad), 'known_findings_hit': len(hit),
            'scenarios': an.counts.get('scenarios', 0),
            'functions_analysed': len(an.functions), 'source_lines_analysed': len(an.lines),
            'functions': sorted(str(f) for f in an.functions)[:400],
            'undecided_obligations': sorted({'%s: %s' % (o.oid, o.detail[:160]) for o in und})[:60],
            'samples': ['%s: %s [%s]' % (o.oid, o.detail, an.where(o.at) if isinstance(o.at, (str, list)) and ':' in str(o.at) and '.py' not in str(o.at) else o.at) for o in ok[:8]],
            'limits': getattr(rule, 'LIMITS', ''),
        },
        'assumptions': getattr(rule, 'ASSUMPTIONS', []) + COMMON,
        'violations': len(new),
        'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d obligations in %d scenarios: %d hold, %d violated (%d known), %d undecided; %d functions, %d source lines analysed; %.1f s'
          % (pid, len(an.obs), an.counts.get('scenarios', 0), len(ok), len(bad), len(hit), len(und), len(an.functions), len(an.lines), time.time() - t0))
    if verbose:
        for o in und:
            print('  undecided', o.oid, o.detail[:600])
    for e in kf:
        if any(o.key == e['key'] for o in hit):
            print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    if new:
        with open(rp, 'w') as f:
            f.write('property %s\nrule: %s\nreplay: python3 check.py %s -v\n\n' % (pid, rule.RULE, pid))
            for o in new:
                f.write('obligation %s (key %s)\n  %s\n  at %s\n\n' % (o.oid, o.key, o.detail, o.at))
        for o in new[:12]:
            print('  violated %s (key %s): %s\n     at %s' % (o.oid, o.key, o.detail[:1500], o.at))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if broken:
        print('analysis broken: %s' % broken)
        return 2
    if not ok and not hit:
        print('analysis broken: no obligation could be decided')
        for o in und[:5]:
            print('  undecided', o.oid, o.detail[:300])
        return 2
    return 0


COMMON = [
    'Distinct opaque names denote distinct objects unless the scenario says otherwise (generic-name assumption); opaque numbers are finite reals (float rounding, nan and inf are not modelled).',
    'Python and library semantics are those encoded in sa/interp.py and sa/models.py; library calls outside the model are uninterpreted.',
    'Scenarios use a fixed small number of members (variables, streams, equations) with arbitrary content; behaviour that depends on larger counts is not covered.',
    'Obligations the analysis cannot decide are counted as undecided and are not reported as violations.',
]

if __name__ == '__main__':
    sys.exit(main())
