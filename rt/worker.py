"""Runs the suites of one property against the real code.

usage: worker.py PROPERTY (search SECONDS | replay) [< cases]
"""
import json
import os
import random
import sys
import time
import signal
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(5000)
import warnings
warnings.filterwarnings('ignore')
import common

MODULES = {}
def load(prop):
    import importlib
    for m in sorted(f[:-3] for f in os.listdir(HERE) if f.startswith('s_') and f.endswith('.py')):
        src = open(os.path.join(HERE, m + '.py')).read()
        if "@suite('%s')" % prop in src: importlib.import_module(m)
    return common.SUITES.get(prop, [])

class TooLong(Exception): pass
def on_alarm(sig, frm): raise TooLong()

def run_case(s, case, limit=60):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return s.check(case)
    except common.Fail as f:
        return str(f)
    except (TooLong, common.Skip):
        return None
    except Exception as e:
        return 'unexpected %s: %s [%s]' % (type(e).__name__, e,
            traceback.format_exc().strip().split('\n')[-3].strip())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def main():
    prop, mode = sys.argv[1], sys.argv[2]
    out = {'suites': [], 'failures': []}
    suites = load(prop)
    if mode == 'replay':
        for line in sys.stdin:
            r = json.loads(line)
            for s in suites:
                if s.name == r['suite']:
                    msg = run_case(s, r['case'])
                    if msg is not None: out['failures'].append({'suite': s.name, 'case': r['case'], 'message': msg})
        print(json.dumps(out))
        return
    seconds = float(sys.argv[3])
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    maxfail = 3
    only = sys.argv[4].split(',') if len(sys.argv) > 4 else None
    suites = [s for s in suites if only is None or s.name in only]
    total = sum(getattr(s, 'weight', 1.0) for s in suites) or 1
    for s in suites:
        rng = random.Random('%s %s %s %s' % (seed, prop, s.name, os.environ.get('VERIF_SHARD', '')))
        n, distinct, samples = 0, set(), []
        t0 = time.time()
        share = seconds * getattr(s, 'weight', 1.0) / total
        nf = 0
        cap = getattr(s, 'max_cases', None)
        for case in s.gen(rng, tier):
            key = json.dumps(case)
            if key in distinct:
                if time.time() - t0 > share: break
                continue
            distinct.add(key)
            n += 1
            msg = run_case(s, case)
            if len(samples) < 3 and n in (1, 7, 40): samples.append(case)
            if msg is not None:
                out['failures'].append({'suite': s.name, 'case': case, 'message': msg})
                nf += 1
                if nf >= maxfail: break
            if time.time() - t0 > share or (cap and n >= cap): break
        out['suites'].append({'name': s.name, 'evaluations': n, 'distinct': len(distinct),
            'samples': samples, 'seconds': round(time.time() - t0, 2), 'bound': (s.__doc__ or '').strip()})
    print(json.dumps(out))

main()
