"""Decides one property: discharges its proof obligations over the source in
/repo/src and runs the bounded suites of the functions out of reach.

usage: check.py PROPERTY [quick|thorough]
       check.py --replay FILE
"""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)

SRC = os.environ.setdefault('VC_SRC', '/repo/src')
PYPY = '/opt/venv/bin/python'
EVID = os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(EVID, 'replays')
KNOWN = os.path.join(HERE, 'known_findings.txt')

GENERAL_ASSUMPTIONS = [
    'floating-point and exact numbers are treated as mathematical extended reals; rounding is not modelled',
    'iteration order of a Python set is some order fixed by construction; strings are ordered by some total order',
    'hash values are treated as functions of what is hashed; collisions are not modelled',
    'partial correctness: termination of the verified functions is not proved',
    'the interpreter of the Python subset (pyvc/interp.py, pyvc/builtins_.py) is trusted to follow Python semantics',
]

# ---------------------------------------------------------------------------
# proof side

def run_task(arg):
    prop, tier, index, seed = arg
    import threading
    try:
        from proofs import registry
        t = registry.tasks(prop, tier)[index]
        scale = 4 if tier == 'thorough' else 1
        r = registry.execute(t, scale, cross=(tier == 'thorough'))
        refuted = [o for o in r.obligations if o.status == 'refuted']
        back = {}
        for o in r.obligations:
            if o.status == 'discharged': back[o.backend] = back.get(o.backend, 0) + 1
        cases, details = [], []
        for o in refuted:
            details.append({'obligation': o.name, 'detail': o.detail, 'counterexample': o.model})
            if t.cases and o.model:
                try:
                    cases.extend(t.cases(o.model))
                except Exception as e:
                    details[-1]['no_case'] = str(e)
        return dict(name=t.name, status=r.status, paths=r.paths, obligations=len(r.obligations),
            discharged=sum(o.status == 'discharged' for o in r.obligations),
            unknown=[o.name for o in r.obligations if o.status == 'unknown'][:5],
            names=sorted({o.name for o in r.obligations}),
            refuted=details, cases=cases, undecided=r.undecided[:5], functions=sorted(r.functions),
            trusted=sorted(r.trusted), backends=back, solver_s=round(r.solver_time, 3), queries=r.queries,
            wall_s=round(r.wall, 2), bound=t.bound, crossed=r.crossed)
    except BaseException as e:
        return dict(name='%s task %d' % (prop, index), status='undecided', paths=0, obligations=0, discharged=0,
            unknown=[], names=[], refuted=[], cases=[], functions=[], trusted=[], backends={}, solver_s=0,
            queries=0, wall_s=0, bound=None, crossed=0,
            undecided=['internal: %s: %s' % (type(e).__name__, traceback.format_exc()[-600:])])

# ---------------------------------------------------------------------------
# runtime side

class Runtime:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif_')
        os.symlink(SRC, os.path.join(self.dir, 'sppl'))
        self.env = dict(os.environ, PYTHONPATH=self.dir, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
            OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def popen(self, args, tier, shard=0, shards=1, stdin=None):
        env = dict(self.env, VERIF_TIER=tier, VERIF_SHARD='%d/%d' % (shard, shards))
        return subprocess.Popen([PYPY, os.path.join(HERE, 'rt', 'worker.py')] + args, env=env, cwd=self.dir,
            stdin=subprocess.PIPE if stdin else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    @staticmethod
    def result(p, timeout, stdin=None):
        try:
            out, err = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate()
            return None, 'timeout'
        try:
            return json.loads(out.strip().split('\n')[-1]), err
        except Exception:
            return None, (err or '')[-2000:]
    def replay(self, prop, cases, tier):
        if not cases: return []
        data = '\n'.join(json.dumps({'suite': s, 'case': c}) for s, c in cases)
        r, err = self.result(self.popen([prop, 'replay'], tier, stdin=True), 120, data)
        return r['failures'] if r else []

# ---------------------------------------------------------------------------

def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding:'):
                d = json.loads(line[len('finding:'):])
                if d.get('property') == prop: out.append(d)
    return out

def matches(finding, failure):
    return finding.get('suite') == failure['suite'] and finding.get('case') == failure['case']

def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + '-'): os.remove(os.path.join(REPLAYS, f))
    from proofs import registry
    tasks = registry.tasks(prop, tier)
    findings = known(prop)
    rt = Runtime()
    try:
        has_rt = any(("@suite('%s')" % prop) in open(os.path.join(HERE, 'rt', f)).read()
            for f in os.listdir(os.path.join(HERE, 'rt')) if f.startswith('s_') and f.endswith('.py'))
        seconds = float(os.environ.get('VERIF_RT_SECONDS') or (40 if tier == 'quick' else 400))
        shards = 3
        procs = [rt.popen([prop, 'search', str(seconds)], tier, i, shards) for i in range(shards)] if has_rt else []
        results = []
        if tasks:
            pool = mp.get_context('fork').Pool(min(len(tasks), 6 if procs else 8), maxtasksperchild=20)
            limit = 560 if tier == 'quick' else 3000
            jobs = [pool.apply_async(run_task, ((prop, tier, i, seed),)) for i in range(len(tasks))]
            for i, j in enumerate(jobs):
                try:
                    results.append(j.get(max(1, limit - (time.time() - t0))))
                except mp.TimeoutError:
                    results.append(dict(name=tasks[i].name, status='undecided', paths=0, obligations=0, discharged=0,
                        unknown=[], names=[], refuted=[], cases=[], functions=[], trusted=[], backends={}, solver_s=0,
                        queries=0, wall_s=0, bound=tasks[i].bound, crossed=0, undecided=['time limit']))
            pool.terminate()
        suites, failures, errors = {}, [], []
        for p in procs:
            r, err = rt.result(p, seconds * 3 + 240)
            if r is None:
                errors.append('bounded suites gave no answer: %s' % (err,))
                continue
            failures.extend(r['failures'])
            for s in r['suites']:
                u = suites.setdefault(s['name'], dict(name=s['name'], evaluations=0, distinct=0, samples=[], bound=s['bound']))
                u['evaluations'] += s['evaluations']
                u['distinct'] += s['distinct']
                u['samples'] = (u['samples'] + s['samples'])[:3]
        # counterexamples of the verifier, replayed on the real code
        violations, noinput, n = [], [], 0
        for r in results:
            if r['status'] != 'refuted': continue
            fs = rt.replay(prop, r['cases'][:12], tier)
            new = [f for f in fs if not any(matches(k, f) for k in findings)]
            if new:
                violations.append(dict(kind='replayed counterexample', task=r['name'], refuted=r['refuted'][:3], failures=new[:3],
                    suite=new[0]['suite'], case=new[0]['case'], message=new[0]['message']))
            elif not fs:
                noinput.append(r)
        seen = set()
        reported = set()
        for f in failures:
            k = [k for k in findings if matches(k, f)]
            if k:
                reported.add(json.dumps(k[0], sort_keys=True))
                continue
            if f['suite'] in seen: continue
            seen.add(f['suite'])
            violations.append(dict(kind='bounded suite', suite=f['suite'], case=f['case'], message=f['message'],
                failed_obligations=[(r['name'], x['obligation']) for r in results for x in r['refuted']][:5]))
        # every listed finding is still checked, and still reported
        for k in findings:
            if rt.replay(prop, [(k['suite'], k['case'])], tier):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        lines = []
        for v in violations:
            n += 1
            path = os.path.join(REPLAYS, '%s-%d.json' % (prop, n))
            with open(path, 'w') as fh: json.dump(dict(v, property=prop), fh, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        if noinput and not violations:
            # no input found for the failed obligations: search harder, then report
            for r in noinput:
                n += 1
                path = os.path.join(REPLAYS, '%s-%d.json' % (prop, n))
                with open(path, 'w') as fh:
                    json.dump(dict(property=prop, kind='failed obligation', task=r['name'], failed=r['refuted'],
                        verifier_output=dict((k, r[k]) for k in ('status', 'paths', 'obligations', 'discharged', 'undecided'))), fh, indent=1)
                lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        obligations = sum(r['obligations'] for r in results)
        discharged = sum(r['discharged'] for r in results if not r['bound'])
        bounded_ob = sum(r['obligations'] for r in results if r['bound'])
        undecided = [r for r in results if r['status'] in ('undecided', 'vacuous')]
        backends = {}
        for r in results:
            for k, v in r['backends'].items(): backends[k] = backends.get(k, 0) + v
        level = 'proof'
        cov = dict(
            obligations=obligations - bounded_ob, discharged=discharged,
            checker_cmd='python3-vt check.py %s %s' % (prop, tier),
            trusted_base=sorted(set(['z3 %s (and cvc5 where noted)' % z3_version(), 'pyvc: interpreter of the Python subset of %s' % SRC]
                + [x for r in results for x in r['trusted']])),
            functions_under_contract=sorted({f for r in results for f in r['functions'] if f.startswith('sppl')}),
            obligation_names=sorted({n for r in results for n in r['names']}),
            harnesses=[dict((k, r[k]) for k in ('name', 'status', 'paths', 'obligations', 'discharged', 'wall_s', 'bound', 'undecided')) for r in results],
            harnesses_proved_unbounded=sum(r['status'] == 'proved' and not r['bound'] for r in results),
            harnesses_proved_bounded=sum(r['status'] == 'proved' and bool(r['bound']) for r in results),
            harnesses_undecided=[r['name'] for r in undecided],
            bounded_obligations=bounded_ob,
            bounded_discharged=sum(r['discharged'] for r in results if r['bound']),
            discharged_by=backends, solver_queries=sum(r['queries'] for r in results),
            solver_s=round(sum(r['solver_s'] for r in results), 2),
            cross_checked_by_cvc5=sum(r['crossed'] for r in results),
            bounded_suites=sorted(suites.values(), key=lambda s: s['name']),
            evaluations=sum(s['evaluations'] for s in suites.values()),
            distinct_nontrivial=sum(s['distinct'] for s in suites.values()),
            rule='bounded suites: cases drawn by each suite generator from VERIF_SEED; distinct as data within a shard; labelled bounded, not proved',
            samples=[s['samples'][0] for s in suites.values() if s['samples']][:4])
        ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
            assumptions=GENERAL_ASSUMPTIONS + registry.assumptions(prop) + errors,
            wall_s=round(time.time() - t0, 1), violations=len(lines))
        with open(os.path.join(EVID, prop + '.json'), 'w') as fh: json.dump(ev, fh, indent=1)
        print('%s: %d/%d obligations discharged in %d harnesses (%d undecided), %d bounded cases, %.0f s' % (
            prop, discharged, cov['obligations'], len(results), len(undecided), cov['evaluations'], time.time() - t0))
        for r in undecided: print('  undecided: %s: %s %s' % (r['name'], r['undecided'][:1], r['unknown'][:2]))
        for r in results:
            for x in r['refuted'][:2]: print('  refuted: %s: %s' % (r['name'], json.dumps(x)[:600]))
        for v in violations: print('  %s: %s' % (v['suite'], v['message'][:400]))
        for l in lines: print(l)
        if lines: return 1
        if errors:
            for e in errors: print(e, file=sys.stderr)
            return 2
        if not discharged and not cov['evaluations']:
            print('nothing was decided', file=sys.stderr)
            return 2
        return 0
    finally:
        rt.close()

def z3_version():
    import z3
    return z3.get_version_string()

def replay(path):
    d = json.load(open(path))
    if 'suite' not in d:
        print(json.dumps(d, indent=1)); return 1
    rt = Runtime()
    try:
        fs = rt.replay(d['property'], [(d['suite'], d['case'])], 'quick')
    finally:
        rt.close()
    print(json.dumps(fs, indent=1))
    return 1 if fs else 0

if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(main(sys.argv[1], tier))
