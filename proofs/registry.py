"""The proof tasks of every property.

A task is one harness: contracts of some functions of /repo, checked for all
inputs the harness quantifies over.
"""
import importlib, time

class Task:
    def __init__(self, name, harness, budget=60, bound=None, cases=None, weight=1, check_ms=2000, tier='quick', fast_ms=None, linear=False, gens=(1, 4)):
        self.gens = gens          # generations of instantiation terms, fewest first
        self.linear = linear      # decide branches by linear facts alone
        self.fast_ms = fast_ms    # time of the incremental solver before a fresh one is tried
        self.name = name
        self.harness = harness
        self.budget = budget      # seconds
        self.bound = bound        # None: unbounded; else the stated bound
        self.cases = cases        # model -> [(suite, case)] for replay
        self.weight = weight      # expected seconds, longest first
        self.check_ms = check_ms
        self.tier = tier          # 'thorough': not run in the quick tier

MODULES = {
    'C01': ['p_sets'], 'C02': ['p_sets'],
    'C08': ['p_mixture', 'p_math', 'p_product', 'p_leaf', 'p_branch'], 'C09': ['p_mixture', 'p_product', 'p_leaf', 'p_branch'], 'C10': ['p_mixture', 'p_product', 'p_leaf'],
    'C20': ['p_mixture'],
    'C03': ['p_transforms'], 'C05': ['p_events'], 'C22': ['p_piecewise'], 'C04': ['p_arith'], 'C11': ['p_memo'], 'C12': ['p_build'], 'C21': ['p_build'], 'C06': ['p_dnf'], 'C07': ['p_subs'], 'C16': ['p_sample'], 'C13': ['p_program'], 'C19': ['p_poly'], 'C17': ['p_prims'], 'C15': ['p_text'], 'C14': ['p_compile'], 'C18': ['p_render'],
}

ASSUMPTIONS = {}

def tasks(prop, tier='quick'):
    out = []
    for m in MODULES.get(prop, []):
        mod = importlib.import_module('proofs.' + m)
        out.extend(mod.tasks(prop, tier))
    out = [t for t in out if t.tier == 'quick' or tier == 'thorough']
    out.sort(key=lambda t: -t.weight)
    return out

def assumptions(prop):
    out = []
    for m in MODULES.get(prop, []):
        mod = importlib.import_module('proofs.' + m)
        out.extend(getattr(mod, 'ASSUMPTIONS', {}).get(prop, []))
    return out

def execute(t, scale=1, cross=False):
    """Run one task, with few instances of the quantified facts first."""
    from pyvc.core import Run
    start, r = time.time(), None
    for g in t.gens:
        left = t.budget * scale - (time.time() - start)
        if r is not None and left < 1:
            # too few instances: refutations do not count
            r.drop_refuted()
            break
        last = r
        r = Run(t.name, budget_s=left, check_ms=t.check_ms, fast_ms=t.fast_ms, linear=t.linear, prove_ms=15000 * scale, cross=cross, gen=g)
        r.run(t.harness)
        if last is not None:
            r.queries += last.queries; r.solver_time += last.solver_time; r.wall += last.wall
        if r.status in ('proved', 'vacuous'): break
    return r
