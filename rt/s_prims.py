"""C17: supports of primitive distributions, against scipy."""
import inspect
import math
import scipy.stats as ss
from scipy.stats._distr_params import distcont, distdiscrete
from common import *

PARAMS = {}
for _n, _p in distcont + distdiscrete: PARAMS.setdefault(_n, []).append(tuple(_p))
PARAMS['genextreme'] = [(-0.5,), (0,), (0.75,), (-2,), (1.5,)]
PARAMS['genpareto'] = [(-0.5,), (0,), (0.1,), (2,)]
PARAMS['truncnorm'] = [(-1, 2), (0.1, 2), (-3, -1.5)]
PARAMS['trapz'] = [(0.2, 0.8), (0, 1)]
PARAMS['hypergeom'] = [(30, 12, 6), (21, 3, 12), (21, 18, 11), (10, 7, 7), (5, 5, 2)]
PARAMS['loguniform'] = [(0.01, 1), (2, 5)]
PARAMS['normal'] = [()]
for _n in ('discrete', 'uniformd', 'atomic', 'rv_discrete'): PARAMS[_n] = [()]
# Too slow, or too inaccurate in scipy, to evaluate.
NOEVAL = {'levy_stable', 'gausshyper', 'geninvgauss', 'ksone', 'kstwobign', 'ncf', 'nct', 'norminvgauss', 'argus', 'tukeylambda', 'genexpon'}
WHOLE = {'binom': {0}, 'betabinom': {0}, 'boltzmann': {1}, 'hypergeom': {0, 1, 2}, 'randint': {0, 1}, 'erlang': {0}, 'chi': set(), 'chi2': set()}

def dists():
    import sppl.distributions as D
    return sorted(n for n, c in vars(D).items() if inspect.isclass(c)
        and issubclass(c, D.RealDistribution) and n[0].islower())

def rnd_case(rng, n):
    if n == 'atomic': return [n, {'loc': rng.choice([-2, 0, 3])}]
    if n in ('discrete', 'uniformd', 'rv_discrete'):
        vs = sorted(rng.sample(range(-5, 9), rng.randint(1, 4)))
        if n == 'uniformd': return [n, {'values': vs}]
        k = len(vs)
        ws = [rng.randint(1, 5) for _ in range(k)]
        return [n, {'values': [vs, [w / sum(ws) for w in ws]]}]
    p = list(rng.choice(PARAMS[n]))
    if rng.random() < .5 and n != 'genextreme':
        f = rng.choice([.5, 1.5, 2, 3])
        for i in range(len(p)):
            if rng.random() < .5:
                q = p[i] * f
                p[i] = int(q) if i in WHOLE.get(n, ()) else q
    return [n, {'shapes': p, 'loc': rng.choice([None, None, 0, 1, -2, 5, 0.5]), 'scale': rng.choice([None, None, 1, 2, 0.5, 10])}]

@suite('C17')
class Supports:
    """every distribution class, scipy's own test parameters and multiples of them, location and scale"""
    name = 'primitive.support'
    @staticmethod
    def gen(rng, tier):
        # A class this table does not know is skipped: it has no oracle.
        ns = [n for n in dists() if n in PARAMS]
        while True:
            rng.shuffle(ns)
            for n in ns:
                yield rnd_case(rng, n)
    @staticmethod
    def check(case):
        import sppl.distributions as D
        from sppl.sets import Interval
        from sppl.transforms import Id
        n, kw = case
        X = Id('X')
        if 'shapes' in kw:
            dist = getattr(ss, 'norm' if n == 'normal' else n)
            names = [s.strip() for s in (dist.shapes or '').split(',') if s.strip()]
            disc = isinstance(dist, ss.rv_discrete)
            args = dict(zip(names, kw['shapes']))
            if len(args) != len(names) : return None
            if kw['loc'] is not None: args['loc'] = int(kw['loc']) if disc else kw['loc']
            if kw['scale'] is not None and not disc: args['scale'] = kw['scale']
            try:
                if not dist._argcheck(*kw['shapes']): return None
                frozen = dist(**args)
                a, b = map(float, frozen.support())
            except ValueError: return None
            if a != a or b != b: return None
            if n == 'genhalflogistic' and args['c'] <= 0: return None
            leaf = X >> getattr(D, n)(**args)
        else:
            vs = kw.get('values')
            if n == 'discrete':
                pairs = dict(zip(*vs))
                leaf = X >> D.discrete(pairs)
                pts = list(pairs)
            elif n == 'uniformd':
                leaf, pts = X >> D.uniformd(values=vs), vs
            elif n == 'rv_discrete':
                leaf, pts = X >> D.rv_discrete(values=vs), vs[0]
            else:
                leaf, pts = X >> D.atomic(loc=kw['loc']), [kw['loc']]
            a, b = min(pts), max(pts)
            frozen, disc, args = leaf.dist, True, kw
            for v in pts:
                if v not in leaf.support: return '%s%s: outcome %s is not in the support %s' % (n, kw, v, leaf.support)
                if not leaf.prob(X << {v}) > 0: return '%s%s: outcome %s has probability 0' % (n, kw, v)
        S = leaf.support
        if not isinstance(S, Interval): return '%s%s: support %s' % (n, args, S)
        lo, hi = float(S.left), float(S.right)
        tol = lambda v: 1e-9 * max(1, abs(v)) if abs(v) < inf else 0
        what = '%s%s: support %s, scipy has [%g, %g]' % (n, args, S, a, b)
        tight = lo <= a + tol(a) and hi >= b - tol(b)
        if disc and tight:
            tight = (a == -inf or lo == -inf or a in S) and (b == inf or hi == inf or b in S)
        if n in NOEVAL or (n == 'truncnorm'):
            # scipy's support is where its density is positive.
            return None if tight else what
        if not tight:
            if disc:
                lost = [v for v in ([a, a + 1] if a > -inf else []) + ([b, b - 1] if b < inf else []) + list(range(-40, 41))
                    if frozen.pmf(v) > 1e-9 and v not in S]
                if lost: return '%s: outcome %s is lost' % (what, lost[0])
            else:
                mass = (float(frozen.cdf(lo)) if lo > a else 0) + (float(frozen.sf(hi)) if hi < b else 0)
                if mass > 1e-6: return '%s: mass %.3g is lost' % (what, mass)
        p = leaf.prob(X << Interval(-inf, inf))
        if abs(p - 1) > 1e-6: return '%s: total probability is %.9g' % (what, p)
        for u in (0.02, 0.3, 0.77, 0.99):
            q = float(frozen.ppf(u))
            if q != q or abs(q) > 1e50: continue
            if q not in S: return '%s: quantile %g of %g is outside' % (what, q, u)
            w = float(frozen.cdf(q))
            if abs(w - u) > 1e-3 and not disc: continue
            if disc and not frozen.pmf(q) > 0: continue
            if leaf.logpdf({X: int(q) if disc else q}) == -inf: return '%s: density 0 at %g' % (what, q)
            p = leaf.prob(X <= q)
            if abs(p - w) > 1e-6: return '%s: P(X <= %g) is %.9g instead of %.9g' % (what, q, p, w)
        import numpy as np
        for s in leaf.sample(3, prng=np.random.RandomState(7)):
            v = float(s[X])
            if v not in S and min(abs(v - lo), abs(v - hi)) > tol(v): return '%s: sample %r is outside' % (what, v)
        return None

@suite('C17')
class Table:
    """the table of supports that the proofs assume of scipy, at scipy's own test parameters and multiples of them"""
    name = 'primitive.table'
    weight = .2
    @staticmethod
    def gen(rng, tier):
        from supports import SUPPORTS, DISCRETE
        ns = sorted(n for n in list(SUPPORTS) + list(DISCRETE) if n in PARAMS)
        while True:
            rng.shuffle(ns)
            for n in ns:
                c = rnd_case(rng, n)
                yield [n, c[1]['shapes']]
    @staticmethod
    def check(case):
        from supports import SUPPORTS, DISCRETE
        n, ps = case
        shapes, cases = SUPPORTS.get(n) or DISCRETE[n]
        dist = getattr(ss, n)
        names = [s.strip() for s in (dist.shapes or '').split(',') if s.strip()]
        if names != [s.split(':')[0] for s in shapes]: return 'the parameters of %s are %s' % (n, names)
        try:
            if not dist._argcheck(*ps): return None
            a, b = map(float, dist(*ps).support())
        except ValueError: return None
        if a != a or b != b: return None
        env = dict(zip(names, ps), And=lambda *x: all(x), maximum=max, minimum=min, oo=inf, pi=math.pi)
        got = [(eval(lo, env), eval(hi, env)) for c, lo, hi in cases if eval(c, env)]
        if not got: return None
        lo, hi = got[0]
        tol = 1e-9 * max(1, abs(a) if abs(a) < inf else 1, abs(b) if abs(b) < inf else 1)
        if lo <= a + tol and hi >= b - tol: return None
        if n == 'vonmises': return None     # one turn of the circle
        # scipy may start a support lower than its mass
        mass = (float(dist(*ps).cdf(lo)) if lo > a else 0) + (float(dist(*ps).sf(hi)) if hi < b else 0)
        return 'the support of %s%s is [%g, %g], not [%g, %g]' % (n, ps, a, b, lo, hi) if mass > 1e-9 else None
