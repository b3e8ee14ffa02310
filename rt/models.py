"""Models as data, and the distribution they denote, computed from scratch.

M: ['leaf',var,D,[[name,T]..]]  D: ['norm',loc,scale] ... ['nom',{s:w}] ['atom',v]
   ['sum',[[w,M]..]] ['prod',[M..]] ['cond',M,E]

A meaning is a list of components (weight, bases, defs, given): independent
base variables, derived variables by definition, and an event that holds.
"""
import bisect
import scipy.stats as ss
from texpr import *


# -- primitive distributions

CONT = {
    'norm': lambda d: ss.norm(loc=d[1], scale=d[2]),
    'unif': lambda d: ss.uniform(loc=d[1], scale=d[2]),
    'expon': lambda d: ss.expon(loc=d[1], scale=d[2]),
    'gamma': lambda d: ss.gamma(a=d[1], scale=d[2]),
    'beta': lambda d: ss.beta(a=d[1], b=d[2]),
    'laplace': lambda d: ss.laplace(loc=d[1], scale=d[2]),
}
SUPPORT = {
    'norm': lambda d: (-inf, inf), 'laplace': lambda d: (-inf, inf),
    'unif': lambda d: (d[1], d[1] + d[2]), 'expon': lambda d: (d[1], inf),
    'gamma': lambda d: (0, inf), 'beta': lambda d: (0, 1),
}
_frozen = {}
def frozen(d):
    k = json_key(d)
    if k not in _frozen: _frozen[k] = CONT[d[0]](d)
    return _frozen[k]

def json_key(x):
    import json
    return json.dumps(x, sort_keys=True)

_atoms = {}
def atoms(d):
    """[(exact value, probability)] of a discrete or nominal distribution."""
    k = json_key(d)
    if k in _atoms: return _atoms[k]
    n = d[0]
    if n == 'nom': r = [(s, float(exact(w))) for s, w in sorted(d[1].items())]
    elif n == 'atom': r = [(exact(d[1]), 1.0)]
    elif n == 'disc': r = [(Fraction(int(v)), float(exact(w))) for v, w in sorted(d[1].items())]
    elif n == 'randint': r = [(Fraction(i), 1.0 / (d[2] - d[1])) for i in range(d[1], d[2])]
    elif n == 'bern': r = [(Fraction(0), 1 - d[1]), (Fraction(1), d[1])]
    elif n == 'binom':
        f = ss.binom(n=d[1], p=d[2])
        r = [(Fraction(i), float(f.pmf(i))) for i in range(d[1] + 1)]
    elif n == 'pois':
        f = ss.poisson(mu=d[1])
        r = [(Fraction(i + d[2]), float(f.pmf(i))) for i in range(60)]
    elif n == 'geom': r = [(Fraction(i), d[1] * (1 - d[1]) ** (i - 1)) for i in range(1, 120)]
    else: raise ValueError(n)
    _atoms[k] = r
    return r

def is_cont(d): return d[0] in CONT
def is_nom(d): return d[0] == 'nom'

def lib_dist(d):
    import sppl.distributions as D
    n = d[0]
    if n == 'norm': return D.norm(loc=d[1], scale=d[2])
    if n == 'unif': return D.uniform(loc=d[1], scale=d[2])
    if n == 'expon': return D.expon(loc=d[1], scale=d[2])
    if n == 'gamma': return D.gamma(a=d[1], scale=d[2])
    if n == 'beta': return D.beta(a=d[1], b=d[2])
    if n == 'laplace': return D.laplace(loc=d[1], scale=d[2])
    if n == 'nom': return D.choice({s: frac(w) for s, w in d[1].items()})
    if n == 'disc': return D.discrete({int(v): float(exact(w)) for v, w in d[1].items()})
    if n == 'randint': return D.randint(low=d[1], high=d[2])
    if n == 'bern': return D.bernoulli(p=d[1])
    if n == 'binom': return D.binom(n=d[1], p=d[2])
    if n == 'pois': return D.poisson(mu=d[1], loc=d[2])
    if n == 'geom': return D.geom(p=d[1])
    raise ValueError(n)

def frac(w):
    e = exact(w)
    return e

def rnd_dist(rng, kinds=None):
    k = rng.choice(kinds or ['norm', 'norm', 'unif', 'expon', 'gamma', 'beta', 'laplace', 'nom', 'nom', 'disc', 'randint', 'bern', 'binom', 'pois', 'geom', 'atom'])
    if k in ('norm', 'laplace'): return [k, rng.choice([0, 0, 1, -2, 0.5]), rng.choice([1, 1, 2, 0.5])]
    if k == 'unif': return [k, rng.choice([0, -1, -2, 1]), rng.choice([1, 2, 4, 0.5])]
    if k == 'expon': return [k, rng.choice([0, 0, 1, -1]), rng.choice([1, 2])]
    if k == 'gamma': return [k, rng.choice([1, 2, 3]), rng.choice([1, 0.5])]
    if k == 'beta': return [k, rng.choice([1, 2, 0.5]), rng.choice([1, 3])]
    if k == 'nom':
        n = rng.randint(1, 3)
        ws = rng.choice({1: [['1']], 2: [['1/3', '2/3'], ['1/4', '3/4'], ['1/2', '1/2'], ['1', '0']], 3: [['1/2', '1/4', '1/4'], ['1/6', '1/2', '1/3'], ['1/10', '3/10', '3/5']]}[n])
        return [k, dict(zip(rng.sample(STRINGS, n), ws))]
    if k == 'disc':
        vs = rng.sample([-3, -1, 0, 1, 2, 5], 3)
        return [k, dict((str(v), w) for v, w in zip(sorted(vs), rng.choice([['1/4', '1/4', '1/2'], ['1/8', '3/4', '1/8']])))]
    if k == 'randint':
        a = rng.randint(-2, 1)
        return [k, a, a + rng.randint(1, 4)]
    if k == 'bern': return [k, rng.choice([0.25, 0.5, 0.9])]
    if k == 'binom': return [k, rng.randint(1, 5), rng.choice([0.25, 0.5, 0.75])]
    if k == 'pois': return [k, rng.choice([1, 2, 3.5]), rng.choice([0, 0, 1])]
    if k == 'geom': return [k, rng.choice([0.3, 0.5])]
    if k == 'atom': return [k, rng.choice(['0', '1', '2', '-1', 'f0.5', '1/4'])]
    raise ValueError(k)

# -- meanings

class Comp:
    def __init__(self, w, bases, defs, given):
        self.w, self.bases, self.defs, self.given = w, bases, defs, given
    def base_of(self, v):
        seen = 0
        while v not in self.bases:
            (v,) = vars_of(self.defs[v])
            seen += 1
            if seen > 50: raise ValueError(v)
        return v
    def value(self, v, x):
        """Exact or float value of v when its base variable is x."""
        if v in self.bases: return x
        t = self.defs[v]
        (u,) = vars_of(t)
        return value(t, {u: self.value(u, x)})
    def fvalue(self, v, x):
        if v in self.bases: return x
        t = self.defs[v]
        (u,) = vars_of(t)
        return fval(t, {u: self.fvalue(u, x)})

def meaning(m):
    k = m[0]
    if k == 'leaf': return [Comp(1.0, {m[1]: m[2]}, {n: t for n, t in m[3]}, None)]
    if k == 'sum': return [Comp(float(exact(w)) * c.w, c.bases, c.defs, c.given) for w, x in m[1] for c in meaning(x)]
    if k == 'prod':
        out = [Comp(1.0, {}, {}, None)]
        for x in m[1]:
            out = [Comp(a.w * b.w, dict(a.bases, **b.bases), dict(a.defs, **b.defs), e_and(a.given, b.given)) for a in out for b in meaning(x)]
        return out
    if k == 'cond': return conditioned(meaning(m[1]), m[2])
    raise ValueError(k)

def e_and(a, b):
    return b if a is None else a if b is None else ['and', a, b]

def conditioned(comps, e):
    out = []
    for c in comps:
        p = comp_prob(c, e)
        if p > 0:
            base = comp_prob(c, None)
            out.append(Comp(c.w * p / base, c.bases, c.defs, e_and(c.given, e)))
    tot = sum(c.w for c in out)
    if tot == 0: return []
    return [Comp(c.w / tot, c.bases, c.defs, c.given) for c in out]

def literals(e, out):
    if e is None: return out
    if e[0] in ('and', 'or', 'xor'):
        literals(e[1], out); literals(e[2], out)
    elif e[0] == 'not': literals(e[1], out)
    else: out.setdefault(json_key(e), e)
    return out

def truth(e, tab):
    if e is None: return True
    k = e[0]
    if k == 'and': return truth(e[1], tab) and truth(e[2], tab)
    if k == 'or': return truth(e[1], tab) or truth(e[2], tab)
    if k == 'xor': return truth(e[1], tab) != truth(e[2], tab)
    if k == 'not': return not truth(e[1], tab)
    return tab[json_key(e)]

def lit_expr(e):
    return {'cmp': 2, 'rcmp': 3, 'chain': 3, 'in': 1, 'inl': 1}[e[0]]

def lit_var(e):
    (v,) = vars_of(e[lit_expr(e)])
    return v

FINE = [128]

def signatures(c, x, lits):
    """{truth vector of lits: probability} for base variable x alone."""
    d = c.bases[x]
    key = (json_key([d, lits]), json_key({v: t for v, t in c.defs.items()}), FINE[0])
    if key in _sigs: return _sigs[key]
    out = {}
    if not is_cont(d):
        for v, p in atoms(d):
            s = tuple(lit_at(c, e, v) for e in lits)
            out[s] = out.get(s, 0.0) + p
    else:
        f = frozen(d)
        lo, hi = SUPPORT[d[0]](d)
        pts = set()
        for e in lits: pts |= cut_points(c, e, lo, hi)
        cuts = sorted(p for p in pts if lo < p < hi)
        ends = [lo] + cuts + [hi]
        F = [0.0] + [float(f.cdf(p)) for p in cuts] + [1.0]
        S = [1.0] + [float(f.sf(p)) for p in cuts] + [0.0]
        for i in range(len(ends) - 1):
            a, b = ends[i], ends[i + 1]
            p = F[i + 1] - F[i] if F[i + 1] < .5 else S[i] - S[i + 1]
            m = a + (b - a) * 0.4871396 if a != -inf and b != inf else (b - 0.9137213) if b != inf else (a + 0.9137213) if a != -inf else 0.3183099
            s = tuple(flit(c, e, m) for e in lits)
            out[s] = out.get(s, 0.0) + p
    if len(_sigs) > 4000: _sigs.clear()
    _sigs[key] = out
    return out
_sigs = {}

def lit_at(c, e, v):
    u = lit_var(e)
    try:
        return holds(e, {u: c.value(u, v)})
    except Undefined:
        raise Skip()
    except Ambiguous:
        raise Skip()

def flit(c, e, x):
    """Truth of a literal at a generic point of a continuous variable."""
    return fast_lit(c, e)(x)

_fast = {}
def fast_lit(c, e):
    key = (json_key(e), json_key(c.defs))
    if key in _fast: return _fast[key]
    if len(_fast) > 3000: _fast.clear()
    u = lit_var(e)
    t = e[lit_expr(e)]
    chain = [(u, t)]
    names = [u]
    while names[-1] in c.defs:
        d = c.defs[names[-1]]
        (v,) = vars_of(d)
        names.append(v)
    order = list(reversed(names))
    fs = [compile_f(c.defs[n]) for n in order[1:]] + [compile_f(t)]
    k = e[0]
    if k == 'inl': test = lambda y: False
    elif k == 'in':
        sp = spec(e[2])
        pts = sorted(float(p) for p in sp.points)
        table = {}
        def test(y):
            i = bisect.bisect(pts, y)
            if i and pts[i - 1] == y: return sp.fnum(y)
            if i not in table: table[i] = sp.fnum(y)
            return table[i]
        if any(p not in (inf, -inf) and Fraction(float(p)) != p for p in sp.points): test = sp.fnum
    else:
        b = [(CMP[e[1]], float(exact(e[3])))] if k == 'cmp' else [(CMP[FLIP[e[2]]], float(exact(e[1])))]
        if k == 'chain': b.append((CMP[e[4]], float(exact(e[5]))))
        test = lambda y: all(f(y, p) for f, p in b)
    def g(x):
        try:
            for f in fs: x = f(x)
            if x != x or isinstance(x, complex): return None
        except (ZeroDivisionError, OverflowError, TypeError, ValueError):
            return None
        return test(x)
    _fast[key] = g
    return g

def compile_f(t):
    """A float function of the one variable of t."""
    def src(t):
        k = t[0]
        if k == 'var': return 'x'
        if k == 'num': return '(%r)' % float(exact(t[1]))
        if k in ('add', 'sub', 'mul', 'div'): return '(%s %s %s)' % (src(t[1]), dict(add='+', sub='-', mul='*', div='/')[k], src(t[2]))
        if k == 'neg': return '(-%s)' % src(t[1])
        if k == 'abs': return 'abs(%s)' % src(t[1])
        if k == 'pow': return '(%s ** %d)' % (src(t[1]), t[2])
        if k == 'root': return 'rootf(%s, %d)' % (src(t[1]), t[2])
        if k == 'expb': return ('math.exp(%s)' % src(t[2])) if t[1] == 'e' else '(%r ** %s)' % (float(exact(t[1])), src(t[2]))
        if k == 'logb': return ('math.log(%s)' % src(t[1])) if t[2] == 'e' else '(math.log(%s) / %r)' % (src(t[1]), math.log(float(exact(t[2]))))
        raise ValueError(k)
    return eval('lambda x: ' + src(t), {'math': math, 'abs': abs, 'rootf': rootf})

def rootf(a, n):
    if a < 0: raise ValueError()
    return a ** (1.0 / n)

def cut_points(c, e, lo, hi):
    u = lit_var(e)
    if u in c.bases and e[lit_expr(e)] == ['var', u]:
        return {float(p) for p in lit_points(e) if p not in (inf, -inf)}
    a = max(lo, -14.0)
    b = min(hi, 22.0)
    n = FINE[0]
    k0, k1 = int(math.floor(a * n)), int(math.ceil(b * n))
    out = set()
    prev = None
    flit = fast_lit(c, e)
    xs = [(k + 0.3183098861) / n for k in range(k0, k1 + 1)]
    # the tails, at distances that grow
    r = 1 + 4.0 / n
    for side, end in ((-1, a), (1, b)):
        if end != (lo if side < 0 else hi):
            d = 1.0 / n
            while d < 2e3:
                xs.append(end + side * d)
                d = d * r + 1.0 / n
    xs.sort()
    if n > 128:
        # Also look closely at the places where expressions have poles.
        for z in {lo, hi} | {i / 2 for i in range(-12, 13)}:
            if z not in (inf, -inf):
                for j in range(4, 48): xs += [z + 1.2345 * 2.0 ** -j, z - 1.2345 * 2.0 ** -j]
        xs.sort()
    for x in xs:
        if not (lo < x < hi): continue
        t = flit(x)
        if prev is not None and t != prev[1]:
            p, q = prev[0], x
            tp = prev[1]
            for _ in range(55):
                m = (p + q) / 2
                if flit(m) == tp: p = m
                else: q = m
            out.add((p + q) / 2)
        prev = (x, t)
    return out

def lit_points(e):
    k = e[0]
    if k == 'cmp': return {exact(e[3])}
    if k == 'rcmp': return {exact(e[1])}
    if k == 'chain': return {exact(e[1]), exact(e[5])}
    if k == 'in': return spec(e[2]).points
    return set()

def fval(t, env):
    k = t[0]
    try:
        if k == 'var': return env[t[1]]
        if k == 'num': return float(exact(t[1]))
        if k in ('add', 'sub', 'mul', 'div'):
            a, b = fval(t[1], env), fval(t[2], env)
            return a + b if k == 'add' else a - b if k == 'sub' else a * b if k == 'mul' else a / b
        if k == 'neg': return -fval(t[1], env)
        if k == 'abs': return abs(fval(t[1], env))
        if k == 'pow': return fval(t[1], env) ** t[2]
        if k == 'root':
            a = fval(t[1], env)
            return a ** (1.0 / t[2]) if a >= 0 else None
        if k == 'expb':
            a = fval(t[2], env)
            return math.exp(a) if t[1] == 'e' else float(exact(t[1])) ** a
        if k == 'logb':
            a = fval(t[1], env)
            return math.log(a) if t[2] == 'e' else math.log(a) / math.log(float(exact(t[2])))
    except (ZeroDivisionError, OverflowError, TypeError, ValueError):
        return None
    raise ValueError(k)

def comp_prob(c, e):
    """Probability of c.given and e under the bases of c."""
    f = e_and(c.given, e)
    if f is None: return 1.0
    lits = literals(f, {})
    groups = {}
    for k, l in lits.items():
        groups.setdefault(c.base_of(lit_var(l)), []).append((k, l))
    states = [(1.0, {})]
    for x, g in groups.items():
        sig = signatures(c, x, [l for _, l in g])
        states = [(p * q, dict(tab, **{k: v for (k, _), v in zip(g, s)})) for p, tab in states for s, q in sig.items() if q > 0]
        if len(states) > 20000: raise Skip()
    tot = 0.0
    for p, tab in states:
        if any(v is None for v in tab.values()):
            if p > 1e-12: raise Skip()
            continue
        if truth(f, tab): tot += p
    return tot

def prob(comps, e):
    """P(e) of a normalised meaning."""
    return sum(c.w * comp_prob(c, e) / comp_prob(c, None) for c in comps)

def robust_prob(comps, e):
    """prob at two grid resolutions; Skip when they disagree."""
    p = prob(comps, e)
    FINE[0] = 1024
    try:
        q = prob(comps, e)
    finally:
        FINE[0] = 128
    if abs(p - q) > 1e-7: raise Skip()
    return p

# -- building

def lib_model(m):
    from sppl.spe import AtomicLeaf, ProductSPE, SumSPE
    from sppl.transforms import Id
    k = m[0]
    if k == 'leaf':
        s = AtomicLeaf(Id(m[1]), num(m[2][1])) if m[2][0] == 'atom' else Id(m[1]) >> lib_dist(m[2])
        for n, t in m[3]: s = s.transform(Id(n), make(t))
        return s
    if k == 'sum':
        cs = [lib_model(x) for _, x in m[1]]
        if len(str(m)) % 2:
            return SumSPE(cs, [math.log(exact(w)) for w, _ in m[1]])
        r = None
        for (w, _), s in zip(m[1], cs):
            p = topy(exact(w)) * s
            r = p if r is None else r | p
        return r
    if k == 'prod':
        cs = [lib_model(x) for x in m[1]]
        if len(str(m)) % 3: return ProductSPE(cs)
        r = cs[0]
        for c in cs[1:]: r = r & c
        return r
    if k == 'cond': return lib_model(m[1]).condition(make_event(m[2]))
    raise ValueError(k)

# -- random models and events

def safe_step(rng, t, positive):
    """A transform defined everywhere that matters."""
    r = rng.random()
    c, d = rng.choice(['2', '-1', '1/2', '-3', 'f0.5']), rng.choice(['1', '-1', '2', '1/2'])
    if r < .4: return ['add', ['mul', ['num', c], t], ['num', d]], False
    if r < .55: return ['sub', ['num', d], t], False
    if r < .62 and t[0] == 'var': return ['pow', t, 2], positive
    if r < .65 and t[0] == 'var': return ['sub', ['pow', t, 2], t], False
    if r < .76: return ['abs', t], positive
    if r < .86: return ['expb', 'e', t], True
    if positive and r < .93: return ['root', t, 2], True
    if positive: return ['logb', t, 'e'], False
    return ['div', t, ['num', '2']], False

def rnd_defs(rng, var, d, n):
    names, out = [var], []
    positive = d[0] in ('gamma', 'beta') or (d[0] in ('unif', 'expon') and d[1] >= 0)
    pos = {var: positive}
    for i in range(n):
        u = rng.choice(names)
        t, p = safe_step(rng, ['var', u], pos[u])
        nm = '%s_%d' % (var, i)
        if rng.random() < .3 and p is False:
            t, p = safe_step(rng, t, False)
        out.append([nm, t]); names.append(nm); pos[nm] = p
    return out

def rnd_leaf(rng, var, kind=None, defs=None):
    """kind 'num', 'nom' or None."""
    while True:
        d = rnd_dist(rng)
        if kind == 'nom' and not is_nom(d) or kind == 'num' and is_nom(d): continue
        break
    nd = 0 if is_nom(d) else (rng.choice([0, 0, 0, 1, 1, 2]) if defs is None else defs)
    return ['leaf', var, d, rnd_defs(rng, var, d, nd)]

def mixed_leaf(rng, var, kind, defs, depth):
    """A leaf, or a mixture of leaves over var with the same derived names."""
    if depth == 0 or rng.random() < .55: return rnd_leaf(rng, var, kind, defs)
    ws = rnd_weights(rng)
    return ['sum', [[w, mixed_leaf(rng, var, kind, defs, depth - 1)] for w in ws]]

def rnd_weights(rng):
    return rng.choice([['1/2', '1/2'], ['1/3', '2/3'], ['1/4', '3/4'], ['1/10', '9/10'], ['1/2', '1/4', '1/4'], ['1/6', '1/3', '1/2']])

def rnd_model(rng, schema, depth=2):
    """schema: {var: (kind, ndefs)}"""
    vs = list(schema)
    if len(vs) == 1:
        v = vs[0]
        return mixed_leaf(rng, v, schema[v][0], schema[v][1], depth)
    if depth > 0 and rng.random() < .5:
        return ['sum', [[w, rnd_model(rng, schema, depth - 1)] for w in rnd_weights(rng)]]
    rng.shuffle(vs)
    k = rng.randint(1, len(vs) - 1)
    a, b = {v: schema[v] for v in vs[:k]}, {v: schema[v] for v in vs[k:]}
    return ['prod', [rnd_model(rng, a, depth - 1 if depth > 0 else 0), rnd_model(rng, b, depth - 1 if depth > 0 else 0)]]

def rnd_schema(rng, n=None):
    n = n or rng.choice([1, 1, 2, 2, 2, 3])
    out = {}
    for v in ['X', 'Y', 'Z', 'W'][:n]:
        k = rng.choice(['num', 'num', 'nom'])
        out[v] = (k, rng.choice([0, 0, 0, 0, 1, 1, 2]) if k == 'num' else 0)
    return out

def names_of(schema):
    out = []
    for v, (k, n) in schema.items():
        out.append((v, k))
        out += [('%s_%d' % (v, i), 'num') for i in range(n)]
    return out

def dedupe_set(S):
    return S

def var_lit(rng, v, kind, wrap=True):
    if kind == 'nom': return nom_lit(rng, v)
    t = ['var', v]
    if wrap and rng.random() < .12: t, _ = safe_step(rng, t, False)
    while True:
        e = lit(rng, t)
        if e[0] == 'in' and not spec(e[2]).numeric(): continue
        return e

def model_event(rng, schema, depth=None, names=None):
    ns = names or names_of(schema)
    d = rng.choice([0, 1, 1, 2, 2]) if depth is None else depth
    return rnd_event(rng, lambda: var_lit(rng, *rng.choice(ns)), d)

def empty_lit(e):
    """Literals whose written set is empty (their complement is ambiguous)."""
    for l in literals(e, {}).values():
        if l[0] == 'in' and (l[2][0] == 'E' or spec(l[2]).empty()): return True
        if l[0] == 'in' and l[2][0] == 'FN' and not l[2][1] and not l[2][2]: return True
        if l[0] == 'chain':
            a, b = exact(l[1]), exact(l[5])
            if l[2] in ('>', '>='): a, b = b, a
            if a > b or (a == b): return True
        if l[0] in ('cmp', 'rcmp'):
            p = exact(l[3] if l[0] == 'cmp' else l[1])
            if p in (inf, -inf): return True
    return False

def close(p, q, rel=1e-6, ab=1e-9):
    return abs(p - q) <= ab + rel * max(abs(p), abs(q))
