"""C07-C12, C16, C20, C21: queries on models."""
from models import *

def ask(m, e):
    return float(m.prob(e))

def usable(*es):
    return not any(empty_lit(e) for e in es)

def gen_model_events(rng, n, schema=None, depth=2, names=None):
    while True:
        sch = schema(rng) if schema else rnd_schema(rng)
        m = rnd_model(rng, sch, depth)
        es = [model_event(rng, sch, names=names(rng, sch) if names else None) for _ in range(n)]
        if rng.random() < .2: m = ['cond', m, model_event(rng, sch, 1)]
        if m[0] == 'cond' and not usable(m[2]): continue
        if usable(*es): yield [m, es]

def build_model(m, comps):
    """Library model of m, or None when it rests on an impossible condition."""
    return lib_model(m)

def denote(m):
    comps = meaning(m)
    if not comps: raise Skip()
    return comps

def has_tiny_cond(m):
    if m[0] == 'cond':
        c = meaning(m[1])
        p = prob(c, m[2]) if c else 0
        return p < 1e-3 or has_tiny_cond(m[1])
    if m[0] in ('sum',): return any(has_tiny_cond(x) for _, x in m[1])
    if m[0] == 'prod': return any(has_tiny_cond(x) for x in m[1])
    return False

def guard(f):
    def g(case):
        try:
            return f(case)
        except Skip:
            return None
    return g

def compare(lib, comps, e, what):
    p = prob(comps, e)
    ev = make_event(e)
    q = ask(lib, ev)
    if not close(q, p):
        p = robust_prob(comps, e)
        if not close(q, p): return '%s of %s is %.12g instead of %.12g' % (what, ev, q, p)
    if not (-1e-9 <= q <= 1 + 1e-9): return '%s of %s is %.12g' % (what, ev, q)
    return None

@suite('C08')
class Probability:
    """models with at most 3 base variables, 2 derived variables each, nesting 2; events of depth at most 2"""
    name = 'model.probability'
    weight = 3.0
    @staticmethod
    def gen(rng, tier): return gen_model_events(rng, 3)
    @staticmethod
    @guard
    def check(case):
        m, es = case
        if has_tiny_cond(m): return None
        comps = denote(m)
        lib = lib_model(m)
        for e in es:
            r = compare(lib, comps, e, 'probability')
            if r: return r
        a, b = es[0], es[1]
        pa, pn = ask(lib, make_event(a)), ask(lib, ~make_event(a))
        if not close(pa + pn, 1): return 'P(%s) = %.9g but its complement has %.9g' % (make_event(a), pa, pn)
        A, B = make_event(a), make_event(b)
        s = ask(lib, A & B) + ask(lib, A & ~B)
        if not close(s, pa): return 'P(%s) = %.9g is not the sum over %s and its negation, %.9g' % (A, pa, B, s)
        return None

@suite('C08')
class BigUnions:
    """disjunctions of up to 5 overlapping conjunctions"""
    name = 'model.inclusion'
    weight = 1.0
    @staticmethod
    def gen(rng, tier):
        while True:
            sch = {v: (rng.choice(['num', 'nom']), 0) for v in ['X', 'Y', 'Z'][:rng.randint(2, 3)]}
            m = rnd_model(rng, sch, 1)
            ns = names_of(sch)
            def conj():
                e = var_lit(rng, *rng.choice(ns), wrap=False)
                for _ in range(rng.randint(0, 2)): e = ['and', e, var_lit(rng, *rng.choice(ns), wrap=False)]
                return e
            e = conj()
            for _ in range(rng.randint(1, 4)): e = ['or', e, conj()]
            if usable(e): yield [m, [e]]
    @staticmethod
    @guard
    def check(case):
        m, es = case
        return compare(lib_model(m), denote(m), es[0], 'probability')

@suite('C09')
class Conditioning:
    """models with at most 3 base variables and nesting 2; events of depth at most 2"""
    name = 'model.condition'
    @staticmethod
    def gen(rng, tier): return gen_model_events(rng, 4)
    @staticmethod
    @guard
    def check(case):
        m, es = case
        if has_tiny_cond(m): return None
        comps = denote(m)
        lib = lib_model(m)
        before = repr_model(lib)
        e = es[0]
        p = prob(comps, e)
        E = make_event(e)
        if p == 0:
            try:
                r = lib.condition(E)
            except Exception as x:
                if isinstance(x, (RecursionError, MemoryError)): raise
                return None
            p = robust_prob(comps, e)
            if p == 0: return 'conditioning on %s, which has probability zero, returned a model' % (E,)
            return None
        if p < 1e-3: return None
        try:
            post = lib.condition(E)
        except Exception as x:
            if robust_prob(comps, e) < 1e-3: return None
            return 'conditioning on %s of probability %.6g failed: %s: %s' % (E, p, type(x).__name__, x)
        if repr_model(lib) != before: return 'conditioning on %s changed the model' % (E,)
        if post.get_symbols() != lib.get_symbols(): return 'conditioning on %s changed the variables' % (E,)
        oracle = conditioned(comps, e)
        for q in es:
            r = compare(post, oracle, q, 'given %s, probability' % (E,))
            if r: return r
        e2 = es[3]
        p2 = prob(oracle, e2)
        if p2 > 1e-3:
            post2 = post.condition(make_event(e2))
            r = compare(post2, conditioned(oracle, e2), es[1], 'given %s and then %s, probability' % (E, make_event(e2)))
            if r: return r
        return None

def repr_model(s):
    from sppl.spe import LeafSPE, NominalLeaf, SumSPE
    if isinstance(s, LeafSPE):
        return [type(s).__name__, str(s.symbol), str(s.support), [(str(k), str(v)) for k, v in s.env.items()],
            [(str(k), str(v)) for k, v in s.dist.items()] if isinstance(s, NominalLeaf) else
            str(getattr(s, 'value', None)) if not hasattr(s, 'dist') else [s.dist.dist.name, str(s.dist.args), str(s.dist.kwds), str(s.conditioned)]]
    w = [float(x) for x in s.weights] if isinstance(s, SumSPE) else []
    return [type(s).__name__, w, [repr_model(c) for c in s.children], sorted(map(str, s.get_symbols()))]

# -- densities

def point_for(rng, comps, names):
    """An assignment to base variables, on atoms or inside supports."""
    out = {}
    for v in names:
        c = rng.choice(comps)
        d = c.bases[v]
        if is_cont(d):
            lo, hi = SUPPORT[d[0]](d)
            x = float(frozen(d).ppf(rng.choice([.1, .23, .4, .61, .77, .9])))
            out[v] = 'f%r' % (round(x, 3),) if rng.random() < .8 else rng.choice(['0', '1', '1/4', 'f0.75', '5', '-7'])
        elif is_nom(d):
            out[v] = "'" + rng.choice(STRINGS)
        else:
            out[v] = str(rng.choice([a for a, p in atoms(d)[:6]]))
            if rng.random() < .15: out[v] = rng.choice(['0', '1', '2', 'f0.5', '-1'])
    return out

def pval(s):
    return s[1:] if s.startswith("'") else exact(s)

def leaf_density(c, x, v, given):
    """(degree, density) of base variable x at v in component c."""
    d = c.bases[x]
    if is_cont(d):
        if isinstance(v, str): return 1, 0.0
        return 1, float(frozen(d).pdf(float(v)))
    return 0, sum(p for a, p in atoms(d) if a == v)

def density(comps, asg):
    """(degree, density, [(joint weight, comp)]) of an assignment to base variables."""
    best, terms = None, []
    for c in comps:
        deg, den = 0, 1.0
        for x, v in asg.items():
            a, b = leaf_density(c, x, v, None)
            deg += a; den *= b
        if den == 0: continue
        # the event given, with these variables fixed
        g = c.given
        z = comp_prob(c, None)
        fixed = fix(c, asg)
        zz = comp_prob(fixed, None)
        if zz == 0: continue
        terms.append((deg, c.w * den * zz / z, fixed))
    if not terms: return (0, 0.0, [])
    dmin = min(t[0] for t in terms)
    ts = [(w, f) for d, w, f in terms if d == dmin]
    return (dmin, sum(w for w, _ in ts), ts)

def fix(c, asg):
    bases = dict(c.bases)
    for x, v in asg.items():
        bases[x] = ['nom', {v: '1'}] if isinstance(v, str) else ['atom', '%d/%d' % (v.numerator, v.denominator)]
    return Comp(c.w, bases, c.defs, c.given)

def on_edge(comps, asg):
    """Some given event has an end point at the assignment."""
    for c in comps:
        for l in literals(c.given, {}).values():
            x = c.base_of(lit_var(l))
            if x in asg and not isinstance(asg[x], str):
                if x == lit_var(l) and l[lit_expr(l)] == ['var', x] and l[0] != 'inl':
                    if asg[x] in lit_points(l): return True
                elif l[lit_expr(l)] != ['var', x] or l[0] == 'inl':
                    return True
        for x, v in asg.items():
            if is_cont(c.bases[x]) and not isinstance(v, str):
                if float(v) in [float(p) for p in SUPPORT[c.bases[x][0]](c.bases[x])]: return True
    return False

@suite('C10')
class Densities:
    """models with at most 3 base variables and nesting 2, possibly conditioned once"""
    name = 'model.density'
    @staticmethod
    def gen(rng, tier):
        while True:
            sch = rnd_schema(rng)
            m = rnd_model(rng, sch, 2)
            if rng.random() < .35:
                e = model_event(rng, sch, rng.choice([0, 0, 1]), names=[(v, k) for v, (k, n) in sch.items()])
                if not usable(e): continue
                m = ['cond', m, e]
            try:
                comps = meaning(m)
            except Skip: continue
            if not comps: continue
            vs = list(sch)
            rng.shuffle(vs)
            asg = point_for(rng, comps, vs[:rng.randint(1, len(vs))])
            qs = [model_event(rng, sch) for _ in range(2)]
            if usable(*qs): yield [m, asg, qs]
    @staticmethod
    @guard
    def check(case):
        from sppl.transforms import Id
        m, asg, qs = case
        if has_tiny_cond(m): return None
        comps = denote(m)
        A = {x: pval(v) for x, v in asg.items()}
        if on_edge(comps, A): return None
        deg, den, terms = density(comps, A)
        lib = lib_model(m)
        before = repr_model(lib)
        L = {Id(x): (v[1:] if v.startswith("'") else num(v)) for x, v in asg.items()}
        got = float(lib.pdf(L))
        if not close(got, den): return 'density of %s is %.9g instead of %.9g' % (L, got, den)
        if den == 0:
            try:
                lib.constrain(L)
            except Exception as x:
                return None
            return 'constraining on %s, of density zero, returned a model' % (L,)
        if den < 1e-6: return None
        post = lib.constrain(L)
        if repr_model(lib) != before: return 'constraining on %s changed the model' % (L,)
        if post.get_symbols() != lib.get_symbols(): return 'constraining on %s changed the variables' % (L,)
        tot = sum(w for w, _ in terms)
        oracle = [Comp(w / tot, c.bases, c.defs, c.given) for w, c in terms]
        for q in qs:
            r = compare(post, oracle, q, 'constrained to %s, probability' % (L,))
            if r: return r
        return None

# -- caching

@suite('C11')
class Caching:
    """histories of at most 8 queries on models with at most 3 base variables"""
    name = 'model.caching'
    @staticmethod
    def gen(rng, tier):
        for m, es in gen_model_events(rng, 3):
            hist = [[rng.choice(['prob', 'cond', 'prob', 'pdf', 'constrain', 'mi']), rng.randrange(3), rng.choice(['none', 'shared', 'shared', 'off'])] for _ in range(rng.randint(3, 8))]
            try:
                comps = meaning(m)
            except Skip: continue
            if not comps: continue
            asg = point_for(rng, comps, rng.sample(sorted(comps[0].bases), 1))
            yield [m, es, hist, asg]
    @staticmethod
    @guard
    def check(case):
        import copy
        from sppl.spe import Memo, spe_cache_duplicate_subtrees
        from sppl.transforms import Id
        m, es, hist, asg = case
        if has_tiny_cond(m): return None
        lib = lib_model(m)
        before = repr_model(lib)
        fresh = lambda: lib_model(m)
        Es = [make_event(e) for e in es]
        L = {Id(x): (v[1:] if v.startswith("'") else num(v)) for x, v in asg.items()}
        shared = Memo()
        other = lib_model(m)
        dedup = spe_cache_duplicate_subtrees(fresh(), {})
        def run(s, op, i, memo):
            try:
                if op == 'prob': return float(s.logprob(Es[i], memo))
                if op == 'cond':
                    c = s.condition(Es[i], memo)
                    return [float(c.prob(E)) for E in Es]
                if op == 'pdf': return float(s.logpdf(L, memo))
                if op == 'constrain':
                    c = s.constrain(L, memo)
                    return [float(c.prob(E)) for E in Es]
                if op == 'mi':
                    return float(s.mutual_information(Es[i], Es[(i + 1) % 3], memo))
            except (ValueError, AssertionError) as x:
                return 'error'
        for op, i, how in hist:
            memo = dict(none=lambda: None, shared=lambda: shared, off=lambda: False)[how]()
            if op == 'mi' and how == 'off': memo = None
            want = run(fresh(), op, i, None)
            for s, nm in ((lib, 'the model'), (dedup, 'the model without duplicate parts'), (other, 'an equal model')):
                got = run(s, op, i, memo)
                if not same_answer(got, want):
                    return 'after %s, %s %s asked of %s with memo %s is %s instead of %s' % (hist, op, Es[i] if op in ('prob', 'cond', 'mi') else L, nm, how, got, want)
        if repr_model(lib) != before: return 'queries changed the model'
        return None

def same_answer(a, b):
    if a == 'error' or b == 'error': return a == b
    if isinstance(a, list): return len(a) == len(b) and all(close(x, y, 1e-7, 1e-9) for x, y in zip(a, b))
    if a == b: return True
    if -inf in (a, b): return max(a, b) < -25
    return close(math.exp(a), math.exp(b), 1e-7, 1e-9) or close(a, b, 1e-7, 1e-9)

@suite('C11')
class SharedMemo:
    """one memo table for up to 40 short-lived models"""
    name = 'memo.lifetime'
    weight = 0.4
    @staticmethod
    def gen(rng, tier):
        while True:
            sch = rnd_schema(rng, rng.choice([1, 2]))
            ms = [rnd_model(rng, sch, 1) for _ in range(8)]
            e = model_event(rng, sch, 1)
            if usable(e): yield [ms, e]
    @staticmethod
    @guard
    def check(case):
        import gc
        from sppl.spe import Memo
        ms, e = case
        memo = Memo()
        E = make_event(e)
        want = [float(lib_model(m).prob(E)) for m in ms]
        for k in range(3):
            for m, w in zip(ms, want):
                got = math.exp(float(lib_model(m).logprob(E, memo)))
                if not close(got, w, 1e-7): return 'with a memo table used for other models before, P(%s) = %.9g instead of %.9g' % (E, got, w)
            gc.collect()
        return None

# -- simplification

def rnd_shared(rng):
    """A mixture of products over a small pool of factors, so that factors repeat."""
    sch = {v: (rng.choice(['num', 'num', 'nom']), 0) for v in ['X', 'Y', 'Z'][:rng.randint(2, 3)]}
    pools = {v: [mixed_leaf(rng, v, k, 0, 1) for _ in range(2)] for v, (k, n) in sch.items()}
    vs = list(sch)
    n = rng.choice([2, 2, 3, 4])
    ws = {2: ['1/3', '2/3'], 3: ['1/2', '1/4', '1/4'], 4: ['1/4', '1/4', '3/8', '1/8']}[n]
    out = []
    for w in ws:
        fs = [rng.choice(pools[v]) for v in vs]
        if len(vs) == 3 and rng.random() < .3:
            j = rnd_model(rng, {v: sch[v] for v in vs[1:]}, 1)
            fs = [fs[0], j]
        if rng.random() < .4: rng.shuffle(fs)
        out.append([w, ['prod', fs]])
    return sch, ['sum', out]

@suite('C12')
class Simplify:
    """mixtures of at most 4 products of at most 3 factors drawn from a pool"""
    name = 'model.simplify'
    @staticmethod
    def gen(rng, tier):
        while True:
            if rng.random() < .35:
                v = rng.choice(['X', 'Y'])
                k = rng.choice(['num', 'nom'])
                pool = [rnd_leaf(rng, v, k, 0) for _ in range(2)]
                n = rng.choice([2, 3, 4])
                ws = {2: ['1/3', '2/3'], 3: ['1/2', '1/4', '1/4'], 4: ['1/4', '1/4', '3/8', '1/8']}[n]
                sch, m = {v: (k, 0)}, ['sum', [[w, rng.choice(pool)] for w in ws]]
            else: sch, m = rnd_shared(rng)
            es = [model_event(rng, sch) for _ in range(3)]
            if usable(*es): yield [m, es]
    @staticmethod
    @guard
    def check(case):
        from sppl.spe import SumSPE, spe_simplify_sum
        m, es = case
        comps = denote(m)
        cs = [lib_model(x) for _, x in m[1]]
        ws = [math.log(exact(w)) for w, _ in m[1]]
        s = SumSPE(cs, ws)
        before = repr_model(s)
        t = spe_simplify_sum(s)
        if repr_model(s) != before: return 'simplification changed its argument'
        for e in es:
            r = compare(t, comps, e, 'after simplification, probability') or compare(s, comps, e, 'probability')
            if r: return r
        if t.get_symbols() != s.get_symbols(): return 'simplification changed the variables'
        return None

def vary(rng, m):
    """A model that may or may not be the same."""
    k = m[0]
    if k == 'leaf':
        if rng.random() < .1: return rnd_leaf(rng, m[1], 'nom' if is_nom(m[2]) else 'num', len(m[3]))
        if is_nom(m[2]) and rng.random() < .5:
            its = list(m[2][1].items())
            rng.shuffle(its)
            return ['leaf', m[1], ['nom', dict(its)], m[3]]
        return m
    if k == 'sum':
        cs = [[w, vary(rng, x)] for w, x in m[1]]
        if rng.random() < .2: rng.shuffle(cs)
        return ['sum', cs]
    cs = [vary(rng, x) for x in m[1]]
    if rng.random() < .2: rng.shuffle(cs)
    return ['prod', cs]

@suite('C12')
class Equality:
    """pairs of models that differ in order or in one part"""
    name = 'model.equality'
    @staticmethod
    def gen(rng, tier):
        while True:
            sch = rnd_schema(rng)
            m = rnd_model(rng, sch, 2)
            es = [model_event(rng, sch) for _ in range(3)]
            if usable(*es): yield [m, vary(rng, m), es]
    @staticmethod
    @guard
    def check(case):
        m, n, es = case
        a, b = lib_model(m), lib_model(n)
        if a != lib_model(m): return 'two builds of %s are not equal' % (m,)
        if hash(a) != hash(lib_model(m)): return 'two builds of %s have different hashes' % (m,)
        if (a == b) != (b == a): return 'equality is not symmetric'
        if a == b:
            if hash(a) != hash(b): return 'equal models have different hashes'
            for e in es:
                r = compare(b, denote(m), e, 'an equal model: probability')
                if r: return r
        return None

@suite('C12')
class LeafEquality:
    """pairs of conditioned or derived leaves that differ in one field"""
    name = 'leaf.equality'
    weight = 0.6
    @staticmethod
    def gen(rng, tier):
        while True:
            l = rnd_leaf(rng, 'X', 'num')
            if rng.random() < .15: l[2], l[3] = rnd_dist(rng, ['disc']), []
            out = []
            for _ in range(2):
                k = json_copy(l)
                if rng.random() < .3 and k[3]: k[3] = rnd_defs(rng, 'X', k[2], len(k[3]))
                if rng.random() < .2: k[2] = rnd_dist(rng, ['norm', 'unif', 'binom', 'pois', 'expon', 'geom'])
                if k[2][0] == 'disc' and rng.random() < .5: k[2] = ['disc', dict(zip(k[2][1], rng.choice([['1/8', '3/4', '1/8'], ['1/2', '1/4', '1/4']])))]
                if rng.random() < .6:
                    e = var_lit(rng, 'X', 'num', False)
                    if not usable(e): continue
                    k = ['cond', k, e]
                out.append(k)
            if len(out) == 2: yield out
    @staticmethod
    @guard
    def check(case):
        ms, libs = case, []
        for m in ms:
            c = meaning(m)
            if not c or has_tiny_cond(m): return None
            libs.append(lib_model(m))
        a, b = libs
        if a == b:
            if hash(a) != hash(b): return 'equal leaves have different hashes'
            names = ['X'] + [n for n, _ in (ms[0][1] if ms[0][0] == 'cond' else ms[0])[3]]
            for v in names:
                for p in ['-2', '-1/2', '0', '1/3', '1', '2', '7/2']:
                    r = compare(b, meaning(ms[0]), ['cmp', '<=', ['var', v], p], 'an equal leaf: probability')
                    if r: return r
        return None

def json_copy(x):
    import json
    return json.loads(json.dumps(x))

# -- derived variables

def derived_schema(rng):
    sch = rnd_schema(rng)
    out = {v: (k, rng.choice([1, 2, 3]) if k == 'num' else 0) for v, (k, n) in sch.items()}
    if not any(n for _, n in out.values()): out['X'] = ('num', 2)
    return out

def derived_names(rng, sch):
    return [(n, k) for n, k in names_of(sch) if '_' in n or k == 'nom' or rng.random() < .3]

def subst(t, defs):
    if isinstance(t, list):
        if len(t) == 2 and t[0] == 'var' and t[1] in defs: return subst(defs[t[1]], defs)
        return [subst(x, defs) for x in t]
    return t

@suite('C07')
class DerivedQueries:
    """models with at most 3 derived variables per base variable; events of depth at most 2"""
    name = 'derived.queries'
    weight = 2.0
    @staticmethod
    def gen(rng, tier): return gen_model_events(rng, 3, derived_schema, 1, derived_names)
    @staticmethod
    @guard
    def check(case):
        m, es = case
        if has_tiny_cond(m): return None
        comps = denote(m)
        lib = lib_model(m)
        for e in es:
            r = compare(lib, comps, e, 'probability')
            if r: return r
        if len(comps) == 1 or all(json_key(c.defs) == json_key(comps[0].defs) for c in comps):
            for e in es[:2]:
                w = subst(e, comps[0].defs)
                try:
                    W = make_event(w)
                except ValueError: continue
                p, q = ask(lib, make_event(e)), ask(lib, W)
                if not close(p, q): return 'P(%s) = %.9g but with definitions written out, P(%s) = %.9g' % (make_event(e), p, W, q)
        p = prob(comps, es[0])
        if p > 1e-3:
            post = lib.condition(make_event(es[0]))
            r = compare(post, conditioned(comps, es[0]), es[1], 'given %s, probability' % (make_event(es[0]),))
            if r: return r
        return None

@suite('C07')
class DerivedSamples:
    """20 samples of models with derived variables, also after conditioning"""
    name = 'derived.samples'
    @staticmethod
    def gen(rng, tier):
        for c in gen_model_events(rng, 1, derived_schema, 1, derived_names): yield c
    @staticmethod
    @guard
    def check(case):
        import numpy
        m, es = case
        if has_tiny_cond(m): return None
        comps = denote(m)
        lib = lib_model(m)
        models = [lib]
        if prob(comps, es[0]) > 1e-2: models.append(lib.condition(make_event(es[0])))
        for s in models:
            for row in s.sample(20, numpy.random.RandomState(3)):
                r = sample_consistent(comps, row)
                if r: return r
        return None

def sample_consistent(comps, row):
    """Some component explains the derived values of a sample."""
    vals = {str(k): v for k, v in row.items()}
    errs = []
    for c in comps:
        bad = None
        for n in c.defs:
            x = c.base_of(n)
            if n not in vals or x not in vals: continue
            want = c.fvalue(n, float(vals[x]))
            if want is None: continue
            got = float(vals[n])
            if not close(got, want, 1e-6, 1e-7): bad = '%s = %r but %s = %r, whose definition gives %r' % (x, vals[x], n, got, want)
        if bad is None: return None
        errs.append(bad)
    return 'a sample has ' + errs[0]

@suite('C07')
class Substitution:
    """chains of at most 4 definitions"""
    name = 'derived.substitute'
    @staticmethod
    def gen(rng, tier):
        while True:
            defs, names = [], ['X']
            for i in range(rng.randint(1, 4)):
                u = rng.choice(names[-2:])
                t, _ = safe_step(rng, ['var', u], False)
                defs.append(['D%d' % i, t]); names.append('D%d' % i)
            e = rnd_event(rng, lambda: var_lit(rng, rng.choice(names), 'num'), rng.choice([0, 1, 2]))
            t, _ = safe_step(rng, ['var', names[-1]], False)
            if usable(e): yield [defs, e, t]
    @staticmethod
    def check(case):
        from sppl.transforms import Id
        defs, e, t = case
        env = {Id('X'): Id('X')}
        for n, d in defs: env[Id(n)] = make(d)
        E, T = make_event(e), make(t)
        Es, Ts = E.substitute(env), T.substitute(env)
        for o in (Es, Ts):
            if o.get_symbols() - {Id('X')}: return 'substitution left %s in %s' % (o.get_symbols(), o)
        dd = dict(defs)
        for x in GRID:
            vals = {'X': x}
            try:
                for n, d in defs: vals[n] = value(d, vals)
                want_t, want_e = value(t, vals), holds(e, vals)
            except (Undefined, Ambiguous, OverflowError): continue
            if any(abs(M(v)) > 1e12 for v in vals.values()) or abs(M(want_t)) > 1e12: continue
            got = lib_val2(Ts.evaluate({Id('X'): topy(x)}))
            if got is not None and not close(got, float(want_t), 1e-7, 1e-8): return '%s is %s at X = %s instead of %s' % (Ts, got, x, want_t)
            ge = Es.evaluate({Id('X'): topy(x)})
            if bool(ge) != bool(want_e) and not near_edge(e, vals): return 'event %s is %s at X = %s instead of %s' % (Es, ge, x, want_e)
        return None

def near_edge(e, vals):
    for l in literals(e, {}).values():
        try:
            y = M(value(l[lit_expr(l)], vals))
        except Exception: return True
        pts = lit_points(l) | ({exact(s) for s in l[2]} if l[0] == 'inl' else set())
        for p in pts:
            if p not in (inf, -inf) and abs(y - M(p)) < 1e-9 * (1 + abs(M(p))): return True
    return False

def lib_val2(v):
    try:
        return float(v)
    except (TypeError, ValueError):
        try: return float(sympy.N(v, 20))
        except Exception: return None

# -- sampling

def chi_events(rng, sch, n):
    out = []
    while len(out) < n:
        e = model_event(rng, sch, 1)
        if usable(e): out.append(e)
    return out

@suite('C16')
class Sampling:
    """3000 samples per model with at most 3 base variables; frequencies within 5.5 standard errors"""
    name = 'model.samples'
    @staticmethod
    def gen(rng, tier):
        while True:
            sch = rnd_schema(rng, rng.choice([1, 2, 2, 3]))
            m = rnd_model(rng, sch, 2)
            if rng.random() < .3:
                e = model_event(rng, sch, 1)
                if not usable(e): continue
                m = ['cond', m, e]
            yield [m, chi_events(rng, sch, 3), sorted(rng.sample([n for n, _ in names_of(sch)], rng.randint(1, min(3, len(names_of(sch)))))), rng.randrange(10 ** 6)]
    @staticmethod
    @guard
    def check(case):
        import numpy
        from sppl.transforms import Id
        m, es, sub, seed = case
        if has_tiny_cond(m): return None
        comps = denote(m)
        lib = lib_model(m)
        N = 3000
        rows = lib.sample(N, numpy.random.RandomState(seed))
        r = check_rows(lib, comps, rows, N, lib.get_symbols())
        if r: return r
        r = frequencies(comps, rows, es)
        if r: return r
        S = frozenset(Id(v) for v in sub)
        rows2 = lib.sample_subset(S if seed % 2 or len(comps) == 1 and len(comps[0].bases) == 1 else sorted(S, key=str), N, numpy.random.RandomState(seed + 1))
        r = check_rows(lib, comps, rows2, N, S)
        if r: return 'sample_subset: ' + r
        es2 = [e for e in es if vars_of(e) <= set(sub)]
        r = frequencies(comps, rows2, es2)
        if r: return 'sample_subset: ' + r
        # a function of the variables
        if all('_' not in v for v in sub):
            src = 'lambda %s: (%s,)' % (', '.join(sub), ', '.join(sub))
            f = eval(src)
            vals = lib.sample_func(f, N, numpy.random.RandomState(seed + 2))
            if len(vals) != N or any(len(t) != len(sub) for t in vals): return 'sample_func returned %d values' % (len(vals),)
            rows3 = [{Id(v): x for v, x in zip(sub, t)} for t in vals]
            r = frequencies(comps, rows3, es2)
            if r: return 'sample_func: ' + r
        return None

def check_rows(lib, comps, rows, N, symbols):
    if len(rows) != N: return '%d samples instead of %d' % (len(rows), N)
    if len(set(id(r) for r in rows)) != N and N > 1:
        pass
    for row in rows[:200]:
        if set(row) != set(symbols): return 'a sample assigns %s instead of %s' % (sorted(map(str, row)), sorted(map(str, symbols)))
        r = sample_consistent(comps, row)
        if r: return r
    for row in rows[:60]:
        vals = {str(k): v for k, v in row.items()}
        if not any(possible(c, vals) for c in comps): return 'the sample %s is impossible' % (vals,)
    return None

def possible(c, vals):
    for x, d in c.bases.items():
        if x not in vals: continue
        v = vals[x]
        if is_cont(d):
            if isinstance(v, str): return False
            lo, hi = SUPPORT[d[0]](d)
            if not (lo - 1e-9 <= float(v) <= hi + 1e-9): return False
        elif is_nom(d):
            if not any(a == str(v) and p > 0 for a, p in atoms(d)): return False
        else:
            if isinstance(v, str): return False
            if not any(abs(float(a) - float(v)) < 1e-9 and p > 0 for a, p in atoms(d)): return False
    return True

def row_truth(e, vals):
    """Truth of an event on sampled (float or string) values; None near an edge."""
    k = e[0]
    if k in ('and', 'or', 'xor'):
        a, b = row_truth(e[1], vals), row_truth(e[2], vals)
        return (a and b) if k == 'and' else (a or b) if k == 'or' else a != b
    if k == 'not': return not row_truth(e[1], vals)
    u = lit_var(e)
    v = vals[u]
    if isinstance(v, str): return bool(holds(e, {u: str(v)}))
    y = fval(e[lit_expr(e)], {u: float(v)})
    if y is None: raise Skip()
    f = Fraction(y)
    r = Fraction(round(y * 10 ** 6), 10 ** 6)
    for p in (lit_points(e) | ({exact(s) for s in e[2]} if e[0] == 'inl' else set())):
        if p not in (inf, -inf) and abs(y - float(p)) < 1e-9 * (1 + abs(y)): f = p
    z = dict()
    E = list(e)
    E[lit_expr(e)] = ['var', '_y']
    return bool(holds(E, {'_y': f}))

def frequencies(comps, rows, es):
    N = len(rows)
    for e in es:
        p = prob(comps, e)
        ts = [row_truth(e, {str(k): (str(v) if isinstance(v, str) else v) for k, v in r.items()}) for r in rows]
        n = sum(ts)
        sd = math.sqrt(max(p * (1 - p), 1e-9) / N)
        if abs(n / N - p) > 5.5 * sd + 2.0 / N:
            p = robust_prob(comps, e)
            if abs(n / N - p) > 5.5 * sd + 2.0 / N: return 'event %s holds in %d of %d samples; its probability is %.6g' % (make_event(e), n, N, p)
        # successive draws are independent
        if 0.05 < p < 0.95:
            k = sum(a == b for a, b in zip(ts, ts[1:]))
            q = p * p + (1 - p) * (1 - p)
            if abs(k / (N - 1) - q) > 7 * math.sqrt(max(q * (1 - q), p * (1 - p)) / N) + 2.0 / N:
                return 'successive samples agree on %s %d times of %d; independent draws would %.6g' % (make_event(e), k, N - 1, q)
    return None

# -- mutual information

@suite('C20')
class MutualInformation:
    """models with at most 3 base variables; events of depth at most 1"""
    name = 'model.mutual_information'
    @staticmethod
    def gen(rng, tier):
        while True:
            sch = rnd_schema(rng)
            m = rnd_model(rng, sch, 2)
            a, b = model_event(rng, sch, rng.choice([0, 0, 1])), model_event(rng, sch, rng.choice([0, 0, 1]))
            if rng.random() < .15: b = a
            if usable(a, b): yield [m, a, b]
    @staticmethod
    @guard
    def check(case):
        m, a, b = case
        comps = denote(m)
        p11 = prob(comps, ['and', a, b])
        pa, pb = prob(comps, a), prob(comps, b)
        p = {(1, 1): p11, (1, 0): pa - p11, (0, 1): pb - p11, (0, 0): 1 - pa - pb + p11}
        # numbers too small to be told from zero
        if any(0 < abs(x) < 1e-6 for x in list(p.values()) + [pa, pb, 1 - pa, 1 - pb]):
            p = {k: (0.0 if abs(x) < 1e-12 else x) for k, x in p.items()}
            if any(0 < abs(x) < 1e-6 for x in p.values()): return None
        want = 0.0
        for (i, j), x in p.items():
            if x > 0: want += x * math.log(x / ((pa if i else 1 - pa) * (pb if j else 1 - pb)))
        lib = lib_model(m)
        A, B = make_event(a), make_event(b)
        for x, y in ((A, B), (B, A), (~A, B), (A, ~B)):
            got = float(lib.mutual_information(x, y))
            if not close(got, want, 1e-5, 2e-6): return 'mutual information of %s and %s is %.9g instead of %.9g' % (x, y, got, want)
        h = -sum(x * math.log(x) for x in (pa, 1 - pa) if x > 1e-12)
        got = float(lib.mutual_information(A, A))
        if not close(got, h, 1e-5, 2e-6): return 'mutual information of %s with itself is %.9g, its entropy %.9g' % (A, got, h)
        return None
