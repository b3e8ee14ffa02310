"""C21: construction of models."""
from models import *

def raises(f):
    try:
        return None, f()
    except (RecursionError, MemoryError): raise
    except Exception as e:
        return e, None

ROLES = ['X', 'Y', 'Z', 'X_0', 'Y_0']

def rnd_small(rng, depth):
    """A well-formed model over some of the names."""
    sch = rnd_schema(rng, rng.choice([1, 1, 2]))
    return rnd_model(rng, sch, depth)

def names(m):
    """Variables of a well-formed model."""
    k = m[0]
    if k == 'leaf': return {m[1]} | {n for n, _ in m[3]}
    if k == 'sum': return names(m[1][0][1])
    if k == 'prod': return set().union(*[names(x) for x in m[1]])
    raise ValueError(k)

GOOD = [['1/2', '1/2'], ['1/3', '2/3'], ['f0.25', 'f0.75'], ['1/2', '1/4', '1/4'], ['f0.1', 'f0.2', 'f0.7'], ['f0.7', 'f0.2', 'f0.1'],
    ['f0.55', 'f0.3', 'f0.15'], ['f0.1'] * 10, ['f0.05'] * 20, ['1/7'] * 7, ['f0.15', 'f0.35', 'f0.5'], ['f0.45', 'f0.35', 'f0.2'],
    ['f0.4', 'f0.3', 'f0.2', 'f0.1'], ['f0.6', 'f0.3', 'f0.1']]
BAD = [['1/2', '1/4'], ['1/2', '3/4'], ['f0.5', 'f0.501'], ['f0.3', 'f0.3', 'f0.3'], ['1/3', '1/3'], ['f0.9', 'f0.2'], ['1/2', '1/2', '1/2']]
ODD = [['-1/4', '5/4'], ['3/2', '-1/2'], ['0', '1'], ['1', '0']]

def total(ws): return sum(exact(w) for w in ws)
def sums_to_one(ws): return abs(float(total(ws)) - 1) < 1e-7

def atomic(v, i):
    from sppl.spe import AtomicLeaf
    from sppl.transforms import Id
    return AtomicLeaf(Id(v), i)

@suite('C21')
class Mixtures:
    """mixtures of up to 20 components over at most 4 variables"""
    name = 'build.mixture'
    weight = 1.0
    @staticmethod
    def gen(rng, tier):
        while True:
            ws = rng.choice(rng.choice([GOOD, GOOD, BAD, ODD]))
            if rng.random() < .6:
                yield ['weights', rng.choice(['log', 'op', 'mul', 'dist']), ws]
            else:
                ms = [rnd_small(rng, 1) for _ in range(2)]
                if rng.random() < .5: ms[1] = ms[0]
                yield ['vars', rng.choice(['log', 'op']), ms, ['1/3', '2/3']]
    @staticmethod
    def check(case):
        from sppl.spe import SumSPE, PartialSumSPE, SPE
        from sppl.transforms import Id
        if case[0] == 'weights':
            _, how, ws = case
            n = len(ws)
            lo = min(exact(w) for w in ws)
            if how == 'log':
                ok = sums_to_one(ws) and lo >= 0
                if lo < 0: return None
                f = lambda: SumSPE([atomic('X', i) for i in range(n)], [math.log(exact(w)) if exact(w) > 0 else -inf for w in ws])
            elif how in ('op', 'mul'):
                ok = sums_to_one(ws) and lo > 0
                def f():
                    r = None
                    for i, w in enumerate(ws):
                        a = atomic('X', i)
                        p = num(w) * a if how == 'op' or i % 2 else a * num(w)
                        r = p if r is None else r | p
                    return r
            else:
                ok = sums_to_one(ws) and lo > 0
                def f():
                    import sppl.distributions as D
                    r = None
                    for i, w in enumerate(ws):
                        p = num(w) * D.atomic(loc=i)
                        r = p if r is None else r | p
                    return Id('X') >> r
            e, m = raises(f)
            # unfinished mixtures are not models
            if m is not None and isinstance(m, PartialSumSPE):
                if ok: return 'weights %s do not make a model' % (ws,)
                for g in (lambda: m & atomic('Y', 0), lambda: atomic('Y', 0) & m, lambda: m.prob(Id('X') < 1)):
                    if raises(g)[0] is None: return 'a mixture with weights %s is used as a model' % (ws,)
                return None
            if ok and e is not None: return 'weights %s are rejected (%s): %s: %s' % (ws, how, type(e).__name__, e)
            if not ok:
                if e is None: return 'weights %s are accepted (%s)' % (ws, how)
                return None
            for i, w in enumerate(ws):
                p = float(m.prob(Id('X') << {i}))
                if not close(p, float(exact(w)), 1e-7): return 'component %d of weights %s has probability %.12g (%s)' % (i, ws, p, how)
            return None
        _, how, ms, ws = case
        libs = [lib_model(m) for m in ms]
        ok = names(ms[0]) == names(ms[1])
        if how == 'log': f = lambda: SumSPE(libs, [math.log(exact(w)) for w in ws])
        else: f = lambda: topy(exact(ws[0])) * libs[0] | topy(exact(ws[1])) * libs[1]
        e, m = raises(f)
        if ok and e is not None: return 'a mixture of components over %s is rejected: %s' % (sorted(names(ms[0])), e)
        if not ok and e is None: return 'a mixture of components over %s and %s is accepted' % (sorted(names(ms[0])), sorted(names(ms[1])))
        if ok and {str(s) for s in m.get_symbols()} != names(ms[0]): return 'the mixture has variables %s' % (m.get_symbols(),)
        return None

@suite('C21')
class Products:
    """products of up to 4 components over at most 4 variables each"""
    name = 'build.product'
    weight = 1.0
    @staticmethod
    def gen(rng, tier):
        while True:
            out = []
            for _ in range(rng.randint(2, 4)):
                v = rng.choice(['X', 'Y', 'Z', 'W', 'V'])
                m = rnd_model(rng, {v: (rng.choice(['num', 'nom']), 0)}, 1) if rng.random() < .7 else rnd_small(rng, 1)
                if m[0] == 'leaf' and m[2][0] != 'nom' and rng.random() < .4:
                    m = ['leaf', m[1], m[2], [[rng.choice(['X', 'Y', 'Z', 'W', 'V', 'U']), ['mul', ['num', '2'], ['var', m[1]]]]]]
                    if m[3][0][0] == m[1]: m[3] = []
                out.append(m)
            yield [out, rng.choice(['ctor', 'op'])]
    @staticmethod
    def check(case):
        from sppl.spe import ProductSPE
        ms, how = case
        libs = [lib_model(m) for m in ms]
        ns = [names(m) for m in ms]
        ok = sum(map(len, ns)) == len(set().union(*ns))
        def f():
            if how == 'ctor': return ProductSPE(libs)
            r = libs[0]
            for x in libs[1:]: r = r & x
            return r
        e, m = raises(f)
        if ok and e is not None: return 'a product of components over %s is rejected: %s: %s' % (list(map(sorted, ns)), type(e).__name__, e)
        if not ok and e is None: return 'a product of components over %s is accepted' % (list(map(sorted, ns)),)
        if ok and {str(s) for s in m.get_symbols()} != set().union(*ns): return 'the product has variables %s' % (m.get_symbols(),)
        return None

@suite('C21')
class Nominals:
    """nominal distributions with at most 4 outcomes"""
    name = 'build.nominal'
    weight = .7
    @staticmethod
    def gen(rng, tier):
        while True:
            n = rng.randint(1, 4)
            keys = rng.sample(['a', 'b', 'c', 'd', 'e', 'f'], n)
            r = rng.random()
            ws = rng.choice([w for w in GOOD + BAD + ODD + [['1'], ['1/2'], ['2'], ['0'], ['-1', '1', '1'], ['-1/2', '1/2', '1'], ['1/2', '0', '1/2']]])
            keys = (keys + ['g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z'])[:len(ws)]
            bad = rng.random() < .25
            yield [keys, ws, [rng.randrange(len(keys)), rng.choice(['0', '1', 'f0.5', 'none'])] if bad else None, rng.choice(['leaf', 'choice'])]
    @staticmethod
    def check(case):
        from sppl.spe import NominalLeaf
        from sppl.transforms import Id
        import sppl.distributions as D
        keys, ws, bad, how = case
        d = {}
        for i, (k, w) in enumerate(zip(keys, ws)):
            if bad and bad[0] == i: k = None if bad[1] == 'none' else num(bad[1])
            x = exact(w)
            d[k] = float(x) if w.startswith('f') else x
        ok = bad is None and sums_to_one(ws) and min(exact(w) for w in ws) >= 0
        e, m = raises(lambda: NominalLeaf(Id('X'), d) if how == 'leaf' else Id('X') >> D.choice(d))
        if ok and e is not None: return 'nominal distribution %s is rejected: %s: %s' % (d, type(e).__name__, e)
        if not ok and e is None: return 'nominal distribution %s is accepted' % (d,)
        if ok:
            for k, w in zip(keys, ws):
                p = float(m.prob(Id('X') << {k}))
                if not close(p, float(exact(w)), 1e-9): return 'outcome %r of %s has probability %.12g' % (k, d, p)
        return None

@suite('C21')
class Derived:
    """derived variables of models with at most 3 base variables"""
    name = 'build.transform'
    weight = 1.0
    @staticmethod
    def gen(rng, tier):
        pool = ['X', 'Y', 'Z', 'X_0', 'Y_0', 'Z_0', 'X_1', 'Q', 'R']
        while True:
            sch = rnd_schema(rng, rng.choice([1, 2, 2, 3]))
            m = rnd_model(rng, sch, 1)
            t = ['var', rng.choice(pool)]
            k = rng.random()
            if k < .5: t = ['add', ['mul', ['num', '2'], t], ['num', '1']]
            elif k < .6: t = ['abs', t]
            elif k < .7: t = ['pow', t, 2]
            yield [m, rng.choice(pool), t]
    @staticmethod
    def check(case):
        from sppl.transforms import Id
        m, new, t = case
        lib = lib_model(m)
        ns = names(m)
        (u,) = vars_of(t)
        nominal = any(u == b and is_nom(d) for c in meaning(m) for b, d in c.bases.items())
        ok = new not in ns and u in ns and not nominal
        e, r = raises(lambda: lib.transform(Id(new), make(t)))
        if ok and e is not None: return 'derived variable %s = %s of a model over %s is rejected: %s: %s' % (new, make(t), sorted(ns), type(e).__name__, e)
        if not ok and e is None: return 'derived variable %s = %s of a model over %s is accepted' % (new, make(t), sorted(ns))
        if ok and {str(s) for s in r.get_symbols()} != ns | {new}: return 'the model has variables %s' % (r.get_symbols(),)
        if {str(s) for s in lib.get_symbols()} != ns: return 'transform changed its model'
        return None

@suite('C21')
class Exposed:
    """mixtures with exposed choice, 1 to 4 components"""
    name = 'build.exposed'
    weight = .5
    @staticmethod
    def gen(rng, tier):
        while True:
            ws = rng.choice([w for w in GOOD if len(w) <= 4] + [['1/2', '0', '1/2']])
            keys = rng.sample(['a', 'b', 'c', 'd', 'e'], len(ws))
            yield [keys, ws, [rng.choice(['X', 'X', 'X', 'X', 'Y']) for _ in ws]]
    @staticmethod
    def check(case):
        from sppl.spe import ExposedSumSPE, NominalLeaf
        from sppl.transforms import Id
        keys, ws, vs = case
        leaf = NominalLeaf(Id('B'), {k: exact(w) for k, w in zip(keys, ws)})
        ok = len(set(vs)) == 1
        e, m = raises(lambda: ExposedSumSPE({k: atomic(v, i) for i, (k, v) in enumerate(zip(keys, vs))}, leaf))
        if ok and e is not None: return 'exposed mixture of %s is rejected: %s: %s' % (ws, type(e).__name__, e)
        if not ok: return 'exposed mixture over %s is accepted' % (vs,) if e is None else None
        for i, (k, w) in enumerate(zip(keys, ws)):
            for what, ev in (('outcome', Id('B') << {k}), ('component', Id(vs[0]) << {i}), ('both', (Id('B') << {k}) & (Id(vs[0]) << {i}))):
                p = float(m.prob(ev))
                if not close(p, float(exact(w)), 1e-7): return '%s %d of %s has probability %.12g' % (what, i, ws, p)
        return None
