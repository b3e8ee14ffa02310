"""Contracts of sampling (C16, and derived variables of samples: C07)."""
import ast
from .modelspec import *
from .registry import Task

F_ = dict(fast_ms=150, linear=True)

class Value:
    """A sampled value."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
    def vc_truth(self, I): raise Unsupported('truth of a sampled value')
    def vc_is(self, I, o): return self is o
    def vc_eq(self, I, o):
        if self is o: return True
        raise Unsupported('equality of sampled values')
    def vc_attr(self, I, name): return MISSING

class Defn:
    """A definition over given variables; its value depends on theirs."""
    def __init__(self, I, name, syms): self.I, self.name, self.syms, self.memo = I, name, syms, {}
    def vc_truth(self, I): return True
    def of(self, vals):
        k = tuple(id(v) for v in vals)
        return self.memo.setdefault(k, (Value('%s%r' % (self.name, vals)), vals))[0]
    def vc_attr(self, I, name):
        if name == 'evaluate': return NativeF(name, self.evaluate)
        return MISSING
    def evaluate(self, I, a, k):
        vals = []
        for s in self.syms:
            if not I.truth(I.contains(a[0], s)): I.throw(ValueError, 'not assigned')
            vals.append(I.getitem(a[0], s))
        return self.of(vals)

class VarDef(Defn):
    """A variable as its own definition."""
    def of(self, vals): return vals[0]

def row(I, d):
    """A sample as pairs of a token and a value."""
    if not isinstance(d, PDict): return None
    return {I.getattr(k, 'token'): v for k, v in d.pairs}

def leaf_sample(n, want, how):
    """sample_subset and sample of a leaf with derived variables."""
    def h(ctx):
        I = interp(ctx)
        X, Y, Z = variables(I, 3)
        f, g = Defn(I, 'f', [X]), Defn(I, 'g', [Y, X])
        env = PDict([(X, VarDef(I, 'X', [X])), (Y, f), (Z, g)], 0, 'OrderedDict')
        L = Obj(cls(I, 'RealLeaf'), dict(symbol=X, env=env), 0)
        xs = [Value('x%d' % i) for i in range(n)]
        calls = []
        prng = Value('prng')
        def draw(I, fn, a, k):
            calls.append(a[1:])
            return PList([PDict([(X, x)], 0) for x in xs], I.ctx.depth)
        I.contracts[M + '.RealLeaf.sample__'] = draw
        names = dict(X=X, Y=Y, Z=Z)
        S = [names[c] for c in want]
        if how == 'sample': r = guard(ctx, 'sample', lambda: I.call(I.getattr(L, 'sample'), [n], dict(prng=prng)))
        else: r = guard(ctx, 'sample_subset', lambda: I.call(I.getattr(L, 'sample_subset'), [PSet(S, 0, True) if how == 'set' else PList(S, 0), n], dict(prng=prng)))
        rows = [row(I, d) for d in I.tolist(r)]
        ctx.prove('the base variable is drawn once for each sample', len(calls) == 1 and list(calls[0]) == [n, prng])
        ctx.prove('as many samples as asked for', len(rows) == n)
        for x, d in zip(xs, rows):
            y = f.of([x])
            vals = {'V0': x, 'V1': y, 'V2': g.of([y, x])}
            keys = {I.getattr(s, 'token') for s in S}
            ctx.prove('the variables asked for and no others', d is not None and set(d) == keys)
            ctx.prove('derived variables have the values of their definitions', d is not None and all(d.get(k) is vals[k] for k in keys))
    return h

def leaf_unknown(ctx):
    I = interp(ctx)
    X, W = variables(I, 2)
    L = Obj(cls(I, 'RealLeaf'), dict(symbol=X, env=PDict([(X, VarDef(I, 'X', [X]))], 0, 'OrderedDict')), 0)
    I.contracts[M + '.RealLeaf.sample__'] = lambda I, fn, a, k: PList([PDict([(X, Value('x'))], 0)], I.ctx.depth)
    try: I.call(I.getattr(L, 'sample_subset'), [PSet([W], 0, True), 1], {})
    except PyExc: ctx.prove('rejected', True); return
    ctx.fail('variables that are not of the model are rejected', 'accepted')

# ---------------------------------------------------------------------------
# the source of randomness

class Vec:
    """A numpy vector of numbers."""
    def __init__(self, items): self.items = items
    def vc_truth(self, I): raise Unsupported('truth of a vector')
    def vc_list(self, I): return PList(list(self.items), I.ctx.depth)
    def vc_iter(self, I): return list(self.items)
    def vc_attr(self, I, name):
        if name == 'tolist': return NativeF(name, lambda I, a, k: PList(list(self.items), I.ctx.depth))
        if name == 'sum': return NativeF(name, lambda I, a, k: I.B.b_sum(I, [self.vc_list(I)], {}))
        return MISSING
    def vc_len(self, I): return len(self.items)
    def vc_getitem(self, I, i): return self.items[i] if isinstance(i, int) else I.throw(TypeError, 'index')
    def vc_unary(self, I, op): return Vec([I.unary(op, x) for x in self.items])
    def vc_binop(self, I, op, o, r):
        if isinstance(o, (Vec, PList)):
            b = list(o.items)
            if len(b) != len(self.items): raise Unsupported('vectors of different lengths')
        elif I.isnum(o): b = [o] * len(self.items)
        else: return NotImplemented
        return Vec([I.binop(op, y, x) if r else I.binop(op, x, y) for x, y in zip(self.items, b)])

class Slot:
    """The sample at a place of a shuffled list."""
    def __init__(self, of, j): self.of, self.j = of, j
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_attr(self, I, name): return MISSING

class Prng:
    """A generator of random numbers, as documented by numpy."""
    def __init__(self, I): self.I, self.shuffles, self.choices, self.draws = I, [], [], []
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_attr(self, I, name):
        m = getattr(self, 'm_' + name, None)
        if m is None: raise Unsupported('numpy.random.%s' % name)
        return NativeF(name, m)
    def m_shuffle(self, I, a, k):
        if len(a) != 1 or k or not isinstance(a[0], PList): raise Unsupported('shuffle')
        of = (a[0], list(a[0].items))
        self.shuffles.append(of)
        a[0].items[:] = [Slot(of, j) for j in range(len(of[1]))]
    def m_choice(self, I, a, k):
        d = dict(zip(('a', 'size', 'replace', 'p'), a)); d.update(k)
        if set(d) - {'a', 'size', 'replace', 'p'} or I.truth(d.get('replace', True)) is not True: raise Unsupported('choice')
        r = Value('draws')
        self.choices.append((I.tolist(d['a']), d.get('size'), d.get('p'), r))
        return r
    def m_uniform(self, I, a, k):
        d = dict(zip(('low', 'high', 'size'), a)); d.update(k)
        lo, hi, n = I.lift(d.get('low', 0)), I.lift(d.get('high', 1)), d.get('size')
        if not isinstance(n, int): raise Unsupported('size of a sample')
        us = [I.ctx.real('u') for _ in range(n)]
        for u in us: I.ctx.assume(And(u > 0, u < 1))
        self.draws.append(us)
        return Vec([Sc(0, lo.val + (hi.val - lo.val) * u) for u in us])
    def m_random(self, I, a, k): return self.m_uniform(I, [], dict(size=(a + [k.get('size')])[0]))
    m_rand = m_random_sample = m_random

def counter(I, a, k):
    out = PDict([], I.ctx.depth, 'OrderedDict')
    for x in I.iterate(a[0]):
        old = 0
        for j, (y, n) in enumerate(out.pairs):
            if I.ctx.branch(I.eq(x, y)): out.pairs[j] = (y, n + 1); break
        else: out.pairs.append((x, 1))
    return out

def chain_map(I, a, k):
    """The first of the maps that has a key gives its value."""
    out = PDict([], I.ctx.depth)
    for m in reversed(a):
        for key, v in m.pairs: I.setitem(out, key, v)
    return out

def sampling(ctx):
    I = interp(ctx)
    I.externals['collections.Counter'] = NativeF('Counter', counter)
    I.externals['collections.ChainMap'] = NativeF('ChainMap', chain_map)
    I.externals['numpy.asarray'] = I.externals['numpy.array'] = NativeF('asarray', lambda I, a, k: Vec(list(I.tolist(a[0]))))
    I.default_prng = default_generator(I)
    return I

def default_generator(I):
    g = Prng(I)
    for n in ('choice', 'shuffle', 'uniform', 'random', 'rand', 'random_sample'): I.externals['numpy.random.' + n] = g.vc_attr(I, n)
    return g

def generator(ctx, I, given):
    """The generator that must be used, and the argument that says so."""
    if given: g = Prng(I); return g, g
    return I.default_prng, None

def choices(n, logs, given):
    """logflip and flip: N draws with the probabilities given."""
    def h(ctx):
        I = sampling(ctx)
        g, arg = generator(ctx, I, given)
        ws = [ctx.real('w') for _ in range(n)]
        for w in ws: ctx.assume(w > 0)
        if logs: sums_to_one(ctx, ws)
        xs = PList([Value('a%d' % i) for i in range(n)], 0)
        f = I.modules['sppl.math_util'].ns['logflip' if logs else 'flip']
        r = guard(ctx, 'draws', lambda: I.call(f, [PList([LogV(w) if logs else Sc(0, w) for w in ws], 0), xs, 7, arg], {}))
        ctx.prove('drawn once, from the generator given', len(g.choices) == 1 and r is g.choices[0][3])
        a, size, p, _ = g.choices[0]
        ctx.prove('as many draws as asked for', size == 7)
        ctx.prove('from the outcomes', len(a) == n and all(x is y for x, y in zip(a, xs.items)))
        p = I.tolist(p)
        ctx.prove('one probability for each outcome', len(p) == n)
        total = z3.RealVal(0)
        for w in ws: total = total + w
        for q, w in zip(p, ws): ctx.prove('the probability of an outcome is proportional to its weight', simp(I.lift(q).val * total == w))
    return h

class Sampled:
    """A component from which samples are drawn."""
    def __init__(self, I, name, syms): self.I, self.name, self.syms, self.calls = I, name, syms, []
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def draw(self, what, n, prng, syms):
        if not isinstance(n, int): raise Unsupported('size of a sample')
        rows = [PDict([(s, Value('%s.%s.%d' % (self.name, I_tok(self.I, s), j))) for s in syms], self.I.ctx.depth) for j in range(n)]
        if what == 'sample_func': rows = [Value('%s.%d' % (self.name, j)) for j in range(n)]
        self.calls.append((what, n, prng, list(syms), [dict_(self.I, r) for r in rows], rows))
        return PList(list(rows), self.I.ctx.depth)
    def vc_attr(self, I, name):
        if name == 'get_symbols': return NativeF(name, lambda I, a, k: PSet(list(self.syms), 0, True))
        if name == 'sample': return NativeF(name, lambda I, a, k: self.args('sample', ['N', 'prng'], a, k))
        if name == 'sample_subset': return NativeF(name, lambda I, a, k: self.args(name, ['symbols', 'N', 'prng'], a, k))
        if name == 'sample_func': return NativeF(name, lambda I, a, k: self.args(name, ['func', 'N', 'prng'], a, k))
        return MISSING
    def args(self, what, names, a, k):
        d = dict(zip(names, a)); d.update(k)
        d.setdefault('prng', None)
        syms = self.syms
        if what == 'sample_subset':
            syms = self.I.tolist(d['symbols'])
            if not {I_tok(self.I, s) for s in syms} <= {I_tok(self.I, s) for s in self.syms}: self.I.throw(AssertionError, 'not a variable of the component')
        if what == 'sample_func': self.func = d['func']
        return self.draw(what, d['N'], d['prng'], syms)

def I_tok(I, s): return I.getattr(s, 'token')
def dict_(I, r): return row(I, r) if isinstance(r, PDict) else {'': r}

def mixture_sample(n, N, how, given):
    """A mixture draws the component of each sample, and shuffles them."""
    def h(ctx):
        I = sampling(ctx)
        g, arg = generator(ctx, I, given)
        X, Y = variables(I, 2)
        kids = [Sampled(I, 'c%d' % i, [X, Y]) for i in range(n)]
        ws = PList([LogV(ctx.real('w')) for _ in range(n)], 0)
        S = Obj(cls(I, 'SumSPE'), dict(children=tuple(kids), weights=ws, indexes=tuple(range(n)), symbols=PSet([X, Y], 0, True)), 0)
        picks = []
        def flips(I, f, a, k):
            if k or len(a) != 4: raise Unsupported('logflip')
            w, xs, size, rng = a
            ctx.prove('components are drawn with the weights', w is ws or len(I.tolist(w)) == n and all(x is y for x, y in zip(I.tolist(w), ws.items)))
            ctx.prove('from all components', I.tolist(xs) == list(range(n)))
            ctx.prove('one for each sample', size == N)
            ctx.prove('from the generator given', rng is arg or rng is g)
            for _ in range(N):
                j = 0
                while j < n - 1 and not ctx.branch(ctx.bool_('pick')): j += 1
                picks.append(j)
            return PList(list(picks), I.ctx.depth)
        I.contracts['sppl.math_util.logflip'] = flips
        func = Value('func')
        args = {'sample': [N], 'sample_subset': [PSet([Y], 0, True), N], 'sample_func': [func, N]}[how]
        r = guard(ctx, how, lambda: I.call(I.getattr(S, how), args, dict(prng=arg)))
        ctx.prove('components are drawn once', len(picks) == N)
        out = I.tolist(r)
        ctx.prove('as many samples as asked for', len(out) == N)
        for i, c in enumerate(kids):
            for what, m, prng, syms, _, rows in c.calls:
                ctx.prove('components are asked the same question', what == how and (how != 'sample_subset' or len(syms) == 1 and syms[0] is Y) and (how != 'sample_func' or c.func is func))
                ctx.prove('components use the generator given', prng is arg or prng is g)
        made = [r for c in kids for call in c.calls for r in call[5]]
        where = {id(r): i for i, c in enumerate(kids) for call in c.calls for r in call[5]}
        count = lambda rs: [sum(where.get(id(r)) == i for r in rs) for i in range(n)]
        want = [picks.count(i) for i in range(n)]
        once = lambda rs: len({id(r) for r in rs}) == len(rs) and all(id(r) in where for r in rs)
        if out and all(isinstance(x, Slot) for x in out):
            of = out[0].of
            ctx.prove('one shuffled list', all(x.of is of for x in out) and sorted(x.j for x in out) == list(range(N)) and len(of[1]) == N)
            ctx.prove('samples are draws of components, each used once', once(of[1]))
            ctx.prove('as many samples of each component as were drawn', count(of[1]) == want)
            ctx.prove('shuffled by the generator given', any(s is of for s in g.shuffles))
        elif N <= 1 or n == 1 or not out:
            ctx.prove('samples are draws of components, each used once', once(out))
            ctx.prove('as many samples of each component as were drawn', count(out) == want)
        else:
            ctx.prove('samples are draws of components, each used once', once(out))
            # without a shuffle, the component of each sample is that drawn for it
            ctx.prove('the order of samples does not depend on their components', [where[id(r)] for r in out] == picks)
    return h

def product_sample(sizes, N, want, given):
    """A product draws from each component, independently."""
    def h(ctx):
        I = sampling(ctx)
        g, arg = generator(ctx, I, given)
        V = variables(I, sum(sizes))
        kids, i = [], 0
        for k, n in enumerate(sizes):
            kids.append(Sampled(I, 'c%d' % k, V[i:i + n])); i += n
        lookup = PDict([(s, k) for k, c in enumerate(kids) for s in c.syms], 0)
        P = Obj(cls(I, 'ProductSPE'), dict(children=tuple(kids), lookup=lookup, symbols=PSet(list(V), 0, True)), 0)
        if want is None:
            S = V
            r = guard(ctx, 'sample', lambda: I.call(I.getattr(P, 'sample'), [N], dict(prng=arg)))
        else:
            S = [V[j] for j in want]
            r = guard(ctx, 'sample_subset', lambda: I.call(I.getattr(P, 'sample_subset'), [PSet(S, 0, True), N], dict(prng=arg)))
        check_product(ctx, I, kids, g, arg, S, N, [row(I, d) for d in I.tolist(r)])
    return h

def check_product(ctx, I, kids, g, arg, S, N, rows):
    ctx.prove('as many samples as asked for', len(rows) == N)
    ctx.prove('the variables asked for and no others', all(d is not None and set(d) == {I_tok(I, s) for s in S} for d in rows))
    for c in kids:
        mine = {I_tok(I, s) for s in S if any(s is t for t in c.syms)}
        for call in c.calls: ctx.prove('components use the generator given', call[2] is arg or call[2] is g)
        if not mine: continue
        used = []
        for d in rows:
            hit = [(id(call), j) for call in c.calls for j, q in enumerate(call[4]) if all(q.get(t) is d.get(t) for t in mine)]
            ctx.prove('the variables of a component are of one of its samples', len(hit) == 1)
            used += hit
        ctx.prove('each sample of a component is used once', len(set(used)) == len(rows))

class Func:
    """A function of variables."""
    def __init__(self, args): self.args_, self.got = args, []
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_attr(self, I, name): return MISSING
    def vc_call(self, I, a, k):
        if a and len(a) <= len(self.args_): k = dict(k, **dict(zip(self.args_, a)))
        if set(k) != set(self.args_): I.throw(TypeError, 'arguments')
        v = Value('f')
        self.got.append((k, v))
        return v
class Spec_:
    def __init__(self, args): self.args = args
    def vc_attr(self, I, name): return PList(list(self.args), 0) if name == 'args' else MISSING

def function(kind, names, N):
    def h(ctx):
        I = sampling(ctx)
        I.externals['inspect.getfullargspec'] = NativeF('getfullargspec', lambda I, a, k: Spec_(a[0].args_))
        V = variables(I, 3)
        f = Func(names)
        known = all(n in ('V0', 'V1', 'V2') for n in names)
        g = Prng(I)
        if kind == 'ProductSPE':
            kids = [Sampled(I, 'c0', V[:2]), Sampled(I, 'c1', V[2:])]
            lookup = PDict([(s, k) for k, c in enumerate(kids) for s in c.syms], 0)
            P = Obj(cls(I, kind), dict(children=tuple(kids), lookup=lookup, symbols=PSet(list(V), 0, True)), 0)
        else:
            kids = [Sampled(I, 'leaf', V)]
            P = Obj(cls(I, kind), dict(symbol=V[0], env=PDict([(s, s) for s in V], 0, 'OrderedDict')), 0)
            for n in ('sample', 'sample_subset'): P.attrs[n] = kids[0].vc_attr(I, n)
        try: r = I.call(I.getattr(P, 'sample_func'), [f, N], dict(prng=g))
        except PyExc: ctx.prove('rejected: an argument is not a variable of the model', not known); return
        ctx.prove('accepted: the arguments are variables of the model', known)
        vals = I.tolist(r)
        ctx.prove('the values of the function', len(vals) == N == len(f.got) and len({id(v) for v in vals}) == N and all(any(v is w for _, w in f.got) for v in vals))
        check_product(ctx, I, kids, g, g, [V[int(n[1])] for n in names], N, [k for k, _ in f.got])
    return h

# -- leaves

def truncated(discrete, conditioned, N):
    """Inversion of the distribution function, within the support."""
    from .p_leaf import Dist, world
    def h(ctx):
        I, L, D, S, mS, _, env = world(ctx, discrete, conditioned, None)
        g = Prng(I)
        default_generator(I)
        asked, made = [], []
        def ppf(I, a, k):
            v = a[0]
            if not isinstance(v, Vec): raise Unsupported('ppf')
            out = [Value('x') for _ in v.items]
            asked.extend(I.lift(q).val for q in v.items); made.extend(out)
            return Vec(out)
        def rvs(I, a, k):
            d = dict(zip(('size',), a)); d.update(k)
            if set(d) != {'size', 'random_state'}: raise Unsupported('rvs')
            ctx.prove('drawn from the generator given', d['random_state'] is g)
            ctx.prove('drawn from the distribution itself: it is not conditioned', not conditioned)
            made.extend(Value('x') for _ in range(d['size']))
            return Vec(list(made))
        old = D.vc_attr
        D.vc_attr = lambda I, name: NativeF(name, ppf) if name == 'ppf' else NativeF(name, rvs) if name == 'rvs' else old(I, name)
        r = guard(ctx, 'sample__', lambda: I.call(I.getattr(L, 'sample__'), [N, g], {}))
        rows = I.tolist(r)
        ctx.prove('as many samples as asked for', len(rows) == N == len(made))
        for d, x in zip(rows, made): ctx.prove('a sample gives the variable the value drawn', isinstance(d, PDict) and len(d.pairs) == 1 and d.pairs[0][0] is L.attrs['symbol'] and d.pairs[0][1] is x)
        ctx.prove('samples are separate objects', len({id(d) for d in rows}) == N)
        if not conditioned:
            if asked:
                # inversion of the whole distribution
                us = [u for d in g.draws for u in d]
                ctx.prove('uniform between 0 and 1', len(us) == N and And(*[Or(q == u, q == 1 - u) for q, u in zip(asked, us)]))
            return
        us = [u for d in g.draws for u in d]
        ctx.prove('one uniform number from the generator given for each sample', len(us) == N == len(asked))
        lo, hi = ends(D, S, I, discrete)
        for q, u in zip(asked, us):
            ctx.prove('uniform between the distribution function at the ends of the support', Or(q == lo + u * (hi - lo), q == hi - u * (hi - lo)))
            ctx.prove('strictly within them', And(lo < q, q < hi))
    return h

def ends(D, S, I, discrete):
    from .setspec import attr
    a, b, lo, ro = attr(S, 'a'), attr(S, 'b'), I.truth(attr(S, 'left_open')), I.truth(attr(S, 'right_open'))
    a, b = I.lift(a), I.lift(b)
    if not discrete: return D.F(a), D.F(b)
    return D.ends(a, lambda: D.at(D.first(a, lo))), D.ends(b, lambda: D.at(D.last(b, ro)))

def table(N, given, n):
    """NominalLeaf: draws of outcomes with their weights."""
    def h(ctx):
        I = sampling(ctx)
        g, arg = generator(ctx, I, given)
        V, = variables(I, 1)
        ks = [ctx.string('k%d' % i) for i in range(n)]
        for i in range(n):
            for j in range(i): ctx.assume(simp(ks[i].term != ks[j].term))
        ws = [ctx.real('w') for _ in range(n)]
        for w in ws: ctx.assume(And(w >= 0, w <= 1))
        sums_to_one(ctx, ws)
        L = guard(ctx, 'constructor', lambda: I.call(cls(I, 'NominalLeaf'), [V, PDict([(k, Sc(0, w)) for k, w in zip(ks, ws)], 0)], {}))
        drawn = [Value('x%d' % j) for j in range(N)]
        seen = []
        def flips(I, f, a, k):
            if k or len(a) != 4: raise Unsupported('flip')
            p, xs = I.tolist(a[0]), I.tolist(a[1])
            seen.append(1)
            ctx.prove('from all outcomes', len(xs) == n == len(p) and all(any(x is k for x in xs) for k in ks))
            for x, q in zip(xs, p): ctx.prove('with the weight of each outcome', I.lift(q).val == next(w for k, w in zip(ks, ws) if k is x))
            ctx.prove('one for each sample, from the generator given', a[2] == N and (a[3] is arg or a[3] is g))
            return PList(list(drawn), I.ctx.depth)
        I.contracts['sppl.math_util.flip'] = flips
        rows = I.tolist(guard(ctx, 'sample__', lambda: I.call(I.getattr(L, 'sample__'), [N, arg], {})))
        ctx.prove('as many samples as asked for', len(rows) == N and len(seen) == 1)
        for d, x in zip(rows, drawn): ctx.prove('a sample gives the variable the value drawn', isinstance(d, PDict) and len(d.pairs) == 1 and d.pairs[0][0] is V and d.pairs[0][1] is x)
    return h

def constant(N):
    def h(ctx):
        I = sampling(ctx)
        V, = variables(I, 1)
        v = Sc(0, ctx.real('v'))
        L = guard(ctx, 'constructor', lambda: I.call(cls(I, 'AtomicLeaf'), [V, v], {}))
        rows = I.tolist(guard(ctx, 'sample', lambda: I.call(I.getattr(L, 'sample'), [N], {})))
        ctx.prove('as many samples as asked for', len(rows) == N)
        for d in rows: ctx.prove('a sample gives the variable the value', len(d.pairs) == 1 and I.eq(d.pairs[0][0], V) and I.eq(d.pairs[0][1], v))
    return h

SUBSETS = ('X', 'Y', 'Z', 'XY', 'XZ', 'YZ', 'XYZ')
def derived_tasks():
    out = []
    for n in (1, 2, 3):
        out.append(Task('%d samples of a leaf with derived variables' % n, leaf_sample(n, 'XYZ', 'sample'), bound='at most 3 samples, 2 derived variables', **F_))
        for w in SUBSETS:
            for how in ('set', 'list'):
                out.append(Task('%d samples of %s from a leaf, as a %s' % (n, w, how), leaf_sample(n, w, how), bound='at most 3 samples, 2 derived variables', **F_))
    return out

def tasks(prop, tier):
    if prop != 'C16': return []
    out = derived_tasks()
    out.append(Task('samples of an unknown variable', leaf_unknown, **F_))
    B = 'at most 3 components, 4 samples'
    for given in (True, False):
        w = 'a generator given' if given else 'the default generator'
        out += [Task('draws of %d outcomes, %s, %s' % (n, 'logarithms' if l else 'weights', w), choices(n, l, given), bound='at most 3 outcomes', **F_) for n in (1, 2, 3) for l in (True, False)]
        for how in ('sample', 'sample_subset', 'sample_func'):
            out += [Task('%s of a mixture of %d, %d samples, %s' % (how, n, N, w), mixture_sample(n, N, how, given), bound=B, weight=N, **F_)
                for n, N in ((1, 0), (1, 2), (2, 1), (2, 2), (2, 3), (3, 3))]
        out += [Task('samples of a product of %s, %d samples, %s' % (s, N, w), product_sample(s, N, None, given), bound=B, **F_) for s in ((1, 1), (2, 1), (1, 2, 1)) for N in (0, 1, 2, 3)]
        out += [Task('samples of %s from a product, %d samples, %s' % (list(x), N, w), product_sample((2, 1, 2), N, x, given), bound=B, **F_)
            for N in (1, 2, 3) for x in ((0,), (2,), (0, 1), (1, 2), (0, 3, 4), (4, 2, 1, 0), (0, 1, 2, 3, 4))]
        out += [Task('samples of a nominal leaf of %d, %d samples, %s' % (n, N, w), table(N, given, n), bound=B, **F_) for n in (1, 2, 3) for N in (0, 2)]
    out += [Task('function of %s of samples of a %s, %d samples' % (', '.join(x), k, N), function(k, x, N), bound=B, **F_) for k in ('ProductSPE', 'RealLeaf') for N in (1, 3)
        for x in (('V0',), ('V2',), ('V0', 'V2'), ('V1', 'V0'), ('V0', 'V1', 'V2'), ('Q',), ('V0', 'Q'))]
    out += [Task('samples of a %s%s leaf, %d samples' % ('conditioned ' if c else '', 'discrete' if d else 'continuous', N), truncated(d, c, N), bound=None, **F_)
        for d in (False, True) for c in (False, True) for N in (0, 1, 3)]
    out += [Task('samples of an atomic leaf, %d samples' % N, constant(N), bound=B, **F_) for N in (0, 1, 3)]
    return out

_A = ['numpy.random: choice draws independently with the probabilities given, uniform draws independently from (0, 1), shuffle applies a uniform permutation',
    'rvs and ppf of scipy: rvs draws from the distribution, ppf is the inverse of its distribution function; hence ppf of a uniform number between F at the ends of the support has the distribution conditioned on the support',
    'Counter, ChainMap and getfullargspec of the standard library']
ASSUMPTIONS = {'C16': _A}
