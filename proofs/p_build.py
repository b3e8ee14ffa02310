"""Contracts of constructors (C21), and of flattening, simplification and
equality of models (C12)."""
from .modelspec import *
from pyvc.interp import HashV

def names(p): return {id(x) for x in p.symbols.items}

def sum_build(shape, same_vars):
    """SumSPE(children, weights): each child is a part (0) or a mixture of n."""
    def h(ctx):
        I = interp(ctx)
        V = variables(I, 2)
        kids, want, syms = [], z3.RealVal(0), []
        ws = [ctx.real('w') for _ in shape]
        for w in ws: ctx.assume(And(w >= 0, w <= 2))
        for w, k in zip(ws, shape):
            vs = V if same_vars else subset(ctx, V, 'has')
            if not vs: vs = V[:1]
            syms.append({id(x) for x in vs})
            if k == 0: c = Part(I, vs)
            else: c = new_sum(I, [Part(I, vs) for _ in range(k)], weights(ctx, k))
            kids.append(c); want = want + w * mu(I, c)
        total = z3.RealVal(0)
        for w in ws: total = total + w
        before = [c.attrs.get('children') if isinstance(c, Obj) else None for c in kids]
        lo = real_of(Fraction(1, 10**6))
        try: S = new_sum(I, kids, ws)
        except PyExc as e:
            ctx.prove('rejected: the weights do not sum to one or the variables differ',
                Or(total != 1, any(s != syms[0] for s in syms)))
            return
        ctx.prove('accepted: the weights sum to one', And(total - 1 < lo, 1 - total < lo))
        ctx.prove('accepted: all components have the same variables', all(s == syms[0] for s in syms))
        ctx.prove('the probability of an event is the weighted average', poly(mu(I, S)) == poly(want))
        ctx.prove('the variables are those of the components', {id(x) for x in I.tolist(S.attrs['symbols'])} == syms[0])
        n = len(I.tolist(S.attrs['children']))
        ctx.prove('one index for each component', I.tolist(S.attrs['indexes']) == list(range(n)) and n == len(I.tolist(S.attrs['weights'])))
        for c, b in zip(kids, before):
            if b is not None: ctx.prove('components are not modified', c.attrs['children'] is b)
    return h

def sum_lengths(n, m):
    def h(ctx):
        I = interp(ctx)
        V = variables(I, 1)
        ws = weights(ctx, m) if m else []
        try: new_sum(I, [Part(I, V) for _ in range(n)], ws)
        except PyExc: ctx.prove('rejected', True); return
        ctx.fail('as many weights as components', 'accepted %d components and %d weights' % (n, m))
    return h

def product_build(shape, overlap):
    def h(ctx):
        I = interp(ctx)
        n = sum(max(k, 1) for k in shape)
        V = variables(I, n)
        kids, want, used, clash, j = [], z3.RealVal(1), [], False, 0
        for k in shape:
            ps = []
            for _ in range(max(k, 1)):
                vs = [V[j]]
                if overlap and k == 0: vs = [V[j]] + [v for v in subset(ctx, V, 'has') if v is not V[j]]
                j += 1
                ps.append(Part(I, vs))
            try: c = ps[0] if k == 0 else new_product(I, ps)
            except PyExc: ctx.fail('components over disjoint variables are accepted', 'rejected'); return
            kids.append(c); want = want * mu(I, c)
            mine = {id(v) for p in ps for v in p.symbols.items}
            clash = clash or any(mine & u for u in used)
            used.append(mine)
        try: P = new_product(I, kids)
        except PyExc as e:
            ctx.prove('rejected: two components share a variable', clash); return
        ctx.prove('accepted: the components have disjoint variables', not clash)
        ctx.prove('the probability of a rectangle is the product', poly(mu(I, P)) == poly(want))
        ctx.prove('the variables are those of all components', {id(x) for x in I.tolist(P.attrs['symbols'])} == set().union(*used))
        cs = I.tolist(P.attrs['children'])
        look = P.attrs['lookup']
        for i, c in enumerate(cs):
            for s in I.tolist(I.call(I.getattr(c, 'get_symbols'), [], {})):
                ctx.prove('each variable is looked up in its component', I.getitem(look, s) == i)
    return h

def nominal_build(n, keys):
    def h(ctx):
        I = interp(ctx)
        (X,) = variables(I, 1)
        ws = [ctx.real('w') for _ in range(n)]
        bad = keys == 'number'
        ks = ['a', 'b', 'c'][:n] if not bad else (['a', 'b'][:n - 1] + [3])
        try: N = I.call(cls(I, 'NominalLeaf'), [X, PDict([(k, Sc(0, w)) for k, w in zip(ks, ws)], 0)], {})
        except PyExc as e:
            ctx.prove('rejected: an outcome is no string, or the weights are no probabilities',
                Or(bad, sum(ws) != 1, *[w < 0 for w in ws])); return
        lo = real_of(Fraction(1, 10**4))
        ctx.prove('accepted: string outcomes, weights not negative and summing to one',
            And(not bad, sum(ws) - 1 < lo, 1 - sum(ws) < lo, *[w >= 0 for w in ws]))
        sup = N.attrs['support']
        for k in ks: ctx.prove('the support has every outcome', I.contains(sup, k))
        ctx.prove('the support has no other value', Not(I.contains(sup, 'z')))
        for k, w in zip(ks, ws):
            p = as_log(guard(ctx, 'logpdf', lambda: I.call(I.getattr(N, 'logpdf__'), [k], {})))
            ctx.prove('the weight of each outcome is the one given', p.p == w)
        ctx.prove('every other outcome has probability zero', as_log(I.call(I.getattr(N, 'logpdf__'), ['z'], {})).p == 0)
    return h

def no_variable(kind):
    def h(ctx):
        I = interp(ctx)
        for bad in ('X', 3, None):
            try:
                if kind == 'NominalLeaf': I.call(cls(I, kind), [bad, PDict([('a', 1)], 0)], {})
                else: I.call(cls(I, 'RealLeaf'), [bad, None, None], {})
            except PyExc: ctx.prove('rejected', True); continue
            ctx.fail('a leaf needs a variable', 'accepted %r' % (bad,))
    return h

class Definition:
    """The expression that defines a derived variable."""
    def __init__(self, syms): self.symbols = PSet(list(syms), 0, True)
    def vc_truth(self, I): return True
    def vc_attr(self, I, name):
        if name == 'get_symbols': return NativeF(name, lambda I, a, k: self.symbols)
        return MISSING

def leaf_transform(kind):
    """A leaf with a new derived variable."""
    def h(ctx):
        I = interp(ctx)
        V = variables(I, 4)
        env = PDict([(V[0], V[0]), (V[1], Definition(V[:1]))], 0, 'OrderedDict')
        old = list(env.pairs)
        fields = dict(symbol=V[0], env=env)
        made = []
        if kind == 'AtomicLeaf':
            fields.update(value=ctx.num('v', True), support='support')
        else: fields.update(dist='dist', support='support', conditioned=ctx.bool_('conditioned'))
        def build(I, f, a, k):
            a = list(a)
            if kind == 'AtomicLeaf':
                d = dict(zip(('symbol', 'value', 'env'), a)); d.update(k)
            else:
                d = dict(zip(('symbol', 'dist', 'support', 'conditioned', 'env'), a)); d.update(k)
            made.append(d)
            return Obj(cls(I, kind), d, ctx.depth)
        I.contracts['%s.%s' % (M, kind)] = build
        L = Obj(cls(I, kind), fields, 0)
        s = V[ctx.choice(4)] if hasattr(ctx, 'choice') else pick(ctx, V)
        ds = subset(ctx, V, 'operand')
        D = Definition(ds)
        ok = s in V[2:] and all(d in V[:2] for d in ds)
        try: R = I.call(I.getattr(L, 'transform'), [s, D], {})
        except PyExc as e:
            ctx.prove('rejected: the name is taken or an operand is not defined', not ok)
            ctx.prove('the leaf is not modified', L.attrs['env'] is env and env.pairs == old)
            return
        ctx.prove('accepted: a fresh name and defined operands', ok)
        e = R.attrs.get('env')
        good = isinstance(e, PDict) and len(e.pairs) == 3 and [p[0] for p in e.pairs] == [V[0], V[1], s] and e.pairs[2][1] is D and e.pairs[1][1] is old[1][1]
        ctx.prove('the definition is added after those it may depend on', good)
        ctx.prove('nothing else changes', all(R.attrs.get(k) is v for k, v in fields.items() if k not in ('env',) and (kind != 'AtomicLeaf' or k != 'support')))
        ctx.prove('the leaf is not modified', L.attrs['env'] is env and env.pairs == old)
    return h

def pick(ctx, xs):
    for x in xs[:-1]:
        if ctx.branch(ctx.bool_('pick')): return x
    return xs[-1]

class Derivable(Part):
    def m_transform(self, I, a, k):
        s, D = a
        mine = names(self)
        if id(s) in mine or not all(id(d) in mine for d in D.symbols.items): I.throw(AssertionError, 'transform')
        p = Part(I, self.symbols.items + [s], ident=self.ident)
        p.derived = (self, s, D)
        return p

def sum_transform(n):
    def h(ctx):
        I = interp(ctx)
        V = variables(I, 3)
        kids = [Derivable(I, V[:2]) for _ in range(n)]
        ws = weights(ctx, n)
        S = new_sum(I, kids, ws)
        s, D = pick(ctx, V), Definition(subset(ctx, V, 'operand'))
        ok = s is V[2] and all(d in V[:2] for d in D.symbols.items)
        try: R = I.call(I.getattr(S, 'transform'), [s, D], {})
        except PyExc: ctx.prove('rejected: the name is taken or an operand is not defined', not ok); return
        ctx.prove('accepted: a fresh name and defined operands', ok)
        cs = I.tolist(R.attrs['children'])
        ctx.prove('every component is given the definition', len(cs) == n and all(getattr(c, 'derived', None) == (k, s, D) for c, k in zip(cs, kids)))
        ctx.prove('the weights are kept', And(*[as_log(w).p == v for w, v in zip(I.tolist(R.attrs['weights']), ws)]))
    return h

def product_transform(ctx):
    I = interp(ctx)
    V = variables(I, 5)
    kids = [Derivable(I, V[:2]), Derivable(I, V[2:4])]
    P = new_product(I, kids)
    s = pick(ctx, [V[0], V[2], V[4]])
    ds = subset(ctx, V, 'operand')
    D = Definition(ds)
    home = [i for i in (0, 1) if ds and all(d in kids[i].symbols.items for d in ds)]
    try: R = I.call(I.getattr(P, 'transform'), [s, D], {})
    except PyExc: ctx.prove('rejected: the name is taken, or no one component has all operands', not (s is V[4] and len(home) == 1)); return
    ctx.prove('accepted: a fresh name, and operands of one component', s is V[4] and len(home) == 1)
    if len(home) != 1: return
    cs = I.tolist(R.attrs['children'])
    i = home[0]
    ctx.prove('the component with the operands is given the definition', len(cs) == 2 and getattr(cs[i], 'derived', None) == (kids[i], s, D))
    ctx.prove('the other components stay', cs[1 - i] is kids[1 - i])
    ctx.prove('the product is not modified', all(a is b for a, b in zip(I.tolist(P.attrs['children']), kids)))

# ---------------------------------------------------------------------------
# operators

def weighted(swap):
    """x * model"""
    def h(ctx):
        I = interp(ctx)
        use_numbers(I)
        V = variables(I, 1)
        p = Part(I, V)
        w = ctx.num('w')
        try: R = I.binop(ast.Mult, Sc(w.tag, w.val) if False else w, p) if not swap else I.binop(ast.Mult, p, w)
        except PyExc: ctx.prove('rejected: no weight between zero and one', Not(And(tag_eq(w.tag, 0), w.val > 0, w.val < 1))); return
        ctx.prove('accepted: a weight between zero and one', And(tag_eq(w.tag, 0), w.val > 0, w.val < 1))
        ctx.prove('a partial mixture of one component', is_cls(R, 'PartialSumSPE') and I.tolist(R.attrs['children'])[0] is p)
        ctx.prove('with the weight written', sc_eq(I.lift(I.tolist(R.attrs['weights'])[0]), w))
    return h

def use_numbers(I):
    from .trspec import c_sympify
    I.contracts['sppl.sym_util.sympify_number'] = c_sympify

def combined(n, same_vars):
    """w1 * m1 | w2 * m2 | ..."""
    def h(ctx):
        I = interp(ctx)
        use_numbers(I)
        V = variables(I, 2)
        ps, ws, acc = [], [], None
        lo = real_of(Fraction(1, 10**4))
        for i in range(n):
            vs = V if same_vars else (subset(ctx, V, 'has') or V[:1])
            p, w = Part(I, vs), ctx.real('w')
            ctx.assume(And(w > 0, w < 1))
            ps.append(p); ws.append(w)
            t = I.binop(ast.Mult, Sc(0, w), p)
            if acc is None: acc = t; continue
            s = sum(ws)
            same = all(names(q) == names(ps[0]) for q in ps)
            try: acc = I.binop(ast.BitOr, acc, t)
            except PyExc as e:
                ctx.prove('rejected: the weights exceed one, or the variables differ, or the mixture is complete',
                    Or(And(s != 1, s > 1 - lo), not same, is_cls(acc, 'SumSPE'))); return
            ctx.prove('accepted: equal variables and weights of at most one', And(same, s < 1 + lo))
        if is_cls(acc, 'SumSPE'):
            ctx.prove('complete: the weights sum to one', And(sum(ws) < 1 + lo, sum(ws) > 1 - lo))
            want = z3.RealVal(0)
            for w, p in zip(ws, ps): want = want + w * mu(I, p)
            ctx.prove('the mixture has the weights written', poly(mu(I, acc)) == poly(want))
        elif is_cls(acc, 'PartialSumSPE'):
            ctx.prove('partial: the weights sum to less than one', sum(ws) < 1)
            cs, w2 = I.tolist(acc.attrs['children']), I.tolist(acc.attrs['weights'])
            ctx.prove('the components and weights written, in order', len(cs) == n and all(a is b for a, b in zip(cs, ps)))
            ctx.prove('the weights written', And(*[sc_eq(I.lift(a), Sc(0, b)) for a, b in zip(w2, ws)]))
        else: ctx.fail('a mixture', repr(acc))
    return h

def conjoined(ctx):
    """m1 & m2"""
    I = interp(ctx)
    V = variables(I, 3)
    a = Part(I, subset(ctx, V, 'has') or V[:1]); b = Part(I, subset(ctx, V, 'has') or V[:1])
    clash = bool(names(a) & names(b))
    try: R = I.binop(ast.BitAnd, a, b)
    except PyExc: ctx.prove('rejected: a variable is shared', clash); return
    ctx.prove('accepted: disjoint variables', not clash)
    ctx.prove('a product of the two', is_cls(R, 'ProductSPE') and poly(mu(I, R)) == poly(mu(I, a) * mu(I, b)))

def partial_rejected(ctx):
    """A partial mixture is no model: & and further weights are rejected."""
    I = interp(ctx)
    use_numbers(I)
    V = variables(I, 2)
    P = I.call(cls(I, 'PartialSumSPE'), [PList([Part(I, V[:1])], 0), PList([Fraction(1, 2)], 0)], {})
    for what, t in (('partial & model', lambda: I.binop(ast.BitAnd, P, Part(I, V[1:]))), ('model & partial', lambda: I.binop(ast.BitAnd, Part(I, V[1:]), P)),
            ('weight * partial', lambda: I.binop(ast.Mult, 0.5, P)), ('partial | model', lambda: I.binop(ast.BitOr, P, Part(I, V[:1])))):
        try: t()
        except PyExc: ctx.prove(what + ' is rejected', True); continue
        ctx.fail(what + ' is rejected', 'accepted')

# ---------------------------------------------------------------------------
# simplification

def simplify_leaves(n, kinds=None):
    def h(ctx):
        I = interp(ctx)
        V = variables(I, 1)
        kids = [Part(I, V, kind=(kinds[i] if kinds else 'LeafSPE')) for i in range(n)]
        ws = weights(ctx, n)
        S = new_sum(I, kids, ws)
        want = mu(I, S)
        R = guard(ctx, 'simplify', lambda: I.call(I.modules[M].ns['spe_simplify_sum'], [S], {}))
        ctx.prove('the probability of every event is kept', equal_measure(ctx, mu(I, R), want, kids))
    return h

def equal_measure(ctx, a, b, parts): return poly(a) == poly(b)

def simplify_products(shapes):
    """A mixture of products; shapes[i] lists the variables of the components
    of the i-th product."""
    def h(ctx):
        I = interp(ctx)
        n = len({j for s in shapes for b in s for j in b})
        V = variables(I, n)
        prods = []
        for s in shapes:
            ps = [Part(I, [V[j] for j in b]) for b in s]
            prods.append(new_product(I, ps))
        ws = weights(ctx, len(shapes))
        S = new_sum(I, prods, ws)
        want = mu(I, S)
        R = guard(ctx, 'simplify', lambda: I.call(I.modules[M].ns['spe_simplify_sum'], [S], {}))
        got = mu(I, R)
        ctx.prove('the probability of every event is kept', poly(got) == poly(want))
        ctx.prove('the variables are kept', syms_of(I, R) == syms_of(I, S))
    return h

def simplify_helper(na, nb, overlap):
    """One step: the state (children, weight) absorbs another product."""
    def h(ctx):
        I = interp(ctx)
        V = variables(I, max(na, nb))
        A = [Part(I, [V[i]]) for i in range(na)]
        B = [Part(I, [V[i]]) for i in range(nb)]
        wa, wb = ctx.real('wa'), ctx.real('wb')
        ctx.assume(And(wa > 0, wb > 0, wa + wb <= 1))
        f = I.modules[M].ns['spe_simplify_sum_product_helper']
        r = guard(ctx, 'absorb', lambda: I.call(f, [(tuple(A), LogV(wa)), tuple(B), LogV(wb)], {}))
        cs, w = r
        got = as_log(w).p
        pa = pb = z3.RealVal(1)
        for p in A: pa = pa * mu(I, p)
        for p in B: pb = pb * mu(I, p)
        for c in I.tolist(cs): got = got * mu(I, c)
        ctx.prove('the weights are added', as_log(w).p == wa + wb)
        close_products(ctx, got, wa, wb)
        ctx.prove('the weighted measures are added', poly(got) == poly(wa * pa + wb * pb))
    return h

def close_products(ctx, got, wa, wb): pass

# ---------------------------------------------------------------------------
# equality

def hash_of(I, o):
    h = I.B.b_hash(I, [o], {})
    return h.content if isinstance(h, HashV) else h

def sum_equality(n, m):
    def h(ctx):
        I = interp(ctx)
        V = variables(I, 1)
        a, b = [new_sum(I, [Part(I, V) for _ in range(k)], weights(ctx, k)) for k in (n, m)]
        e = I.eq(a, b)
        ctx.prove('equal mixtures give every event the same probability', Implies(e, equal_sums(I, a, b)))
        ctx.prove('equal mixtures have equal hashes', Implies(e, I.eq(hash_of(I, a), hash_of(I, b))))
        ctx.prove('a mixture equals itself', I.eq(a, a))
    return h

def equal_sums(I, a, b):
    return poly(mu(I, a)) == poly(mu(I, b))

def product_equality(n, m):
    def h(ctx):
        I = interp(ctx)
        V = variables(I, max(n, m))
        a, b = [new_product(I, [Part(I, [V[i]]) for i in range(k)]) for k in (n, m)]
        e = I.eq(a, b)
        ctx.prove('equal products give every event the same probability', Implies(e, poly(mu(I, a)) == poly(mu(I, b))))
        ctx.prove('equal products have equal hashes', Implies(e, I.eq(hash_of(I, a), hash_of(I, b))))
    return h

def kinds_differ(ctx):
    I = interp(ctx)
    V = variables(I, 1)
    p = Part(I, V)
    one = new_sum(I, [p], [z3.RealVal(1)])
    two = new_product(I, [p])
    ctx.prove('a mixture is no product', Not(I.eq(one, two)))
    ctx.prove('a product is no mixture', Not(I.eq(two, one)))

class Opaque:
    """A value known only up to equality."""
    def __init__(self, I, name): self.t = I.ctx.int_(name)
    def vc_truth(self, I): return True
    def vc_eq(self, I, o): return isinstance(o, Opaque) and simp(self.t == o.t)
    def vc_attr(self, I, name):
        if name == 'items': return NativeF('items', lambda I, a, k: self)
        if name == 'tolist': return NativeF('tolist', lambda I, a, k: self)
        return MISSING
    def vc_set(self, I, frozen): return self
    def vc_list(self, I): return self
    def vc_hash(self, I): return self.t
    def vc_frozenset(self, I): return self

def leaf_fields(I, kind, V, table):
    ctx = I.ctx
    sym = V[0] if ctx.branch(ctx.bool_('sym')) else V[1]
    f = dict(symbol=sym)
    if kind == 'AtomicLeaf':
        f.update(value=Sc(0, ctx.real('v')), env=Opaque(I, 'env'))
        key = [f['symbol'], f['value'], f['env']]
    else:
        g = dict(name=ctx.string('name') if hasattr(ctx, 'string') else 'norm')
        if table: g.update(xk=Opaque(I, 'xk'), pk=Opaque(I, 'pk'))
        d = Record(dict(dist=Record(g), args=Opaque(I, 'args'), kwds=Opaque(I, 'kwds')))
        f.update(dist=d, support=Opaque(I, 'support'), conditioned=ctx.bool_('conditioned'), env=Opaque(I, 'env'))
        key = [f['symbol'], g['name'], d.at['args'], d.at['kwds'], f['support'], f['conditioned'], f['env']] + ([g['xk'], g['pk']] if table else [])
    return Obj(cls(I, kind), f, 0), key

class Record:
    def __init__(self, at): self.at = at
    def vc_truth(self, I): return True
    def vc_attr(self, I, name): return self.at.get(name, MISSING)

def leaf_equality(k1, k2, t1=False, t2=False):
    def h(ctx):
        I = interp(ctx)
        V = variables(I, 2)
        a, ka = leaf_fields(I, k1, V, t1)
        b, kb = leaf_fields(I, k2, V, t2)
        e = I.eq(a, b)
        if k1 != k2 or t1 != t2:
            ctx.prove('leaves of different kinds are not equal', Not(e)); return
        same = And(*[I.eq(x, y) for x, y in zip(ka, kb)])
        ctx.prove('equal leaves agree in all that determines the distribution', Implies(e, same))
        ctx.prove('leaves that agree in all of it are equal', Implies(same, e))
        ctx.prove('equal leaves have equal hashes', Implies(e, I.eq(hash_of(I, a), hash_of(I, b))))
    return h

def nominal_equality(n, m):
    def h(ctx):
        I = interp(ctx)
        V = variables(I, 2)
        ks = ['a', 'b', 'c']
        xs = []
        for k in (n, m):
            ws = weights(ctx, k)
            sym = V[0] if ctx.branch(ctx.bool_('sym')) else V[1]
            order = ks[:k] if ctx.branch(ctx.bool_('order')) else list(reversed(ks[:k]))
            d = dict(zip(ks, ws))
            xs.append((sym, d, I.call(cls(I, 'NominalLeaf'), [sym, PDict([(x, Sc(0, d[x])) for x in order], 0)], {})))
        (s, d, a), (t, g, b) = xs
        e = I.eq(a, b)
        same = And(s is t, set(d) == set(g), *[d[x] == g[x] for x in d if x in g])
        ctx.prove('equal leaves have the same variable, outcomes and weights', Implies(e, same))
        ctx.prove('equal leaves have equal hashes', Implies(e, I.eq(hash_of(I, a), hash_of(I, b))))
    return h

def tasks(prop, tier):
    out = []
    if prop == 'C21':
        for s in ([0], [0, 0], [0, 0, 0], [2], [0, 2], [2, 2], [1, 0]):
            out.append(Task('mixture of %s' % (s,), sum_build(s, True), bound='at most 3 components (nested ones of 2)', **F_))
        out += [Task('mixture of %d components over any variables' % n, sum_build([0] * n, False), bound='at most 3 components, 2 variables', weight=n, **F_) for n in (2, 3)]
        out += [Task('mixture of %d components and %d weights' % (n, m), sum_lengths(n, m), bound='listed lengths', **F_) for n, m in ((1, 2), (2, 1), (3, 2), (0, 0))]
        for s in ([0], [0, 0], [0, 0, 0], [0, 2], [2, 2], [2, 0]):
            out.append(Task('product of %s' % (s,), product_build(s, False), bound='at most 4 components', **F_))
        out += [Task('product of %d components over any variables' % n, product_build([0] * n, True), bound='at most 3 components and variables', weight=n, **F_) for n in (2, 3)]
        out.append(Task('product of a nested product and components over any variables', product_build([2, 0], True), bound='at most 3 components and variables', weight=3, **F_))
        out += [Task('nominal leaf of %d outcomes' % n, nominal_build(n, 'string'), bound='at most 3 outcomes', **F_) for n in (1, 2, 3)]
        out += [Task('nominal leaf of %d outcomes, one no string' % n, nominal_build(n, 'number'), bound='at most 3 outcomes', **F_) for n in (1, 2)]
        out += [Task('%s without a variable' % k, no_variable(k), **F_) for k in ('NominalLeaf', 'RealLeaf')]
        out += [Task('derived variable of a %s' % k, leaf_transform(k), bound='environments of 2 variables', **F_) for k in ('ContinuousLeaf', 'DiscreteLeaf', 'AtomicLeaf')]
        out += [Task('derived variable of a mixture of %d' % n, sum_transform(n), bound='at most 2 components', **F_) for n in (1, 2)]
        out.append(Task('derived variable of a product', product_transform, bound='2 components', weight=3, **F_))
        out += [Task('weight * model', weighted(False), **F_), Task('model * weight', weighted(True), **F_)]
        out += [Task('%d weighted models' % n, combined(n, s), bound='at most 3 models', weight=n, **F_) for n in (2, 3) for s in (True, False)]
        out += [Task('model & model', conjoined, bound='3 variables', **F_), Task('operators reject partial mixtures', partial_rejected, **F_)]
    if prop == 'C12':
        for s in ([0], [2], [0, 2], [2, 2], [2, 0], [1, 1]):
            out.append(Task('flattening a mixture of %s' % (s,), sum_build(s, True), bound='at most 3 components (nested ones of 2)', **F_))
        for s in ([2], [0, 2], [2, 2], [2, 0], [1, 1]):
            out.append(Task('flattening a product of %s' % (s,), product_build(s, False), bound='at most 4 components', **F_))
        out += [Task('merging equal leaves of %d' % n, simplify_leaves(n), bound='at most 4 components', weight=n, **F_) for n in (1, 2, 3, 4)]
        out.append(Task('mixture of a leaf and another component', simplify_leaves(3, ['LeafSPE', 'SumSPEx', 'LeafSPE']), bound='3 components', **F_))
        one, two = [[[0]]], [[0], [1]]
        P = 'products of at most 3 components, mixtures of at most 3 products'
        for shapes in ([two], [two, two], [two, [[1], [0]]], [[[0], [1], [2]]] * 2, [[[0], [1], [2]], [[2], [0], [1]]], [[[0, 1], [2]], [[0], [1, 2]]],
                [[[0], [1], [2]], [[0], [1, 2]]], [[[0, 1], [2]], [[2], [0], [1]]], [two, two, two], [[[0], [1], [2]], [[0], [1, 2]], [[0], [1], [2]]]):
            out.append(Task('factoring a mixture of products over %s' % (shapes,), simplify_products(shapes), bound=P, weight=len(shapes) * 4, budget=120, **F_))
        out += [Task('equality of mixtures of %d and %d' % (n, m), sum_equality(n, m), bound='at most 3 components', **F_) for n, m in ((1, 1), (2, 2), (1, 2), (2, 3), (3, 3))]
        out += [Task('equality of products of %d and %d' % (n, m), product_equality(n, m), bound='at most 3 components', **F_) for n, m in ((1, 1), (2, 2), (1, 2), (3, 3))]
        out.append(Task('mixtures and products differ', kinds_differ, **F_))
        K = ('ContinuousLeaf', 'DiscreteLeaf', 'AtomicLeaf')
        out += [Task('equality of %s and %s' % (a, b), leaf_equality(a, b), **F_) for a in K for b in K if (a == 'AtomicLeaf') <= (b == 'AtomicLeaf')]
        out += [Task('equality of table leaves', leaf_equality('DiscreteLeaf', 'DiscreteLeaf', True, True), **F_),
            Task('equality of a table leaf and another', leaf_equality('DiscreteLeaf', 'DiscreteLeaf', True, False), **F_),
            Task('equality of another leaf and a table leaf', leaf_equality('DiscreteLeaf', 'DiscreteLeaf', False, True), **F_)]
        out += [Task('equality of nominal leaves of %d and %d' % (n, m), nominal_equality(n, m), bound='at most 3 outcomes', **F_) for n, m in ((1, 1), (2, 2), (1, 2), (3, 2))]
    return out

ASSUMPTIONS = {
    'C21': ['numpy.allclose accepts only sums of weights within 1e-8 (logarithms) or 1e-5 of one',
        'components are seen through their variables and the probability they give to a rectangle of events'],
    'C12': ['equal components have the same distribution (induction); rectangles of events determine a distribution',
        'hash collisions are not modelled; the hash of equal components is equal (induction)',
        'a distribution of scipy is determined by its name, arguments and table'],
}
