"""Contracts of products of independent components (C08, C09, C10).

A component is an arbitrary model over its own variables; the probability of
a clause of a component is an unknown number, the same for equal clauses, and
never increases when events are added to the clause.  Events are sets of
atoms; their conjunction is the union.
"""
import ast, itertools
from .modelspec import *
from .p_math import c_logdiffexp

F_ = dict(fast_ms=150, linear=True)

class Conj:
    """A conjunction of unknown events of one variable."""
    def __init__(self, atoms): self.atoms = frozenset(atoms)
    def __repr__(self): return '&'.join(sorted(self.atoms))
    def vc_truth(self, I): return True
    def vc_eq(self, I, o):
        if not isinstance(o, Conj): return False
        if o.atoms == self.atoms: return True
        return I.ctx.__dict__.setdefault('conj_eq', {}).setdefault(frozenset((self.atoms, o.atoms)), I.ctx.bool_('same_event'))
    def vc_hash(self, I): raise Unsupported('hash of an event')
    def vc_binop(self, I, op, o, r):
        if op is ast.BitAnd and isinstance(o, Conj): return Conj(self.atoms | o.atoms)
        return NotImplemented
    def vc_attr(self, I, name): return MISSING

def merge(*clauses):
    out = {}
    for c in clauses:
        for s, e in c: out[s] = out.get(s, frozenset()) | e
    return frozenset(out.items())

def below(a, b):
    """Every event of clause b is among those of clause a."""
    d = dict(a)
    return all(s in d and e <= d[s] for s, e in b)

class Comp:
    """An arbitrary component, given a clause and values of variables."""
    def __init__(self, I, idx, syms, given=frozenset(), fixed=None, kind='LeafSPE'):
        self.I, self.idx, self.given, self.fixed, self.kind = I, idx, given, fixed, kind
        self.symbols = PSet(list(syms), 0, True)
        self.toks = {I.getattr(s, 'token'): s for s in syms}
        self.space = I.ctx.__dict__.setdefault('space', {})
    def __repr__(self): return 'Comp(%d|%s)' % (self.idx, sorted((s, sorted(e)) for s, e in self.given))
    def P(self, clause):
        """Probability of a clause before conditioning."""
        if not clause: return z3.RealVal(1)
        ctx = self.I.ctx
        known = self.space.setdefault((self.idx, self.fixed), {})
        if clause not in known:
            t = ctx.real('P%d_' % self.idx)
            ctx.assume(And(t >= 0, t <= 1))
            for c, u in known.items():
                if below(clause, c): ctx.assume(t <= u)
                if below(c, clause): ctx.assume(u <= t)
            known[clause] = t
        return known[clause]
    def prob(self, clause):
        """Probability of a clause."""
        if not self.given: return self.P(clause)
        return quotient(self.I.ctx, self.P(merge(self.given, clause)), self.P(self.given))
    def clause(self, factor):
        I = self.I
        items = I.tolist(factor)
        if len(items) != 1: raise Unsupported('several clauses of a component')
        out = []
        for s, e in items[0].pairs:
            if not any(s is x for x in self.symbols.items): I.throw(AssertionError, 'not a variable of the component')
            if not isinstance(e, Conj): raise Unsupported('event %r' % (e,))
            out.append((I.getattr(s, 'token'), e.atoms))
        if not out: I.throw(AssertionError, 'empty clause')
        return merge(out)
    # contracts of the methods
    def m_logprob_mem(self, I, a, k): return LogV(self.prob(self.clause(a[0])))
    def m_condition_mem(self, I, a, k):
        c = self.clause(a[0])
        p = self.prob(c)
        if not I.ctx.branch(simp(p > 0)): I.throw(ValueError, 'zero probability')
        return Comp(I, self.idx, self.symbols.items, merge(self.given, c), self.fixed, self.kind)
    def density(self, vals):
        ctx = self.I.ctx
        known = ctx.__dict__.setdefault('densities', {})
        k = (self.idx, self.given, self.fixed, vals)
        if k not in known:
            d, f = ctx.int_('dim'), ctx.real('dens')
            ctx.assume(And(d >= 0, f >= 0))
            known[k] = (d, f)
        return known[k]
    def values(self, d):
        I, out = self.I, []
        for s, v in d.pairs:
            if not any(s is x for x in self.symbols.items): I.throw(AssertionError, 'not a variable of the component')
            out.append((I.getattr(s, 'token'), v))
        if not out: I.throw(AssertionError, 'empty assignment')
        return frozenset(out)
    def m_logpdf_mem(self, I, a, k):
        d, f = self.density(self.values(a[0]))
        return (d, LogV(f))
    def m_logpdf(self, I, a, k): return LogV(self.density(self.values(a[0]))[1])
    def m_constrain_mem(self, I, a, k):
        vals = self.values(a[0])
        d, f = self.density(vals)
        if not I.ctx.branch(simp(f > 0)): I.throw(AssertionError, 'zero density')
        return Comp(I, self.idx, self.symbols.items, self.given, (self.fixed, vals), self.kind)
    m_constrain = m_constrain_mem
    # object protocol
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_eq(self, I, o):
        if self is o: return True
        if not isinstance(o, Comp) or o.idx != self.idx: return False
        if (o.given, o.fixed) == (self.given, self.fixed): return True
        raise Unsupported('equality of conditioned components')
    def vc_isinstance(self, I, t):
        n = getattr(t, 'name', '')
        return n in ('SPE', self.kind)
    def vc_attr(self, I, name):
        if name == 'get_symbols': return NativeF(name, lambda I, a, k: self.symbols)
        m = getattr(self, 'm_' + name, None)
        if m is not None: return NativeF(name, lambda I, a, k: m(I, a, k))
        return MISSING

def world(ctx, groups):
    """Components over the given numbers of variables, and their product."""
    I = interp(ctx)
    I.contracts['sppl.math_util.logdiffexp'] = c_logdiffexp
    V = variables(I, sum(groups))
    comps, j = [], 0
    for i, n in enumerate(groups):
        comps.append(Comp(I, i, V[j:j + n])); j += n
    P = new_product(I, comps)
    return I, V, comps, P

def clauses_of(I, V, shape):
    """shape: the variables of every clause."""
    spec, vals = [], []
    for n, vs in enumerate(shape):
        spec.append(frozenset((I.getattr(V[i], 'token'), frozenset(['e%d_%d' % (n, i)])) for i in vs))
        vals.append(PDict([(V[i], Conj(['e%d_%d' % (n, i)])) for i in vs], 0))
    return spec, tuple(vals)

def part(comp, clause): return frozenset((s, e) for s, e in clause if s in comp.toks)

def rect(comps, clause):
    """Probability of one clause under the product."""
    t = z3.RealVal(1)
    for c in comps: t = t * c.prob(part(c, clause))
    return z3.simplify(t, som=True)

def subsets(n):
    return [J for k in range(1, n + 1) for J in itertools.combinations(range(n), k)]

def union(ctx, comps, spec, disjoint=False):
    """Probability of a union of clauses, by inclusion and exclusion."""
    ps = {J: rect(comps, merge(*[spec[j] for j in J])) for J in subsets(len(spec))}
    for J, p in ps.items():
        ctx.assume(And(p >= 0, p <= 1))
        for K, q in ps.items():
            if set(K) < set(J): ctx.assume(p <= q)
        if disjoint and len(J) > 1: ctx.assume(p == 0)
    if disjoint: U = sum((ps[(j,)] for j in range(1, len(spec))), ps[(0,)])
    else: U = sum(((p if len(J) % 2 else -p) for J, p in ps.items()), z3.RealVal(0))
    ctx.assume(And(U >= 0, U <= 1, *[U >= ps[(j,)] for j in range(len(spec))]))
    return U, ps

def logprob(groups, shape, memo):
    def h(ctx):
        I, V, comps, P = world(ctx, groups)
        spec, fac = clauses_of(I, V, shape)
        U, _ = union(ctx, comps, spec)
        m = I.call(cls(I, 'Memo'), [], {}) if memo else False
        lp = as_log(guard(ctx, 'logprob', lambda: I.call(I.getattr(P, 'logprob_mem'), [fac, m], {})))
        if lp is None: ctx.fail('a logarithm', repr(lp)); return
        ctx.prove('the probability of a union of clauses', poly(lp.p) == poly(U))
        frame(ctx, P, comps, fac, spec)
    return h

def frame(ctx, P, comps, fac, spec):
    ok = len(P.attrs['children']) == len(comps) and all(a is b for a, b in zip(P.attrs['children'], comps))
    ctx.prove('the model is not modified', ok)
    ctx.prove('the event is not modified', all(
        {(k.attrs.get('token'), v.atoms) for k, v in d.pairs} == set(c) for d, c in zip(fac, spec)))

class Simplified:
    """What spe_simplify_sum returns: a model with the same measure."""
    def __init__(self, S): self.S = S

def measure(I, s, clause):
    """Probability of a rectangle under a model built by the code."""
    if isinstance(s, Comp): return s.prob(part(s, clause))
    if isinstance(s, Simplified): return measure(I, s.S, clause)
    cs = I.tolist(s.attrs['children'])
    if s.cls.name == 'ProductSPE':
        t = z3.RealVal(1)
        for c in cs: t = t * measure(I, c, clause)
        return t
    if s.cls.name == 'SumSPE':
        ws = [as_log(w).p for w in I.tolist(s.attrs['weights'])]
        t = z3.RealVal(0)
        for w, c in zip(ws, cs): t = t + w * measure(I, c, clause)
        return t
    raise Unsupported('measure of %r' % (s,))

def weights_of(I, s):
    if isinstance(s, Simplified): return weights_of(I, s.S)
    return [as_log(w).p for w in I.tolist(s.attrs['weights'])] if isinstance(s, Obj) and s.cls.name == 'SumSPE' else []
def kids_of(I, s):
    if isinstance(s, Simplified): return kids_of(I, s.S)
    return I.tolist(s.attrs['children'])

def condition(groups, shape):
    def h(ctx):
        I, V, comps, P = world(ctx, groups)
        I.contracts[M + '.spe_simplify_sum'] = lambda I, f, a, k: Simplified(a[0])
        spec, fac = clauses_of(I, V, shape)
        U, ps = union(ctx, comps, spec, disjoint=True)
        memo = I.call(cls(I, 'Memo'), [], {})
        try: R = I.call(I.getattr(P, 'condition_mem'), [fac, memo], {})
        except PyExc as e:
            ctx.prove('rejected: the event has probability zero', U == 0); return
        ctx.prove('accepted: the event has positive probability', U > 0)
        query = frozenset((I.getattr(v, 'token'), frozenset(['q%d' % i])) for i, v in enumerate(V))
        # the joint probability of the query and each clause, through the
        # conditional probability of each component
        want, hints = z3.RealVal(0), []
        for j, c in enumerate(spec):
            if not ctx.branch(simp(ps[(j,)] > 0)): continue
            cond = z3.RealVal(1)
            for k in comps:
                own = part(k, c)
                cond = cond * (Comp(I, k.idx, k.symbols.items, own).prob(part(k, query)) if own else k.prob(part(k, query)))
            want = want + ps[(j,)] * cond
            hints.append((ps[(j,)], cond))
        got = measure(I, R, query)
        for w in weights_of(I, R):
            for p, cond in hints:
                # w U = p: so too when both sides are multiplied
                ctx.assume(Implies(poly(w * U) == poly(p), poly(w * U * cond) == poly(p * cond)))
        ctx.prove('the probability of a query is that of query and event over that of the event', poly(got * U) == poly(want))
        frame(ctx, P, comps, fac, spec)
    return h

def logpdf(groups, vs):
    def h(ctx):
        I, V, comps, P = world(ctx, groups)
        asg = PDict([(V[i], 'v%d' % i) for i in vs], 0)
        memo = I.call(cls(I, 'Memo'), [], {})
        r = guard(ctx, 'logpdf', lambda: I.call(I.getattr(P, 'logpdf_mem'), [asg, memo], {}))
        d, f = z3.IntVal(0), z3.RealVal(1)
        for c in comps:
            own = frozenset((I.getattr(V[i], 'token'), 'v%d' % i) for i in vs if any(V[i] is s for s in c.symbols.items))
            if own:
                x, y = c.density(own)
                d, f = d + x, f * y
        ctx.prove('the density is the product of those of the components', poly(as_log(r[1]).p) == poly(f))
        ctx.prove('the dimension is the sum of those of the components', simp(I.lift(r[0]).val == z3.ToReal(d)))
        public = guard(ctx, 'public logpdf', lambda: I.call(I.getattr(P, 'logpdf'), [asg], {}))
        ctx.prove('logpdf gives the density', poly(as_log(public).p) == poly(f))
    return h

def constrain(groups, vs):
    def h(ctx):
        I, V, comps, P = world(ctx, groups)
        asg = PDict([(V[i], 'v%d' % i) for i in vs], 0)
        want, zero = [], []
        for c in comps:
            own = frozenset((I.getattr(V[i], 'token'), 'v%d' % i) for i in vs if any(V[i] is s for s in c.symbols.items))
            want.append((c, own))
            if own: zero.append(c.density(own)[1] == 0)
        try: R = I.call(I.getattr(P, 'constrain'), [asg], {})
        except PyExc: ctx.prove('rejected: the density is zero', Or(*zero)); return
        ctx.prove('accepted: the density is positive', Not(Or(*zero)))
        ks = I.tolist(R.attrs['children'])
        ctx.prove('a product with every component constrained to its own values', is_cls(R, 'ProductSPE') and len(ks) == len(want) and all(
            (k is c if not own else isinstance(k, Comp) and k.idx == c.idx and k.fixed == (None, own)) for k, (c, own) in zip(ks, want)))
        ctx.prove('the model is not modified', all(a is b for a, b in zip(P.attrs['children'], comps)))
    return h

G3 = [[1, 1, 1], [2, 1]]
SHAPES = {
    1: [[[0]], [[0, 1]], [[0, 1, 2]], [[1, 2]]],
    2: [[[0], [0]], [[0], [1]], [[0], [2]], [[0, 1], [1]], [[0, 1], [1, 2]], [[0, 1, 2], [0, 1, 2]], [[0, 2], [1, 2]]],
    3: [[[0], [0], [0]], [[0], [1], [2]], [[0, 1], [1, 2], [0, 2]], [[0, 1], [1], [0]], [[0, 1, 2], [0, 1], [2]]],
    4: [[[0], [1], [2], [0]], [[0, 1], [1, 2], [0, 2], [1]]],
}

def tasks(prop, tier):
    from .registry import Task
    out = []
    B = 'at most %d clauses, 3 variables, 3 components'
    if prop == 'C08':
        for n, ss in SHAPES.items():
            for s in ss:
                for g in ([1, 1, 1], [2, 1]) + (([3],) if n < 3 else ()):
                    out.append(Task('probability of clauses %s under components %s' % (s, g), logprob(g, s, s[0] == [0]), bound=B % 4,
                        weight=3 ** n, tier='quick' if n < 4 else 'thorough', **F_))
    if prop == 'C09':
        for n, ss in SHAPES.items():
            if n > 3: continue
            for s in ss:
                for g in ([1, 1, 1], [2, 1]):
                    out.append(Task('conditioning on disjoint clauses %s under components %s' % (s, g), condition(g, s), bound=B % 3,
                        weight=3 ** n, **F_))
    if prop == 'C10':
        for vs in ([0], [0, 1], [0, 2], [0, 1, 2], [2, 0], [2, 1, 0]):
            for g in ([1, 1, 1], [2, 1], [3]):
                out.append(Task('density of %s under components %s' % (vs, g), logpdf(g, vs), bound='3 variables', **F_))
                out.append(Task('constraining %s under components %s' % (vs, g), constrain(g, vs), bound='3 variables', **F_))
    return out

ASSUMPTIONS = {p: ['the components of a product are independent and have disjoint variables; the probability of a clause never increases when events are added (laws of probability)']
    for p in ('C08', 'C09', 'C10')}
ASSUMPTIONS['C09'] = ASSUMPTIONS['C09'] + ['clauses are disjoint: the contract of dnf_to_disjoint_union (C06)', 'spe_simplify_sum keeps the measure (C12)']
