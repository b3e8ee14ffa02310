"""Contracts of mixtures (SumSPE) in spe.py: C08, C09, C10."""
from .spespec import *
import ast
from .registry import Task
from pyvc.logspace import ln, canon
from . import p_math

def logprob_sum(ctx):
    I = interp(ctx)
    S, b, w, kid = sum_spe(I)
    ev = Ev.fresh(ctx)
    f = S.cls.lookup('logprob_mem')
    r = guard(ctx, 'logprob', lambda: I.call(f, [S, ev, False], {}))
    r = as_log(r)
    want = spec_sum(I, b, lambda i: w(i) * kid(i).mu(ev))
    ctx.prove('probability is the weighted average', r.p == want)
    s1 = spec_sum(I, b, lambda i: w(i))
    monotone(ctx, want, s1)
    ctx.prove('probability in [0, 1]', And(r.p >= 0, r.p <= 1))

def condition_sum(ctx):
    I = interp(ctx)
    S, b, w, kid = sum_spe(I)
    ev, q = Ev.fresh(ctx), Ev.fresh(ctx, 'Q')
    out = []
    I.contracts['sppl.spe.SumSPE'] = mixture_contract(ctx, out)
    z = spec_sum(I, b, lambda i: w(i) * kid(i).mu(ev))
    joint = spec_sum(I, b, lambda i: w(i) * kid(i).mu(both(ev, q)))
    # the joint probability is at most that of either event
    ctx.assume_forall(b.sort, lambda i: kid(i).mu(both(ev, q)) <= kid(i).mu(ev))
    f = S.cls.lookup('condition_mem')
    try:
        r = I.call(f, [S, ev, False], {})
    except PyExc as e:
        ctx.prove('only null events are rejected', z == 0)
        ctx.prove('null events are rejected with ValueError', e.cls is ValueError)
        return
    ctx.prove('null events are rejected', z > 0)
    got = mu_of(r, q)
    if isinstance(r, Mixture): scaled_by(ctx, got, z, joint)
    else:
        g = out_guard(I, b, kid, w, ev)
        single(ctx, joint, g); single(ctx, z, g)
    ctx.prove('every query has its conditional probability', got * z == joint)

def out_guard(I, b, kid, w, ev):
    """The only index with positive probability."""
    return Family(I, Guard(b, lambda i: kid(i).mu(ev) > 0), lambda i: i).guard.first(I.ctx)

def densities(b, kid, ev):
    d = lambda i: kid(i).dens(ev)[0]
    p = lambda i: kid(i).dens(ev)[1]
    return d, p

def logpdf_sum(ctx):
    I = interp(ctx)
    S, b, w, kid = sum_spe(I)
    ev = Ev.fresh(ctx, 'x')
    d, p = densities(b, kid, ev)
    f = S.cls.lookup('logpdf_mem')
    r = guard(ctx, 'logpdf', lambda: I.call(f, [S, ev, False], {}))
    dim, lp = r[0], as_log(r[1]).p
    dim = z3.IntVal(dim) if isinstance(dim, int) else dim
    some = Family(I, Guard(b, lambda i: p(i) > 0), lambda i: i).guard
    i = b.any_index('i')
    ctx.prove('density zero when no component has positive density', Implies(Not(some.nonempty(ctx)), lp == 0))
    ctx.prove('no component with positive density is more discrete', Implies(And(some(i)), dim <= d(i)))
    witness = Family(I, Guard(b, lambda i: And(p(i) > 0, d(i) == dim)), lambda i: i).guard
    ctx.prove('the dimension is that of a component with positive density', Implies(some.nonempty(ctx), witness.nonempty(ctx)))
    want = spec_sum(I, b, lambda i: z3.If(And(d(i) == dim, p(i) > 0), w(i) * p(i), z3.RealVal(0)))
    ctx.prove('density is the weighted sum over the most discrete components', lp == want)

def constrain_sum(ctx):
    I = interp(ctx)
    S, b, w, kid = sum_spe(I)
    ev, q = Ev.fresh(ctx, 'x'), Ev.fresh(ctx, 'Q')
    out = []
    I.contracts['sppl.spe.SumSPE'] = mixture_contract(ctx, out)
    d, p = densities(b, kid, ev)
    some = Family(I, Guard(b, lambda i: p(i) > 0), lambda i: i).guard
    dim = ctx.int_('dim')
    m = b.index('least')
    ctx.assume(Implies(some.nonempty(ctx), And(some(m), d(m) == dim)))
    ctx.assume_forall(b.sort, lambda i: Implies(some(i), dim <= d(i)))
    chosen = lambda i: And(p(i) > 0, d(i) == dim)
    given = lambda i: _cst(kid(i).ident, ev.term, q.term)
    ctx.assume_forall(b.sort, lambda i: And(given(i) >= 0, given(i) <= 1))
    z = spec_sum(I, b, lambda i: z3.If(zb(chosen(i)), w(i) * p(i), z3.RealVal(0)))
    joint = spec_sum(I, b, lambda i: z3.If(zb(chosen(i)), w(i) * p(i) * given(i), z3.RealVal(0)))
    f = S.cls.lookup('constrain_mem')
    try:
        r = I.call(f, [S, ev, False], {})
    except PyExc as e:
        ctx.prove('only assignments of zero density are rejected', Not(some.nonempty(ctx)))
        return
    ctx.prove('assignments of zero density are rejected', some.nonempty(ctx))
    got = mu_of(r, q)
    if isinstance(r, Mixture): scaled_by(ctx, got, z, joint)
    else:
        g = Guard(b, chosen).first(ctx)
        single(ctx, joint, g); single(ctx, z, g)
    ctx.prove('every query has its conditional probability given the assignment', got * z == joint)

# ---------------------------------------------------------------------------
# mutual information

class Cells:
    """A Boolean combination of two events: the cells of their truth table
    (bit 0: the first holds, bit 1: the second)."""
    def __init__(self, cells): self.cells = frozenset(cells)
    def vc_binop(self, I, op, o, r):
        if not isinstance(o, Cells): return NotImplemented
        if op is ast.BitAnd: return Cells(self.cells & o.cells)
        if op is ast.BitOr: return Cells(self.cells | o.cells)
        if op is ast.BitXor: return Cells(self.cells ^ o.cells)
        return NotImplemented
    def vc_unary(self, I, op):
        if op is ast.Invert: return Cells({0, 1, 2, 3} - self.cells)
        raise Unsupported('operator on an event')

ONE, TWO = Cells({3, 1}), Cells({3, 2})

def two_events(ctx):
    """Probabilities of the four combinations of two events."""
    p = {3: ctx.real('p11'), 1: ctx.real('p10'), 2: ctx.real('p01')}
    for x in p.values(): ctx.assume(x >= 0)
    p[0] = 1 - p[3] - p[1] - p[2]
    ctx.assume(p[0] >= 0)
    return p

def mi_call(ctx, I, p, A, B):
    def logprob(I, a, k):
        if not isinstance(a[0], Cells): raise Unsupported('event')
        s = z3.RealVal(0)
        for c in sorted(a[0].cells): s = s + p[c]
        return LogV(canon(s))
    class Model:
        def vc_attr(self, I, name):
            if name == 'logprob': return NativeF('logprob', logprob)
            return MISSING
    f = cls(I, 'SPE').lookup('mutual_information')
    return I.lift(guard(ctx, 'mutual information', lambda: I.call(f, [Model(), A, B], {})))

def mi_spec(ctx, p, A, B):
    pr = lambda s: sum((p[c] for c in sorted(s)), z3.RealVal(0))
    t = z3.RealVal(0)
    al = frozenset({0, 1, 2, 3})
    for a in (A.cells, al - A.cells):
        for b in (B.cells, al - B.cells):
            c = canon(pr(a & b))
            if ctx.branch(simp(c == 0)): continue
            # the marginals are not zero either: divide by them
            ctx.assume(canon(pr(a) * pr(b)) > 0)
            t = t + c * ln(quotient(ctx, c, pr(a) * pr(b)))
    return t

def mi_task(A, B, C, D):
    """The result for (A, B) is the defining sum for (C, D)."""
    def h(ctx):
        I = interp(ctx)
        p_math.use(I)
        p = two_events(ctx)
        want = mi_spec(ctx, p, C, D)
        r = mi_call(ctx, I, p, A, B)
        ctx.prove('mutual information is a finite number', tag_eq(r.tag, 0))
        ctx.prove('mutual information is the sum over the four combinations', r.val == want)
    return h

def mi_entropy(ctx):
    """Of an event with itself: -p log p - (1-p) log(1-p)."""
    I = interp(ctx)
    p_math.use(I)
    q = ctx.real('q')
    ctx.assume(And(q >= 0, q <= 1))
    p = {3: q, 1: z3.RealVal(0), 2: z3.RealVal(0), 0: 1 - q}
    r = mi_call(ctx, I, p, ONE, TWO)
    want = z3.RealVal(0)
    for c in (q, 1 - q):
        if ctx.branch(simp(c == 0)): continue
        # log(1/c) = -log c
        want = want + c * ln(quotient(ctx, c, c * c))
    ctx.prove('mutual information of an event with itself is its entropy', r.val == want)

def mi_independent(ctx):
    """Of independent events: zero."""
    I = interp(ctx)
    p_math.use(I)
    a, b = ctx.real('a'), ctx.real('b')
    for x in (a, b): ctx.assume(And(x >= 0, x <= 1))
    p = {3: a * b, 1: a * (1 - b), 2: (1 - a) * b, 0: (1 - a) * (1 - b)}
    for x in p.values(): ctx.assume(x >= 0)
    ctx.assume(ln(z3.RealVal(1)) == 0)
    r = mi_call(ctx, I, p, ONE, TWO)
    ctx.prove('mutual information of independent events is zero', r.val == 0)

from .spespec import _cst

F = dict(fast_ms=150, linear=True)
def tasks(prop, tier):
    if prop == 'C08':
        return [Task('probability of a mixture of any number of models', logprob_sum, weight=3, **F)]
    if prop == 'C09':
        return [Task('conditioning a mixture of any number of models', condition_sum, weight=15, budget=150, **F)]
    if prop == 'C10':
        return [Task('density of a mixture of any number of models', logpdf_sum, weight=10, **F),
            Task('constraining a mixture of any number of models', constrain_sum, weight=20, **F)]
    if prop == 'C20':
        nA, nB = Cells({0, 2}), Cells({0, 1})
        return p_math.log_tasks() + [
            Task('mutual information of any two events', mi_task(ONE, TWO, ONE, TWO), weight=5, **F),
            Task('mutual information is symmetric', mi_task(TWO, ONE, ONE, TWO), weight=5, **F),
            Task('mutual information under negation of the first event', mi_task(nA, TWO, ONE, TWO), weight=5, **F),
            Task('mutual information under negation of the second event', mi_task(ONE, nB, ONE, TWO), weight=5, **F),
            Task('mutual information of an event with itself', mi_entropy, weight=3, **F),
            Task('mutual information of independent events', mi_independent, weight=3, **F)]
    return []
