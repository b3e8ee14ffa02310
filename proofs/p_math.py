"""Contracts of math_util.py, on numbers in log space."""
from .spespec import *
from .registry import Task

MU = 'sppl.math_util.'
def fn(I, name): return I.modules['sppl.math_util'].ns[name]

def log1mexp(ctx):
    """log1mexp(x) = log(1 - e**-x) for x > 0."""
    I = interp(ctx)
    q = ctx.real('q')                     # x = log q
    ctx.assume(q > 1)
    r = guard(ctx, 'log1mexp', lambda: I.call(fn(I, 'log1mexp'), [LogV(q)], {}))
    ctx.prove('log1mexp', as_log(r).p * q == q - 1)

def log1mexp_inf(ctx):
    I = interp(ctx)
    r = guard(ctx, 'log1mexp', lambda: I.call(fn(I, 'log1mexp'), [INF], {}))
    ctx.prove('log1mexp of inf', as_log(r).p == 1)

def c_log1mexp(I, f, a, k):
    x = a[0]
    if x == INF: return LogV(z3.RealVal(1))
    x = as_log(x, I)
    I.ctx.prove('log1mexp: positive argument', x.p > 1)
    return LogV(1 - quotient(I.ctx, z3.RealVal(1), x.p))

def logdiffexp(ctx):
    """logdiffexp(log p, log q) = log(p - q) for p >= q >= 0."""
    I = interp(ctx)
    I.contracts[MU + 'log1mexp'] = c_log1mexp
    p, q = ctx.real('p'), ctx.real('q')
    ctx.assume(And(p >= q, q >= 0))
    r = guard(ctx, 'logdiffexp', lambda: I.call(fn(I, 'logdiffexp'), [LogV(p), LogV(q)], {}))
    ctx.prove('logdiffexp', as_log(r).p == p - q)

def logdiffexp_bad(ctx):
    """A difference that is clearly negative is rejected."""
    I = interp(ctx)
    I.contracts[MU + 'log1mexp'] = c_log1mexp
    p, q = ctx.real('p'), ctx.real('q')
    ctx.assume(And(q > p, p > 0))
    try: r = I.call(fn(I, 'logdiffexp'), [LogV(p), LogV(q)], {})
    except PyExc as e:
        ctx.prove('rejected with ValueError', e.cls is ValueError)
        return
    ctx.prove('only rounding of zero is accepted', as_log(r).p == 0)

def c_logdiffexp(I, f, a, k):
    ctx = I.ctx
    p, q = as_log(a[0], I), as_log(a[1], I)
    if p is None or q is None: raise Unsupported('logdiffexp')
    if not ctx.branch(simp(p.p >= q.p)):
        raise Unsupported('logdiffexp of a negative difference')
    return LogV(z3.simplify(p.p - q.p))

def lognorm(ctx):
    """lognorm([log p_i]) = [log(p_i / sum p)] for any number of terms."""
    I = interp(ctx)
    b = Base(ctx, 'A', least=1)
    p = z3.Function(ctx.fresh('p'), z3.IntSort(), z3.RealSort())
    ctx.assume_forall(b.sort, lambda i: p(i) >= 0)
    fam = Family(I, b.all_, lambda i: LogV(p(i)))
    total_p = spec_sum(I, b, lambda i: p(i))
    ctx.assume(total_p > 0)
    r = guard(ctx, 'lognorm', lambda: I.call(fn(I, 'lognorm'), [fam], {}))
    i = b.any_index('i')
    ctx.prove('as many weights', I.B.b_len(I, [r], {}) == b.n)
    ctx.prove('lognorm', as_log(r.elem(i)).p * total_p == p(i))

def isinf_neg(ctx):
    I = interp(ctx)
    p = ctx.real('p')
    ctx.assume(p >= 0)
    r = guard(ctx, 'isinf_neg', lambda: I.truth(I.call(fn(I, 'isinf_neg'), [LogV(p)], {})))
    ctx.prove('isinf_neg', Iff(r, p == 0))
    for v, w in ((INF, False), (-INF, True), (0, False), (-3.5, False)):
        ctx.prove('isinf_neg(%s)' % v, Iff(I.truth(I.call(fn(I, 'isinf_neg'), [v], {})), w))

def use(I):
    """Callers see these functions through their contracts."""
    I.contracts[MU + 'logdiffexp'] = c_logdiffexp

F = dict(fast_ms=150, linear=True)
def log_tasks():
    return [Task('log1mexp', log1mexp, **F), Task('log1mexp of inf', log1mexp_inf, **F),
        Task('logdiffexp', logdiffexp, **F), Task('logdiffexp of a negative difference', logdiffexp_bad, **F),
        Task('lognorm of any number of terms', lognorm, **F), Task('isinf_neg', isinf_neg, **F)]

def tasks(prop, tier):
    return log_tasks() if prop in ('C08', 'C20') else []
