"""Numbers in log space: LogV(p) stands for log p, with p >= 0.

log 0 is -inf.  The mathematical functions of math, numpy and scipy that the
code applies to such numbers are given by their defining equations on p.
"""
import ast
from .core import *
from .interp import NativeF, MISSING, PList, PSet

def rv(x):
    """Real term of a concrete or symbolic real."""
    if isinstance(x, (int, float, Fraction)): return real_of(x)
    return x

class LogV:
    def __init__(self, p):
        self.p = z3.simplify(rv(p)) if not isinstance(p, z3.ExprRef) else p
    def __repr__(self): return 'log(%s)' % (self.p,)
    def vc_truth(self, I): return Not(simp(self.p == 1))
    def vc_merge(self, pairs):
        out = None
        for c, v in reversed(pairs):
            v = as_log(v)
            if v is None: raise CannotMerge('log value')
            out = v.p if out is None else z3.If(zb(c), v.p, out)
        return LogV(out)
    def vc_float(self, I): return self
    def vc_isinf(self, I): return simp(self.p == 0)
    def vc_isinstance(self, I, t):
        n = getattr(t, 'name', None)
        return n == 'float'
    def vc_eq(self, I, o):
        o = as_log(o, I)
        if o is None: return False
        return simp(self.p == o.p)
    def vc_cmp(self, I, op, o):
        if o == INF: return op in (ast.Lt, ast.LtE)
        o = as_log(o, I)
        if o is None: raise Unsupported('comparison with a log value')
        f = {ast.Lt: self.p < o.p, ast.Gt: self.p > o.p, ast.LtE: self.p <= o.p, ast.GtE: self.p >= o.p}[op]
        return simp(f)
    def vc_unary(self, I, op):
        if op is ast.USub:
            if I.ctx.branch(simp(self.p == 0)): return INF
            return LogV(quotient(I.ctx, z3.RealVal(1), self.p))
        raise Unsupported('unary on a log value')
    def vc_binop(self, I, op, o, reflected):
        if op is ast.Mult:
            if I.isnum(o) and not isinstance(o, LogV):
                k = I.lift(o)
                if isinstance(k.tag, int) and k.tag == 0:
                    if I.ctx.branch(simp(self.p == 0)): raise Unsupported('product with -inf')
                    return Sc(0, k.val * ln(self.p))
            return NotImplemented
        if not isinstance(o, LogV) and isinstance(o, (int, float)) and o == INF and op is ast.Add: return INF
        o = as_log(o, I)
        if o is None: return NotImplemented
        a, b = (o, self) if reflected else (self, o)
        if op is ast.Add: return LogV(z3.simplify(a.p * b.p))
        if op is ast.Sub:
            if I.ctx.branch(simp(b.p == 0)):
                if I.ctx.branch(simp(a.p > 0)): return INF
                raise Unsupported('-inf - -inf')
            return LogV(quotient(I.ctx, a.p, b.p))
        return NotImplemented
    def vc_attr(self, I, name): return MISSING

_ln = z3.Function('ln', z3.RealSort(), z3.RealSort())
def ln(p): return _ln(z3.simplify(p))

def canon(t):
    """Sums of monomials in a fixed order."""
    return z3.simplify(t, som=True, sort_sums=True)

def quotient(ctx, a, b):
    """a / b, constrained when b is not 0."""
    a, b = canon(rv(a)), canon(rv(b))
    if a.eq(b): return z3.RealVal(1)
    if z3.is_mul(a) and any(x.eq(b) for x in a.children()):
        # (r * b) / b
        rest = list(a.children())
        rest.pop(next(i for i, x in enumerate(rest) if x.eq(b)))
        return z3.simplify(z3.Product(*rest)) if len(rest) > 1 else rest[0]
    if z3.is_rational_value(b): return z3.simplify(a / b)
    if not hasattr(ctx, 'quots'): ctx.quots = {}
    k = (a.get_id(), b.get_id())
    if k not in ctx.quots: ctx.quots[k] = (z3.Real(ctx.fresh('quo')), a, b)
    q = ctx.quots[k][0]
    ctx.assume(Implies(b != 0, q * b == a))
    ctx.assume(Implies(And(b > 0, a >= 0), q >= 0))
    ctx.assume(Implies(And(b > 0, a > 0), q > 0))
    ctx.assume(Implies(And(b > 0, a <= b), q <= 1))
    return q

_consts = {}
def exp_const(c):
    """e**c of a concrete number, as a named positive constant."""
    if c == 0: return z3.RealVal(1)
    if c == -INF: return z3.RealVal(0)
    t = z3.Real('exp(%s)' % (Fraction(c),))
    _consts[Fraction(c)] = t
    ctx = Ctx.cur
    ctx.assume(t > 1 if c > 0 else And(t > 0, t < 1))
    return t

def as_log(v, I=None):
    if isinstance(v, LogV): return v
    if isinstance(v, bool): v = int(v)
    if isinstance(v, (int, float, Fraction)):
        if v == INF: return None
        return LogV(exp_const(v))
    return None

def is_log(v): return isinstance(v, LogV)

# -- functions

def f_exp(I, a, k):
    v = a[0]
    if isinstance(v, LogV): return Sc(0, v.p)
    if hasattr(v, 'vc_map'): return v.vc_map(I, lambda x: f_exp(I, [x], {}))
    if isinstance(v, (int, float, Fraction)):
        if v == -INF: return 0.0
        if v == INF: return INF
        return Sc(0, exp_const(v))
    if isinstance(v, PList): return PList([f_exp(I, [x], {}) for x in v.items], I.ctx.depth)
    raise Unsupported('exp')
def f_expm1(I, a, k):
    r = f_exp(I, a, k)
    return I.binop(ast.Sub, r, 1)
def np_log(I, a, k):
    v = a[0]
    if v == 0 and isinstance(v, (int, float)): return -INF
    x = I.lift(v)
    if I.num_tag(x): raise Unsupported('log of inf')
    if I.ctx.branch(simp(x.val < 0)): raise Unsupported('log of a negative number')
    return LogV(x.val)
def np_log1p(I, a, k): return np_log(I, [I.binop(ast.Add, 1, a[0])], k)
def math_log(I, a, k):
    if len(a) > 1: raise Unsupported('log with a base')
    x = I.lift(a[0])
    if I.num_tag(x): raise Unsupported('log of inf')
    if not I.ctx.branch(simp(x.val > 0)): I.throw(ValueError, 'math domain error')
    return LogV(x.val)
def logsumexp(I, a, k):
    if k or len(a) != 1: raise Unsupported('logsumexp options')
    v = a[0]
    if isinstance(v, LogV): return v
    if hasattr(v, 'vc_logsumexp'): return v.vc_logsumexp(I)
    items = [as_log(x, I) for x in I.tolist(v)]
    if not items: I.throw(ValueError, 'zero-size array to reduction operation')
    if any(x is None for x in items): raise Unsupported('logsumexp of %r' % (v,))
    s = items[0].p
    for x in items[1:]: s = s + x.p
    return LogV(z3.simplify(s))

TOL = Fraction(1, 10**5)
def close_real(ctx, x, y):
    """numpy.allclose(x, y): |x - y| <= 1e-8 + 1e-5 |y|."""
    if isinstance(y, (int, float, Fraction)):
        d = Fraction(1, 10**8) + TOL * abs(Fraction(y))
        return And(x - real_of(y) <= real_of(d), real_of(y) - x <= real_of(d))
    c = ctx.bool_('close')
    ctx.assume(Implies(x == y, c))
    return c
def close_log(ctx, p, q):
    """allclose of two logarithms."""
    if z3.is_rational_value(z3.simplify(q)) and z3.simplify(q - 1).eq(z3.RealVal(0)):
        # |log p| <= 1e-8: p is within e**(+-1e-8) of one
        c = ctx.bool_('close')
        lo, hi = Fraction(99999999, 10**16), Fraction(100000002, 10**16)
        ctx.assume(Implies(And(p - 1 <= real_of(lo), 1 - p <= real_of(lo)), c))
        ctx.assume(Implies(c, And(p - 1 <= real_of(hi), 1 - p <= real_of(hi))))
        return c
    c = ctx.bool_('close')
    ctx.assume(Implies(p == q, c))
    return c
def np_allclose(I, a, k):
    if k or len(a) != 2: raise Unsupported('allclose options')
    x, y = a
    if isinstance(x, LogV) or isinstance(y, LogV):
        x, y = as_log(x, I), as_log(y, I)
        if x is None or y is None: return False
        return close_log(I.ctx, x.p, y.p)
    if all(isinstance(v, (int, float, Fraction)) for v in (x, y)):
        return abs(x - y) <= 1e-8 + 1e-5 * abs(y)
    x = I.lift(x)
    if not (isinstance(x.tag, int) and x.tag == 0): raise Unsupported('allclose')
    if isinstance(y, (int, float, Fraction)): return close_real(I.ctx, x.val, y)
    y = I.lift(y)
    return close_real(I.ctx, x.val, y.val)

def install(externals):
    N = NativeF
    externals.update({
        'numpy.exp': N('numpy.exp', f_exp), 'numpy.expm1': N('numpy.expm1', f_expm1),
        'numpy.log': N('numpy.log', np_log), 'numpy.log1p': N('numpy.log1p', np_log1p),
        'math.exp': N('math.exp', f_exp), 'math.log': N('math.log', math_log),
        'math.expm1': N('math.expm1', f_expm1), 'math.log1p': N('math.log1p', np_log1p),
        'scipy.special.logsumexp': N('logsumexp', logsumexp),
        'numpy.allclose': N('numpy.allclose', np_allclose),
    })
