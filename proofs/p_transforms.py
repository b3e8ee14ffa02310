"""Contracts of transforms.py: inverse images (C03)."""
from .trspec import *
from .registry import Task

def invert_contract(I, Tr, pt, spec):
    """The contract of Tr.invert for sets that are not unions, for its use in
    the case of a union (induction on the size of the set)."""
    started = []
    def c(I, f, a, k):
        if a[0] is not Tr: return MISSING
        S = lift_set(I, a[1])
        if not started:
            started.append(1)
            return MISSING
        if not S.piece: I.ctx.prove('recursion on a piece of a union', Not(S.is_kind(aset.UN)))
        return at_point(I, pt, spec(S))
    I.contracts[T + '.Transform.invert'] = c

def finv_contract(I, Tr, value):
    """finv(y): the numbers x with f(x) = y."""
    name = '%s.%s.finv' % (T, Tr.cls.name)
    def c(I, f, a, k):
        if len(a) != 2 or a[0] is not Tr: return MISSING
        return finv_set(I, Tr, value, a[1])
    I.contracts[name] = c

def finv_set(I, Tr, value, y):
    if not I.isnum(y): return aset.EMPTY(I)
    if isinstance(value, SymP): return poly_eq(I, value, y)
    rng = lift_set(I, I.call(I.getattr(Tr, 'range'), [], {}))
    if not I.ctx.branch(rng.has(y)): return aset.EMPTY(I)
    return aset.finite(I, [value(I.lift(y))])

def inverse_function(make):
    """The contract of finv, and that it inverts ffwd."""
    def h(ctx):
        I = interp(ctx)
        pt = Point(ctx)
        Tr = make(ctx, I, Sub(I, pt, infinite=False))
        y, x = ctx.num('y'), ctx.real('x')
        X = Sc(0, x)
        R = lift_set(I, guard(ctx, 'finv', lambda: I.call(I.getattr(Tr, 'finv'), [y], {})))
        if R is None: ctx.fail('finv: a set of outcomes', 'not a set'); return
        want = lift_set(I, finv_set(I, Tr, ctx.value, y))
        z = ctx.num('z')
        ctx.prove('finv: contract', Iff(R.has(z), want.has(z)))
        try: v = I.lift(I.call(I.getattr(Tr, 'ffwd'), [X], {}))
        except PyExc: v = None
        if v is None: ctx.prove('finv: nothing outside the domain', Not(R.has(X)))
        else: ctx.prove('finv: the inverse of ffwd', Iff(R.has(X), sc_eq(v, y)))
    return h

def inverse_image(make, infinite=True):
    def h(ctx):
        I = interp(ctx)
        pt = Point(ctx)
        sub = Sub(I, pt, infinite=infinite)
        Tr = make(ctx, I, sub)
        if hasattr(ctx, "value"): finv_contract(I, Tr, ctx.value)

        asn = getattr(ctx, 'asn', None) or PDict([], 0)
        try:
            v = I.call(I.getattr(Tr, 'evaluate'), [asn], {})
        except PyExc as e:
            v = None
        else: v = I.lift(v)
        spec = (lambda S: False) if v is None else (lambda S: S.has(v))
        invert_contract(I, Tr, pt, spec)
        S = ASet.fresh(I, 'S')
        R = guard(ctx, 'invert', lambda: I.call(I.getattr(Tr, 'invert'), [S], {}))
        R = lift_set(I, R)
        if R is None: ctx.fail('invert: a set of outcomes', 'not a set'); return
        x0 = Sc(0, pt.x0)
        if v is None: ctx.prove('no solution where the expression is undefined', Not(R.has(x0)))
        else:
            ctx.prove('every solution has its value in the set', Implies(R.has(x0), S.has(v)))
            ctx.prove('every number with its value in the set is a solution', Implies(S.has(v), R.has(x0)))
    return h

def radical(ctx, I, sub):
    n = ctx.int_('degree')
    ctx.assume(n >= 1)
    nonneg = lambda t: simp(t >= 0)
    p = Pair(ctx, 'power', nonneg, nonneg, True)     # t -> t**n on t >= 0
    def power(I, y, e):
        y = I.lift(y)
        I.ctx.prove('power of a non-negative number', Or(tag_eq(y.tag, 1), And(tag_eq(y.tag, 0), y.val >= 0)))
        return Sc(y.tag, p.fwd(y.val))
    def root(I, x, e):
        x = I.lift(x)
        I.ctx.prove('root of a non-negative number', Or(tag_eq(x.tag, 1), And(tag_eq(x.tag, 0), x.val >= 0)))
        return Sc(x.tag, p.inv(x.val))
    isn = lambda v: is_sym(v) and v.eq(n) or isinstance(v, Sc) and v.val.eq(z3.ToReal(n))
    pow_external(I, [(lambda a, e: isinstance(e, Rat) and e.p == 1 and isn(e.q), root),
        (lambda a, e: isinstance(e, Rat) and e.q == 1 and isn(e.p), power)])
    Tr = guard(ctx, 'Radical', lambda: I.call(cls(I, 'Radical'), [sub, n], {}))
    ctx.value = lambda y: Sc(y.tag, p.fwd(y.val))
    return Tr

def exp_pair(ctx, b):
    anyn, pos = lambda t: True, lambda t: simp(t > 0)
    p = Pair(ctx, 'exp', anyn, pos, simp(b > 1))
    def power(I, a, x):
        x = I.lift(x)
        if isinstance(x.tag, int) and x.tag == 0: return Sc(0, p.fwd(x.val))
        up = simp(b > 1)
        big = Or(And(tag_eq(x.tag, 1), up), And(tag_eq(x.tag, -1), Not(up)))
        return Sc(z3.If(zb(big), 1, 0), z3.If(zb(tag_eq(x.tag, 0)), p.fwd(x.val), z3.RealVal(0)))
    def log(I, a, k):
        x = I.lift(a[0])
        I.ctx.prove('logarithm of a positive finite number', And(tag_eq(x.tag, 0), x.val > 0))
        return Sc(0, p.inv(x.val))
    return p, power, log

def tagged(x): return z3.IntVal(x) if isinstance(x, int) else x

def exp_inverse(p, b, y):
    up = z3.If(b > 1, z3.IntVal(1), z3.IntVal(-1))
    t = z3.If(tagged(y.tag) == 1, up, z3.If(y.val <= 0, -up, z3.IntVal(0)))
    return Sc(z3.simplify(t), p.inv(y.val))

def log_inverse(p, y):
    return Sc(z3.simplify(z3.If(tagged(y.tag) == 1, z3.IntVal(1), z3.IntVal(0))),
        z3.If(zb(tag_eq(y.tag, 0)), p.fwd(y.val), z3.RealVal(0)))

def exponential(ctx, I, sub):
    b = ctx.real('base')
    ctx.assume(And(b > 0, b != 1))
    p, power, log = exp_pair(ctx, b)
    base = Sc(0, b)
    pow_external(I, [(lambda a, e: a is base, power)])
    I.externals['sympy.log'] = NativeF('sympy.log', log)
    Tr = guard(ctx, 'Exponential', lambda: I.call(cls(I, 'Exponential'), [sub, base], {}))
    ctx.value = lambda y: exp_inverse(p, b, y)
    return Tr

def logarithm(ctx, I, sub):
    b = ctx.real('base')
    ctx.assume(b > 1)
    p, power, log = exp_pair(ctx, b)
    base = Sc(0, b)
    pow_external(I, [(lambda a, e: a is base, power)])
    I.externals['sympy.log'] = NativeF('sympy.log', log)
    Tr = guard(ctx, 'Logarithm', lambda: I.call(cls(I, 'Logarithm'), [sub, base], {}))
    ctx.value = lambda y: log_inverse(p, y)
    return Tr

def absolute(ctx, I, sub):
    return guard(ctx, 'Abs', lambda: I.call(cls(I, 'Abs'), [sub], {}))

def inverse_fn(ctx, I):
    """x -> 1/x on non-zero numbers: its own inverse, decreasing on each side."""
    f = z3.Function(ctx.fresh('recip'), z3.RealSort(), z3.RealSort())
    sort = ctx.fresh('recip')
    pairs, singles = {}, {}
    def one(t):
        tid = t.get_id()
        def two(s):
            if s.get_id() >= tid: return True
            k = (s.get_id(), tid)
            if k not in pairs:
                fs, ft = f(s), f(t)
                pairs[k] = (s, z3.Implies(z3.Or(z3.And(s > 0, t > 0), z3.And(s < 0, t < 0)),
                    z3.And((s < t) == (fs > ft), (s == t) == (fs == ft))))
            return pairs[k][1]
        ctx.assume_forall(sort, two)
        if tid not in singles:
            ft = f(t)
            singles[tid] = (t, z3.Implies(t != 0, z3.And((t > 0) == (ft > 0), (t < 0) == (ft < 0), f(ft) == t)))
        return singles[tid][1]
    ctx.assume_forall(sort, one)
    def power(I, x, e):
        x = I.lift(x)
        s, v = x.tag, x.val
        I.ctx.prove('reciprocal of a finite number other than zero', And(tag_eq(s, 0), v != 0))
        # the facts about x and 1/x
        ctx.add_term(sort, v); ctx.add_term(sort, f(v)); ctx.add_term('R', f(v))
        return Sc(0, f(v))
    def recip(v):
        ctx.add_term(sort, v); ctx.add_term(sort, f(v)); ctx.add_term('R', f(v))
        return f(v)
    ctx.recip = recip
    pow_external(I, [(lambda a, e: is_num(e) and not is_sym(e) and not isinstance(e, Sc) and e == -1, power)])

def reciprocal(ctx, I, sub):
    inverse_fn(ctx, I)
    Tr = guard(ctx, 'Reciprocal', lambda: I.call(cls(I, 'Reciprocal'), [sub], {}))
    ctx.value = lambda y: Sc(0, ctx.recip(y.val))
    return Tr

class SymSet:
    """The set sympy.calculus.util.function_range returns."""
    def __init__(self, kind, **at): self.kind, self.at = kind, at
    def vc_is(self, I, o): return self is o
    def vc_truth(self, I): return True
    def vc_attr(self, I, name):
        return self.at.get(name, MISSING)

class SymP:
    """A polynomial in one symbol, as a function of numbers.  A polynomial that
    is not constant is unbounded at both ends."""
    def __init__(self, ctx, name='poly', const=False):
        self.ctx = ctx
        if const:
            c = ctx.real(name + '_c')
            self.const, self.f = c, lambda t: c
        else:
            self.const = None
            self.f = z3.Function(ctx.fresh(name), z3.RealSort(), z3.RealSort())
            self.hi, self.lo = ctx.int_('lim_hi'), ctx.int_('lim_lo')
            for v in (self.hi, self.lo): ctx.assume(Or(v == 1, v == -1))
    def at(self, t):
        return self.f(t)
    def vc_truth(self, I): return True
    def vc_attr(self, I, name):
        if name == 'subs': return NativeF('subs', lambda I, a, k: Sc(0, self.at(known(I, finite_only(I, a[1])))))
        return MISSING
    def limit(self, side):
        if self.const is not None: return Sc(0, self.const)
        return Sc(self.hi if side > 0 else self.lo, z3.RealVal(0))

def known(I, t):
    I.ctx.add_term('R', t)
    return t

def finite_only(I, x):
    x = I.lift(x)
    I.ctx.prove('a polynomial at a finite number', tag_eq(x.tag, 0))
    return x.val

def poly_externals(I, P):
    """sympy.limit and function_range; the contracts of poly.py (C19)."""
    ctx = I.ctx
    if P.const is None:
        L, U = ctx.num('inf'), ctx.num('sup')
        ctx.assume(And(Not(tag_eq(L.tag, 1)), Not(tag_eq(U.tag, -1)), sc_lt(L, U)))
        # a polynomial that is not constant is unbounded where it tends to infinity
        ctx.assume(Iff(tag_eq(U.tag, 1), Or(P.hi == 1, P.lo == 1)))
        ctx.assume(Iff(tag_eq(L.tag, -1), Or(P.hi == -1, P.lo == -1)))
        ctx.assume_forall('R', lambda t: And(sc_le(L, Sc(0, P.f(t))), sc_le(Sc(0, P.f(t)), U)))
    def limit(I, a, k):
        if not isinstance(a[0], SymP): raise Unsupported('limit')
        t, _ = ext(I, a[2])
        if t == 0: raise Unsupported('limit at a number')
        return a[0].limit(t)
    def rng(I, a, k):
        p = a[0]
        if p.const is not None:
            return SymSet('FiniteSet', args=PList([Sc(0, p.const)], ctx.depth))
        return SymSet('Interval', left=L, right=U, left_open=tag_eq(L.tag, -1), right_open=tag_eq(U.tag, 1))
    I.externals['sympy.calculus.util.limit'] = NativeF('limit', limit)
    I.externals['sympy.calculus.util.function_range'] = NativeF('function_range', rng)
    for n in ('Interval', 'FiniteSet', 'Union'):
        I.externals['sympy.' + n] = TypeV('sympy.' + n, lambda v, n=n: isinstance(v, SymSet) and v.kind == n)
    I.externals['sympy.S.EmptySet'] = SymSet('EmptySet')
    C = I.contracts
    C['sppl.poly.solve_poly_equality'] = lambda I, f, a, k: poly_eq(I, *a, **k)
    C['sppl.poly.solve_poly_inequality'] = lambda I, f, a, k: poly_lt(I, *a, **k)
    C[T + '.make_sympy_polynomial'] = lambda I, f, a, k: P

def poly_eq(I, p, y):
    """The numbers t with p(t) = y."""
    if not isinstance(p, SymP): raise Unsupported('polynomial')
    t, v = ext(I, y)
    if t:
        hit = lambda side: tag_eq(p.limit(side).tag, t)
        return ASet(I, lambda u: False, hit(1), hit(-1), None, name='poly_eq')
    I.ctx.add_term('R', v)
    return ASet(I, lambda u: simp(p.at(u) == v), False, False, None, name='poly_eq')

def poly_lt(I, p, b, strict, extended=None):
    """The numbers t with p(t) < b, or p(t) <= b."""
    if not isinstance(p, SymP): raise Unsupported('polynomial')
    t, v = ext(I, b)
    strict = I.truth(strict)
    if t:
        if extended is not False: raise Unsupported('extended solutions')
        return ASet(I, lambda u: t > 0, False, False, None, name='poly_lt')
    def mem(u):
        x = p.at(u)
        return simp(z3.If(zb(strict), x < v, x <= v))
    I.ctx.add_term('R', v)
    return ASet(I, mem, False, False, None, name='poly_lt')

def polynomial(const):
    def make(ctx, I, sub):
        P = SymP(ctx, const=const)
        ctx.value = P
        poly_externals(I, P)
        cs = PList([Sc(0, ctx.real('c0')), Sc(0, ctx.real('c1'))], 0)
        return guard(ctx, 'Poly', lambda: I.call(cls(I, 'Poly'), [sub, cs], {}))
    return make

def identity(ctx, I, sub):
    X = guard(ctx, 'Identity', lambda: I.call(cls(I, 'Identity'), ['X'], {}))
    ctx.asn = PDict([(X, Sc(0, sub.pt.x0))], 0)
    return X

F = dict(fast_ms=150, linear=True)
def both(what, make, infinite=False):
    return [Task('inverse function of %s' % (what,), inverse_function(make), weight=0, **F),
        Task('inverse image under %s' % (what,), inverse_image(make, infinite), weight=10, budget=100, **F)]
def tasks(prop, tier):
    if prop == 'C03':
        return (both('a root of any degree', radical) + both('an exponential of any base', exponential)
            + both('a logarithm of any base', logarithm) + both('the reciprocal', reciprocal)
            + [Task('inverse image under the absolute value', inverse_image(absolute), weight=3, **F),
                Task('inverse function of a polynomial', inverse_function(polynomial(False)), weight=0, **F),
                Task('inverse function of a constant polynomial', inverse_function(polynomial(True)), weight=0, **F),
                Task('inverse image under a polynomial', inverse_image(polynomial(False), False), weight=10, **F),
                Task('inverse image under a constant polynomial', inverse_image(polynomial(True), False), weight=10, **F),
                Task('inverse image under a variable', inverse_image(identity), weight=3, **F)])
    return []

ASSUMPTIONS = {'C03': [
    'numbers are exact reals with two infinities; rounding is not modelled',
    'sub-expressions are seen through the contract being proved (induction on the expression): one value or undefined at each assignment, and an inverse image that agrees with it; their values are finite numbers except under abs and the variable itself',
    'sympy.Pow and sympy.log with a fixed base or exponent are strictly monotone and inverse to each other on their domains (external library)',
    'function_range and limit of sympy return the range and limits of a polynomial; solve_poly_equality and solve_poly_inequality satisfy the contract of C19',
    'operators of sppl.sets satisfy the contracts proved for C01 and C02',
]}
