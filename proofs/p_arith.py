"""Contracts of the arithmetic operators of transforms.py (C04)."""
import ast
from .trspec import *
from .registry import Task

F_ = dict(fast_ms=150, linear=True)

class SymPoly:
    """A polynomial in the symbol X of sympy: coefficients, lowest first."""
    def __init__(self, cs): self.cs = list(cs)
    def __repr__(self): return 'SymPoly(%s)' % (self.cs,)
    def vc_truth(self, I): return True
    def vc_isinstance(self, I, t): return False
    def vc_eq(self, I, o):
        if not isinstance(o, SymPoly): return False
        n = max(len(self.cs), len(o.cs))
        g = lambda cs, i: zr(cs[i]) if i < len(cs) else zr(0)
        return And(*[simp(g(self.cs, i) == g(o.cs, i)) for i in range(n)])
    def vc_binop(self, I, op, o, r):
        if op is ast.Pow and not r and isinstance(o, int) and self.cs == [0, 1]: return SymPoly([0] * o + [1])
        if op is ast.Mult and I.isnum(o): return SymPoly([mul(fin(I, o), c) for c in self.cs])
        if op is ast.Add and isinstance(o, SymPoly): return add_poly(self, o)
        if op is ast.Mult and isinstance(o, SymPoly):
            cs = [0] * (len(self.cs) + len(o.cs) - 1)
            for i, a in enumerate(self.cs):
                for j, b in enumerate(o.cs): cs[i + j] = add(cs[i + j], mul(a, b))
            return SymPoly(cs)
        raise Unsupported('operator on a symbolic polynomial')
    def at(self, v):
        r, p = 0, 1
        for c in self.cs:
            r = add(r, mul(c, p)); p = mul(p, v)
        return r
    def vc_attr(self, I, name):
        if name == 'subs': return NativeF('subs', lambda I, a, k: Sc(0, zr(self.at(fin(I, a[1])))))
        if name == 'all_coeffs': return NativeF('all_coeffs', lambda I, a, k: self.all_coeffs(I))
        return MISSING
    def all_coeffs(self, I):
        cs = list(self.cs)
        while len(cs) > 1 and I.ctx.branch(simp(zr(cs[-1]) == 0)): cs.pop()
        return PList([Sc(0, zr(c)) for c in reversed(cs)], I.ctx.depth)

def zr(c): return z3.RealVal(c) if isinstance(c, (int, float)) else c
def isc(c, v): return isinstance(c, int) and c == v
def add(a, b): return b if isc(a, 0) else a if isc(b, 0) else z3.simplify(zr(a) + zr(b), som=True)
def mul(a, b): return 0 if isc(a, 0) or isc(b, 0) else b if isc(a, 1) else a if isc(b, 1) else z3.simplify(zr(a) * zr(b), som=True)
def add_poly(p, q):
    n = max(len(p.cs), len(q.cs))
    g = lambda cs, i: cs[i] if i < len(cs) else 0
    return SymPoly([add(g(p.cs, i), g(q.cs, i)) for i in range(n)])
def fin(I, x):
    if type(x) is int: return x
    x = I.lift(x)
    I.ctx.prove('a finite number in a polynomial', tag_eq(x.tag, 0))
    return x.val

class Ratio:
    """A rational number that is not an integer: numerator and denominator."""
    def __init__(self, p, q): self.p, self.q = p, q
    def vc_truth(self, I): return True
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') in ('sympy.Rational', 'sympy.Number')
    def vc_attr(self, I, name):
        if name == 'as_numer_denom': return NativeF('as_numer_denom', lambda I, a, k: (self.p, self.q))
        return MISSING

class Expr(Sub):
    """An arbitrary expression that is no polynomial, with the operators of
    Transform (no subclass but Poly, Abs and Piecewise overrides any)."""
    def vc_binop(self, I, op, o, r):
        n = NAMES[op][1 if r else 0]
        f = cls(I, 'Transform').lookup(n)
        if f is MISSING: return NotImplemented
        return I.call(f, [self, o], {})
    def vc_unary(self, I, op):
        n = {ast.USub: '__neg__'}[op]
        return I.call(cls(I, 'Transform').lookup(n), [self], {})

NAMES = {ast.Add: ('__add__', '__radd__'), ast.Sub: ('__sub__', '__rsub__'), ast.Mult: ('__mul__', '__rmul__'),
    ast.Div: ('__truediv__', '__rtruediv__'), ast.Pow: ('__pow__', '__rpow__')}

def arith(ctx, I=None):
    I = I or interp(ctx)
    X = SymPoly([0, 1])
    E = I.externals
    E['sympy.abc.X'] = X
    E['sympy.Add'] = NativeF('sympy.Add', lambda I, a, k: total_poly(a))
    def poly(I, a, k):
        if not isinstance(a[0], SymPoly): raise Unsupported('sympy.Poly(%r)' % (a[0],))
        if len(a) == 1 and not I.ctx.branch(Or(*[simp(zr(c) != 0) for c in a[0].cs[1:]])):
            I.throw(ValueError, 'GeneratorsNeeded')     # a constant has no symbol
        return SymPoly(a[0].cs)
    E['sympy.Poly'] = NativeF('sympy.Poly', poly)
    def rational(I, a, k):
        if len(a) == 1: return a[0]
        if all(type(v) is int for v in a):
            if a[1] == 0: raise Unsupported('Rational with denominator 0')
            from fractions import Fraction
            f = Fraction(a[0], a[1])
            return int(f) if f.denominator == 1 else Ratio(f.numerator, f.denominator)
        if isinstance(a[1], int) or is_sym(a[1]) and z3.is_int(a[1]): return Rat(*a)
        p, q = I.lift(a[0]), I.lift(a[1])
        if not I.ctx.branch(And(tag_eq(q.tag, 0), q.val != 0)): return Sc.nan() if hasattr(Sc, 'nan') else I.throw(ValueError, 'nan')
        return Sc(0, p.val * ctx_inverse(I, q.val))
    E['sympy.Rational'] = TypeV('sympy.Rational', lambda v: isinstance(v, Ratio), call=rational)
    E['sympy.Integer'] = TypeV('sympy.Integer', lambda v: False)
    E['sympy.sympify'] = NativeF('sympy.sympify', lambda I, a, k: a[0])
    def attr(I, what, *a):
        if what == 'attr' and a[1] == 'is_finite' and I.isnum(a[0]): return tag_eq(I.lift(a[0]).tag, 0)
        return MISSING
    I.hooks.append(attr)
    c0 = I.contracts['sppl.sym_util.sympify_number']
    I.contracts['sppl.sym_util.sympify_number'] = lambda I, f, a, k: a[0] if isinstance(a[0], Ratio) else c0(I, f, a, k)
    return I

def ctx_inverse(I, v):
    """1/v, for v other than zero."""
    ctx = I.ctx
    if not hasattr(ctx, 'inv_of'): ctx.inv_of = []
    for u, r in ctx.inv_of:
        if u.eq(v): return r
    r = ctx.real('inverse')
    for u, s in ctx.inv_of: ctx.assume(Implies(simp(u == v), simp(r == s)))
    ctx.inv_of.append((v, r))
    ctx.assume(r * v == 1)
    return r

def total_poly(a):
    r = SymPoly([0])
    for p in a: r = add_poly(r, p)
    return r

def power_of(u, n):
    r = 1
    for _ in range(n): r = mul(r, u)
    return r

class Operand:
    """An operand: the expression, its value there, and its coefficients."""
    def __init__(self, I, pt, kind, name):
        ctx = I.ctx
        self.sub = Expr(I, pt, name, infinite=False)
        if kind == 0: self.x, self.v, self.cs = self.sub, self.sub.u.val, [0, 1]
        else:
            self.cs = [ctx.real('%s_c%d' % (name, i)) for i in range(kind + 1)]
            self.x = guard(ctx, 'Poly', lambda: I.call(cls(I, 'Poly'), [self.sub, PList([Sc(0, c) for c in self.cs], 0)], {}))
            self.v = SymPoly(self.cs).at(self.sub.u.val)

def value(I, r):
    """The value of a result at the point, or None."""
    try: return I.lift(I.call(I.getattr(r, 'evaluate'), [PDict([], 0)], {}))
    except PyExc: return None

def check(I, r, want, defined):
    ctx = I.ctx
    v = value(I, r)
    if v is None: ctx.prove('undefined only where the written expression is', Not(defined)); return
    ctx.prove('defined only where the written expression is', defined)
    ctx.prove('value of the written expression', Implies(defined, sc_eq(v, Sc(0, zr(want)))))

def number(op, kind, side):
    """expression op number, number op expression"""
    def h(ctx):
        I = arith(ctx); pt = Point(ctx)
        o = Operand(I, pt, kind, 'e')
        c = ctx.real('c')
        if op is ast.Div: inverse_pow(I)
        num = Sc(0, c)
        a, b = (o.x, num) if side == 'l' else (num, o.x)
        if op is ast.Div and side == 'l': ctx.assume(c != 0)
        r = guard(ctx, 'operator', lambda: I.binop(op, a, b))
        f = {ast.Add: lambda x, y: add(x, y), ast.Sub: lambda x, y: add(x, mul(-1, y)), ast.Mult: lambda x, y: mul(x, y)}
        if op is not ast.Div:
            check(I, r, f[op](o.v, c) if side == 'l' else f[op](c, o.v), o.sub.d)
            return
        v = value(I, r)
        d = And(o.sub.d, True if side == 'l' else simp(zr(o.v) != 0))
        if v is None: ctx.prove('undefined only where the written expression is', Not(d)); return
        # v = p / q, as v * q = p
        p, q = (o.v, c) if side == 'l' else (c, o.v)
        ctx.prove('value of the written quotient', And(d, tag_eq(v.tag, 0), simp(v.val * zr(q) == zr(p))))
    return h

def inverse_pow(I):
    def power(I, x, e):
        x = I.lift(x)
        I.ctx.prove('reciprocal of a finite number other than zero', And(tag_eq(x.tag, 0), x.val != 0))
        return Sc(0, ctx_inverse(I, x.val))
    keep = I.externals['sympy.Rational']
    pow_external(I, [(lambda a, e: is_num(e) and not is_sym(e) and not isinstance(e, Sc) and e == -1, power)])
    I.externals['sympy.Rational'] = keep

def negation(kind):
    def h(ctx):
        I = arith(ctx); pt = Point(ctx)
        o = Operand(I, pt, kind, 'e')
        r = guard(ctx, 'negation', lambda: I.unary(ast.USub, o.x) if hasattr(I, 'unary') else I.call(I.getattr(o.x, '__neg__'), [], {}))
        check(I, r, mul(-1, o.v), o.sub.d)
    return h

def absolute(ctx):
    I = arith(ctx); pt = Point(ctx)
    o = Operand(I, pt, 0, 'e')
    r = guard(ctx, 'abs', lambda: I.call(cls(I, 'Transform').lookup('__abs__'), [o.x], {}))
    rr = guard(ctx, 'abs twice', lambda: I.call(I.builtin('abs'), [r], {}) if hasattr(I, 'builtin') else I.call(I.getattr(r, '__abs__'), [], {}))
    w = z3.If(zr(o.v) < 0, -zr(o.v), zr(o.v))
    check(I, r, w, o.sub.d)
    check(I, rr, w, o.sub.d)

def expressions(op, k1, k2):
    """expression op expression"""
    def h(ctx):
        I = arith(ctx); pt = Point(ctx)
        a, b = Operand(I, pt, k1, 'a'), Operand(I, pt, k2, 'b')
        same = []
        old = Sub.vc_eq
        try: r = I.binop(op, a.x, b.x)
        except PyExc as e:
            # rejected: different variables or sub-expressions, or a constant
            def nonconst(cs): return Or(*[simp(zr(c) != 0) for c in cs[1:]])
            ctx.prove('rejected with a ValueError or for a constant result', Or(e.cls is ValueError, e.cls is AssertionError))
            s = decided(ctx, a.sub, b.sub)
            if op is ast.Mult: res = SymPoly(a.cs).vc_binop(I, ast.Mult, SymPoly(b.cs), False)
            else: res = add_poly(SymPoly(a.cs), SymPoly([c if op is ast.Add else mul(-1, c) for c in b.cs]))
            ctx.prove('rejected only if the sub-expressions differ or a polynomial is constant',
                Or(Not(s), Not(nonconst(a.cs)), Not(nonconst(b.cs)), Not(nonconst(res.cs))))
            return
        s = decided(ctx, a.sub, b.sub)
        ctx.prove('combined only if the sub-expressions are equal', s)
        w = {ast.Add: lambda x, y: add(x, y), ast.Sub: lambda x, y: add(x, mul(-1, y)), ast.Mult: mul}[op](a.v, b.v)
        check(I, r, w, And(a.sub.d, b.sub.d))
    return h

def decided(ctx, a, b):
    return ctx.same_expr if hasattr(ctx, 'same_expr') else False

class ExprEq(Expr):
    def vc_eq(self, I, o):
        if self is o: return True
        if not isinstance(o, Sub): return False
        if not hasattr(I.ctx, 'same_expr'):
            e = I.ctx.same_expr = I.ctx.bool_('same')
            I.ctx.assume(Implies(e, And(Iff(self.d, o.d), sc_eq(self.u, o.u))))
        return I.ctx.same_expr
Expr.vc_eq = ExprEq.vc_eq

def integer_power(n, kind):
    def h(ctx):
        I = arith(ctx); pt = Point(ctx)
        inverse_pow(I)
        o = Operand(I, pt, kind, 'e')
        try: r = I.binop(ast.Pow, o.x, n)
        except PyExc as e:
            ctx.prove('only the power 0 is rejected', n == 0 and e.cls is ValueError); return
        if n == 0: ctx.fail('the power 0 is rejected', 'accepted'); return
        u = zr(o.v)
        if n > 0: check(I, r, power_of(u, n), o.sub.d); return
        v = value(I, r)
        d = And(o.sub.d, u != 0)
        if v is None:
            # a product of numbers other than zero is not zero
            w = 1
            for _ in range(-n):
                w2 = mul(w, u); ctx.lemma(Implies(And(zr(w) != 0, u != 0), zr(w2) != 0)) if hasattr(ctx, 'lemma') else ctx.assume(Implies(And(zr(w) != 0, u != 0), zr(w2) != 0)); w = w2
            ctx.prove('undefined only where the written expression is', Not(d)); return
        ctx.prove('value of the written power', And(o.sub.d, tag_eq(v.tag, 0), simp(v.val * zr(power_of(u, -n)) == 1)))
    return h

def root(ratio):
    """expression ** (1/n), as a rational number or a pair"""
    def h(ctx):
        I = arith(ctx); pt = Point(ctx)
        o = Operand(I, pt, 0, 'e')
        p, q = ratio[:2]
        f = z3.Function('root', z3.RealSort(), z3.RealSort())
        inv = lambda I, x, e: Sc(0, ctx_inverse(I, I.lift(x).val))
        def rootf(I, x, e):
            x = I.lift(x)
            I.ctx.prove('root of a finite non-negative number', And(tag_eq(x.tag, 0), x.val >= 0))
            return Sc(0, f(x.val))
        keep = I.externals['sympy.Rational']
        pow_external(I, [(lambda a, e: isinstance(e, Ratio) and (e.p, e.q) == (1, abs(q)), rootf),
            (lambda a, e: is_num(e) and not is_sym(e) and not isinstance(e, Sc) and e == -1, inv)])
        I.externals['sympy.Rational'] = keep
        u = zr(o.v)
        ctx.assume(Implies(u >= 0, And(f(u) >= 0, (f(u) == 0) == (u == 0))))
        e = (p, q) if len(ratio) > 2 else Ratio(p, q)
        try: r = I.binop(ast.Pow, o.x, e)
        except PyExc as x:
            ctx.prove('rejected: no root (%s)' % (x.where,), p not in (1, -1) and q != 1 and x.cls is ValueError); return
        ctx.prove('accepted: a root', p in (1, -1))
        if p == 1: check(I, r, f(u), And(o.sub.d, u >= 0)); return
        v = value(I, r)
        d = And(o.sub.d, u > 0)
        if v is None: ctx.prove('undefined only where the written expression is', Not(d)); return
        ctx.prove('value of the written root', And(d, tag_eq(v.tag, 0), v.val * f(u) == 1))
    return h

def base_power(ctx):
    """number ** expression"""
    I = arith(ctx); pt = Point(ctx)
    o = Operand(I, pt, 0, 'e')
    c = ctx.num('base')
    f = z3.Function('power', z3.RealSort(), z3.RealSort(), z3.RealSort())
    keep = I.externals['sympy.Rational']
    pow_external(I, [(lambda a, e: True, lambda I, b, x: Sc(0, f(I.lift(b).val, fin(I, x))))])
    I.externals['sympy.Rational'] = keep
    try: r = I.binop(ast.Pow, c, o.x)
    except PyExc as e:
        ctx.prove('rejected: the base is not positive, finite and other than one', Or(Not(And(tag_eq(c.tag, 0), c.val > 0, c.val != 1))))
        return
    ctx.prove('accepted: the base is positive', Or(tag_eq(c.tag, 1), c.val > 0))
    if ctx.branch(simp(c.tag == 0)): check(I, r, f(c.val, o.sub.u.val), o.sub.d)

def not_a_number(op, swap):
    """Strings and other things are no operands."""
    def h(ctx):
        I = arith(ctx); pt = Point(ctx)
        o = Operand(I, pt, 0, 'e')
        for bad in ('a', None, PList([1], 0)):
            try: I.binop(op, bad, o.x) if swap else I.binop(op, o.x, bad)
            except PyExc as e: ctx.prove('rejected with an error', True); continue
            ctx.fail('rejected with an error', 'accepted %r' % (bad,))
    return h

def poly_build(n):
    """Poly(e, coeffs): the sum of the coefficients times powers."""
    def h(ctx):
        I = arith(ctx); pt = Point(ctx)
        e = Expr(I, pt, 'e', infinite=False)
        cs = [ctx.num('c%d' % i) for i in range(n)]
        try: P = I.call(cls(I, 'Poly'), [e, PList(list(cs), 0)], {})
        except PyExc as x:
            ctx.prove('rejected: too few coefficients, or one infinite', Or(n < 2, *[Not(tag_eq(c.tag, 0)) for c in cs])); return
        ctx.prove('accepted: finite coefficients', And(n >= 2, *[tag_eq(c.tag, 0) for c in cs]))
        check(I, P, SymPoly([c.val for c in cs]).at(e.u.val), e.d)
    return h

OPN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}
def tasks(prop, tier):
    if prop != 'C04': return []
    out = []
    K = {0: 'expression', 1: 'linear polynomial', 2: 'quadratic polynomial'}
    B = {0: None, 1: None, 2: 'polynomials of degree at most 2'}
    for op in (ast.Add, ast.Sub, ast.Mult, ast.Div):
        for k in (0, 1, 2):
            out.append(Task('%s %s number' % (K[k], OPN[op]), number(op, k, 'l'), bound=B[k], **F_))
            out.append(Task('number %s %s' % (OPN[op], K[k]), number(op, k, 'r'), bound=B[k], **F_))
    for op in (ast.Add, ast.Sub, ast.Mult):
        for i in (0, 1, 2):
            for j in (0, 1, 2):
                out.append(Task('%s %s %s' % (K[i], OPN[op], K[j]), expressions(op, i, j), bound=B[max(i, j)], weight=i + j, **F_))
    out += [Task('minus %s' % K[k], negation(k), bound=B[k], **F_) for k in (0, 1, 2)]
    out += [Task('absolute value', absolute, **F_), Task('number ** expression', base_power, **F_)]
    out += [Task('%s ** %d' % (K[k], n), integer_power(n, k), bound='powers from -3 to 3', **F_) for n in range(-3, 4) for k in (0, 1)]
    out += [Task('expression ** %s' % (r,), root(r), bound='listed powers', **F_) for r in ((1, 2), (-1, 2), (1, 3), (2, 3), (1, 2, 't'), (-1, 3, 't'), (3, 2, 't'))]
    out += [Task('Poly of %d coefficients' % n, poly_build(n), bound='at most 4 coefficients', **F_) for n in (1, 2, 3, 4)]
    for op in (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow):
        out.append(Task('expression %s no number' % OPN[op], not_a_number(op, False), **F_))
        out.append(Task('no number %s expression' % OPN[op], not_a_number(op, True), **F_))
    return out

ASSUMPTIONS = {'C04': [
    'numbers are exact reals; rounding of floating-point coefficients is not modelled',
    'operands are seen at an arbitrary number where their value is finite; equal sub-expressions have equal values',
    'sympy.Poly, all_coeffs, Add, Rational and subs compute with polynomials as the mathematics does (external library)',
]}
