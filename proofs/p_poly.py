"""Contracts of poly.py, timeout.py and convert_sympy (C19).

A polynomial of degree at least one is seen through what sympy says of it: its
real zeros after subtracting a bound (finitely many, increasing), its sign
between them, which is constant, and its limits at the infinities.
"""
from pyvc.core import *
from pyvc.interp import Interp, TypeV, Obj, PSet, PList, MISSING, NativeF
import ast, itertools
from .setspec import den
from .spespec import guard
from .registry import Task

F_ = dict(fast_ms=150, linear=True)
PMODS = ('sppl.sets', 'sppl.sym_util', 'sppl.timeout', 'sppl.poly')
P = 'sppl.poly'
def fn(I, name): return I.modules[P].ns[name]

class Env:
    """Whether symbolic solving is disabled."""
    def __init__(self, ctx): self.off = ctx.bool_('SPPL_NO_SYMBOLIC')
    def get(self, I, a, k):
        if a[0] != 'SPPL_NO_SYMBOLIC': raise Unsupported('environment %r' % (a[0],))
        return '1' if I.ctx.branch(self.off) else (a[1] if len(a) > 1 else None)

def interp(ctx):
    I = Interp(ctx, ctx.run.modules(ctx, PMODS))
    E = ctx.env = Env(ctx)
    for n in ('os.environ.get', 'os.getenv'): I.externals[n] = NativeF(n, E.get)
    I.contracts['sppl.sets.make_union'] = lambda I, f, a, k: Un(a)
    return I

class Un:
    """A union, by the contract of make_union (C01)."""
    def __init__(self, parts): self.parts = parts
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_den(self, x): return Or(*[den(self.I, p, x) if isinstance(p, Obj) else p.vc_den(x) for p in self.parts])

def has(I, r, x):
    def walk(u):
        if isinstance(u, Un):
            u.I = I
            for p in u.parts: walk(p)
    walk(r)
    return den(I, r, x)

class Diff:
    """expr - b, for a finite bound b: zeros and signs."""
    def __init__(self, e, zeros, signs): self.e, self.zeros, self.signs = e, zeros, signs
    def vc_truth(self, I): return True
    def sign(self, x):
        """The sign of the value at a finite real term."""
        out = z3.IntVal(self.signs[0])
        for z, s in zip(self.zeros, self.signs[1:]):
            out = z3.If(x == z, z3.IntVal(0), z3.If(x > z, z3.IntVal(s), out))
        return out
    def vc_attr(self, I, name):
        if name == 'subs':
            def f(I, a, k):
                if a[0] is not self.e.sym: raise Unsupported('symbol')
                x = I.lift(a[1])
                I.ctx.prove('a polynomial at a finite number', tag_eq(x.tag, 0))
                v = I.ctx.real('value')
                s = self.sign(x.val)
                I.ctx.assume(And(Iff(v > 0, s == 1), Iff(v < 0, s == -1)))
                return Sc(0, v)
            return NativeF(name, f)
        return self.e.common(name)
    def vc_binop(self, I, op, o, r): return NotImplemented

class Expr:
    """A polynomial in one symbol."""
    def __init__(self, ctx, n=None, b=None, neg=None):
        self.ctx, self.n, self.b, self.neg = ctx, n, b, neg
        self.sym = neg.sym if neg else Symbol()
    def vc_truth(self, I): return True
    def common(self, name):
        if name == 'atoms': return NativeF(name, lambda I, a, k: PSet([self.sym], 0))
        if name == 'free_symbols': return PSet([self.sym], 0)
        return MISSING
    def vc_attr(self, I, name): return self.common(name)
    def vc_binop(self, I, op, o, r):
        if op is ast.Sub and I.isnum(o) and self.n is None: return Shift(self, o, r)
        if op is not ast.Sub or r or not I.isnum(o) or self.b is None: return NotImplemented
        if o is not self.b:
            I.ctx.prove('the bound is subtracted', sc_eq(I.lift(o), I.lift(self.b)))
        return self.diff()
    def diff(self):
        """expr - b has n real zeros; every choice of signs is possible."""
        ctx = self.ctx
        if not hasattr(self, 'd'):
            zs = [ctx.real('z%d' % i) for i in range(self.n)]
            for x, y in zip(zs, zs[1:]): ctx.assume(x < y)
            ss = [1 if ctx.branch(ctx.bool_('pos%d' % i)) else -1 for i in range(self.n + 1)]
            self.d = Diff(self, zs, ss)
        return self.d
    def vc_unary(self, I, op):
        if op is ast.USub: return Expr(self.ctx, neg=self)
        raise Unsupported('operator')
    def vc_cmp(self, I, op, o):
        return Rel(self, op, o)

class Symbol:
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_eq(self, I, o): return self is o
    def vc_hash(self, I): return 1
    def vc_isinstance(self, I, t): return 'Symbol' in getattr(t, 'name', '')

class Shift:
    """expr - b, or b - expr."""
    def __init__(self, e, b, r): self.e, self.b, self.r = e, b, r
    def vc_cmp(self, I, op, o): return Rel(self, op, o)

class Rel:
    """A relation between a polynomial and a bound."""
    def __init__(self, e, op, b): self.e, self.op, self.b = e, op, b
    def holds(self, I, e, v):
        """Its truth where the polynomial e has the value v."""
        def val(x):
            if x is e: return v
            if isinstance(x, Expr) and x.neg is not None: return -val(x.neg)
            if isinstance(x, Shift): return (val(x.e) - val(x.b)) * (-1 if x.r else 1)
            return I.lift(x).val
        a, b = val(self.e), val(self.b)
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[self.op]

# -- solving by roots

def numeric(n, strict):
    def h(ctx):
        I = interp(ctx)
        b = Sc(0, ctx.real('b'))
        e = Expr(ctx, n, b)
        I.contracts[P + '.get_poly_real_roots'] = roots(e)
        I.externals['sympy.Symbol'] = TypeV('sympy.Symbol', lambda v: isinstance(v, Symbol))
        r = guard(ctx, 'solve', lambda: I.call(fn(I, 'solve_poly_inequality_numerically'), [e, b, strict], {}))
        x = ctx.real('x')
        s = e.diff().sign(x)
        ctx.prove('exactly the numbers that satisfy the inequality', Iff(has(I, r, Sc(0, x)), s < 0 if strict else s <= 0))
        for t in (1, -1): ctx.prove('no infinity', Not(has(I, r, Sc(t, z3.RealVal(0)))))
        ctx.prove('no string', Not(has(I, r, 'a')))
    return h

def numeric_eq(n):
    def h(ctx):
        I = interp(ctx)
        b = Sc(0, ctx.real('b'))
        e = Expr(ctx, n, b)
        I.contracts[P + '.get_poly_real_roots'] = roots(e)
        I.externals['sympy.Symbol'] = TypeV('sympy.Symbol', lambda v: isinstance(v, Symbol))
        r = guard(ctx, 'solve', lambda: I.call(fn(I, 'solve_poly_equality_numerically'), [e, b], {}))
        x = ctx.real('x')
        ctx.prove('exactly the numbers at which the polynomial is equal to the bound', Iff(has(I, r, Sc(0, x)), e.diff().sign(x) == 0))
        for t in (1, -1): ctx.prove('no infinity', Not(has(I, r, Sc(t, z3.RealVal(0)))))
    return h

def roots(e):
    def c(I, f, a, k):
        if not (isinstance(a[0], Diff) and a[0].e is e and a[1] is e.sym): raise Unsupported('roots of %r' % (a,))
        return PList([Sc(0, z) for z in a[0].zeros], I.ctx.depth)
    return c

class Root:
    """A number nroots returns."""
    def __init__(self, real, val): self.real, self.val = real, val
    def vc_truth(self, I): return True
    def vc_attr(self, I, name):
        if name == 'is_real': return self.real
        return MISSING
    def vc_cmp(self, I, op, o):
        v = o.val if isinstance(o, Root) else I.lift(o).val
        I.ctx.prove('only real numbers are compared', And(self.real, o.real if isinstance(o, Root) else True))
        return {ast.Lt: self.val < v, ast.Gt: self.val > v, ast.LtE: self.val <= v, ast.GtE: self.val >= v}[op]
    def vc_eq(self, I, o): return isinstance(o, Root) and simp(And(self.real == o.real, self.val == o.val))

def real_roots(n):
    """get_poly_real_roots, from the contract of sympy.nroots: the distinct
    complex roots of a square-free polynomial, in any order."""
    def h(ctx):
        I = interp(ctx)
        e, X = object(), Symbol()
        rs = [Root(ctx.bool_('real'), ctx.real('r')) for _ in range(n)]
        for x, y in itertools.combinations(rs, 2): ctx.assume(Implies(And(x.real, y.real), x.val != y.val))
        class Po:
            def __init__(self, sqf): self.sqf = sqf
            def vc_attr(self, I, name):
                if name == 'sqf_part': return NativeF(name, lambda I, a, k: Po(True))
                return MISSING
        class Ex:
            pass
        ex = Ex()
        def simplify(I, a, k):
            if a[0] is not ex: raise Unsupported('nsimplify')
            return ex
        def poly(I, a, k):
            if a[0] is not ex or a[1] is not X or k: raise Unsupported('Poly')
            return Po(False)
        def nroots(I, a, k):
            if len(a) != 1 or k: raise Unsupported('options of nroots')
            ctx.prove('roots of the square-free part', isinstance(a[0], Po) and a[0].sqf)
            return PList(list(rs), ctx.depth)
        I.externals['sympy.nsimplify'] = NativeF('nsimplify', simplify)
        I.externals['sympy.Poly'] = NativeF('Poly', poly)
        I.externals['sympy.nroots'] = NativeF('nroots', nroots)
        r = guard(ctx, 'roots', lambda: I.call(fn(I, 'get_poly_real_roots'), [ex, X], {}))
        out = I.tolist(r)
        ok = all(isinstance(x, Root) for x in out)
        ctx.prove('numbers', ok)
        if not ok: return
        ctx.prove('real', And(*[x.real for x in out]))
        ctx.prove('in increasing order', And(*[x.val < y.val for x, y in zip(out, out[1:])]))
        for x in rs:
            ctx.prove('every real root', Implies(x.real, Or(*[y.val == x.val for y in out])))
        for y in out: ctx.prove('only roots', Or(*[And(x.real, y.val == x.val) for x in rs]))
    return h

# -- infinite bounds

def limits(ctx, I):
    """Limits of a polynomial of degree at least one."""
    hi, lo = [1 if ctx.branch(ctx.bool_(n)) else -1 for n in ('up_hi', 'up_lo')]
    e = Expr(ctx)
    def limit(I, a, k):
        if a[0] is not e or a[1] is not e.sym: raise Unsupported('limit')
        t = I.lift(a[2])
        s = I.num_tag(t)
        if s == 0: raise Unsupported('limit at a number')
        return Sc(hi if s > 0 else lo, z3.RealVal(0))
    I.externals['sympy.calculus.util.limit'] = NativeF('limit', limit)
    I.externals['sympy.Symbol'] = TypeV('sympy.Symbol', lambda v: isinstance(v, Symbol))
    return e, hi, lo

def infinite(neg, strict, ext, op, whole):
    """p(x) < b, <= b or = b for an infinite bound; x an extended real."""
    def h(ctx):
        I = interp(ctx)
        e, hi, lo = limits(ctx, I)
        b = -INF if neg else INF
        if op == 'eq': r = guard(ctx, 'solve', lambda: I.call(fn(I, 'solve_poly_equality' + ('' if whole else '_inf')), [e, b], {}))
        else: r = guard(ctx, 'solve', lambda: I.call(fn(I, 'solve_poly_inequality' + ('' if whole else '_inf')), [e, b, strict], {} if ext is None else dict(extended=ext)))
        x = Sc(0, ctx.real('x'))
        bt = -1 if neg else 1
        def holds(t):
            if op == 'eq': return t == bt
            return t < bt if strict else t <= bt
        ctx.prove('exactly the numbers that satisfy it', Iff(has(I, r, x), holds(0)))
        for side, lim in ((1, hi), (-1, lo)):
            want = holds(lim) and (op == 'eq' or ext is not False)
            ctx.prove('exactly the infinities that satisfy it, if asked for', Iff(has(I, r, Sc(side, z3.RealVal(0))), want))
        ctx.prove('no string', Not(has(I, r, 'a')))
    return h

# -- choice of solver

class SSet:
    """What the symbolic solver returns: the exact solution, in a form that is
    known, or a condition that is not."""
    def __init__(self, unknown, t): self.unknown, self.t = unknown, t
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_isinstance(self, I, t):
        n = getattr(t, 'name', '')
        if n in ('sympy.ConditionSet', 'sympy.Intersection', 'sympy.Complement', 'sympy.ImageSet'):
            return self.unknown == n
        raise Unsupported('class of a solution: %s' % n)

class Sol:
    """A set with the truth of membership of one number."""
    def __init__(self, t): self.t = t
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o

def dispatch(op, strict):
    """Whichever solver is used, and when the symbolic one times out."""
    def h(ctx):
        I = interp(ctx)
        e, b = Expr(ctx), Sc(0, ctx.real('b'))
        want = ctx.bool_('holds')
        for n in ('ConditionSet', 'Intersection'): I.externals['sympy.' + n] = TypeV('sympy.' + n, lambda v: False)
        alarm = [0]
        def same(a): return a[0] is e and a[1] is b and (op == 'eq' or a[2] is strict)
        def symbolic(I, f, a, k):
            if not same(a): raise Unsupported('symbolic solver called with %r' % (a,))
            ctx.prove('the symbolic solver is not used when it is disabled', Not(ctx.env.off))
            ctx.prove('the symbolic solver runs with an alarm', alarm[0] > 0)
            if ctx.branch(ctx.bool_('times out')): raise_timeout(I)
            for n in ('ConditionSet', 'Intersection'):
                if ctx.branch(ctx.bool_('gives ' + n)): return SSet('sympy.' + n, None)
            return SSet(None, want)
        def raise_timeout(I):
            # the alarm interrupts the solver: its handler raises
            h = handler[0]
            alarm[0] = 0
            I.call(h, [14, None], {})
            ctx.fail('the alarm interrupts the solver', 'the handler returned')
        def numerical(I, f, a, k):
            if not same(a): raise Unsupported('numerical solver called with %r' % (a,))
            return Sol(want)
        def convert(I, f, a, k):
            if not isinstance(a[0], SSet): raise Unsupported('convert_sympy')
            if a[0].unknown: I.throw(AssertionError, 'Unknown set in sympy conversion')
            return Sol(a[0].t)
        handler = [None]
        def set_alarm(I, a, k): alarm[0] = a[0]; return 0
        def set_handler(I, a, k): handler[0] = a[1]
        I.externals['signal.alarm'] = NativeF('alarm', set_alarm)
        I.externals['signal.signal'] = NativeF('signal', set_handler)
        I.externals['signal.SIGALRM'] = 14
        k = 'equality' if op == 'eq' else 'inequality'
        I.contracts[P + '.solve_poly_%s_symbolically' % k] = symbolic
        I.contracts[P + '.solve_poly_%s_numerically' % k] = numerical
        I.contracts['sppl.sets.convert_sympy'] = convert
        r = guard(ctx, 'solve', lambda: I.call(fn(I, 'solve_poly_' + k), [e, b] if op == 'eq' else [e, b, strict], {}))
        ctx.prove('the solution', isinstance(r, Sol) and r.t is want)
        ctx.prove('no alarm is left', alarm[0] == 0)
    return h

def symbolic(strict):
    """solve_poly_inequality_symbolically asks sympy for the right relation."""
    def h(ctx):
        I = interp(ctx)
        e, b = Expr(ctx), Sc(0, ctx.real('b'))
        res = object()
        dom = object()
        asked = []
        I.externals['sympy.Reals'] = dom; I.externals['sympy.S.Reals'] = dom
        def solveset(I, a, k):
            asked.append((a[0], k.get('domain', a[1] if len(a) > 1 else None) if len(a) < 3 else a[2]))
            return SSet(None, None)
        I.externals['sympy.solveset'] = NativeF('solveset', solveset)
        guard(ctx, 'solve', lambda: I.call(fn(I, 'solve_poly_inequality_symbolically'), [e, b, strict], {}))
        r, d = asked[-1] if asked else (None, None)
        v = ctx.real('p(x)')
        c = I.lift(b).val
        ctx.prove('a relation is solved', isinstance(r, Rel))
        if isinstance(r, Rel): ctx.prove('the relation written is solved', Iff(r.holds(I, e, v), v < c if strict else v <= c))
        ctx.prove('over the real numbers', d is dom or getattr(d, 'name', '') in ('sympy.Reals', 'sympy.S.Reals'))
    return h

def symbolic_eq(ctx):
    """p = b exactly when p <= b and -p <= -b."""
    I = interp(ctx)
    e, b = Expr(ctx), Sc(0, ctx.real('b'))
    v = ctx.real('p(x)')
    class T_:
        def __init__(self, t): self.t = t
    def ineq(I, f, a, k):
        x = v if a[0] is e else -v if isinstance(a[0], Expr) and a[0].neg is e else None
        if x is None: raise Unsupported('polynomial')
        c = I.lift(a[1]).val
        st = a[2] if len(a) > 2 else k['strict']
        return T_(x < c if st is True else x <= c)
    I.contracts[P + '.solve_poly_inequality_symbolically'] = ineq
    I.externals['sympy.Intersection'] = NativeF('Intersection', lambda I, a, k: T_(And(*[s.t for s in a])))
    r = guard(ctx, 'solve', lambda: I.call(fn(I, 'solve_poly_equality_symbolically'), [e, b], {}))
    ctx.prove('exactly where the polynomial is equal to the bound', Iff(r.t, v == I.lift(b).val))

# -- sets of sympy

class Z:
    """A set of sympy."""
    def __init__(self, kind, **at): self.kind, self.at = kind, at
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') == 'sympy.' + self.kind
    def vc_attr(self, I, name): return self.at.get(name, MISSING)

def z_has(s, x):
    if s.kind == 'EmptySet': return False
    if s.kind == 'FiniteSet': return Or(*[sc_eq(x, v) for v in s.at['args']])
    if s.kind == 'Union': return Or(*[z_has(c, x) for c in s.at['args']])
    l, r, lo, ro = (s.at[k] for k in ('left', 'right', 'left_open', 'right_open'))
    return And(Or(sc_lt(l, x), And(Not(lo), sc_eq(l, x))), Or(sc_lt(x, r), And(Not(ro), sc_eq(x, r))))

def converts(shape):
    def h(ctx):
        I = interp(ctx)
        empty = Z('EmptySet')
        I.externals['sympy.S.EmptySet'] = empty
        I.externals['sympy.EmptySet'] = empty
        for n in ('Interval', 'FiniteSet', 'Union'): I.externals['sympy.' + n] = TypeV('sympy.' + n, lambda v, n=n: isinstance(v, Z) and v.kind == n)
        def make(s):
            if s == 'E': return empty
            if s[0] == 'U': return Z('Union', args=tuple(make(c) for c in s[1:]))
            if s[0] == 'F': return Z('FiniteSet', args=tuple(ctx.num('f%d' % i) for i in range(s[1])))
            l, r = ctx.num('l'), ctx.num('r')
            lo, ro = ctx.bool_('lo'), ctx.bool_('ro')
            # sympy: not empty, not a point, open at the infinities
            ctx.assume(And(sc_lt(l, r), Implies(Not(tag_eq(l.tag, 0)), lo), Implies(Not(tag_eq(r.tag, 0)), ro)))
            return Z('Interval', left=l, right=r, left_open=lo, right_open=ro)
        s = make(shape)
        r = guard(ctx, 'convert', lambda: I.call(I.modules['sppl.sets'].ns['convert_sympy'], [s], {}))
        x = ctx.num('x')
        ctx.prove('the same numbers', Iff(has(I, r, x), z_has(s, x)))
        ctx.prove('no string', Not(has(I, r, 'a')))
    return h

def unknown_set(ctx):
    I = interp(ctx)
    I.externals['sympy.S.EmptySet'] = Z('EmptySet')
    for n in ('Interval', 'FiniteSet', 'Union'): I.externals['sympy.' + n] = TypeV('sympy.' + n, lambda v, n=n: isinstance(v, Z) and v.kind == n)
    try: I.call(I.modules['sppl.sets'].ns['convert_sympy'], [Z('ConditionSet')], {})
    except PyExc: ctx.prove('rejected', True); return
    ctx.fail('a set that is not known is rejected', 'converted')

def tasks(prop, tier):
    if prop != 'C19': return []
    out = []
    for n in range(5 if tier == 'thorough' else 4):
        for strict in (False, True):
            out.append(Task('p(x) %s b by %d roots' % ('<' if strict else '<=', n), numeric(n, strict), weight=n ** 2, bound='%d real roots' % n, **F_))
        out.append(Task('p(x) = b by %d roots' % n, numeric_eq(n), weight=n, bound='%d real roots' % n, **F_))
        out.append(Task('real roots among %d' % n, real_roots(n), weight=n, bound='%d roots' % n, **F_))
    for neg in (False, True):
        for whole in (False, True):
            out.append(Task('p(x) = %sinf%s' % ('-' if neg else '', ', top' if whole else ''), infinite(neg, None, None, 'eq', whole), **F_))
            for strict in (False, True):
                for ext in (None, False, True):
                    out.append(Task('p(x) %s %sinf, extended %s%s' % ('<' if strict else '<=', '-' if neg else '', ext, ', top' if whole else ''), infinite(neg, strict, ext, 'lt', whole), **F_))
    for strict in (False, True):
        out.append(Task('choice of solver, %s' % ('<' if strict else '<='), dispatch('lt', strict), **F_))
        out.append(Task('symbolic solver, %s' % ('<' if strict else '<='), symbolic(strict), **F_))
    out += [Task('choice of solver, =', dispatch('eq', None), **F_), Task('symbolic solver, =', symbolic_eq, **F_)]
    for nm, s in (('nothing', 'E'), ('an interval', ('I',)), ('numbers', ('F', 3)), ('one number', ('F', 1)),
            ('a union', ('U', ('I',), ('F', 2))), ('a union of intervals', ('U', ('I',), ('I',), ('I',))), ('a nested union', ('U', ('F', 1), ('U', ('I',), ('F', 1))))):
        out.append(Task('convert %s' % nm, converts(s), bound=None if len(s) == 1 else 'the stated number of parts', **F_))
    out.append(Task('convert another set', unknown_set, **F_))
    return out

ASSUMPTIONS = {'C19': [
    'numbers are exact reals; the accuracy of root finding is not modelled',
    'sympy: solveset returns the exact solution over the reals, or a ConditionSet or Intersection; nroots the complex roots of a square-free polynomial; limit the limits at the infinities; nsimplify, Poly, sqf_part and subs keep the function and its distinct roots',
    'a polynomial has constant sign between neighbouring real roots (intermediate value theorem)',
    'signal.alarm: the handler runs in the main thread while the solver runs; a solver that is interrupted has no other effect',
    'make_union is union (C01)']}
