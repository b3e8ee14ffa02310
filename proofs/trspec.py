"""Specification view of transforms.py.

An abstract sub-expression is seen at one assignment: it has a value u there or
is undefined, and its inverse image of a set S holds the point exactly when it
is defined and u is in S.
"""
import ast
from pyvc.core import *
from pyvc.interp import Interp, Obj, ClassV, PSet, PList, PDict, NativeF, TypeV, MISSING
from pyvc.family import Family, Base
from . import aset, spespec
from .aset import ASet, lift_set, is_set
from .spespec import guard

T = 'sppl.transforms'
MODS = ('sppl.sets', 'sppl.transforms', 'sppl.dnf', 'sppl.spe')

def interp(ctx, names=MODS):
    I = Interp(ctx, ctx.run.modules(ctx, names))
    aset.install(I)
    I.contracts['sppl.sym_util.sympify_number'] = c_sympify
    I.externals['sympy.simplify'] = NativeF('sympy.simplify', lambda I, a, k: a[0])
    I.externals['sympy.sympify'] = NativeF('sympy.sympify', lambda I, a, k: a[0])
    I.hooks.append(lambda I, what, *a: tag_eq(lift(a[0]).tag, 0) if what == 'attr' and a[1] == 'is_finite' and I.isnum(a[0]) else MISSING)
    rational = ctx.bool_('is_Rational')
    I.hooks.append(lambda I, what, *a: rational if what == 'attr' and a[1] == 'is_Rational' and I.isnum(a[0]) else MISSING)
    return I

def cls(I, name): return I.modules[T].ns[name]

def c_sympify(I, f, a, k):
    """A number, exactly; TypeError for everything else."""
    if I.isnum(a[0]) and not (is_sym(a[0]) and z3.is_bool(a[0])): return a[0]
    I.throw(TypeError, 'sympify_number')

class Point:
    """The variable X at one number x0."""
    def __init__(self, ctx, x0=None): self.x0 = x0 if x0 is not None else ctx.real('x0'); ctx.add_term('R', self.x0)

class Sub:
    """An arbitrary numeric expression of one variable, seen at a point."""
    is_sub = True
    def __init__(self, I, pt, name='e', infinite=True, kinds=(), value=None, defined=None):
        ctx = I.ctx
        self.I, self.pt, self.name = I, pt, name
        if value is None:
            value = ctx.num(name + '_u') if infinite else Sc(0, ctx.real(name + '_u'))
        self.u = value
        self.d = ctx.bool_(name + '_defined') if defined is None else defined
        ctx.add_term('R', self.u.val)
        self.kinds = ('Transform',) + tuple(kinds)
        self.symbols = PSet(['X'], 0, True)
    def __repr__(self): return 'Sub(%s)' % (self.name,)
    def vc_truth(self, I): return True
    def vc_isinstance(self, I, t): return isinstance(t, ClassV) and t.name in self.kinds
    def vc_is(self, I, o): return self is o
    def vc_eq(self, I, o):
        if self is o: return True
        if not isinstance(o, Sub): return False
        e = I.ctx.bool_('same')
        # equal expressions are equal everywhere
        I.ctx.assume(Implies(e, And(Iff(self.d, o.d), sc_eq(self.u, o.u))))
        return e
    def vc_attr(self, I, name):
        if name == 'symbols': return self.symbols
        if name == 'subexpr': raise Unsupported('structure of an arbitrary expression')
        m = getattr(self, 'm_' + name, None)
        if m is not None: return NativeF(name, lambda I, a, k: m(I, a, k))
        if name.startswith('_Transform__'):
            # methods no subclass overrides
            f = cls(I, 'Transform').lookup(name)
            if f is not MISSING: return I.bind(f, self)
        return MISSING
    def m_get_symbols(self, I, a, k): return self.symbols
    def m_evaluate(self, I, a, k):
        if not I.ctx.branch(self.d): I.throw(ValueError, 'undefined')
        return self.u
    def m_invert(self, I, a, k):
        S = lift_set(I, a[0])
        if S is None: raise Unsupported('inverse image of %r' % (a[0],))
        return at_point(I, self.pt, And(self.d, S.has(self.u)))
    def m_range(self, I, a, k):
        r = ASet.fresh(I, 'range', strs=False)
        I.ctx.assume(Implies(self.d, r.has(self.u)))
        return r
    def m_domain(self, I, a, k): raise Unsupported('domain of an arbitrary expression')

def at_point(I, pt, truth, strs=False):
    """A set of numbers about which only membership of the point is known."""
    ctx = I.ctx
    g = z3.Function(ctx.fresh('inv'), z3.RealSort(), z3.BoolSort())
    ctx.add_term('R', pt.x0)
    x0 = pt.x0
    return ASet(I, lambda t: truth if t.eq(x0) else Or(And(simp(t == x0), truth), And(simp(t != x0), g(t))),
        ctx.bool_('inv_pinf'), ctx.bool_('inv_ninf'), None, name='inverse')

# ---------------------------------------------------------------------------
# functions of the mathematics library

class Rat:
    def __init__(self, p, q): self.p, self.q = p, q

class Pair:
    """A strictly monotone function f and its inverse g between two sets of
    finite numbers."""
    def __init__(self, ctx, name, dom, rng, increasing):
        self.ctx, self.dom, self.rng, self.inc = ctx, dom, rng, increasing
        self.f = z3.Function(ctx.fresh(name), z3.RealSort(), z3.RealSort())
        self.g = z3.Function(ctx.fresh(name + '_inv'), z3.RealSort(), z3.RealSort())
        self.sf, self.sg = ctx.fresh('dom_' + name), ctx.fresh('rng_' + name)
        f, g = self.f, self.g
        up, down = zb(increasing), zb(Not(increasing))
        pairs, singles = {}, {}
        def one(t):
            tid = t.get_id()
            def two(s):
                if s.get_id() >= tid: return True
                k = (s.get_id(), tid)
                if k not in pairs:
                    lt, eq = s < t, s == t
                    fs, ft = f(s), f(t)
                    r = z3.And(z3.If(up, lt == (fs < ft), lt == (fs > ft)), eq == (fs == ft))
                    pairs[k] = (s, z3.Implies(zb(And(dom(s), dom(t))), r))
                return pairs[k][1]
            ctx.assume_forall(self.sf, two)
            if tid not in singles: singles[tid] = (t, Implies(dom(t), And(rng(f(t)), g(f(t)) == t)))
            return singles[tid][1]
        ctx.assume_forall(self.sf, one)
        back_ = {}
        def back(y):
            k = y.get_id()
            if k not in back_:
                back_[k] = (y, g(y), Implies(rng(y), And(dom(g(y)), f(g(y)) == y)))
            ctx.add_term(self.sf, back_[k][1])
            return back_[k][2]
        ctx.assume_forall(self.sg, back)
    def fwd(self, t):
        self.ctx.add_term(self.sf, t); self.ctx.add_term('R', self.f(t)); return self.f(t)
    def inv(self, y):
        self.ctx.add_term(self.sg, y); self.ctx.add_term('R', self.g(y)); return self.g(y)

def pow_external(I, table):
    """sympy.Pow, by the kind of its exponent."""
    def f(I, a, k):
        for test, fn in table:
            r = test(a[0], a[1])
            if r: return fn(I, a[0], a[1])
        raise Unsupported('sympy.Pow(%r, %r)' % tuple(a))
    I.externals['sympy.Pow'] = NativeF('sympy.Pow', f)
    I.externals['sympy.Rational'] = NativeF('sympy.Rational', lambda I, a, k: Rat(*a))

def ext(I, x):
    """Split an extended number: 1, -1, or 0 and its value."""
    x = I.lift(x)
    if isinstance(x.tag, int): return x.tag, x.val
    if I.ctx.branch(simp(x.tag == 1)): return 1, x.val
    if I.ctx.branch(simp(x.tag == -1)): return -1, x.val
    return 0, x.val
