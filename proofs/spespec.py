"""Specification view of models (spe.py).

A model denotes a probability measure.  An abstract component has its measure
given by an uninterpreted function of the event; the contracts of its methods
say how their results relate to that measure.
"""
from pyvc.core import *
from fractions import Fraction
from pyvc.interp import Interp, TypeV, Obj, PSet, PList, PDict, MISSING, NativeF, ClassV
from pyvc.logspace import LogV, as_log, quotient, install as install_log
from pyvc.family import *

M = 'sppl.spe'
MODS = ('sppl.sets', 'sppl.transforms', 'sppl.dnf', 'sppl.spe')

def interp(ctx):
    I = Interp(ctx, ctx.run.modules(ctx, MODS))
    install_log(I.externals)
    I.externals['fractions.Fraction'] = TypeV('Fraction', lambda v: isinstance(v, (Fraction, Sc)), fraction)
    return I

def fraction(I, a, k):
    """Fraction(x) is exactly x."""
    if len(a) == 1 and not k:
        if isinstance(a[0], (bool, int, Fraction)): return Fraction(a[0])
        if isinstance(a[0], float) and abs(a[0]) != INF and a[0] == a[0]: return Fraction(a[0])
        if isinstance(a[0], Sc) and I.num_tag(a[0]) == 0: return a[0]
    raise Unsupported('Fraction of %r' % (a,))

def cls(I, name): return I.modules[M].ns[name]

class Ev:
    """An event (or its factored form), as an index of the measure."""
    def __init__(self, term, label='E'): self.term, self.label = term, label
    def __repr__(self): return 'Ev(%s)' % (self.term,)
    def vc_eq(self, I, o): return isinstance(o, Ev) and simp(self.term == o.term)
    def vc_truth(self, I): return True
    @staticmethod
    def fresh(ctx, name='E'):
        return Ev(z3.Int(ctx.fresh(name)), name)

_and = z3.Function('both', z3.IntSort(), z3.IntSort(), z3.IntSort())
def both(a, b): return Ev(_and(a.term, b.term))

_meas = z3.Function('P', z3.IntSort(), z3.IntSort(), z3.RealSort())
_dim = z3.Function('dim', z3.IntSort(), z3.IntSort(), z3.IntSort())
_den = z3.Function('dens', z3.IntSort(), z3.IntSort(), z3.RealSort())
_cst = z3.Function('Pgiven', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())

def prob_term(ctx, i, ev):
    t = _meas(i, ev.term)
    ctx.assume(And(t >= 0, t <= 1))
    return t

class Child:
    """An arbitrary model; its measure is mu(event)."""
    def __init__(self, I, ident, mu=None, kinds=None):
        self.I, self.ident = I, ident
        self.mu = mu or (lambda ev: prob_term(I.ctx, ident, ev))
        self.kinds = kinds or {}
        self.symbols = None
        self.attrs = {}
    def __repr__(self): return 'Child(%s)' % (self.ident,)
    def dens(self, ev):
        d, p = _dim(self.ident, ev.term), _den(self.ident, ev.term)
        self.I.ctx.assume(And(d >= 0, p >= 0))
        return d, p
    def vc_truth(self, I): return True
    def vc_isinstance(self, I, t):
        if not isinstance(t, ClassV): return False
        k = t.name
        if k == 'SPE': return True
        if k in self.kinds:
            v = self.kinds[k]
            return v
        if 'default' in self.kinds: return self.kinds['default']
        raise Unsupported('class of an arbitrary model: %s' % (k,))
    def vc_attr(self, I, name):
        m = getattr(self, 'm_' + name, None)
        if m is not None: return NativeF(name, lambda I, a, k: m(I, a, k))
        if name in self.attrs: return self.attrs[name]
        return MISSING
    def vc_is(self, I, o):
        return isinstance(o, Child) and simp(self.ident == o.ident)
    # contracts
    def m_logprob_mem(self, I, a, k):
        check_event(I, a[0])
        return LogV(self.mu(a[0]))
    m_logprob = m_logprob_mem
    def m_condition_mem(self, I, a, k):
        ev = a[0]; check_event(I, ev)
        p = self.mu(ev)
        if not I.ctx.branch(simp(p > 0)): I.throw(ValueError, 'zero probability')
        return Child(I, self.ident, lambda b: quotient(I.ctx, self.mu(both(ev, b)), p))
    m_condition = m_condition_mem
    def m_logpdf_mem(self, I, a, k):
        check_event(I, a[0])
        d, p = self.dens(a[0])
        return (d, LogV(p))
    def m_logpdf(self, I, a, k): return LogV(self.dens(a[0])[1])
    def m_constrain_mem(self, I, a, k):
        ev = a[0]; check_event(I, ev)
        d, p = self.dens(ev)
        if not I.ctx.branch(simp(p > 0)): I.throw(AssertionError, 'zero density')
        def mu(b):
            t = _cst(self.ident, ev.term, b.term)
            I.ctx.assume(And(t >= 0, t <= 1))
            return t
        return Child(I, self.ident, mu)
    m_constrain = m_constrain_mem
    def m_get_symbols(self, I, a, k):
        if self.symbols is None: raise Unsupported('symbols')
        return self.symbols
    def m_size(self, I, a, k):
        return z3.Int(I.ctx.fresh('size'))

def check_event(I, ev):
    if not isinstance(ev, Ev): raise Unsupported('event %r' % (ev,))

class Mixture:
    """What the constructor of SumSPE returns, by its contract."""
    def __init__(self, I, children, weights):
        self.I, self.children, self.weights = I, children, weights
    def terms(self, ev):
        I = self.I
        z = I.B.b_zip(I, [self.children, self.weights], {})
        return z.map(lambda cw: Sc(0, as_log(cw[1]).p * mu_of(cw[0], ev)))
    def mu(self, ev):
        return self.terms(ev).sum_term(lambda x: x.val, 'mu')

def mu_of(c, ev):
    if isinstance(c, (Child, Mixture)): return c.mu(ev)
    raise Unsupported('measure of %r' % (c,))

def mixture_contract(ctx, captured):
    def c(I, f, args, kw):
        a = list(args) + [kw.get('weights')] if len(args) == 1 else args
        children, weights = a[0], a[1]
        if not isinstance(children, Family) or not isinstance(weights, Family): return MISSING
        n1, n2 = I.B.b_len(I, [children], {}), I.B.b_len(I, [weights], {})
        ctx.prove('SumSPE: as many weights as components', n1 == n2)
        s = as_log(weights.vc_logsumexp(I)).p
        for o in list(ctx.sums):
            if not o.value.eq(s) and o.base is weights.base: scaled_by(ctx, s, o.value, o.value)
        ctx.prove('SumSPE: weights sum to one', s == 1)
        m = Mixture(I, children, weights)
        captured.append(m)
        return m
    return c

def sum_spe(I, name='S'):
    """An arbitrary well-formed mixture object."""
    ctx = I.ctx
    b = Base(ctx, name, least=1)
    w = z3.Function(ctx.fresh('w'), z3.IntSort(), z3.RealSort())
    cid = z3.Function(ctx.fresh('c'), z3.IntSort(), z3.IntSort())
    ctx.assume_forall(b.sort, lambda i: Implies(b.inside(i), And(w(i) > 0, w(i) <= 1)))
    kids = Family(I, b.all_, lambda i: Child(I, cid(i)))
    ws = Family(I, b.all_, lambda i: LogV(w(i)))
    idx = Family(I, b.all_, lambda i: i)
    total_w = spec_sum(I, b, lambda i: w(i))
    ctx.assume(total_w == 1)
    o = Obj(cls(I, 'SumSPE'), dict(children=kids, weights=ws, indexes=idx), ctx.depth)
    return o, b, w, lambda i: kids.elem(i)

def guard(ctx, name, thunk):
    try:
        return thunk()
    except PyExc as e:
        ctx.fail(name + ': no exception', '%s at %s' % (getattr(e.cls, '__name__', e.cls), e.where))
        raise Infeasible()
