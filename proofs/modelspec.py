"""Models as measures: the probability a model object gives to one event.

The event is a rectangle (one set for each variable); rectangles determine a
distribution.  An arbitrary component gives it a probability m(component),
the same for equal components."""
import ast
from .spespec import *
from .registry import Task

F_ = dict(fast_ms=150, linear=True)
_m = z3.Function('m', z3.IntSort(), z3.RealSort())

class Part:
    """An arbitrary component over given variables."""
    def __init__(self, I, syms, kind='LeafSPE', ident=None, name='c'):
        ctx = I.ctx
        self.I, self.kind = I, kind
        self.ident = ctx.int_(name) if ident is None else ident
        self.symbols = PSet(list(syms), 0, True)
        self.calls = []
        t = _m(self.ident)
        ctx.assume(And(t >= 0, t <= 1))
    def __repr__(self): return 'Part(%s)' % (self.ident,)
    def vc_truth(self, I): return True
    def same_vars(self, o):
        return {id(s) for s in self.symbols.items} == {id(s) for s in o.symbols.items}
    def vc_eq(self, I, o):
        if self is o: return True
        if not isinstance(o, Part) or o.kind != self.kind or not self.same_vars(o): return False
        return simp(self.ident == o.ident)
    def vc_hash(self, I): return self.ident
    def vc_is(self, I, o): return self is o
    def vc_isinstance(self, I, t):
        n = getattr(t, 'name', '')
        return n in ('SPE', self.kind) or (n == 'BranchSPE' and self.kind in ('SumSPE', 'ProductSPE'))
    def vc_type(self, I): return cls(I, self.kind)
    def vc_attr(self, I, name):
        if name == 'get_symbols': return NativeF(name, lambda I, a, k: self.symbols)
        if name == 'symbols' and self.kind != 'LeafSPE': return self.symbols
        m = getattr(self, 'm_' + name, None)
        if m is not None: return NativeF(name, lambda I, a, k: m(I, a, k))
        f = cls(I, 'SPE').lookup(name)
        if f is not MISSING and name.startswith('_'): return I.bind(f, self)
        return MISSING
    def vc_binop(self, I, op, o, r):
        n = {ast.BitAnd: ('__and__', '__rand__'), ast.BitOr: ('__or__', '__ror__'), ast.Mult: ('__mul__', '__rmul__')}[op][1 if r else 0]
        f = cls(I, 'SPE').lookup(n)
        return NotImplemented if f is MISSING else I.call(f, [self, o], {})

def mu(I, s):
    """The probability of the event under a model."""
    if isinstance(s, Part): return _m(s.ident)
    if isinstance(s, Obj):
        k = s.cls.name
        cs = I.tolist(s.attrs['children'])
        if k == 'SumSPE':
            ws = [as_log(w).p for w in I.tolist(s.attrs['weights'])]
            if len(ws) != len(cs): return None
            t = z3.RealVal(0)
            for w, c in zip(ws, cs): t = t + w * mu(I, c)
            return t
        if k == 'ProductSPE':
            t = z3.RealVal(1)
            for c in cs: t = t * mu(I, c)
            return t
    raise Unsupported('measure of %r' % (s,))

def variables(I, n):
    return [I.call(I.modules['sppl.transforms'].ns['Identity'], ['V%d' % i], {}) for i in range(n)]

def syms_of(I, s):
    return {I.getattr(x, 'token') for x in I.tolist(I.call(I.getattr(s, 'get_symbols'), [], {}))}

def is_cls(o, name): return isinstance(o, Obj) and o.cls.name == name

def poly(t): return z3.simplify(t, som=True, sort_sums=True)

def sums_to_one(ctx, ws):
    s = z3.RealVal(0)
    for w in ws: s = s + w
    ctx.assume(s == 1)
def positive(ctx, ws):
    for w in ws: ctx.assume(And(w > 0, w <= 1))

def weights(ctx, n, name='w'):
    ws = [ctx.real(name) for _ in range(n)]
    positive(ctx, ws); sums_to_one(ctx, ws)
    return ws

def new_sum(I, parts, ws):
    return I.call(cls(I, 'SumSPE'), [PList(list(parts), 0), PList([LogV(w) for w in ws], 0)], {})
def new_product(I, parts): return I.call(cls(I, 'ProductSPE'), [PList(list(parts), 0)], {})

def subset(ctx, items, name):
    """An arbitrary subset."""
    return [x for x in items if ctx.branch(ctx.bool_(name))]
