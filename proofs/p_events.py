"""Contracts of events (C05) and of Piecewise transforms (C22)."""
from .trspec import *
from .registry import Task
from .p_transforms import SymSet
from pyvc.core import CannotMerge
from pyvc.family import Family, Base, Guard
import ast

class Ev(Sub):
    """An arbitrary event, seen at a point: whether it holds there."""
    def __init__(self, I, pt, name='event', kinds=(), truth=None, defined=None):
        ctx = I.ctx
        self.t = ctx.bool_(name) if truth is None else truth
        Sub.__init__(self, I, pt, name, kinds=('Event',) + tuple(kinds),
            value=Sc(0, z3.If(zb(self.t), z3.RealVal(1), z3.RealVal(0))), defined=True if defined is None else defined)
    def m_evaluate(self, I, a, k):
        if not I.ctx.branch(self.d): I.throw(ValueError, 'undefined')
        return self.t
    def m_solve(self, I, a, k): return at_point(I, self.pt, And(self.d, self.t))
    def vc_unary(self, I, op):
        # the contract of ~ on events
        if op is not ast.Invert: raise Unsupported('operator on an event')
        return Ev(I, self.pt, 'not', ('EventBasic',) if 'EventBasic' in self.kinds else (), Not(self.t), self.d)
    def vc_binop(self, I, op, o, reflected):
        # the contract of & and | on events
        if op not in (ast.BitAnd, ast.BitOr): raise Unsupported('operator on an event')
        f = And if op is ast.BitAnd else Or
        if isinstance(o, Ev): return Ev(I, self.pt, 'both', (), f(self.t, o.t), And(self.d, o.d))
        return NotImplemented
    def vc_fold(self, I, f, fam, init):
        # the contract of a fold whose step is a conjunction or a disjunction
        if init is not MISSING: raise Unsupported('fold from a value')
        ctx = I.ctx
        s, e = Ev(I, self.pt, 's', defined=True), Ev(I, self.pt, 'e', defined=True)
        r = I.call(f, [s, e], {})
        if not isinstance(r, Ev): raise Unsupported('fold step')
        for is_any, want in ((True, Or(s.t, e.t)), (False, And(s.t, e.t))):
            q = z3.Solver()
            q.add(z3.Not(zb(Iff(r.t, want))))
            if q.check() == z3.unsat:
                return Ev(I, self.pt, 'fold', (), fam.map(lambda v: v.t).vc_quant(I, is_any), fam.map(lambda v: v.d).vc_quant(I, False))
        raise Unsupported('fold step')
    def vc_merge(self, pairs):
        if not all(isinstance(v, Ev) for _, v in pairs): raise CannotMerge('events')
        return Ev(self.I, self.pt, 'merged', (), Or(*[And(c, v.t) for c, v in pairs]), And(*[Implies(c, v.d) for c, v in pairs]))

def ev_family(ctx, I, pt, name='E', least=1, kinds=()):
    b = Base(ctx, name, least=least)
    t = z3.Function(ctx.fresh('holds'), z3.IntSort(), z3.BoolSort())
    return Family(I, b.all_, lambda i: Ev(I, pt, name, kinds, t(i)), 'tuple'), b, t

def meth(I, c, name):
    f = cls(I, c).lookup(name)
    if f is MISSING: raise Unsupported('%s.%s' % (c, name))
    return f

def is_event(I, v): return isinstance(v, Ev) or isinstance(v, Obj) and bool(v.cls.lookup('to_dnf_list') is not MISSING)

def meaning(ctx, I, E, pt, want, what, asn=None):
    """E holds at the point exactly when want, whether it is evaluated or solved."""
    if not is_event(I, E): ctx.fail('%s: an event' % what, repr(E)); return
    v = guard(ctx, '%s: evaluate' % what, lambda: I.truth(I.call(I.getattr(E, 'evaluate'), [asn or PDict([], 0)], {})))
    ctx.prove('%s: truth' % what, Iff(v, want))
    R = lift_set(I, guard(ctx, '%s: solve' % what, lambda: I.call(I.getattr(E, 'solve'), [], {})))
    if R is None: ctx.fail('%s: solution set' % what, 'not a set'); return
    ctx.prove('%s: solution set' % what, Iff(R.has(Sc(0, pt.x0)), want))

def c_invert(I, f, a, k):
    # the inverse image of a set under a variable: its numbers (proved in C03)
    if not (isinstance(a[0], Obj) and a[0].cls.name == 'Identity'): return MISSING
    S = lift_set(I, a[1])
    if S is None: return MISSING
    return ASet(I, S.mem if S.num is not None else None, S.pinf, S.ninf, None, name='numbers of ' + S.name)

def event_interp(ctx):
    I = interp(ctx)
    # all events here are about the one variable X
    I.contracts[T + '.Transform.invert'] = c_invert
    I.contracts['sppl.sym_util.get_union'] = lambda I, f, a, k: PSet(['X'], 0, True)
    return I

def start(ctx, strings=False):
    I = event_interp(ctx)
    pt = Point(ctx)
    sub = Sub(I, pt, infinite=False, defined=True)
    return I, pt, sub

CMP = {'__le__': sc_le, '__lt__': sc_lt, '__ge__': lambda a, b: sc_le(b, a), '__gt__': lambda a, b: sc_lt(b, a)}
def comparison(op):
    def h(ctx):
        I, pt, sub = start(ctx)
        c = ctx.num('c', True)
        E = guard(ctx, 'comparison', lambda: I.call(meth(I, 'Transform', op), [sub, c], {}))
        meaning(ctx, I, E, pt, CMP[op](sub.u, c), 'T %s c' % op)
    return h

def comparison_other(op):
    """Something that is not a number."""
    def h(ctx):
        I, pt, sub = start(ctx)
        r = guard(ctx, 'comparison', lambda: I.call(meth(I, 'Transform', op), [sub, ctx.string('text')], {}))
        ctx.prove('T %s text is left to the other operand' % op, r is NotImplemented)
    return h

def sym_interval(ctx, I):
    """sympy.Interval and the sets it may return."""
    def mk(I, a, k):
        lo, ro = I.truth(k.get('left_open', a[2] if len(a) > 2 else False)), I.truth(k.get('right_open', a[3] if len(a) > 3 else False))
        x, y = I.lift(a[0]), I.lift(a[1])
        if ctx.branch(sc_lt(y, x)): return I.externals['sympy.S.EmptySet']
        if ctx.branch(sc_eq(x, y)):
            if ctx.branch(Or(lo, ro, Not(tag_eq(x.tag, 0)))): return I.externals['sympy.S.EmptySet']
            return SymSet('FiniteSet', args=PList([a[0]], ctx.depth))
        return SymSet('Interval', left=a[0], right=a[1], left_open=Or(lo, tag_eq(x.tag, -1)), right_open=Or(ro, tag_eq(y.tag, 1)))
    for n in ('Interval', 'FiniteSet', 'Union'):
        I.externals['sympy.' + n] = TypeV('sympy.' + n, lambda v, n=n: isinstance(v, SymSet) and v.kind == n, mk if n == 'Interval' else None)
    I.externals['sympy.S.EmptySet'] = SymSet('EmptySet')

def chained(op1, op2):
    """(T op1 a) op2 b, as Python evaluates b' op2' (T op1 a)."""
    def h(ctx):
        I, pt, sub = start(ctx)
        sym_interval(ctx, I)
        a, b = ctx.num('a', True), ctx.num('b', True)
        E = guard(ctx, 'comparison', lambda: I.call(meth(I, 'Transform', op1), [sub, a], {}))
        F = guard(ctx, 'chained comparison', lambda: I.call(meth(I, 'EventInterval', op2), [E, b], {}))
        meaning(ctx, I, F, pt, And(CMP[op1](sub.u, a), CMP[op2](sub.u, b)), '(T %s a) %s b' % (op1, op2))
    return h

def chained_bad(op1, op2):
    def h(ctx):
        I, pt, sub = start(ctx)
        sym_interval(ctx, I)
        a, b = ctx.num('a', True), ctx.num('b', True)
        E = guard(ctx, 'comparison', lambda: I.call(meth(I, 'Transform', op1), [sub, a], {}))
        try: r = I.call(meth(I, 'EventInterval', op2), [E, b], {})
        except PyExc as e:
            ctx.prove('(T %s a) %s b is rejected with ValueError' % (op1, op2), e.cls is ValueError); return
        ctx.fail('(T %s a) %s b is rejected' % (op1, op2), repr(r))
    return h

def containment(kind):
    def h(ctx):
        I, pt, sub = start(ctx)
        S = ASet.fresh(I, 'S')
        k = S.is_kind(kind)
        ctx.assume(k)
        if kind == aset.E: S = aset.EMPTY(I)
        try: E = I.call(meth(I, 'Transform', '__lshift__'), [sub, S], {})
        except PyExc as e:
            ctx.fail('T << S: no exception', str(e.cls)); return
        want = S.has(sub.u) if kind != aset.E else False
        if E is NotImplemented: ctx.fail('T << S: an event', 'NotImplemented'); return
        meaning(ctx, I, E, pt, want, 'T << S')
    return h

def containment_values(n):
    def h(ctx):
        I, pt, sub = start(ctx)
        xs = [ctx.num('v%d' % i) for i in range(n)]
        E = guard(ctx, 'T << [..]', lambda: I.call(meth(I, 'Transform', '__lshift__'), [sub, PList(list(xs), 0)], {}))
        meaning(ctx, I, E, pt, Or(*[sc_eq(sub.u, x) for x in xs]), 'T << [%d values]' % n)
    return h

# -- Boolean operators

def basic(ctx, I, sub, kind, name):
    """An arbitrary EventInterval or EventFiniteReal on an expression."""
    S = ASet.fresh(I, name)
    if kind == 'EventInterval': ctx.assume(S.is_kind(aset.IV))
    elif kind == 'EventFiniteReal':
        if not ctx.branch(S.nonempty()): S = aset.EMPTY(I)
        else: ctx.assume(S.is_kind(aset.FR))
    E = guard(ctx, kind, lambda: I.call(cls(I, kind), [sub, S], {}))
    return E, (lambda x: lift_set(I, S).has(x))

OPS = {'__and__': And, '__or__': Or}
def basic_basic(op, k1, k2, same):
    def h(ctx):
        I, pt, sub = start(ctx)
        other = sub if same else Sub(I, pt, 'other', infinite=False, defined=True)
        E, e = basic(ctx, I, sub, k1, 'A')
        F, f = basic(ctx, I, other, k2, 'B')
        G = guard(ctx, op, lambda: I.call(meth(I, k1, op), [E, F], {}))
        meaning(ctx, I, G, pt, OPS[op](e(sub.u), f(other.u)), 'A %s B' % op)
    return h

def compound(ctx, I, pt, kind, name='E'):
    """An arbitrary disjunction or conjunction of any number of events."""
    fam, b, t = ev_family(ctx, I, pt, name)
    o = Obj(cls(I, kind), dict(subexprs=fam, symbols=PSet(['X'], 0, True)), 0)
    w = b.index('w')
    e = ctx.bool_(name + '_truth')
    if kind == 'EventOr':
        ctx.assume(Implies(e, And(b.inside(w), t(w))))
        ctx.assume_forall(b.sort, lambda i: Implies(And(b.inside(i), t(i)), e))
    else:
        ctx.assume(Implies(Not(e), And(b.inside(w), Not(t(w)))))
        ctx.assume_forall(b.sort, lambda i: Implies(And(b.inside(i), Not(t(i))), Not(e)))
    return o, e

def compound_meaning(kind):
    def h(ctx):
        I = event_interp(ctx); pt = Point(ctx)
        E, e = compound(ctx, I, pt, kind)
        meaning(ctx, I, E, pt, e, kind)
    return h

def compound_inverse(kind):
    """The inverse image of any set of numbers under a compound event."""
    def h(ctx):
        I = event_interp(ctx); pt = Point(ctx)
        E, e = compound(ctx, I, pt, kind)
        S = ASet.fresh(I, 'S')
        R = lift_set(I, guard(ctx, 'invert', lambda: I.call(I.getattr(E, 'invert'), [S], {})))
        v = Sc(0, z3.If(zb(e), z3.RealVal(1), z3.RealVal(0)))
        ctx.prove('inverse image of the truth values in a set', Iff(R.has(Sc(0, pt.x0)), S.has(v)))
    return h

def basic_inverse(kind):
    def h(ctx):
        I, pt, sub = start(ctx)
        E, e = basic(ctx, I, sub, kind, 'A')
        S = ASet.fresh(I, 'S')
        R = lift_set(I, guard(ctx, 'invert', lambda: I.call(I.getattr(E, 'invert'), [S], {})))
        v = Sc(0, z3.If(zb(e(sub.u)), z3.RealVal(1), z3.RealVal(0)))
        ctx.prove('inverse image of the truth values in a set', Iff(R.has(Sc(0, pt.x0)), S.has(v)))
    return h

def negate_basic(kind):
    def h(ctx):
        I, pt, sub = start(ctx)
        E, e = basic(ctx, I, sub, kind, 'A')
        G = guard(ctx, '~', lambda: I.call(meth(I, kind, '__invert__'), [E], {}))
        meaning(ctx, I, G, pt, Not(e(sub.u)), '~A')
    return h

def negate_compound(kind):
    def h(ctx):
        I = event_interp(ctx); pt = Point(ctx)
        E, e = compound(ctx, I, pt, kind)
        G = guard(ctx, '~', lambda: I.call(meth(I, kind, '__invert__'), [E], {}))
        meaning(ctx, I, G, pt, Not(e), '~A')
    return h

def operand(ctx, I, pt, kind, name):
    if kind in ('EventOr', 'EventAnd'): return compound(ctx, I, pt, kind, name)
    e = Ev(I, pt, name, ('EventBasic',))
    # an event on a different expression
    e.subexpr_ = Sub(I, pt, name + '_x', infinite=False, defined=True)
    return e, e.t

def compound_op(op, k1, k2):
    def h(ctx):
        I = event_interp(ctx); pt = Point(ctx)
        E, e = operand(ctx, I, pt, k1, 'A')
        F, f = operand(ctx, I, pt, k2, 'B')
        G = guard(ctx, op, lambda: I.call(meth(I, k1, op), [E, F], {}))
        if G is NotImplemented: ctx.fail('A %s B' % op, 'NotImplemented'); return
        meaning(ctx, I, G, pt, OPS[op](e, f), 'A %s B' % op)
    return h

class SubL(Sub):
    def vc_binop(self, I, op, o, reflected):
        # the contract of << on the pieces of a union, which are no unions
        S = lift_set(I, o)
        if op is not ast.LShift or reflected or S is None: return NotImplemented
        if I.ctx.branch(S.is_kind(aset.UN)): raise Unsupported('a union within a union')
        return Ev(I, self.pt, 'in', ('EventBasic',), And(self.d, S.has(self.u)))

def containment_union(ctx):
    I = event_interp(ctx); pt = Point(ctx)
    sub = SubL(I, pt, infinite=False, defined=True)
    S = ASet.fresh(I, 'S')
    ctx.assume(S.is_kind(aset.UN))
    E = guard(ctx, 'T << union', lambda: I.call(meth(I, 'Transform', '__lshift__'), [sub, S], {}))
    meaning(ctx, I, E, pt, S.has(sub.u), 'T << S')

def containment_mixed(n, m):
    def h(ctx):
        I, pt, sub = start(ctx)
        xs = [ctx.num('v%d' % i) for i in range(n)]
        ss = [ctx.string('s%d' % i) for i in range(m)]
        E = guard(ctx, 'T << [..]', lambda: I.call(meth(I, 'Transform', '__lshift__'), [sub, PList(xs + ss, 0)], {}))
        meaning(ctx, I, E, pt, Or(*[sc_eq(sub.u, x) for x in xs]), 'T << [%d numbers and %d strings]' % (n, m))
    return h

# -- events on a variable itself, at any outcome: a number, an infinity or text

def outcome(ctx, text):
    return ctx.string('x') if text else ctx.num('x')

def variable_event(ctx, I, X, kind, name):
    S = ASet.fresh(I, name)
    if kind == 'EventInterval': ctx.assume(S.is_kind(aset.IV))
    else:
        if not ctx.branch(S.nonempty()): S = aset.EMPTY(I)
        else: ctx.assume(S.is_kind(aset.FR if kind == 'EventFiniteReal' else aset.FN))
    E = guard(ctx, kind, lambda: I.call(cls(I, kind), [X, S], {}))
    return E, (lambda x: lift_set(I, S).has(x))

def variable_meaning(ctx, I, E, X, x, want, what):
    if not is_event(I, E): ctx.fail('%s: an event' % what, repr(E)); return
    asn = PDict([(X, x)], 0)
    v = guard(ctx, '%s: evaluate' % what, lambda: I.truth(I.call(I.getattr(E, 'evaluate'), [asn], {})))
    ctx.prove('%s: truth' % what, Iff(v, want))
    R = lift_set(I, guard(ctx, '%s: solve' % what, lambda: I.call(I.getattr(E, 'solve'), [], {})))
    if R is None: ctx.fail('%s: solution set' % what, 'not a set'); return
    ctx.prove('%s: solution set' % what, Iff(R.has(x), want))

def on_variable(kind, text):
    def h(ctx):
        I = event_interp(ctx)
        X = guard(ctx, 'Identity', lambda: I.call(cls(I, 'Identity'), ['X'], {}))
        E, e = variable_event(ctx, I, X, kind, 'A')
        x = outcome(ctx, text)
        variable_meaning(ctx, I, E, X, x, e(x), 'X << A')
    return h

def variable_not(kind, text):
    def h(ctx):
        I = event_interp(ctx)
        X = guard(ctx, 'Identity', lambda: I.call(cls(I, 'Identity'), ['X'], {}))
        E, e = variable_event(ctx, I, X, kind, 'A')
        x = outcome(ctx, text)
        if not text: ctx.assume(x.tag == 0)
        G = guard(ctx, '~', lambda: I.call(meth(I, kind, '__invert__'), [E], {}))
        # a complement is taken within the numbers, or within the strings
        variable_meaning(ctx, I, G, X, x, Not(e(x)) if text == (kind == 'EventFiniteNominal') else False, '~A')
    return h

def variable_op(op, k1, k2, text):
    def h(ctx):
        I = event_interp(ctx)
        X = guard(ctx, 'Identity', lambda: I.call(cls(I, 'Identity'), ['X'], {}))
        E, e = variable_event(ctx, I, X, k1, 'A')
        F, f = variable_event(ctx, I, X, k2, 'B')
        x = outcome(ctx, text)
        G = guard(ctx, op, lambda: I.call(meth(I, k1, op), [E, F], {}))
        variable_meaning(ctx, I, G, X, x, OPS[op](e(x), f(x)), 'A %s B' % op)
    return h

F_ = dict(fast_ms=150, linear=True)
def tasks(prop, tier):
    if prop == 'C05':
        out = [Task('comparison %s of any expression with any number' % op, comparison(op), weight=1, **F_) for op in CMP]
        out += [Task('comparison %s with text' % op, comparison_other(op), weight=0, **F_) for op in CMP]
        out += [Task('chained comparison (T %s a) %s b' % (p, q), chained(p, q), weight=1, **F_)
            for p, q in [(p, q) for p in ('__ge__', '__gt__') for q in ('__le__', '__lt__')] + [(p, q) for p in ('__le__', '__lt__') for q in ('__ge__', '__gt__')]]
        out += [Task('chained comparison (T %s a) %s b' % (p, q), chained_bad(p, q), weight=0, **F_) for p, q in (('__le__', '__lt__'), ('__ge__', '__gt__'))]
        out += [Task('containment in %s' % n, containment(k), weight=2, **F_) for n, k in
            (('the empty set', aset.E), ('a finite set of any size', aset.FR), ('an interval', aset.IV), ('a set of strings', aset.FN))]
        out += [Task('containment in a list of %d numbers' % n, containment_values(n), bound='lists of at most 3 numbers', **F_) for n in (0, 1, 2, 3)]
        out += [Task('containment in a union of any number of pieces', containment_union, weight=3, **F_)]
        out += [Task('containment in a list of %d numbers and %d strings' % (n, m), containment_mixed(n, m), bound='lists of at most 2 numbers and 2 strings', **F_)
            for n in (0, 1, 2) for m in (1, 2)]
        V = ('EventInterval', 'EventFiniteReal', 'EventFiniteNominal')
        for text in (False, True):
            w = 'a string' if text else 'a number'
            out += [Task('%s on a variable, at %s' % (k, w), on_variable(k, text), **F_) for k in V]
            out += [Task('~ of %s on a variable, at %s' % (k, w), variable_not(k, text), **F_) for k in V]
            out += [Task('%s %s %s on a variable, at %s' % (a, op, b, w), variable_op(op, a, b, text), **F_) for op in OPS for a in V for b in V]
        B = ('EventInterval', 'EventFiniteReal')
        for op in OPS:
            out += [Task('%s %s %s on one expression' % (a, op, b), basic_basic(op, a, b, True), weight=5, **F_) for a in B for b in B]
            out += [Task('%s %s %s on two expressions' % (a, op, b), basic_basic(op, a, b, False), weight=5, **F_) for a in B for b in B]
        out += [Task('meaning of an %s of any number of events' % k, compound_meaning(k), weight=1, **F_) for k in ('EventOr', 'EventAnd')]
        out += [Task('truth values of an %s of any number of events' % k, compound_inverse(k), weight=1, **F_) for k in ('EventOr', 'EventAnd')]
        out += [Task('truth values of an %s' % k, basic_inverse(k), weight=1, **F_) for k in B]
        out += [Task('~ of an %s' % k, negate_basic(k), weight=5, **F_) for k in B]
        out += [Task('~ of an %s of any number of events' % k, negate_compound(k), weight=2, **F_) for k in ('EventOr', 'EventAnd')]
        C = ('EventOr', 'EventAnd', 'EventBasic')
        out += [Task('%s %s %s' % (a, op, b), compound_op(op, a, b), weight=2, **F_) for op in OPS for a in C for b in C if a != 'EventBasic' or b != 'EventBasic']
        return out
    return []

ASSUMPTIONS = {'C05': [
    'numbers are exact reals with two infinities; rounding is not modelled',
    'expressions and operand events are seen through the contract being proved (induction on the expression), at an arbitrary assignment at which they are defined; the events of a compound event are about one variable where they are solved',
    'sympy.Interval returns the empty set, a point or an interval as documented; convert_sympy is executed, not assumed',
    'operators of sppl.sets satisfy the contracts proved for C01 and C02; Transform.invert of a variable is the contract proved for C03',
]}
