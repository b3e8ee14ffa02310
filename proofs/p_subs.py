"""Contracts of substitution and of derived variables (C07).

An assignment is consistent with an environment if every variable the
environment defines has the value of its definition.  Everything is seen at
one arbitrary consistent assignment: substituting keeps the value there.
"""
import ast
from .p_events import *
from .p_events import is_event
from . import p_transforms as pt_
from .trspec import interp as plain
from .spespec import interp as spe_interp, M

F_ = dict(fast_ms=150, linear=True)

def ident(I, name): return I.call(cls(I, 'Identity'), [name], {})
def same_sym(I, a, b): return I.getattr(a, 'token') == I.getattr(b, 'token')

def mapped(I, syms, env):
    """The variables of an expression over syms after substitution."""
    out = []
    def put(s):
        if not any(same_sym(I, s, t) for t in out): out.append(s)
    for s in syms.items:
        g = next((v for k, v in env.pairs if same_sym(I, k, s)), s)
        for t in I.tolist(I.call(I.getattr(g, 'get_symbols'), [], {})): put(t)
    return PSet(out, 0, True)

def same_set(I, a, b):
    a, b = ({I.getattr(s, 'token') for s in I.tolist(x)} for x in (a, b))
    return a == b

class XSub(Sub):
    """An expression over given variables, at the assignment."""
    def __init__(self, I, pt, syms, name='e', **k):
        Sub.__init__(self, I, pt, name, **k)
        self.symbols = PSet(list(syms), 0, True)
        self.asn = getattr(pt, 'asn', None)
    def vc_hash(self, I): return I.ctx.int_('hash')
    def vc_eq(self, I, o):
        if isinstance(o, Obj) and o.cls.name == 'Identity': return False
        return Sub.vc_eq(self, I, o)
    def like(self, syms): return XSub(self.I, self.pt, syms, self.name + "'", value=self.u, defined=self.d)
    def m_subs(self, I, a, k):
        # the contract of subs, for sub-expressions
        return self.like(mapped(I, self.symbols, a[0]).items)
    def m_substitute(self, I, a, k):
        raise Unsupported('substitute')
    def m_evaluate(self, I, a, k):
        if self.asn is not None: I.ctx.prove('sub-expressions are evaluated at the assignment', a[0] is self.asn)
        return Sub.m_evaluate(self, I, a, k)

class XEv(XSub):
    def __init__(self, I, pt, syms, name='event', truth=None, defined=None, kinds=()):
        self.t = I.ctx.bool_(name) if truth is None else truth
        XSub.__init__(self, I, pt, syms, name, kinds=('Event',) + tuple(kinds),
            value=Sc(0, z3.If(zb(self.t), z3.RealVal(1), z3.RealVal(0))), defined=True if defined is None else defined)
    def like(self, syms): return XEv(self.I, self.pt, syms, self.name + "'", truth=self.t, defined=self.d, kinds=self.kinds[2:])
    def m_evaluate(self, I, a, k):
        XSub.m_evaluate(self, I, a, k)
        return self.t
    def m_solve(self, I, a, k): return at_point(I, self.pt, And(self.d, self.t))

def outcome_of(I, f):
    try: return f()
    except PyExc as e: return None

def same_value(ctx, I, a, b, what):
    """a and b: values of the same sort, or both undefined."""
    if a is None or b is None:
        ctx.prove('%s: defined at the same assignments' % what, a is None and b is None); return
    if I.isnum(a) and I.isnum(b) and not (is_sym(a) and z3.is_bool(a)) and not isinstance(a, bool):
        ctx.prove('%s: the same value' % what, sc_eq(I.lift(a), I.lift(b)))
    else: ctx.prove('%s: the same truth value' % what, Iff(I.truth(a), I.truth(b)))

ENVS = ('empty', 'self', 'other', 'one', 'same variable', 'through')
def environment(ctx, I, pt, how, X):
    """An environment, and an assignment consistent with it."""
    Y, Z = ident(I, 'Y'), ident(I, 'Z')
    g = None
    if how == 'empty': return PDict([], 0, 'OrderedDict'), None
    if how == 'self': return PDict([(X, X)], 0, 'OrderedDict'), None
    if how == 'other': return PDict([(Y, XSub(I, pt, [Z], 'g')), (X, X)], 0, 'OrderedDict'), None
    if how == 'one': g = XSub(I, pt, [Y], 'g')
    if how == 'same variable': g = Y
    if how == 'through': g = XSub(I, pt, [Y, Z], 'g')
    return PDict([(Y, Y), (X, g)], 0, 'OrderedDict'), g

def world(ctx, how, I=None):
    I = I or plain(ctx)
    pt = Point(ctx)
    pt.asn = PDict([], 0)
    X = ident(I, 'X')
    env, g = environment(ctx, I, pt, how, X)
    return I, pt, X, env, g

def coefficients(I):
    """make_sympy_polynomial: a function of the coefficients."""
    old = I.contracts.get(T + '.make_sympy_polynomial')
    if old is None: return
    made = []
    def c(I, f, a, k):
        cs = I.tolist(a[0])
        for c0, p in made:
            if len(c0) == len(cs) and all(x is y or I.ctx.branch(I.eq(x, y)) for x, y in zip(c0, cs)): return p
        p = old(I, f, a, k) if not made else pt_.SymP(I.ctx)
        made.append((cs, p))
        return p
    I.contracts[T + '.make_sympy_polynomial'] = c

def check_subs(ctx, I, pt, E, env, what):
    before = outcome_of(I, lambda: I.call(I.getattr(E, 'evaluate'), [pt.asn], {}))
    R = guard(ctx, '%s: subs' % what, lambda: I.call(I.getattr(E, 'subs'), [env], {}))
    after = outcome_of(I, lambda: I.call(I.getattr(R, 'evaluate'), [pt.asn], {}))
    same_value(ctx, I, before, after, what)
    got = guard(ctx, '%s: variables' % what, lambda: I.call(I.getattr(R, 'get_symbols'), [], {}))
    want = mapped(I, I.call(I.getattr(E, 'get_symbols'), [], {}), env)
    ctx.prove('%s: variables of the result' % what, same_set(I, got, want))

def numeric(make, how):
    def h(ctx):
        I, pt, X, env, g = world(ctx, how)
        sub = XSub(I, pt, [X], infinite=False)
        old = I.contracts.get(T + '.make_sympy_polynomial')
        real = I.contracts
        E = make(ctx, I, sub)
        check_subs(ctx, I, pt, E, env, E.cls.name)
    return h

def polynomial(ctx, I, sub):
    P = pt_.SymP(ctx)
    pt_.poly_externals(I, P)
    coefficients(I)
    return guard(ctx, 'Poly', lambda: I.call(cls(I, 'Poly'), [sub, PList([Sc(0, ctx.real('c%d' % i)) for i in range(3)], 0)], {}))

def variable(how):
    def h(ctx):
        I, pt, X, env, g = world(ctx, how)
        # the value of X is that of its definition
        x = ctx.num('x')
        if g is None: pt.asn.pairs.append((X, x))
        elif isinstance(g, XSub):
            if ctx.branch(g.d): pt.asn.pairs.append((X, g.u))
        else:
            pt.asn.pairs.append((X, x)); pt.asn.pairs.append((g, x))
        check_subs(ctx, I, pt, X, env, 'a variable')
    return h

def piecewise(how, n):
    def h(ctx):
        I, pt, X, env, g = world(ctx, how)
        I.contracts[T + '.get_piecewise_domains'] = lambda I, f, a, k: PList([None] * len(I.tolist(a[0])), 0)
        subs = [XSub(I, pt, [X], 'e%d' % i, infinite=False) for i in range(n)]
        evs = [XEv(I, pt, [X], 'g%d' % i) for i in range(n)]
        for i in range(n):
            for j in range(i): ctx.assume(Not(And(evs[i].t, evs[j].t)))
        if how == 'through': ctx.assume(True)
        P = guard(ctx, 'Piecewise', lambda: I.call(cls(I, 'Piecewise'), [PList(list(subs), 0), PList(list(evs), 0)], {}))
        if how == 'through':
            # a definition over two variables: rejected, not altered
            try: I.call(I.getattr(P, 'subs'), [env], {})
            except PyExc as e: ctx.prove('rejected: ValueError', e.cls is ValueError)
            else: ctx.fail('piecewise expressions of two variables are rejected', 'accepted')
            return
        check_subs(ctx, I, pt, P, env, 'Piecewise')
    return h

def basic_event(kind, how):
    def h(ctx):
        I, pt, X, env, g = world(ctx, how)
        sub = XSub(I, pt, [X])
        S = ASet.fresh(I, 'S')
        if kind == 'EventInterval': ctx.assume(S.is_kind(aset.IV))
        elif not ctx.branch(S.nonempty()): S = aset.EMPTY(I)
        else: ctx.assume(S.is_kind(aset.FR if kind == 'EventFiniteReal' else aset.FN))
        E = guard(ctx, kind, lambda: I.call(cls(I, kind), [sub, S], {}))
        check_subs(ctx, I, pt, E, env, kind)
    return h

def event_on_variable(kind, how):
    """An event on the variable itself."""
    def h(ctx):
        I, pt, X, env, g = world(ctx, how)
        S = ASet.fresh(I, 'S')
        if kind == 'EventInterval': ctx.assume(S.is_kind(aset.IV))
        elif not ctx.branch(S.nonempty()): S = aset.EMPTY(I)
        else: ctx.assume(S.is_kind(aset.FR if kind == 'EventFiniteReal' else aset.FN))
        x = ctx.num('x')
        if isinstance(g, XSub):
            if ctx.branch(g.d): pt.asn.pairs.append((X, g.u))
        else:
            pt.asn.pairs.append((X, x))
            if g is not None: pt.asn.pairs.append((g, x))
        E = guard(ctx, kind, lambda: I.call(cls(I, kind), [X, S], {}))
        check_subs(ctx, I, pt, E, env, kind)
    return h

def compound_event(kind, how, n):
    def h(ctx):
        I, pt, X, env, g = world(ctx, how)
        Y, W = ident(I, 'Y'), ident(I, 'W')
        over = [[X], [Y], [X, W]]
        evs = [XEv(I, pt, over[i % 3], 'e%d' % i, defined=None) for i in range(n)]
        E = guard(ctx, kind, lambda: I.call(cls(I, kind), [PList(list(evs), 0)], {}))
        check_subs(ctx, I, pt, E, env, kind)
    return h

def defined_by(how, syms):
    """expr_in_env: whether substitution changes the expression."""
    def h(ctx):
        I, pt, X, env, g = world(ctx, how)
        ss = [ident(I, n) for n in syms]
        e = XSub(I, pt, ss)
        r = guard(ctx, 'expr_in_env', lambda: I.truth(I.call(I.modules[T].ns['expr_in_env'], [e, env], {})))
        want = g is not None and 'X' in syms or how == 'other' and 'Y' in syms
        ctx.prove('exactly if a variable has a definition other than itself', Iff(r, want))
    return h

# -- substitution until nothing is left to substitute

class Chain(XSub):
    """An expression with any variables; some may be defined."""
    def __init__(self, I, pt, name='e', **k):
        XSub.__init__(self, I, pt, [], name, **k)
        self.left = I.ctx.bool_('to_substitute')
    def fresh(self): return Chain(self.I, self.pt, value=self.u, defined=self.d)
    def vc_attr(self, I, name):
        if name in ('symbols', 'get_symbols'): raise Unsupported('variables of an arbitrary expression')
        return XSub.vc_attr(self, I, name)
    def m_subs(self, I, a, k):
        if a[0] is not self.pt.env: I.ctx.fail('substitution in the environment', repr(a[0]))
        return self.fresh()
class ChainEv(Chain):
    def __init__(self, I, pt, name='e', truth=None, defined=True):
        self.t = I.ctx.bool_(name) if truth is None else truth
        Chain.__init__(self, I, pt, name, kinds=('Event',), value=Sc(0, z3.If(zb(self.t), z3.RealVal(1), z3.RealVal(0))), defined=defined)
    def fresh(self): return ChainEv(self.I, self.pt, truth=self.t, defined=self.d)

class KeepsValue:
    """Loop invariant: expressions have the value of the first one."""
    def __init__(self, e): self.e = e
    def holds(self, I, vs, when):
        for n, v in vs.items():
            if not isinstance(v, Chain): raise Unsupported('loop variable %s' % n)
            I.ctx.prove('%s, the value is that of the expression' % when, And(Iff(v.d, self.e.d), sc_eq(v.u, self.e.u)))
    def arbitrary(self, I, n, v):
        if not isinstance(v, Chain): raise Unsupported('loop variable %s' % n)
        return self.e.fresh()

def substitute(event):
    def h(ctx):
        I = plain(ctx); pt = Point(ctx); pt.asn = None
        pt.env = PDict([(ident(I, 'X'), 0)], 0, 'OrderedDict')
        e = (ChainEv if event else Chain)(I, pt)
        def c(I, f, a, k):
            if isinstance(a[0], Chain) and a[1] is pt.env: return a[0].left
            return MISSING
        I.contracts[T + '.expr_in_env'] = c
        I.while_rules[T + '.Transform.substitute'] = KeepsValue(e)
        r = guard(ctx, 'substitute', lambda: I.call(meth(I, 'Transform', 'substitute'), [e, pt.env], {}))
        if not isinstance(r, Chain): ctx.fail('substitute: an expression', repr(r)); return
        ctx.prove('substitute: the value is that of the expression', And(Iff(r.d, e.d), sc_eq(r.u, e.u)))
        ctx.prove('substitute: nothing is left to substitute', Not(r.left))
    return h

def tasks(prop, tier):
    if prop != 'C07': return []
    out = []
    nums = [('a root', pt_.radical), ('an exponential', pt_.exponential), ('a logarithm', pt_.logarithm), ('the reciprocal', pt_.reciprocal),
        ('the absolute value', pt_.absolute), ('a polynomial', polynomial)]
    names = {'empty': 'no definitions', 'self': 'a variable defined as itself', 'other': 'definitions of other variables', 'one': 'a definition over one variable',
        'same variable': 'a renamed variable', 'through': 'a definition over two variables'}
    for how in ENVS:
        w = names[how]
        out.append(Task('substituting a variable: %s' % w, variable(how), **F_))
        out += [Task('substituting in %s: %s' % (n, w), numeric(m, how), **F_) for n, m in nums]
        out += [Task('substituting in a piecewise expression of %d branches: %s' % (n, w), piecewise(how, n), bound='at most 3 branches', **F_) for n in (1, 2, 3)]
        for k in ('EventInterval', 'EventFiniteReal', 'EventFiniteNominal'):
            out += [Task('substituting in %s: %s' % (k, w), basic_event(k, how), **F_), Task('substituting in %s on the variable: %s' % (k, w), event_on_variable(k, how), **F_)]
        for k in ('EventOr', 'EventAnd'):
            out += [Task('substituting in %s of %d: %s' % (k, n, w), compound_event(k, how, n), bound='at most 3 events', **F_) for n in (1, 2, 3)]
        out += [Task('whether %s defines a variable among %s' % (w, s), defined_by(how, s), bound='at most 2 variables', **F_) for s in (('X',), ('Y',), ('X', 'Y'), ('W',))]
    out += leaf_tasks()
    out += [Task('substituting until nothing is left, %s' % n, substitute(e), **F_) for n, e in (('an expression', False), ('an event', True))]
    return out

# ---------------------------------------------------------------------------
# queries to leaves that mention derived variables

class Query:
    """An event; substitute has the contract proved above."""
    def __init__(self, I, truth, syms, env, result):
        self.I, self.t, self.symbols, self.env, self.result = I, truth, PSet(list(syms), 0, True), env, result
    def vc_truth(self, I): return True
    def vc_attr(self, I, name):
        if name == 'get_symbols': return NativeF(name, lambda I, a, k: self.symbols)
        if name == 'substitute': return NativeF(name, self.m_substitute)
        return MISSING
    def m_substitute(self, I, a, k):
        e = a[0]
        if not (isinstance(e, PDict) and len(e.pairs) == len(self.env.pairs) and all(x[0] is y[0] and x[1] is y[1] for x, y in zip(e.pairs, self.env.pairs))):
            raise Unsupported('substitution in another environment')
        return Query(I, self.t, self.result, self.env, self.result)

def leaf_query(kind, method, asked):
    """logprob and condition hand the event on the base variable over."""
    def h(ctx):
        I = spe_interp(ctx)
        X, Y, Z, W = [ident(I, n) for n in 'XYZW']
        env = PDict([(X, X), (Y, XSub(I, Point(ctx), [X], 'f')), (Z, XSub(I, Point(ctx), [Y], 'g'))], 0, 'OrderedDict')
        L = Obj(cls_spe(I, kind), dict(symbol=X, env=env), 0)
        syms = [dict(X=X, Y=Y, Z=Z, W=W)[n] for n in asked]
        known = 'W' not in asked
        truth = ctx.bool_('truth')
        q = Query(I, truth, syms, env, [X] if known else [X, W] if len(asked) > 1 else [W])
        got, answer = [], object.__new__(Opaque)
        def c(I, f, a, k):
            if a[0] is not L or len(a) != 2 or k: return MISSING
            got.append(a[1])
            return answer
        for n in I.modules[M].ns:
            I.contracts['%s.%s.%s__' % (M, n, method)] = c
        for memo in (None, False):
            got.clear()
            try: r = I.call(I.getattr(L, method), [q] + ([memo] if memo is not None else []), {})
            except PyExc as e:
                ctx.prove('rejected: a variable of the event is not one of the model', not known)
                continue
            ctx.prove('accepted: all variables are those of the model', known)
            ctx.prove('the answer is that to one event', r is answer and len(got) == 1)
            if len(got) != 1 or not isinstance(got[0], Query): ctx.fail('an event', repr(got)); return
            ctx.prove('an event on the base variable', same_set(I, got[0].symbols, PSet([X], 0, True)))
            ctx.prove('with the truth value of the query', Iff(got[0].t, truth))
    return h

class Opaque:
    def vc_truth(self, I): raise Unsupported('truth of an answer')
    def vc_is(self, I, o): return self is o
    def vc_attr(self, I, name): return MISSING

def cls_spe(I, name): return I.modules[M].ns[name]

def leaf_tasks():
    out = []
    for k in ('ContinuousLeaf', 'DiscreteLeaf', 'AtomicLeaf', 'NominalLeaf'):
        for m in ('logprob', 'condition'):
            out += [Task('%s of an event on %s, %s' % (m, ', '.join(a), k), leaf_query(k, m, a), bound='two derived variables', **F_) for a in ('X', 'Y', 'Z', 'XYZ', 'W', 'XW')]
    from . import p_build as b
    out += [Task('derived variable of a %s' % k, b.leaf_transform(k), bound='environments of 2 variables', **F_) for k in ('ContinuousLeaf', 'DiscreteLeaf', 'AtomicLeaf')]
    out += [Task('derived variable of a mixture of %d' % n, b.sum_transform(n), bound='at most 2 components', **F_) for n in (1, 2)]
    out.append(Task('derived variable of a product', b.product_transform, bound='2 components', weight=3, **F_))
    from . import p_sample as s
    return out + s.derived_tasks()

ASSUMPTIONS = {'C07': [
    'numbers are exact reals with two infinities; rounding is not modelled',
    'sub-expressions and definitions are seen through the contract being proved (induction on the expression), at an arbitrary assignment that is consistent with the definitions',
    'definitions are not circular, so that substitution ends (partial correctness); a leaf has its base variable as its own definition',
    'sympy.Pow, sympy.log and polynomials are functions of their arguments',
    'Counter, ChainMap of the standard library']}
