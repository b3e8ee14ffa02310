"""Contracts of leaf distributions (C08, C09, C10).

A distribution of scipy is an arbitrary cumulative distribution function: a
monotone function F into [0, 1] with F(-inf) = 0 and F(inf) = 1; a discrete
one is constant between integers and pmf(k) = F(k) - F(k-1).  The measure of
a set is the sum over its pieces, from F.
"""
import ast
from .modelspec import *
from .setspec import Builder, Sets, den, kind, pieces, disjoint_intervals, attr
from .p_math import c_logdiffexp
from pyvc.core import lift

F_ = dict(fast_ms=300, linear=True)

class Dist:
    """A frozen distribution of scipy."""
    def __init__(self, I, discrete):
        self.I, self.discrete = I, discrete
        ctx = I.ctx
        self.f = z3.Function(ctx.fresh('F'), z3.IntSort() if discrete else z3.RealSort(), z3.RealSort())
        self.d = z3.Function(ctx.fresh('pdf'), z3.RealSort(), z3.RealSort())
        self.known = {}
    def vc_truth(self, I): return True
    def vc_eq(self, I, o): return self is o
    def at(self, n):
        """F at a real (an integer, if discrete), with monotonicity."""
        ctx, n = self.I.ctx, z3.simplify(n)
        if n.get_id() not in self.known:
            t = self.f(n)
            ctx.assume(And(t >= 0, t <= 1))
            for m, u in self.known.values():
                ctx.assume(And(Implies(m <= n, u <= t), Implies(n <= m, t <= u)))
            self.known[n.get_id()] = (n, t)
        return self.known[n.get_id()][1]
    def F(self, x):
        x = lift(x)
        return self.ends(x, lambda: self.at(z3.ToInt(x.val) if self.discrete else x.val))
    def ends(self, x, finite):
        tag = x.tag
        if not isinstance(tag, int):
            if z3.is_int_value(tag): tag = tag.as_long()
            else: return z3.If(tag == 0, finite(), z3.If(tag > 0, z3.RealVal(1), z3.RealVal(0)))
        if tag: return z3.RealVal(1 if tag > 0 else 0)
        return finite()
    def whole(self, x): return z3.ToReal(z3.ToInt(x.val)) == x.val
    def pmf(self, x):
        x = lift(x)
        if self.I.num_tag(x): return z3.RealVal(0)
        n = z3.ToInt(x.val)
        return z3.If(self.whole(x), self.at(n) - self.at(n - 1), z3.RealVal(0))
    def pdf(self, x):
        x = lift(x)
        if self.I.num_tag(x): raise Unsupported('density at infinity')
        t = self.d(x.val)
        self.I.ctx.assume(t >= 0)
        return t
    def vc_attr(self, I, name):
        N = lambda f: NativeF(name, lambda I, a, k: f(a[0]))
        if name == 'logcdf': return N(lambda x: LogV(self.F(x)))
        if name == 'cdf': return N(lambda x: Sc(0, self.F(x)))
        if name == 'logpmf' and self.discrete: return N(lambda x: LogV(self.pmf(x)))
        if name == 'logpdf' and not self.discrete: return N(lambda x: LogV(self.pdf(x)))
        return MISSING
    # measure of pieces
    def first(self, x, is_open):
        """The last integer before the interval that starts at x."""
        n = z3.ToInt(x.val)
        return z3.If(z3.And(self.whole(x), Not_(is_open)), n - 1, n)
    def last(self, x, is_open):
        n = z3.ToInt(x.val)
        return z3.If(z3.And(self.whole(x), zb(is_open)), n - 1, n)
    def interval(self, a, b, lo, ro):
        I = self.I
        a, b = lift(a), lift(b)
        if not self.discrete: u, v = self.F(a), self.F(b)
        else:
            u = self.ends(a, lambda: self.at(self.first(a, lo)))
            v = self.ends(b, lambda: self.at(self.last(b, ro)))
        return z3.If(v >= u, v - u, z3.RealVal(0))
    def point(self, x): return self.pmf(x) if self.discrete else z3.RealVal(0)
    def measure(self, A, t=None):
        """Measure of A, or of its part up to t."""
        I, out = self.I, z3.RealVal(0)
        for p in pieces(A):
            if kind(p) == 'IV':
                a, b, lo, ro = attr(p, 'a'), attr(p, 'b'), I.truth(attr(p, 'left_open')), I.truth(attr(p, 'right_open'))
                if t is not None:
                    a, b = lift(a), lift(b)
                    if not I.ctx.branch(sc_le(b, t)):
                        if not I.ctx.branch(sc_le(a, t)): continue
                        b, ro = t, False
                out = out + self.interval(a, b, lo, ro)
            elif kind(p) == 'FR':
                for x in attr(p, 'values').items:
                    if t is None: out = out + self.point(x)
                    else: out = out + z3.If(zb(sc_le(lift(x), t)), self.point(x), z3.RealVal(0))
            else: raise Unsupported('measure of %r' % (p,))
        return z3.simplify(out)

def Not_(f): return z3.Not(zb(f))

class Event:
    """An event of the variable of a leaf: solve gives its set."""
    def __init__(self, sol): self.sol = sol
    def vc_truth(self, I): return True
    def vc_attr(self, I, name):
        if name == 'solve': return NativeF('solve', lambda I, a, k: self.sol)
        return MISSING

class Solution:
    """The solution of an event; meeting the support gives V (contract of &)."""
    def __init__(self, S, V): self.S, self.V = S, V
    def vc_truth(self, I): return True
    def vc_binop(self, I, op, o, r):
        if op is ast.BitAnd and o is self.S: return self.V
        return NotImplemented
    def vc_attr(self, I, name): return MISSING

def inside(I, p, S):
    """Piece p is a part of the support."""
    a, b = I.lift(attr(S, 'a')), I.lift(attr(S, 'b'))
    lo, ro = I.truth(attr(S, 'left_open')), I.truth(attr(S, 'right_open'))
    if kind(p) == 'FR': return And(*[den(I, S, x) for x in attr(p, 'values').items])
    c, d = I.lift(attr(p, 'a')), I.lift(attr(p, 'b'))
    l, r = I.truth(attr(p, 'left_open')), I.truth(attr(p, 'right_open'))
    return And(Or(sc_lt(a, c), And(sc_eq(a, c), Or(l, Not(lo)))), Or(sc_lt(d, b), And(sc_eq(d, b), Or(r, Not(ro)))))

def whole_ends(I, S):
    """The support of a discrete distribution has integer ends."""
    out = []
    for n in ('a', 'b'):
        x = I.lift(attr(S, n))
        out.append(Implies(tag_eq(x.tag, 0), simp(z3.ToReal(z3.ToInt(x.val)) == x.val)))
    return And(*out)

def world(ctx, discrete, conditioned, shape):
    I = interp(ctx)
    I.contracts['sppl.math_util.logdiffexp'] = c_logdiffexp
    V, = variables(I, 1)
    D = Dist(I, discrete)
    B = Builder(I)
    S = B.interval('s')
    if discrete: ctx.assume(whole_ends(I, S))
    mS = D.measure(S)
    if conditioned: ctx.assume(mS > 0)
    else: ctx.assume(mS == 1)
    env = PDict([(V, V), (variables(I, 2)[1], V)], 0, 'OrderedDict')
    k = cls(I, 'DiscreteLeaf' if discrete else 'ContinuousLeaf')
    L = guard(ctx, 'constructor', lambda: I.call(k, [V, D, S, conditioned or None, env], {}))
    A = None
    if shape is not None:
        A = arbitrary(ctx, I, B, shape)
        for p in pieces(A): ctx.assume(inside(I, p, S))
    return I, L, D, S, mS, A, env

def arbitrary(ctx, I, B, shape):
    """A well-formed set of k intervals and n numbers."""
    k, n = shape
    if k + n == 0: return B.empty()
    ivs = [B.interval('v%d' % j) for j in range(k)]
    f = None
    if n:
        # members of an interval with open infinite ends are finite
        xs = [Sc(0, ctx.real('f%d' % i)) for i in range(n)]
        for i in range(n):
            for j in range(i): ctx.assume(xs[i].val != xs[j].val)
        f = Obj(B.S.FiniteReal, dict(values=PSet(xs, 0, True)), 0)
    for j in range(k):
        for i in range(j): ctx.assume(disjoint_intervals(I, ivs[i], ivs[j]))
        if f:
            for x in attr(f, 'values').items: ctx.assume(Not(den(I, ivs[j], x)))
    ps = ([f] if f else []) + ivs
    if len(ps) == 1: return ps[0]
    E = B.S.EmptySet
    return Obj(B.S.Union, dict(nominals=E, atoms=f or E, intervals=PSet(ivs, 0, True), values=PSet(ps, 0, True), args=PList(ps, 0)), 0)

def use_parts(I, L, D, mS, conditioned, names):
    """Callers use the contracts of these methods: the measure of the set."""
    def c(I, f, args, k):
        if len(args) != 2 or k or args[0] is not L or not isinstance(args[1], Obj): return MISSING
        m = D.measure(args[1])
        I.ctx.assume(m <= mS)
        return LogV(quotient(I.ctx, m, mS) if conditioned else m)
    for n in names: I.contracts['%s.%s' % (M, n)] = c

def logprob(discrete, conditioned, shape):
    def h(ctx):
        I, L, D, S, mS, A, env = world(ctx, discrete, conditioned, shape)
        mA = D.measure(A)
        if len(pieces(A)) > 1:
            k = L.cls.name
            use_parts(I, L, D, mS, conditioned, [k + '.logprob_interval__', k + '.logprob_finite__'])
        lp = as_log(guard(ctx, 'logprob', lambda: I.call(I.getattr(L, 'logprob__'), [Event(Solution(S, A))], {})))
        if lp is None: ctx.fail('a logarithm', 'infinite'); return
        want = quotient(ctx, mA, mS) if conditioned else mA
        # mA <= mS: the set is a part of the support
        ctx.assume(mA <= mS)
        ctx.prove('the probability of an event is the measure of its part of the support', lp.p * mS == mA if conditioned else lp.p == mA)
    return h

def condition(discrete, conditioned, shape):
    def h(ctx):
        I, L, D, S, mS, A, env = world(ctx, discrete, conditioned, shape)
        mA = D.measure(A)
        ctx.assume(mA <= mS)
        keep = dict(L.attrs)
        use_parts(I, L, D, mS, conditioned, ['RealLeaf.logprob_values__'])
        try: R = I.call(I.getattr(L, 'condition__'), [Event(Solution(S, A))], {})
        except PyExc as e: ctx.prove('rejected: the event has probability zero', mA == 0); return
        ctx.prove('the leaf is not modified', all(L.attrs.get(n) is v for n, v in keep.items()))
        ctx.prove('accepted: the event has positive probability', mA > 0)
        kids = I.tolist(R.attrs['children']) if is_cls(R, 'SumSPE') else [R]
        ws = [as_log(w).p for w in I.tolist(R.attrs['weights'])] if is_cls(R, 'SumSPE') else [z3.RealVal(1)]
        ctx.prove('one weight for each leaf', len(kids) == len(ws))
        t = ctx.num('t')
        ctx.assume(tag_eq(t.tag, 0))
        t = Sc(0, t.val)
        total = z3.RealVal(0)
        for w, c in zip(ws, kids):
            if not (isinstance(c, Obj) and c.cls is L.cls): ctx.fail('leaves of the same kind', repr(c)); return
            a = c.attrs
            ctx.prove('the variable, distribution and derived variables are kept', a['symbol'] is L.attrs['symbol'] and a['dist'] is D and I.eq(a['env'], env))
            C = a['support']
            if not isinstance(C, Obj) or kind(C) != 'IV': ctx.fail('a support', repr(C)); return
            mC = D.measure(C)
            if c is L: ctx.prove('kept: the event has all the mass', mA == mS)
            else: ctx.prove('restricted to its support', I.truth(a['conditioned']))
            ctx.prove('the weight of a leaf is its share', simp(w * mA == mC) if len(kids) > 1 else mC == mA)
            total = total + D.measure(C, t)
        ctx.prove('the leaves have, up to any number, the measure of the event', total == D.measure(A, t))
    return h

class Piece:
    """An interval or a finite set, known by its measure alone: in all, and
    up to an arbitrary number t."""
    def __init__(self, I, k):
        ctx = I.ctx
        self.k, self.m, self.mt = k, ctx.real('m'), ctx.real('mt')
        ctx.assume(And(self.mt >= 0, self.mt <= self.m, self.m <= 1))
    def __repr__(self): return 'Piece(%s)' % self.k
    def vc_truth(self, I): return True
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') in ('Set', {'IV': 'Interval', 'FR': 'FiniteReal'}[self.k])
    def vc_is(self, I, o): return self is o
    def vc_eq(self, I, o):
        if self is o: return True
        raise Unsupported('equality of sets')
    def vc_attr(self, I, name): return MISSING

class Pieces:
    """A union of disjoint pieces."""
    k = 'UN'
    def __init__(self, I, items): self.items = items
    @property
    def m(self): return sum((p.m for p in self.items[1:]), self.items[0].m)
    @property
    def mt(self): return sum((p.mt for p in self.items[1:]), self.items[0].mt)
    def vc_truth(self, I): return True
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') in ('Set', 'Union')
    def vc_is(self, I, o): return self is o
    def vc_list(self, I): return PList(list(self.items), 0)
    def vc_iter(self, I): return list(self.items)
    def vc_attr(self, I, name):
        if name == 'args': return PList(list(self.items), 0)
        return MISSING
    vc_eq = Piece.vc_eq

def condition_parts(discrete, conditioned, kinds):
    """condition__, from the contracts of the methods it calls."""
    def h(ctx):
        I = interp(ctx)
        V, W = variables(I, 2)
        D = Dist(I, discrete)
        k = 'DiscreteLeaf' if discrete else 'ContinuousLeaf'
        S = Piece(I, 'IV')
        ctx.assume(S.m > 0 if conditioned else S.m == 1)
        env = PDict([(V, V), (W, V)], 0, 'OrderedDict')
        L = Obj(cls(I, k), dict(symbol=V, dist=D, support=S, conditioned=conditioned or None, env=env), 0)
        ps = [Piece(I, x) for x in kinds]
        A = ps[0] if len(ps) == 1 else Pieces(I, ps) if ps else Sets(I).EmptySet
        mA, mt = (A.m, A.mt) if ps else (z3.RealVal(0), z3.RealVal(0))
        ctx.assume(And(mA <= S.m, mt <= S.mt))
        for p in ps:
            if p.k == 'FR' and not discrete: ctx.assume(p.m == 0)
        same = ctx.bool_('same')
        if kinds in ([], ['FR']): ctx.assume(Not(same))
        ctx.assume(Implies(same, And(mA == S.m, mt == S.mt)))
        for x in [A] + [S]:
            if not isinstance(x, Obj): x.vc_eq = lambda I, o, x=x: True if o is x else same if o in (A, S) else Unsupported('equality')
        if not ps: S.vc_eq = lambda I, o: o is S
        # contracts
        def values(I, f, args, kw):
            if len(args) != 2 or kw or args[0] is not L: return MISSING
            if isinstance(args[1], (Piece, Pieces)): return LogV(quotient(I.ctx, args[1].m, S.m) if conditioned else args[1].m)
            return MISSING
        I.contracts[M + '.RealLeaf.logprob_values__'] = values
        def flat(I, f, args, kw):
            if len(args) != 2 or kw or args[0] is not L or not isinstance(args[1], Piece): return MISSING
            p = args[1]
            if not discrete: return PList([p] if p.k == 'IV' else [], I.ctx.depth)
            n = 1 if p.k == 'IV' else 0 if ctx.branch(ctx.bool_('none')) else 1 if ctx.branch(ctx.bool_('one')) else 2
            out = [Piece(I, 'IV') for _ in range(n)]
            ctx.assume(sum((q.m for q in out), z3.RealVal(0)) == p.m)
            ctx.assume(sum((q.mt for q in out), z3.RealVal(0)) == p.mt)
            return PList(out, I.ctx.depth)
        I.contracts['%s.%s.flatten_values_contiguous' % (M, 'DiscreteLeaf' if discrete else 'RealLeaf')] = flat
        def build(I, f, a, kw):
            d = dict(zip(('symbol', 'dist', 'support', 'conditioned', 'env'), a)); d.update(kw)
            s = d.get('support')
            if not isinstance(s, Piece) or s.k != 'IV': ctx.fail('constructor: the support is an interval', repr(s)); raise Infeasible()
            d.setdefault('conditioned', None); d['env'] = d.get('env') or PDict([(V, V)], 0, 'OrderedDict')
            return Obj(cls(I, k), d, ctx.depth)
        I.contracts['%s.%s' % (M, k)] = build
        keep = dict(L.attrs)
        try: R = I.call(I.getattr(L, 'condition__'), [Event(Solution(S, A))], {})
        except PyExc: ctx.prove('rejected: the event has probability zero', mA == 0); return
        ctx.prove('the leaf is not modified', all(L.attrs.get(n) is v for n, v in keep.items()))
        ctx.prove('accepted: the event has positive probability', mA > 0)
        kids = I.tolist(R.attrs['children']) if is_cls(R, 'SumSPE') else [R]
        ws = [as_log(w).p for w in I.tolist(R.attrs['weights'])] if is_cls(R, 'SumSPE') else [z3.RealVal(1)]
        ctx.prove('one weight for each leaf', len(kids) == len(ws))
        total = z3.RealVal(0)
        for w, c in zip(ws, kids):
            if not (isinstance(c, Obj) and c.cls is L.cls): ctx.fail('leaves of the same kind', repr(c)); return
            a = c.attrs
            ctx.prove('the variable, distribution and derived variables are kept', a['symbol'] is V and a['dist'] is D and I.eq(a['env'], env))
            C = a['support']
            if c is not L: ctx.prove('restricted to its support', I.truth(a['conditioned']))
            ctx.prove('the support has positive measure', C.m > 0)
            ctx.prove('the weight of a leaf is its share', simp(w * mA == C.m) if len(kids) > 1 else C.m == mA)
            total = total + C.mt
        ctx.prove('the leaves have, up to any number, the measure of the event', total == mt)
    return h

def flatten(discrete, conditioned, shape):
    """flatten_values_contiguous: intervals of the same measure."""
    def h(ctx):
        I, L, D, S, mS, A, env = world(ctx, discrete, conditioned, shape)
        r = guard(ctx, 'flatten', lambda: I.call(I.getattr(L, 'flatten_values_contiguous'), [A], {}))
        t = ctx.num('t'); ctx.assume(tag_eq(t.tag, 0)); t = Sc(0, t.val)
        all_, some = z3.RealVal(0), z3.RealVal(0)
        for C in I.tolist(r):
            if not isinstance(C, Obj) or kind(C) != 'IV': ctx.fail('intervals', repr(C)); return
            if discrete: ctx.prove('integer ends', whole_ends(I, C))
            all_, some = all_ + D.measure(C), some + D.measure(C, t)
        ctx.prove('the same measure', all_ == D.measure(A))
        ctx.prove('the same measure up to any number', some == D.measure(A, t))
    return h

def flatten_union(discrete, kinds):
    def h(ctx):
        I, L, D, S, mS, _, env = world(ctx, discrete, False, None)
        ps = [Piece(I, x) for x in kinds]
        made = {}
        def flat(I, f, args, kw):
            if len(args) != 2 or kw or args[0] is not L or not isinstance(args[1], Piece): return MISSING
            made.setdefault(args[1], [Piece(I, 'IV') for _ in range(ps.index(args[1]) % 3)])
            return PList(list(made[args[1]]), I.ctx.depth)
        for k in ('DiscreteLeaf', 'RealLeaf'): I.contracts['%s.%s.flatten_values_contiguous' % (M, k)] = flat
        r = I.tolist(guard(ctx, 'flatten', lambda: I.call(I.getattr(L, 'flatten_values_contiguous'), [Pieces(I, ps)], {})))
        want = [q for p in ps for q in made.get(p, [None])]
        ctx.prove('the parts of all pieces, each once', len(r) == len(want) and all(sum(x is q for x in r) == 1 for q in want))
    return h

def built(discrete, conditioned):
    """The constructor establishes the class invariant."""
    def h(ctx):
        I, L, D, S, mS, A, env = world(ctx, discrete, conditioned, None)
        a = L.attrs
        ctx.prove('the arguments are kept', a['symbol'] is not None and a['dist'] is D and a['support'] is S and a['env'] is env)
        if conditioned: ctx.prove('the normalizing constant is the measure of the support', as_log(a['logZ']).p == mS)
        x = ctx.num('x')
        if discrete: ctx.assume(Implies(tag_eq(x.tag, 0), simp(z3.ToReal(z3.ToInt(x.val)) == x.val)))
        lc = as_log(guard(ctx, 'logcdf', lambda: I.call(I.getattr(L, 'logcdf'), [x], {})))
        t = lift(x)
        tag = I.num_tag(t)
        up = D.measure(S, Sc(0, t.val)) if tag == 0 else (mS if tag > 0 else z3.RealVal(0))
        if conditioned: ctx.prove('logcdf is the cumulative distribution function', lc.p * mS == up)
        else: ctx.prove('logcdf is the cumulative distribution function', lc.p == D.F(x))
    return h

def logpdf(discrete, conditioned):
    def h(ctx):
        I, L, D, S, mS, A, env = world(ctx, discrete, conditioned, None)
        x = ctx.num('x'); ctx.assume(tag_eq(x.tag, 0)); x = Sc(0, x.val)
        d = D.pmf(x) if discrete else D.pdf(x)
        lp = as_log(guard(ctx, 'logpdf', lambda: I.call(I.getattr(L, 'logpdf__'), [x], {})))
        if conditioned:
            want = z3.If(zb(den(I, S, x)), d, z3.RealVal(0))
            ctx.prove('the density is that of the distribution, over the measure of the support, in the support alone', lp.p * mS == want)
        else: ctx.prove('the density is that of the distribution', lp.p == d)
        n = as_log(guard(ctx, 'logpdf of text', lambda: I.call(I.getattr(L, 'logpdf__'), [ctx.string('s')], {})))
        ctx.prove('text has density zero', n.p == 0)
        m = I.call(I.getattr(L, 'logpdf_mem'), [PDict([(L.attrs['symbol'], x)], 0), False], {})
        ctx.prove('the dimension is zero exactly for an atom', simp(I.lift(m[0]).val == (0 if discrete else 1)))
        ctx.prove('logpdf_mem gives the density', as_log(m[1]).p == lp.p)
    return h

def constrain(discrete, conditioned):
    def h(ctx):
        I, L, D, S, mS, A, env = world(ctx, discrete, conditioned, None)
        x = ctx.num('x'); ctx.assume(tag_eq(x.tag, 0)); x = Sc(0, x.val)
        d = D.pmf(x) if discrete else D.pdf(x)
        pos = And(d > 0, den(I, S, x) if conditioned else True)
        try: R = I.call(I.getattr(L, 'constrain_mem'), [PDict([(L.attrs['symbol'], x)], 0), False], {})
        except PyExc: ctx.prove('rejected: the density is zero', Not(pos)); return
        ctx.prove('accepted: the density is positive', pos)
        ctx.prove('a leaf that is the value with certainty', is_cls(R, 'AtomicLeaf') and R.attrs['symbol'] is L.attrs['symbol'] and I.eq(R.attrs['value'], x))
        ctx.prove('the derived variables are kept', I.eq(R.attrs['env'], env))
    return h

def only_base(kind_):
    """Only the variable of the leaf itself can be given a value."""
    def h(ctx):
        I, L, D, S, mS, A, env = world(ctx, kind_ == 'DiscreteLeaf', False, None)
        other = env.pairs[1][0]
        for m in ('logpdf_mem', 'constrain_mem'):
            for asg in ([(other, 1)], [(L.attrs['symbol'], 1), (other, 1)]):
                try: I.call(I.getattr(L, m), [PDict(list(asg), 0), False], {})
                except PyExc: ctx.prove('rejected', True); continue
                ctx.fail('%s of a derived variable is rejected' % m, 'accepted')
    return h

# -- atomic and nominal leaves

def atomic(shape, what):
    def h(ctx):
        I = interp(ctx)
        V, W = variables(I, 2)
        v = ctx.num('v'); ctx.assume(tag_eq(v.tag, 0)); v = Sc(0, v.val)
        env = PDict([(V, V), (W, V)], 0, 'OrderedDict')
        L = guard(ctx, 'constructor', lambda: I.call(cls(I, 'AtomicLeaf'), [V, v, env], {}))
        if what == 'value':
            x = ctx.num('x'); ctx.assume(tag_eq(x.tag, 0))
            same = sc_eq(x, v)
            m = I.call(I.getattr(L, 'logpdf_mem'), [PDict([(V, x)], 0), False], {})
            ctx.prove('the mass is at the value', as_log(m[1]).p == z3.If(zb(same), z3.RealVal(1), z3.RealVal(0)))
            ctx.prove('an atom has dimension zero', I.lift(m[0]).val == 0)
            try: R = I.call(I.getattr(L, 'constrain_mem'), [PDict([(V, x)], 0), False], {})
            except PyExc: ctx.prove('rejected: another value', Not(same)); return
            ctx.prove('accepted: the value', same)
            ctx.prove('the leaf itself', R is L)
            return
        B = Builder(I)
        A = arbitrary(ctx, I, B, shape)
        E = Event(A)
        hit = den(I, A, v)
        p = as_log(guard(ctx, 'logprob', lambda: I.call(I.getattr(L, 'logprob__'), [E], {})))
        ctx.prove('probability one exactly if the value is in the event', p.p == z3.If(zb(hit), z3.RealVal(1), z3.RealVal(0)))
        try: R = I.call(I.getattr(L, 'condition__'), [E], {})
        except PyExc: ctx.prove('rejected: the event has probability zero', Not(hit)); return
        ctx.prove('accepted: the event has positive probability', hit)
        ctx.prove('the leaf itself', R is L)
    return h

def nominal(n, what):
    def h(ctx):
        I = interp(ctx)
        V, = variables(I, 1)
        ks = [ctx.string('k%d' % i) for i in range(n)]
        for i in range(n):
            for j in range(i): ctx.assume(simp(ks[i].term != ks[j].term))
        ws = [ctx.real('w') for _ in range(n)]
        for w in ws: ctx.assume(And(w >= 0, w <= 1))
        sums_to_one(ctx, ws)
        L = guard(ctx, 'constructor', lambda: I.call(cls(I, 'NominalLeaf'), [V, PDict([(k, Sc(0, w)) for k, w in zip(ks, ws)], 0)], {}))
        if what == 'value':
            x = ctx.string('x')
            p = z3.Sum([z3.If(zb(simp(x.term == k.term)), w, z3.RealVal(0)) for k, w in zip(ks, ws)])
            m = guard(ctx, 'logpdf_mem', lambda: I.call(I.getattr(L, 'logpdf_mem'), [PDict([(V, x)], 0), False], {}))
            ctx.prove('the mass of an outcome is its weight', as_log(m[1]).p == p)
            ctx.prove('an atom has dimension zero', I.lift(m[0]).val == 0)
            try: R = I.call(I.getattr(L, 'constrain_mem'), [PDict([(V, x)], 0), False], {})
            except PyExc: ctx.prove('rejected: probability zero', p == 0); return
            ctx.prove('accepted: positive probability', p > 0)
            d = R.attrs['dist'].pairs
            ctx.prove('a leaf that is the value with certainty', is_cls(R, 'NominalLeaf') and R.attrs['symbol'] is V and len(d) == 1 and And(I.eq(d[0][0], x), I.eq(d[0][1], 1)))
            return
        hits = [ctx.bool_('hit%d' % i) for i in range(n)]
        keep = [k for k, b in zip(ks, hits) if ctx.branch(b)]
        S = L.attrs['support']
        A = Sets(I).EmptySet if not keep else Obj(Sets(I).FiniteNominal, dict(values=PSet(list(keep), 0, True), b=False), 0)
        E = Event(Solution(S, A))
        mass = sum((w for k, w in zip(ks, ws) if k in keep), z3.RealVal(0))
        p = as_log(guard(ctx, 'logprob', lambda: I.call(I.getattr(L, 'logprob__'), [E], {})))
        ctx.prove('the probability is the sum of the weights', p.p == mass)
        before = list(L.attrs['dist'].pairs)
        try: R = I.call(I.getattr(L, 'condition__'), [E], {})
        except PyExc: ctx.prove('rejected: the event has probability zero', mass == 0); return
        ctx.prove('accepted: the event has positive probability', mass > 0)
        ctx.prove('the leaf is not modified', L.attrs['dist'].pairs == before)
        ctx.prove('a nominal leaf of the same variable', is_cls(R, 'NominalLeaf') and R.attrs['symbol'] is V)
        for k, w in zip(ks, ws):
            u = z3.RealVal(0)
            for k2, w2 in R.attrs['dist'].pairs:
                if k2 is k: u = I.lift(w2).val
            ctx.prove('the weight is the share in the event', simp(u * mass == (w if k in keep else 0)))
    return h

DC = [(d, c) for d in (False, True) for c in (False, True)]
def name(d, c): return ('conditioned ' if c else '') + ('discrete leaf' if d else 'continuous leaf')
SH = [(0, 0), (1, 0), (0, 1), (0, 2), (2, 0), (1, 1)]
MORE = [(0, 3), (3, 0), (1, 2), (2, 1)]

def tasks(prop, tier):
    from .registry import Task
    out = []
    bound = 'sets of at most 3 pieces'
    if prop == 'C08':
        for d, c in DC:
            out.append(Task('cumulative distribution function of a ' + name(d, c), built(d, c), **F_))
            for s in SH + MORE:
                out.append(Task('probability of %d intervals and %d numbers, %s' % (s + (name(d, c),)), logprob(d, c, s),
                    bound=None if s in ((0, 0), (1, 0)) else bound, weight=1 + sum(s) * (2 if d else 1), tier='quick' if s in SH else 'thorough', budget=120, **F_))
        out += [Task('probability under an atomic leaf of %d intervals and %d numbers' % s, atomic(s, 'event'), bound=bound, **F_) for s in SH]
        out += [Task('probability under a nominal leaf of %d' % n, nominal(n, 'event'), bound='at most 3 outcomes', **F_) for n in (1, 2, 3)]
    if prop == 'C09':
        for d, c in DC:
            for s in ((0, 0), (1, 0), (0, 1), (0, 2)) + (() if d else ((1, 1), (2, 0), (2, 1))):
                out.append(Task('conditioning on %d intervals and %d numbers, %s' % (s + (name(d, c),)), condition(d, c, s),
                    bound=None if s in ((0, 0), (1, 0)) else bound, weight=2 + sum(s) * (4 if d else 2),
                    tier='quick' if sum(s) < 2 else 'thorough', budget=300, **F_))
            for ks in ([], ['IV'], ['FR'], ['FR', 'IV'], ['IV', 'IV'], ['FR', 'IV', 'IV'], ['IV'] * 4):
                out.append(Task('conditioning on %s, by contracts, %s' % (ks, name(d, c)), condition_parts(d, c, ks),
                    bound='at most 4 pieces', weight=1 + len(ks), **F_))
        for d in (False, True):
            for s in ((1, 0), (0, 1), (0, 2)) + (() if d else ((0, 3),)):
                out.append(Task('contiguous parts of %d intervals and %d numbers, %s' % (s + (name(d, False),)), flatten(d, False, s),
                    bound=bound if s != (1, 0) else None, weight=2 + 6 * sum(s), tier='thorough' if d and sum(s) > 2 else 'quick', budget=300, **F_))
            out.append(Task('contiguous parts of a union, %s' % name(d, False), flatten_union(d, ['FR', 'IV', 'IV', 'IV', 'IV']), bound='5 pieces', **F_))
        out += [Task('conditioning an atomic leaf on %d intervals and %d numbers' % s, atomic(s, 'event'), bound=bound, **F_) for s in SH]
        out += [Task('conditioning a nominal leaf of %d' % n, nominal(n, 'event'), bound='at most 3 outcomes', **F_) for n in (1, 2, 3)]
    if prop == 'C10':
        for d, c in DC:
            out += [Task('density of a ' + name(d, c), logpdf(d, c), **F_), Task('constraining a ' + name(d, c), constrain(d, c), **F_)]
        out += [Task('values of derived variables, %s' % k, only_base(k), **F_) for k in ('ContinuousLeaf', 'DiscreteLeaf')]
        out += [Task('density of an atomic leaf', atomic((0, 0), 'value'), **F_)]
        out += [Task('density of a nominal leaf of %d' % n, nominal(n, 'value'), bound='at most 3 outcomes', **F_) for n in (1, 2, 3)]
    return out

_A = ['a distribution of scipy is given by its cumulative distribution function F: monotone, with limits 0 and 1; discrete ones live on the integers and have pmf(k) = F(k) - F(k-1); continuous ones have no atoms',
    'the support passed for an unconditioned leaf has all the mass (C17)', 'floating-point numbers are real numbers']
ASSUMPTIONS = {p: _A for p in ('C08', 'C09', 'C10')}
ASSUMPTIONS['C09'] = _A + ['support & solution is the intersection (contract of &, C01); distributions agree if they agree on the half-lines (-inf, t]']
ASSUMPTIONS['C08'] = _A + ['support & solution is the intersection (contract of &, C01)']
