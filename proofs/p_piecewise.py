"""Contracts of Piecewise transforms (C22)."""
from .p_events import *
from .p_arith import arith
from .p_transforms import invert_contract

class Parts:
    """Any number of branches with arbitrary expressions and guards."""
    def __init__(self, ctx, I, pt, disjoint=True):
        self.I, self.pt = I, pt
        b = self.b = Base(ctx, 'Br', least=1)
        u = z3.Function(ctx.fresh('value'), z3.IntSort(), z3.RealSort())
        d = z3.Function(ctx.fresh('defined'), z3.IntSort(), z3.BoolSort())
        t = self.t = z3.Function(ctx.fresh('guard'), z3.IntSort(), z3.BoolSort())
        self.sub = lambda i: Sub(I, pt, 'e', value=Sc(0, u(i)), defined=d(i))
        self.ev = lambda i: Ev(I, pt, 'g', truth=t(i), defined=True)
        # the branch of the point, if it has one
        self.some = ctx.bool_('in_domain')
        w = self.w = b.index('branch')
        ctx.assume(Implies(self.some, And(b.inside(w), t(w))))
        ctx.assume_forall(b.sort, lambda i: Implies(And(b.inside(i), t(i)), self.some))
        if disjoint: ctx.assume_forall(b.sort, lambda i: Implies(And(b.inside(i), t(i)), i == w))
        else: ctx.assume_forall(b.sort, lambda i: Implies(And(b.inside(i), t(i)), i >= w))
        self.value, self.defined = Sc(0, u(w)), d(w)
        doms = [None]
        self.subexprs = Family(I, b.all_, self.sub)
        self.events = Family(I, b.all_, self.ev)
        self.domains = Family(I, b.all_, lambda i: at_point(I, pt, t(i)))
        self.obj = Obj(cls(I, 'Piecewise'), dict(subexprs=self.subexprs, events=self.events,
            symbols=PSet(['X'], 0, True), domains=self.domains), 0)

def evaluation(disjoint):
    def h(ctx):
        I = event_interp(ctx); pt = Point(ctx)
        P = Parts(ctx, I, pt, disjoint)
        # undefined at a point outside every region, and where the branch is undefined
        try: v = I.lift(I.call(I.getattr(P.obj, 'evaluate'), [PDict([], 0)], {}))
        except PyExc as e:
            ctx.prove('undefined outside the regions', Or(Not(P.some), Not(P.defined)))
            ctx.prove('undefined: ValueError', e.cls is ValueError)
            return
        ctx.prove('defined only within a region', And(P.some, P.defined))
        ctx.prove('value of the branch of the region', sc_eq(v, P.value))
    return h

def inverse(ctx):
    I = event_interp(ctx); pt = Point(ctx)
    P = Parts(ctx, I, pt)
    spec = lambda S: And(P.some, P.defined, S.has(P.value))
    invert_contract(I, P.obj, pt, spec)
    def c_range(I, f, a, k):
        r = ASet.fresh(I, 'range', strs=False)
        ctx.assume(Implies(And(P.some, P.defined), r.has(P.value)))
        return r
    I.contracts[T + '.Piecewise.range'] = c_range
    S = ASet.fresh(I, 'S')
    R = lift_set(I, guard(ctx, 'invert', lambda: I.call(I.getattr(P.obj, 'invert'), [S], {})))
    if R is None: ctx.fail('invert: a set', 'not a set'); return
    x0 = Sc(0, pt.x0)
    ctx.prove('every solution has its value in the set', Implies(R.has(x0), spec(S)))
    ctx.prove('every number with its value in the set is a solution', Implies(spec(S), R.has(x0)))

def values(ctx):
    I = event_interp(ctx); pt = Point(ctx)
    P = Parts(ctx, I, pt)
    R = lift_set(I, guard(ctx, 'range', lambda: I.call(I.getattr(P.obj, 'range'), [], {})))
    ctx.prove('the range has every value', Implies(And(P.some, P.defined), R.has(P.value)))

def domain(ctx):
    I = event_interp(ctx); pt = Point(ctx)
    P = Parts(ctx, I, pt)
    R = lift_set(I, guard(ctx, 'domain', lambda: I.call(I.getattr(P.obj, 'domain'), [], {})))
    ctx.prove('the domain is the union of the regions', Iff(R.has(Sc(0, pt.x0)), P.some))

class Solved(Ev):
    """An event with a given solution set."""
    def __init__(self, I, pt, S): Ev.__init__(self, I, pt, 'event', truth=S.has(Sc(0, pt.x0)), defined=True); self.S = S
    def m_solve(self, I, a, k): return self.S

def disjoint_regions(n):
    """What n regions are accepted only if no two have a common outcome."""
    def h(ctx):
        I = event_interp(ctx); pt = Point(ctx)
        Ds = [ASet.fresh(I, 'D%d' % i) for i in range(n)]
        F = I.modules[T].ns['get_piecewise_domains']
        try: r = I.call(F, [PList([Solved(I, pt, D) for D in Ds], 0)], {})
        except PyExc as e:
            ctx.prove('overlapping regions: ValueError', e.cls is ValueError)
            return
        for x in (ctx.num('x'), ctx.string('s')):
            ctx.prove('accepted regions do not overlap', And(*[Not(And(Ds[i].has(x), Ds[j].has(x))) for i in range(n) for j in range(i)]))
    return h

def rejected_only_if_overlapping(n):
    """With n regions that do not overlap, nothing is raised."""
    def h(ctx):
        I = event_interp(ctx); pt = Point(ctx)
        Ds = [ASet.fresh(I, 'D%d' % i) for i in range(n)]
        for i in range(n):
            for j in range(i):
                A, B = Ds[i], Ds[j]
                ctx.assume_forall('R', lambda t, A=A, B=B: Not(And(A.mem(t), B.mem(t))))
                ctx.assume_forall('S', lambda t, A=A, B=B: Not(And(A.smem(t), B.smem(t))))
                ctx.assume(And(Not(And(A.pinf, B.pinf)), Not(And(A.ninf, B.ninf))))
        F = I.modules[T].ns['get_piecewise_domains']
        r = guard(ctx, 'regions', lambda: I.call(F, [PList([Solved(I, pt, D) for D in Ds], 0)], {}))
        x = ctx.num('x')
        out = I.tolist(r)
        ctx.prove('one domain for each event', len(out) == n)
        for D, R in zip(Ds, out): ctx.prove('the domain is the solution of the event', Iff(lift_set(I, R).has(x), D.has(x)))
    return h

def construction(n, m):
    """Piecewise([..n], [..m]) with guards about the variables given."""
    def h(ctx):
        I = interp(ctx); pt = Point(ctx)
        subs = [Sub(I, pt, 'e%d' % i, infinite=False) for i in range(n)]
        evs = [Ev(I, pt, 'g%d' % i, defined=True) for i in range(m)]
        same = True
        for s in subs + evs:
            if ctx.branch(ctx.bool_('other_variable')): s.symbols = PSet(['Y'], 0, True)
        vs = {v for s in subs + evs for v in s.symbols.items}
        for i in range(m):
            for j in range(i): ctx.assume(Not(And(evs[i].t, evs[j].t)))
        # regions are compared by the contract proved above
        I.contracts[T + '.get_piecewise_domains'] = lambda I, f, a, k: PList([e.m_solve(I, [], {}) for e in I.tolist(a[0])], 0)
        try: P = I.call(cls(I, 'Piecewise'), [PList(list(subs), 0), PList(list(evs), 0)], {})
        except PyExc as e:
            ctx.prove('rejected: different numbers of expressions and regions, or different variables', n != m or len(vs) > 1)
            ctx.prove('rejected: ValueError', e.cls is ValueError)
            return
        ctx.prove('accepted: one region for each expression, about one variable', n == m and len(vs) == 1)
        if n != m: return
        for o in subs: ctx.assume(o.d)
        try: v = I.lift(I.call(I.getattr(P, 'evaluate'), [PDict([], 0)], {}))
        except PyExc as e:
            ctx.prove('undefined outside the regions', And(*[Not(e.t) for e in evs])); return
        ctx.prove('value of the branch of the region', And(*[Implies(e.t, sc_eq(v, s.u)) for s, e in zip(subs, evs)]))
        ctx.prove('defined only within a region', Or(*[e.t for e in evs]))
    return h

def product(swap):
    def h(ctx):
        I = arith(ctx, event_interp(ctx)); pt = Point(ctx)
        s = Sub(I, pt, 'e', infinite=False, defined=True)
        S = ASet.fresh(I, 'S')
        ctx.assume(S.is_kind(aset.IV))
        E = I.call(cls(I, 'EventInterval'), [Sub(I, pt, 'g', infinite=False, defined=True), S], {})
        P = guard(ctx, 'expression * event', lambda: I.call(meth(I, 'Transform', '__mul__'), [s, E], {}) if not swap
            else I.call(meth(I, 'Event', '__mul__'), [E, s], {}))
        t = S.has(E.attrs['subexpr'].u)
        try: v = I.lift(I.call(I.getattr(P, 'evaluate'), [PDict([], 0)], {}))
        except PyExc as e:
            ctx.prove('undefined outside the region', Not(t)); return
        ctx.prove('value within the region', And(t, sc_eq(v, s.u)))
    return h

def addition(n, m):
    """The sum of two piecewise expressions has the branches of both."""
    def h(ctx):
        I = event_interp(ctx); pt = Point(ctx)
        I.contracts[T + '.get_piecewise_domains'] = lambda I, f, a, k: PList([e.m_solve(I, [], {}) for e in I.tolist(a[0])], 0)
        parts = []
        for k in (n, m):
            parts.append(([Sub(I, pt, 'e', infinite=False, defined=True) for i in range(k)], [Ev(I, pt, 'g', defined=True) for i in range(k)]))
        evs, subs = parts[0][1] + parts[1][1], parts[0][0] + parts[1][0]
        for i in range(n + m):
            for j in range(i): ctx.assume(Not(And(evs[i].t, evs[j].t)))
        P, Q = [guard(ctx, 'Piecewise', lambda: I.call(cls(I, 'Piecewise'), [PList(list(s), 0), PList(list(e), 0)], {})) for s, e in parts]
        R = guard(ctx, 'sum', lambda: I.binop(ast.Add, P, Q))
        try: v = I.lift(I.call(I.getattr(R, 'evaluate'), [PDict([], 0)], {}))
        except PyExc as e:
            ctx.prove('undefined outside the regions', And(*[Not(e.t) for e in evs])); return
        ctx.prove('value of the branch of the region', And(Or(*[e.t for e in evs]), *[Implies(e.t, sc_eq(v, s.u)) for s, e in zip(subs, evs)]))
    return h

def tasks(prop, tier):
    if prop != 'C22': return []
    B = 'at most 3 branches'
    out = [Task('evaluation, any number of disjoint regions', evaluation(True), **F_),
        Task('inverse image, any number of regions', inverse, weight=3, **F_),
        Task('range, any number of regions', values, **F_),
        Task('domain, any number of regions', domain, **F_),
        ]
    out += [Task('overlapping regions among %d are rejected' % n, disjoint_regions(n), bound=B, weight=n, **F_) for n in (2, 3)]
    out += [Task('%d regions that do not overlap are accepted' % n, rejected_only_if_overlapping(n), bound=B, weight=n, **F_) for n in (1, 2, 3)]
    out += [Task('construction from %d expressions and %d regions' % (n, m), construction(n, m), bound='at most 2 branches', weight=n + m, **F_) for n in (1, 2) for m in (1, 2)]
    out += [Task('expression * event', product(False), **F_), Task('event * expression', product(True), **F_)]
    out += [Task('sum of piecewise expressions with %d and %d branches' % (n, m), addition(n, m), bound='at most 2 branches each', **F_) for n in (1, 2) for m in (1, 2)]
    return out

ASSUMPTIONS = {'C22': [
    'numbers are exact reals with two infinities; rounding is not modelled',
    'the branches and guards are seen through the contracts proved for C03 and C05, at an arbitrary number; guards are defined there',
    'operators of sppl.sets satisfy the contracts proved for C01 and C02',
]}
