"""Contracts of queries to mixtures and products (C08, C09): an event is
normalized, split into disjoint clauses and factored (contracts of dnf.py,
C06), and answered by the _mem method of the model."""
from .modelspec import *
from .registry import Task

F_ = dict(fast_ms=150, linear=True)

class Union_:
    """An event that is a union of clauses, as built by the code."""
    def __init__(self, W, clauses, normal=False, disjoint=False, single=None):
        self.W, self.clauses = W, frozenset(clauses)
        self.normal, self.disjoint = normal, disjoint
        self.single = len(self.clauses) == 1 if single is None else single
    def __repr__(self): return 'Union%s' % (sorted(self.clauses),)
    def vc_truth(self, I): return True
    def vc_eq(self, I, o): return isinstance(o, Union_) and self.clauses == o.clauses
    def vc_isinstance(self, I, t):
        n = getattr(t, 'name', '')
        return n == 'Event' or self.normal and n == ('EventAnd' if self.single else 'EventOr')
    def vc_attr(self, I, name):
        if name == 'subexprs' and self.normal and not self.single:
            return PList([Union_(self.W, [c], True, True, True) for c in sorted(self.clauses)], 0)
        return MISSING

class Factored:
    def __init__(self, ev): self.ev = ev
    def vc_truth(self, I): return True

class World:
    def __init__(self, I, n):
        self.I, self.n, self.known = I, n, {}
    def P(self, clauses):
        """Probability of a union of clauses."""
        ctx, k = self.I.ctx, frozenset(clauses)
        if not k: return z3.RealVal(0)
        if k not in self.known:
            t = ctx.real('P')
            ctx.assume(And(t >= 0, t <= 1))
            for j, u in self.known.items():
                if j <= k: ctx.assume(u <= t)
                if k <= j: ctx.assume(t <= u)
            self.known[k] = t
            if len(k) > 1: ctx.assume(t <= sum((self.P([c]) for c in k), z3.RealVal(0)))
        return self.known[k]

def query(what, n, kind, possible, memo):
    def h(ctx):
        I = interp(ctx)
        W = World(I, n)
        event = Union_(W, range(n))
        asked = []
        def normalize(I, f, a, k):
            asked.append(a[0])
            if a[0] is not event: raise Unsupported('normalizes another event')
            if not possible: return None
            return Union_(W, range(n), True, n == 1)
        def factor(I, f, a, k):
            if len(a) != 1 or k or not isinstance(a[0], Union_) or not a[0].normal: raise Unsupported('factors %r' % (a,))
            return Factored(a[0])
        def disjoint(I, f, a, k):
            if not isinstance(a[0], Union_) or not a[0].normal: raise Unsupported('disjoint union of %r' % (a,))
            return Union_(W, a[0].clauses, True, True, a[0].single)
        for nm, c in (('dnf_normalize', normalize), ('dnf_factor', factor), ('dnf_to_disjoint_union', disjoint)):
            I.contracts['sppl.dnf.' + nm] = c
        def rebuild(I, f, a, k):
            es = I.tolist(a[0])
            if not all(isinstance(e, Union_) and e.normal and e.single for e in es): raise Unsupported('EventOr of %r' % (es,))
            return Union_(W, [c for e in es for c in e.clauses], True, len(es) == 1, False)
        I.contracts['sppl.transforms.EventOr'] = rebuild
        C = cls(I, kind)
        tables = []
        def lp(I, a, k):
            if not isinstance(a[0], Factored): raise Unsupported('logprob_mem')
            tables.append(a[1] if len(a) > 1 else k.get('memo'))
            return LogV(W.P(a[0].ev.clauses))
        answers = []
        def cond(I, a, k):
            if not isinstance(a[0], Factored): raise Unsupported('condition_mem')
            tables.append(a[1] if len(a) > 1 else k.get('memo'))
            ctx.prove('condition_mem: the clauses are disjoint', a[0].ev.disjoint)
            if not ctx.branch(simp(W.P(a[0].ev.clauses) > 0)): I.throw(ValueError, 'zero')
            answers.append((a[0].ev.clauses, object()))
            return Given(a[0].ev.clauses)
        me = Obj(C, {'logprob_mem': NativeF('logprob_mem', lp), 'condition_mem': NativeF('condition_mem', cond)}, 0)
        args = [event]
        table = None
        if memo:
            table = I.call(cls(I, 'Memo'), [], {})
            args.append(table)
        p = W.P(range(n)) if possible else z3.RealVal(0)
        if what == 'logprob':
            r = as_log(guard(ctx, 'logprob', lambda: I.call(I.getattr(me, 'logprob'), args, {})))
            ctx.prove('the probability of the event', r.p == p)
        else:
            try: r = I.call(I.getattr(me, 'condition'), args, {})
            except PyExc: ctx.prove('rejected: the event has probability zero', p == 0); return
            ctx.prove('accepted: the event has positive probability', p > 0)
            if not isinstance(r, Given): ctx.fail('a conditioned model', repr(r)); return
            gone = [c for c in range(n) if c not in r.clauses]
            ctx.prove('conditioned on the event, but for clauses of probability zero', And(*[W.P([c]) == 0 for c in gone]))
        ctx.prove('the event asked is the one normalized', bool(asked) and all(a is event for a in asked))
        if memo: ctx.prove('the memo table given is used', all(t is table for t in tables))
        else: ctx.prove('a memo table of its own is used', all(isinstance(t, Obj) and t.cls.name == 'Memo' for t in tables))
    return h

class Given:
    def __init__(self, clauses): self.clauses = clauses

def tasks(prop, tier):
    out = []
    what = {'C08': 'logprob', 'C09': 'condition'}.get(prop)
    if what is None: return out
    for kind in ('SumSPE', 'ProductSPE'):
        for memo in (False, True):
            for n in (1, 2, 3, 4):
                out.append(Task('%s.%s of %d clauses%s' % (kind, what, n, ' with a memo table' if memo else ''), query(what, n, kind, True, memo),
                    bound='at most 4 clauses' if what == 'condition' else None, **F_))
            out.append(Task('%s.%s of an impossible event%s' % (kind, what, ' with a memo table' if memo else ''), query(what, 1, kind, False, memo), **F_))
    return out

ASSUMPTIONS = {p: ['contracts of dnf_normalize, dnf_to_disjoint_union and dnf_factor (C06): an equivalent event in disjunctive normal form, or None if it is impossible; disjoint clauses; one entry for each clause'] for p in ('C08', 'C09')}
