"""Contracts of normal forms (C06), at one arbitrary assignment.

A variable V has the value x_V there.  An arbitrary literal or event holds
there or does not; the contracts of &, |, ~ and << on events (C05) say when
the events they build hold, and that of solve when the value is in the set.
"""
import ast
from .p_events import *
from .p_events import is_event
from .trspec import interp as plain

F_ = dict(fast_ms=150, linear=True)
D = 'sppl.dnf'

def ident(I, name): return I.call(cls(I, 'Identity'), [name], {})
def tok(I, s): return I.getattr(s, 'token')

class E:
    """An event: whether it holds, its variables, its class if known."""
    def __init__(self, w, t, syms, kind=None, dnf=False, lits=None, parts=None, sat=None):
        self.w, self.t, self.syms, self.kind, self.dnf, self.lits, self.parts, self.sat = w, t, tuple(syms), kind, dnf, lits, parts, sat
    def __repr__(self): return 'E(%s)' % (self.t,)
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_isinstance(self, I, t):
        n = getattr(t, 'name', '')
        if n in ('Transform', 'Event'): return True
        if n not in ('EventBasic', 'EventAnd', 'EventOr', 'EventCompound'): return False
        if self.kind is None: raise Unsupported('class of an arbitrary event')
        return n == self.kind or n == 'EventCompound' and self.kind != 'EventBasic'
    def vc_attr(self, I, name):
        m = getattr(self, 'm_' + name, None)
        if m is not None: return NativeF(name, m)
        if name == 'symbols': return PSet(list(self.syms), 0, True)
        if name == 'subexpr' and self.kind == 'EventBasic' and self.parts is not None: return self.parts
        if name == 'subexprs' and self.dnf and self.kind in ('EventAnd', 'EventOr') and self.parts is not None: return tuple(self.parts)
        return MISSING
    def m_get_symbols(self, I, a, k): return PSet(list(self.syms), 0, True)
    def m_evaluate(self, I, a, k): return self.t
    def m_solve(self, I, a, k): return self.w.solution(self)
    def m_to_dnf(self, I, a, k): return self.w.to_dnf(self)
    def m_to_dnf_list(self, I, a, k):
        if self.lits is None: raise Unsupported('clauses of an arbitrary event')
        return PList([PList(list(c), I.ctx.depth) for c in self.lits], I.ctx.depth)
    def vc_binop(self, I, op, o, r):
        if op not in (ast.BitAnd, ast.BitOr): raise Unsupported('operator on an event')
        if isinstance(o, Obj) and is_event(I, o): o = self.w.seen(I, o)
        if not isinstance(o, E): return NotImplemented
        a, b = (o, self) if r else (self, o)
        f = And if op is ast.BitAnd else Or
        e = E(self.w, f(a.t, b.t), union(I, a.syms, b.syms))
        if op is ast.BitOr: e.pieces = getattr(a, 'pieces', [a]) + getattr(b, 'pieces', [b])
        else: e.conj = getattr(a, 'conj', [a]) + getattr(b, 'conj', [b])
        return e
    def vc_unary(self, I, op):
        if op is not ast.Invert: raise Unsupported('operator on an event')
        return E(self.w, Not(self.t), self.syms)
    def vc_eq(self, I, o):
        if self is o: return True
        raise Unsupported('equality of events')
    def vc_hash(self, I): raise Unsupported('hash of an event')

def union(I, a, b):
    out = list(a)
    for s in b:
        if not any(tok(I, s) == tok(I, t) for t in out): out.append(s)
    return out

class World:
    def __init__(self, ctx, n=3):
        self.ctx = ctx
        I = self.I = plain(ctx)
        self.V = [ident(I, 'V%d' % i) for i in range(n)]
        # numbers only: a nominal variable is one whose sets have no numbers
        self.x = [ctx.num('x%d' % i) for i in range(n)]
        for x in self.x: ctx.assume(tag_eq(x.tag, 0))
        self.x = [Sc(0, x.val) for x in self.x]
        self.solved = {}
        I.externals['itertools.combinations'] = NativeF('combinations', self.combos)
    def combos(self, I, a, k):
        import itertools
        return PList(list(itertools.combinations(I.tolist(a[0]), a[1])), I.ctx.depth)
    def val(self, s): return self.x[int(tok(self.I, s)[1:])]
    def lit(self, i, plain_=None):
        """An arbitrary literal about a variable."""
        return E(self, self.ctx.bool_('l'), [self.V[i]], 'EventBasic', True)
    def real(self, kind, parts):
        return self.I.call(cls(self.I, kind), [PList(list(parts), 0)], {})
    def formula(self, shape):
        """A DNF event of the given shape: clauses of variables of literals.
        Single literals and clauses stand alone, as to_dnf leaves them."""
        cs = [[self.lit(i) for i in c] for c in shape]
        ks = [c[0] if len(c) == 1 else self.real('EventAnd', c) for c in cs]
        e = ks[0] if len(ks) == 1 else self.real('EventOr', ks)
        return e, cs, ks
    def truth(self, e):
        """Whether an event object built by the code holds."""
        I = self.I
        if isinstance(e, E): return e.t
        if isinstance(e, Obj) and e.cls.name in ('EventAnd', 'EventOr'):
            ts = [self.truth(s) for s in I.tolist(e.attrs['subexprs'])]
            return (And if e.cls.name == 'EventAnd' else Or)(*ts)
        raise Unsupported('truth of %r' % (e,))
    def seen(self, I, o):
        return E(self, self.truth(o), I.tolist(I.call(I.getattr(o, 'get_symbols'), [], {})))
    def solution(self, e):
        """The contract of solve, for an event on one variable."""
        if len(e.syms) != 1: self.I.throw(ValueError, 'Cannot solve multi-symbol Event.')
        if id(e) not in self.solved:
            S = ASet.fresh(self.I, 'S')
            self.ctx.assume(Iff(S.has(self.val(e.syms[0])), e.t))
            self.solved[id(e)] = (e, S)
        return self.solved[id(e)][1]
    def to_dnf(self, e):
        return E(self, e.t, e.syms, None, True)
    def is_dnf(self, e):
        """A literal, a conjunction of literals, or a disjunction of those."""
        I = self.I
        lit = lambda x: isinstance(x, E) and x.kind == 'EventBasic'
        conj = lambda x: lit(x) or is_kind(x, 'EventAnd') and all(lit(y) for y in I.tolist(x.attrs['subexprs']))
        return conj(e) or is_kind(e, 'EventOr') and all(conj(y) for y in I.tolist(e.attrs['subexprs']))

def is_kind(x, k): return isinstance(x, Obj) and x.cls.name == k

# -- to_dnf

def dnf_list(kind, shapes):
    """to_dnf_list of a compound, from the contracts of its events."""
    def h(ctx):
        W = World(ctx); I = W.I
        subs = []
        for sh in shapes:
            lits = [[W.lit(i) for i in c] for c in sh]
            subs.append(E(W, Or(*[And(*[l.t for l in c]) for c in lits]), [W.V[i] for i in sorted({i for c in sh for i in c})], None, lits=lits))
        C = W.real(kind, subs)
        want = (And if kind == 'EventAnd' else Or)(*[s.t for s in subs])
        r = guard(ctx, 'to_dnf_list', lambda: I.call(I.getattr(C, 'to_dnf_list'), [], {}))
        cs = [I.tolist(c) for c in I.tolist(r)]
        ctx.prove('clauses of literals', all(isinstance(l, E) and l.kind == 'EventBasic' for c in cs for l in c))
        ctx.prove('no clause is empty', all(cs) and bool(cs))
        ctx.prove('the clauses hold exactly when the event does', Iff(Or(*[And(*[l.t for l in c]) for c in cs]), want))
        if sum(len(c) for c in cs) <= 8:
            e = guard(ctx, 'to_dnf', lambda: I.call(I.getattr(C, 'to_dnf'), [], {}))
            ctx.prove('to_dnf: a disjunctive normal form', W.is_dnf(e))
            ctx.prove('to_dnf: it holds exactly when the event does', Iff(W.truth(e), want))
    return h

def dnf_literal(kind):
    def h(ctx):
        W = World(ctx); I = W.I
        X = W.V[0]
        S = ASet.fresh(I, 'S')
        ctx.assume(S.is_kind({'EventInterval': aset.IV, 'EventFiniteReal': aset.FR, 'EventFiniteNominal': aset.FN}[kind]))
        L = guard(ctx, kind, lambda: I.call(cls(I, kind), [X, S], {}))
        r = [I.tolist(c) for c in I.tolist(guard(ctx, 'to_dnf_list', lambda: I.call(I.getattr(L, 'to_dnf_list'), [], {})))]
        ctx.prove('the literal itself', len(r) == 1 and len(r[0]) == 1 and r[0][0] is L)
        ctx.prove('to_dnf: the literal itself', guard(ctx, 'to_dnf', lambda: I.call(I.getattr(L, 'to_dnf'), [], {})) is L)
    return h

# -- grouping of literals

def factored(shape, lookup):
    def h(ctx):
        W = World(ctx); I = W.I
        e, cs, ks = W.formula(shape)
        look = None if lookup is None else PDict([(v, k) for v, k in zip(W.V, lookup)], 0)
        f = I.modules[D].ns['dnf_factor']
        r = I.tolist(guard(ctx, 'dnf_factor', lambda: I.call(f, [e] + ([look] if look is not None else []), {})))
        ctx.prove('one group of literals for each clause', len(r) == len(cs) and all(isinstance(d, PDict) for d in r))
        for d, c in zip(r, cs):
            ctx.prove('the groups of a clause hold exactly when it does', Iff(And(*[W.truth(v) for _, v in d.pairs]), And(*[l.t for l in c])))
            for k, v in d.pairs:
                vs = I.tolist(I.call(I.getattr(v, 'get_symbols'), [], {}))
                if lookup is None: ok = len(vs) == 1 and isinstance(k, Obj) and tok(I, k) == tok(I, vs[0])
                else: ok = bool(vs) and all(lookup[int(tok(I, s)[1:])] == k for s in vs)
                ctx.prove('a group has the literals of its variables alone', ok)
            ctx.prove('one group for each key', len(d.pairs) == len({tok(I, k) if isinstance(k, Obj) else k for k, _ in d.pairs}))
    return h

# -- events on plain variables

def c_in(W):
    def c(I, f, a, k):
        S = lift_set(I, a[1])
        if S is None or not is_kind(a[0], 'Identity'): return MISSING
        return E(W, S.has(W.val(a[0])), [a[0]])
    return c

def c_factor(W, event, clauses):
    def c(I, f, a, k):
        if a[0] is not event or len(a) > 1 or k: return MISSING
        return tuple(PDict(list(c), I.ctx.depth) for c in clauses)
    return c

def groups(W, shape):
    """What dnf_factor returns for a formula: an event for each variable."""
    return [[(W.V[i], E(W, W.ctx.bool_('g'), [W.V[i]])) for i in c] for c in shape]

def normalize(shape):
    def h(ctx):
        W = World(ctx); I = W.I
        I.contracts[T + '.Transform.__lshift__'] = c_in(W)
        gs = groups(W, shape)
        want = Or(*[And(*[g.t for _, g in c]) for c in gs])
        dnf = E(W, want, W.V, None, True)
        event = E(W, want, W.V, 'EventOr')
        event.m_to_dnf = lambda I, a, k: dnf
        I.contracts[D + '.dnf_factor'] = c_factor(W, dnf, gs)
        r = guard(ctx, 'dnf_normalize', lambda: I.call(I.modules[D].ns['dnf_normalize'], [event], {}))
        if r is None:
            ctx.prove('no solution is reported only if there is none', Not(want))
            return
        ctx.prove('a disjunctive normal form', isinstance(r, E) and r.dnf)
        ctx.prove('it holds exactly when the event does', Iff(W.truth(r), want))
    return h

def normalize_literal(on_variable):
    def h(ctx):
        W = World(ctx); I = W.I
        I.contracts[T + '.Transform.__lshift__'] = c_in(W)
        e = E(W, ctx.bool_('e'), [W.V[0]], 'EventBasic', True)
        sub = W.V[0] if on_variable else Sub(I, Point(ctx))
        e.parts = sub
        e.m_to_dnf = lambda I, a, k: e
        I.contracts[D + '.dnf_factor'] = c_factor(W, e, [[(W.V[0], e)]])
        r = guard(ctx, 'dnf_normalize', lambda: I.call(I.modules[D].ns['dnf_normalize'], [e], {}))
        if r is None: ctx.prove('no solution is reported only if there is none', Not(e.t)); return
        ctx.prove('it holds exactly when the event does', Iff(W.truth(r), e.t))
        ctx.prove('on the variable', on_variable or r is not e)
    return h

# -- disjoint clauses

def overlaps(shape):
    """Clauses that are not said to overlap have no common solution."""
    def h(ctx):
        W = World(ctx); I = W.I
        gs = groups(W, shape)
        event = E(W, Or(*[And(*[g.t for _, g in c]) for c in gs]), W.V, 'EventOr', True)
        I.contracts[D + '.dnf_factor'] = c_factor(W, event, gs)
        r = guard(ctx, 'dnf_non_disjoint_clauses', lambda: I.call(I.modules[D].ns['dnf_non_disjoint_clauses'], [event], {}))
        if not isinstance(r, PDict): ctx.fail('a dictionary', repr(r)); return
        said = {}
        for k, v in r.pairs:
            js = I.tolist(v)
            ctx.prove('earlier clauses', isinstance(k, int) and all(isinstance(j, int) and 0 <= j < k < len(gs) for j in js))
            said[k] = js
        for j in range(len(gs)):
            for i in range(j):
                both = And(*[g.t for c in (gs[i], gs[j]) for _, g in c])
                if i not in said.get(j, []): ctx.prove('clauses that are not said to overlap are disjoint', Not(both))
                else:
                    # used for termination: the earlier clause has a solution
                    for _, g in gs[i]: ctx.prove('a clause that overlaps another has a solution', W.solution(g).nonempty())
    return h

def disjoint(n):
    """dnf_to_disjoint_union of n clauses, by the contracts of what it calls;
    for the recursive calls, of itself."""
    def h(ctx):
        W = World(ctx); I = W.I
        cs = [E(W, ctx.bool_('c%d' % i), [W.V[i % 3]], sat=ctx.bool_('sat%d' % i)) for i in range(n)]
        for c in cs: ctx.assume(Implies(c.t, c.sat))
        event = E(W, Or(*[c.t for c in cs]), W.V, 'EventOr', True, parts=cs)
        over = []
        def c_over(I, f, a, k):
            if a[0] is not event: return MISSING
            out = PDict([], I.ctx.depth)
            for j in range(n):
                js = []
                for i in range(j):
                    if ctx.branch(ctx.bool_('overlap')): ctx.assume(cs[i].sat); js.append(i)
                    else: ctx.assume(Not(And(cs[i].t, cs[j].t)))
                if js: out.pairs.append((j, PList(js, I.ctx.depth)))
            over.append(out)
            return out
        I.contracts[D + '.dnf_non_disjoint_clauses'] = c_over
        def c_norm(I, f, a, k):
            e = a[0]
            if not isinstance(e, E): return MISSING
            if ctx.branch(ctx.bool_('no_solution')):
                ctx.assume(Not(e.t))
                if e.sat is not None: ctx.assume(Not(e.sat))
                return None
            return E(W, e.t, e.syms, None, True)
        I.contracts[D + '.dnf_normalize'] = c_norm
        F = I.modules[D].ns['dnf_to_disjoint_union']
        started = []
        def c_self(I, f, a, k):
            if not started: started.append(1); return MISSING
            e = a[0]
            if not (isinstance(e, E) and e.dnf and e is not event): ctx.fail('recursion on a normal form', repr(e)); return e
            r = E(W, e.t, e.syms, None, True)
            r.exclusive = True
            return r
        I.contracts[D + '.dnf_to_disjoint_union'] = c_self
        # reduce of an empty list: some clause of those that overlap has a solution
        r = guard(ctx, 'dnf_to_disjoint_union', lambda: I.call(F, [event], {}))
        if r is event: parts = cs
        else:
            if not isinstance(r, E): ctx.fail('an event', repr(r)); return
            parts = getattr(r, 'pieces', [r])
            ctx.prove('unions of exclusive clauses', all(getattr(p, 'exclusive', False) for p in parts))
        ctx.prove('it holds exactly when the event does', Iff(Or(*[p.t for p in parts]), event.t))
        for i in range(len(parts)):
            for j in range(i): ctx.prove('clauses are mutually exclusive', Not(And(parts[i].t, parts[j].t)))
    return h

def disjoint_single(kind):
    def h(ctx):
        W = World(ctx); I = W.I
        e = W.lit(0) if kind == 'EventBasic' else W.real('EventAnd', [W.lit(0), W.lit(1), W.lit(0)])
        r = guard(ctx, 'dnf_to_disjoint_union', lambda: I.call(I.modules[D].ns['dnf_to_disjoint_union'], [e], {}))
        ctx.prove('a single clause stays', r is e or Iff(W.truth(r), W.truth(e)))
    return h

def event_of(shape):
    """event_factor_to_event is the union of its clauses."""
    def h(ctx):
        W = World(ctx); I = W.I
        gs = [[(k, E(W, ctx.bool_('g'), [W.V[k]])) for k in c] for c in shape]
        fac = tuple(PDict(list(c), 0) for c in gs)
        r = guard(ctx, 'event_factor_to_event', lambda: I.call(I.modules['sppl.spe'].ns['event_factor_to_event'], [fac], {}))
        ctx.prove('it holds exactly when some clause does', Iff(W.truth(r), Or(*[And(*[g.t for _, g in c]) for c in gs])))
    return h

def tasks(prop, tier):
    if prop != 'C06': return []
    out = []
    Bd = 'at most 3 events of at most 2 clauses'
    S = {'literal': [[0]], 'conjunction': [[0, 1]], 'disjunction': [[0], [1]], 'both': [[0, 1], [2]], 'four': [[0, 1], [1, 2]]}
    mixes = [[a] for a in S] + [[a, b] for a in S for b in S] + [['literal', 'disjunction', 'both'], ['disjunction', 'disjunction', 'disjunction'], ['conjunction', 'literal', 'both'], ['both', 'four', 'literal']]
    for k in ('EventAnd', 'EventOr'):
        out += [Task('clauses of an %s of %s' % (k, ', '.join(m)), dnf_list(k, [S[x] for x in m]), bound=Bd, **F_) for m in mixes]
    out += [Task('clauses of an %s' % k, dnf_literal(k), **F_) for k in ('EventInterval', 'EventFiniteReal', 'EventFiniteNominal')]
    FS = [[[0]], [[0, 1]], [[0, 0]], [[0, 1, 0]], [[0], [1]], [[0, 1], [0]], [[0, 1, 2], [1, 1]], [[0], [0, 2], [1, 2, 0]]]
    for sh in FS:
        for look in (None, (0, 1, 2), (0, 0, 1), (1, 0, 1), (0, 0, 0)):
            out.append(Task('literals of %s by %s' % (sh, 'variable' if look is None else 'component %s' % (look,)), factored(sh, look), bound='at most 3 clauses of 3 literals', **F_))
    NS = [[[0]], [[0, 1]], [[0], [0]], [[0], [1]], [[0, 1], [0]], [[0, 1], [1, 0]], [[0, 1], [0, 1]], [[0], [1], [0]], [[0, 1, 2], [1]]]
    out += [Task('events on variables, clauses %s' % sh, normalize(sh), bound='at most 3 clauses of 3 variables', weight=len(sh) * 3, budget=120, **F_) for sh in NS]
    out += [Task('events on variables, a literal on %s' % n, normalize_literal(v), **F_) for n, v in (('the variable', True), ('an expression', False))]
    out += [Task('overlaps of clauses %s' % sh, overlaps(sh), bound='at most 3 clauses of 3 variables', weight=len(sh) * 3, budget=120, **F_) for sh in NS if len(sh) > 1]
    out += [Task('overlaps of clauses %s' % sh, overlaps(sh), bound='at most 3 clauses of 3 variables', weight=9, budget=120, **F_) for sh in ([[0, 1], [1, 2]], [[0], [0, 1], [1]])]
    out += [Task('disjoint union of %d clauses' % n, disjoint(n), bound='at most 4 clauses', weight=n * n, budget=120, tier='quick' if n < 4 else 'thorough', **F_) for n in (2, 3, 4)]
    out += [Task('disjoint union of one %s' % k, disjoint_single(k), **F_) for k in ('EventBasic', 'EventAnd')]
    out += [Task('event of the clauses %s' % sh, event_of(sh), bound='at most 3 clauses', **F_) for sh in FS]
    return out

ASSUMPTIONS = {'C06': [
    'operators &, |, ~ and << on events and solve satisfy the contracts proved for C05',
    'a variable is assigned numbers or strings, according to its literals: complements are taken among them',
    'the recursion of dnf_to_disjoint_union ends (not proved)',
]}
