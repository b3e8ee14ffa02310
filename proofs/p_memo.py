"""Contracts of memo tables and of deduplication (C11)."""
import ast
from .spespec import *
from pyvc.interp import HashV
from .registry import Task

F_ = dict(fast_ms=150, linear=True)
TABLES = ('logprob', 'condition', 'logpdf', 'constrain')

class Model(Child):
    """An arbitrary model object with the real get_memo_key."""
    def vc_attr(self, I, name):
        if name == 'get_memo_key': return I.bind(cls(I, 'SPE').lookup('get_memo_key'), self)
        return super().vc_attr(I, name)

class AnEvent(Ev):
    """An event; equal events are the same predicate."""
    def vc_binop(self, I, op, o, r):
        if op is ast.BitAnd and isinstance(o, Ev): return AnEvent(_and(self.term, o.term)) if not r else AnEvent(_and(o.term, self.term))
        if op is ast.BitOr and isinstance(o, Ev): return AnEvent(_or(self.term, o.term)) if not r else AnEvent(_or(o.term, self.term))
        return NotImplemented
from .spespec import _and
_or = z3.Function('either', z3.IntSort(), z3.IntSort(), z3.IntSort())
_of = z3.Function('answer', z3.StringSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())

def sym(I, name):
    """A variable."""
    return I.call(I.modules['sppl.transforms'].ns['Identity'], [name], {})

class Factor:
    """A query: a clause list or an assignment of the given shape, and the
    predicate it denotes."""
    def __init__(self, I, shape, names, nested):
        ctx = I.ctx
        self.clauses = [[(sym(I, names[i]), AnEvent(ctx.int_('ev'))) for i in clause] for clause in shape]
        ds = [PDict(list(c), 0) for c in self.clauses]
        self.value = tuple(ds) if nested else ds[0]
        # the key of the denotation: variables and their events, in order
        t = z3.IntVal(0)
        for c in self.clauses:
            u = z3.IntVal(1)
            for s, e in c: u = _lit(z3.StringVal(I.getattr(s, 'token')), e.term, u)
            t = _clause(u, t)
        self.term = t
_lit = z3.Function('literal', z3.StringSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
_clause = z3.Function('clause', z3.IntSort(), z3.IntSort(), z3.IntSort())

def answer(table, spe, fac): return _of(z3.StringVal(table), spe.ident, fac.term)

class Table:
    """A memo table with any contents that satisfy its invariant: the entry of
    a key is the answer to the query it was stored for.  One arbitrary entry
    is made explicit; entries added by the code are recorded."""
    def __init__(self, I, table, spe, fac):
        self.I, self.table, self.spe, self.fac = I, table, spe, fac
        self.key = I.call(I.getattr(spe, 'get_memo_key'), [fac.value], {})
        self.val = Answer(answer(table, spe, fac))
        self.added = []
    def vc_truth(self, I): raise Unsupported('truth of a memo table')
    def vc_contains(self, I, k):
        return Or(I.eq(k, self.key), *[I.eq(k, a) for a, _ in self.added])
    def vc_getitem(self, I, k):
        for a, v in reversed(self.added):
            if I.ctx.branch(I.eq(k, a)): return v
        if I.ctx.branch(I.eq(k, self.key)): return self.val
        I.throw(KeyError, 'memo')
    def vc_setitem(self, I, k, v): self.added.append((k, v))
    def vc_attr(self, I, name): return MISSING

class Answer:
    def __init__(self, t): self.t = t
    def vc_truth(self, I): raise Unsupported('truth of an answer')
    def __repr__(self): return 'Answer(%s)' % (self.t,)

SHAPES = [([[0]], [[0]]), ([[0, 1]], [[0, 1]]), ([[0, 1]], [[0]]), ([[0], [1]], [[0, 1]]), ([[0], [0]], [[0], [0]]), ([[0, 1]], [[1, 0]]), ([[0], [1]], [[1], [0]])]

def memoized(name, s1, s2, nested):
    def h(ctx):
        I = interp(ctx)
        me, other = Model(I, ctx.int_('me')), Model(I, ctx.int_('other'))
        names = ['X', 'Y']
        a, b = Factor(I, s1, names, nested), Factor(I, s2, names, nested)
        table = name.split('_')[0]
        memo = Obj(cls(I, 'Memo'), {}, 0)
        tabs = {}
        for t in TABLES:
            # what other tables hold is unrelated
            tabs[t] = Table(I, t, other, b)
            memo.attrs[t] = tabs[t]
        def f(I, args, k):
            spe, fac, m = args
            if spe is not me or fac is not a.value: ctx.fail('memoize: computes the query asked', '%r %r' % (spe, fac))
            if m is not memo and m is not False: ctx.fail('memoize: passes the memo on', repr(m))
            return Answer(answer(table, me, a))
        fn = NativeF(name, f)
        g = I.call(I.modules[M].ns['memoize'], [fn], {})
        with_false = guard(ctx, 'no memo', lambda: I.call(g, [me, a.value, False], {}))
        ctx.prove('answer without memo table', with_false.t == answer(table, me, a))
        for rnd in ('first', 'second'):
            r = guard(ctx, rnd + ' query', lambda: I.call(g, [me, a.value, memo], {}))
            if not isinstance(r, Answer): ctx.fail('%s answer' % rnd, repr(r)); return
            ctx.prove('%s answer is the one without memo table' % rnd, r.t == answer(table, me, a))
        for t, tab in tabs.items():
            for k, v in tab.added:
                ctx.prove('entries are stored in the table of the query', t == table)
                ctx.prove('invariant of the memo table: entries are answers to their keys',
                    And(simp(v.t == answer(table, me, a)), I.eq(k, I.call(I.getattr(me, 'get_memo_key'), [a.value], {}))))
    return h

def memo_key(ctx):
    """Keys are equal for one model and equal for no two models."""
    I = interp(ctx)
    s, t = Model(I, ctx.int_('s')), Model(I, ctx.int_('t'))
    C = cls(I, 'MemoKey')
    k, l = I.call(C, [s], {}), I.call(C, [t], {})
    e = I.eq(k, l)
    ctx.prove('keys are equal exactly for the same model object', Iff(e, simp(s.ident == t.ident)))
    hk, hl = [I.B.b_hash(I, [x], {}) for x in (k, l)]
    hk, hl = [h.content if isinstance(h, HashV) else h for h in (hk, hl)]
    ctx.prove('equal keys have equal hashes', Implies(e, I.eq(hk, hl)))
    ctx.prove('a key keeps its model alive', k.attrs.get('spe') is s)
    ctx.prove('a key is no other thing', Not(I.eq(k, 'a')))

def fresh_memo(ctx):
    """A new memo has empty tables of its own."""
    I = interp(ctx)
    m, n = [I.call(cls(I, 'Memo'), [], {}) for _ in range(2)]
    ds = []
    for t in TABLES:
        for x in (m, n):
            d = x.attrs.get(t)
            ctx.prove('a new table is empty', isinstance(d, PDict) and not d.pairs)
            ds.append(d)
    ctx.prove('no table is shared', len({id(d) for d in ds}) == len(ds))

class LeafTable(Table):
    pass

def leaf(method, two, memoed, hit):
    """LeafSPE.logprob, condition and their _mem forms."""
    def h(ctx):
        I = interp(ctx)
        X, Y = sym(I, 'X'), sym(I, 'Y')
        env = PDict([(X, X), (Y, X)], 0)
        env.cls = 'OrderedDict'
        other = Model(I, ctx.int_('other'))
        base = cls(I, 'LeafSPE')
        me = Obj(base, dict(symbol=X, env=env), 0)
        table = method.split('_')[0]
        direct = '_mem' not in method
        def event(t, subst):
            e = LeafEvent(I, t, X, Y, subst)
            return e
        ev = LeafEvent(I, ctx.int_('e1'), PSet([X, Y], 0, True), PSet([X], 0, True), env)
        ev2 = LeafEvent(I, ctx.int_('e2'), PSet([X], 0, True), PSet([X], 0, True), env)
        fac = ev if direct else ((PDict([(X, ev)], 0),) if not two else (PDict([(X, ev), (Y, ev2)], 0),) if two == 1 else (PDict([(X, ev)], 0), PDict([(Y, ev2)], 0)))
        want = ev.term if direct or not two else (_and if two == 1 else _or)(ev.term, ev2.term)
        # the entry of the memo table: any query of this or another leaf
        calls = []
        for n in ('logprob__', 'condition__'):
            def c(I, f, a, k, n=n):
                if a[0] is not me: ctx.fail('asks the leaf itself', n)
                if not a[1].substituted: ctx.fail('only the variable of the leaf is left', n)
                calls.append(n)
                return Answer(_of(z3.StringVal(n.strip('_')), z3.IntVal(7), a[1].term))
            I.contracts['%s.LeafSPE.%s' % (M, n)] = c
        if memoed:
            memo = Obj(cls(I, 'Memo'), {}, 0)
            o = LeafEvent(I, ctx.int_('stored'), PSet([X], 0, True), PSet([X], 0, True), env)
            for t in TABLES:
                T_ = memo.attrs[t] = Stored(I, t)
                if hit:
                    key = I.call(base.lookup('get_memo_key'), [me, (PDict([(X, o)], 0),)], {})
                    T_.known.append((key, Answer(_of(z3.StringVal(t), z3.IntVal(7), o.term))))
        else: memo = False if hit else None
        f = base.lookup(method)
        args = [me, fac] + ([memo] if '_mem' in method or memo is not None else [])
        if '_mem' in method and memo is None: args = [me, fac, False]
        for rnd in ('first', 'second'):
            r = guard(ctx, rnd + ' query', lambda: I.call(f, args, {}))
            if not isinstance(r, Answer): ctx.fail('answer', repr(r)); return
            ctx.prove('%s answer is that of the substituted event' % rnd, r.t == _of(z3.StringVal(table), z3.IntVal(7), want))
    return h

class Stored:
    def __init__(self, I, name): self.name, self.known = name, []
    def vc_contains(self, I, k): return Or(*[I.eq(k, a) for a, _ in self.known])
    def vc_getitem(self, I, k):
        for a, v in reversed(self.known):
            if I.ctx.branch(I.eq(k, a)): return v
        I.throw(KeyError, 'memo')
    def vc_setitem(self, I, k, v): self.known.append((k, v))
    def vc_attr(self, I, name): return MISSING

class LeafEvent(Ev):
    """An event about the variables of a leaf."""
    def __init__(self, I, term, before, after, env, substituted=False):
        super().__init__(term)
        self.before, self.after, self.env, self.substituted = before, after, env, substituted
    def vc_attr(self, I, name):
        if name == 'substitute':
            def sub(I, a, k):
                if a[0] is not self.env: I.ctx.fail('substitutes the definitions of the leaf', 'another environment')
                return LeafEvent(I, self.term, self.after, self.after, self.env, True)
            return NativeF(name, sub)
        if name == 'get_symbols': return NativeF(name, lambda I, a, k: self.after if self.substituted else self.before)
        return MISSING
    def vc_binop(self, I, op, o, r):
        g = {ast.BitAnd: _and, ast.BitOr: _or}.get(op)
        if g is None or not isinstance(o, Ev): return NotImplemented
        a, b = (o, self) if r else (self, o)
        return LeafEvent(I, g(a.term, b.term), self.before, self.after, self.env, False)

class Node:
    """An arbitrary model in deduplication: its class of equal models."""
    def __init__(self, I, eqc, kind): self.I, self.eqc, self.kind = I, eqc, kind
    def vc_truth(self, I): return True
    def vc_eq(self, I, o): return isinstance(o, (Node,)) and simp(self.eqc == o.eqc)
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') in ('SPE', self.kind)
    def vc_hash(self, I): return self.eqc

class DTable:
    """The table of models seen: maps each to a model equal to it."""
    def __init__(self, I): self.I, self.added = I, []
    def vc_contains(self, I, k):
        return Or(I.ctx.bool_('seen'), *[self.same(I, k, a) for a, _ in self.added])
    def same(self, I, k, a): return True if k is a else I.eq(k, a)
    def vc_getitem(self, I, k):
        for a, v in reversed(self.added):
            if I.ctx.branch(self.same(I, k, a)): return v
        return Node(I, eqc_of(k), 'SPE')
    def vc_setitem(self, I, k, v):
        I.ctx.prove('table of models: maps a model to an equal one', simp(eqc_of(v) == eqc_of(k)))
        self.added.append((k, v))

def eqc_of(o): return o.eqc if isinstance(o, Node) else o.attrs['__eqc']

def dedup(kind, n):
    def h(ctx):
        I = interp(ctx)
        memo = DTable(I)
        ids = [ctx.int_('m') for _ in range(n + 1)]
        f = I.modules[M].ns['spe_cache_duplicate_subtrees']
        if kind == 'LeafSPE': me = Node(I, ids[0], kind)
        else:
            me = Obj(cls(I, kind), dict(children=tuple(Node(I, c, 'SPE') for c in ids[1:])), 0)
            me.attrs['__eqc'] = ids[0]
            I.contracts[M + '.%s.__eq__' % kind] = lambda I, f, a, k: a[0] is a[1]
            calls = []
            def rec(I, f, a, k):
                if a[0] is me:
                    return MISSING
                ctx.prove('the table is passed on', a[1] is memo)
                return Node(I, eqc_of(a[0]), 'SPE')
            I.contracts[M + '.spe_cache_duplicate_subtrees'] = rec
        r = guard(ctx, 'deduplicate', lambda: I.call(f, [me, memo], {}))
        ctx.prove('an equal model is returned', simp(eqc_of(r) == ids[0]))
        if kind != 'LeafSPE':
            cs = me.attrs['children']
            ok = isinstance(cs, tuple) and len(cs) == n
            ctx.prove('as many components as before', ok)
            if ok:
                for c, i in zip(cs, ids[1:]): ctx.prove('each component is replaced by an equal one', simp(eqc_of(c) == i))
    return h

def tasks(prop, tier):
    if prop != 'C11': return []
    out = [Task('memo keys', memo_key, **F_), Task('new memo', fresh_memo, **F_)]
    for n in TABLES:
        nm = n + '_mem'
        if n in ('logprob', 'condition'):
            for i, (a, b) in enumerate(SHAPES):
                out.append(Task('memoised %s against a stored query, shapes %s %s' % (nm, a, b), memoized(nm, a, b, True), bound='queries of at most 2 clauses and 2 variables', **F_))
        else:
            for i, (a, b) in enumerate(SHAPES):
                if len(a) == 1 == len(b):
                    out.append(Task('memoised %s against a stored query, shapes %s %s' % (nm, a, b), memoized(nm, a, b, False), bound='assignments of at most 2 variables', **F_))
    for m in ('logprob', 'condition', 'logprob_mem', 'condition_mem'):
        for two in ((0,) if '_mem' not in m else (0, 1, 2)):
            for memoed in (False, True):
                for hit in (False, True):
                    out.append(Task('leaf %s, %s, %s' % (m, ['one literal', 'two variables', 'two clauses'][two],
                        ('memo table with an entry' if hit else 'new memo table') if memoed else ('memo disabled' if hit else 'no memo')),
                        leaf(m, two, memoed, hit), bound='queries of at most 2 literals' if two else None, **F_))
    out.append(Task('deduplicating a leaf', dedup('LeafSPE', 0), **F_))
    for k in ('SumSPE', 'ProductSPE'):
        for n in (1, 2, 3): out.append(Task('deduplicating a %s of %d' % (k, n), dedup(k, n), bound='at most 3 components', **F_))
    return out

ASSUMPTIONS = {'C11': [
    'an id() is not shared by two objects that are alive at once; a memo key keeps its model alive',
    'equal events denote the same predicate, and equal models the same distribution (C12)',
    'hash collisions are not modelled: a dictionary looks a key up by equality',
]}
