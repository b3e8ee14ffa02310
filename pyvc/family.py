"""Sequences of unknown length.

A Family is the sequence of elem(i) for the indices i of a base 0..n-1 (n any
natural number) that satisfy guard(i), in increasing order of i.  Elements are
computed on demand, by evaluating the code that defines them at index i.
"""
import ast
from .core import *
from .interp import (PList, PSet, PDict, NativeF, MISSING, Scope, PIter, Star, Obj)
from .logspace import LogV, as_log, rv


class Base:
    """The indices 0..n-1 of one sequence."""
    count = 0
    def __init__(self, ctx, name, n=None, least=0):
        self.ctx = ctx
        self.name = ctx.fresh(name)
        self.sort = 'I:' + self.name
        self.n = z3.Int(self.name + '.n') if n is None else n
        ctx.assume(self.n >= least)
        ctx.bases[self.n.get_id()] = self
        self.all_ = Guard(self)
    def inside(self, i): return And(i >= 0, i < self.n)
    def index(self, name='i'):
        """An arbitrary index (fresh constant)."""
        i = z3.Int(self.ctx.fresh(self.name + '.' + name))
        self.ctx.add_term(self.sort, i)
        return i
    def any_index(self, name='i'):
        i = self.index(name)
        self.ctx.assume(self.inside(i))
        return i


class Guard:
    """Which indices of a base belong to a family."""
    def __init__(self, base, fn=None):
        self.base, self.fn, self.cache = base, fn, {}
        self._len = base.n if fn is None else None
        self._first = None
    def __call__(self, i):
        g = self.base.inside(i)
        if self.fn is None: return g
        if Ctx.cur.depth: return And(g, self.fn(i))
        k = i.get_id()
        if k not in self.cache: self.cache[k] = (i, And(g, self.fn(i)))
        return self.cache[k][1]
    def nonempty(self, ctx):
        n = self.length(ctx)
        return n >= 1
    def length(self, ctx):
        if self._len is not None: return self._len
        b = self.base
        n = z3.Int(ctx.fresh('len'))
        w, u = b.index('some'), b.index('other')
        ctx.assume(And(n >= 0, n <= b.n))
        ctx.assume(Implies(n >= 1, self(w)))
        ctx.assume(Implies(n >= 2, And(self(u), u != w)))
        ctx.assume_forall(b.sort, lambda t: Implies(self(t), n >= 1))
        ctx.assume_forall(b.sort, lambda t: Implies(And(n <= 1, self(t)), t == w))
        v = b.index('out')
        ctx.assume(Implies(n < b.n, And(b.inside(v), Not(self(v)))))
        ctx.assume_forall(b.sort, lambda t: Implies(And(b.inside(t), n >= b.n), self(t)))
        if ctx.depth == 0: self._len = n
        return n
    def first(self, ctx):
        """The least index of the guard (to be used when there is one)."""
        if self.fn is None: return z3.IntVal(0)
        if self._first is not None: return self._first
        w = self.base.index('first')
        some = self.nonempty(ctx)
        ctx.assume(Implies(some, self(w)))
        ctx.assume_forall(self.base.sort, lambda t: Implies(self(t), t >= w))
        if ctx.depth == 0: self._first = w
        return w


class Family:
    vc_unbounded = True
    def __init__(self, I, guard, fn, kind='list'):
        self.I, self.ctx, self.guard, self.fn, self.kind = I, I.ctx, guard, fn, kind
        self.base = guard.base
        self.cache = {}
        self._sum = {}
    def __repr__(self): return 'Family(%s)' % (self.base.name,)

    @staticmethod
    def fresh(I, name, fn, least=0, kind='list'):
        b = Base(I.ctx, name, least=least)
        return Family(I, b.all_, fn, kind)

    def elem(self, i):
        """The element at index i, for i in the guard."""
        if not isinstance(i, z3.ExprRef): i = z3.IntVal(i)
        ctx = self.ctx
        ctx.add_term(self.base.sort, i)
        k = i.get_id()
        if k in self.cache: return self.cache[k][1]
        v = self.fn(i)
        if ctx.depth == 0: self.cache[k] = (i, v)
        return v
    def map(self, f):
        return Family(self.I, self.guard, lambda i: f(self.elem(i)), self.kind)

    # -- protocol
    def vc_truth(self, I): return simp(self.guard.nonempty(I.ctx))
    def vc_len(self, I): return self.guard.length(I.ctx)
    def vc_iter(self, I): raise Unsupported('iteration over a sequence of unknown length')
    def vc_list(self, I): return self if self.kind == 'list' else Family(I, self.guard, self.elem)
    def vc_set(self, I, frozen): raise Unsupported('set of a sequence of unknown length')
    def vc_isinstance(self, I, t):
        return getattr(t, 'name', None) in ('list', 'tuple')
    def vc_merge(self, pairs):
        raise CannotMerge('families')
    def vc_map(self, I, f): return self.map(f)
    def vc_enumerate(self, I):
        if self.guard.fn is not None: raise Unsupported('positions of a filtered sequence')
        return Family(I, self.guard, lambda i: (i, self.elem(i)), 'gen')
    def vc_zip(self, I, a):
        for x in a:
            if not isinstance(x, Family) or x.guard is not self.guard:
                raise Unsupported('zip of unrelated sequences')
        return Family(I, self.guard, lambda i: tuple(x.elem(i) for x in a), 'gen')
    def vc_for(self, I, s, scope):
        return for_loop(I, self, s, scope)
    def vc_getitem(self, I, k):
        ctx = I.ctx
        if is_sym(k) and z3.is_int(k) or isinstance(k, int) and not isinstance(k, bool):
            if self.guard.fn is None:
                t = z3.IntVal(k) if isinstance(k, int) else k
                if isinstance(k, int) and k < 0: t = z3.simplify(self.base.n + k)
                if not ctx.branch(simp(zb(self.base.inside(t)))): I.throw(IndexError, 'index')
                return self.elem(t)
            if k == 0 and isinstance(k, int):
                if not ctx.branch(simp(self.guard.nonempty(ctx))): I.throw(IndexError, 'index')
                return self.elem(self.guard.first(ctx))
        raise Unsupported('subscript of a sequence of unknown length')
    def vc_attr(self, I, name):
        if name == 'tolist': return NativeF('tolist', lambda I, a, k: self)
        return MISSING
    def vc_comp(self, I, e, scope, kind):
        g = e.generators[0]
        return self.comp(I, g.target, g.ifs, e.elt, scope, kind)
    def comp(self, I, target, ifs, elt, scope, kind):
        ctx = self.ctx
        snap = snapshot(scope)
        def bind(i):
            sc = Scope(snap)
            I.assign(target, self.elem(i), sc)
            return sc
        def cond(i):
            if not ifs: return True
            def run():
                out = True
                sc = bind(i)
                for c in ifs:
                    t = I.truth(I.eval(c, sc))
                    if t is False: return False
                    if out is not True and not ctx.branch(out): return False
                    out = t
                return out
            return total(ctx, run, self.guard(i))
        guard = self.guard if not ifs else Guard(self.base, lambda i: And(self.guard(i), cond(i)))
        def val(i):
            return total(ctx, lambda: I.eval(elt, bind(i)), guard(i))
        raises(I, self, bind, ifs, elt)
        return Family(I, guard, val, 'gen' if kind == 'gen' else 'list')
    def vc_filter(self, I, f):
        if f is None: body = lambda i: I.truth(self.elem(i))
        else: body = lambda i: total(self.ctx, lambda: I.truth(I.call(f, [self.elem(i)], {})), self.guard(i))
        return Family(I, Guard(self.base, lambda i: And(self.guard(i), body(i))), self.elem, 'gen')

    # -- folds
    def vc_quant(self, I, is_any):
        ctx, b = I.ctx, self.base
        body = lambda i: I.truth(self.elem(i))
        hit = (lambda i: And(self.guard(i), body(i))) if is_any else (lambda i: And(self.guard(i), Not(body(i))))
        e = ctx.bool_('exists')
        w = b.index('w')
        ctx.assume(Implies(e, hit(w)))
        ctx.assume_forall(b.sort, lambda t: Implies(Not(e), Not(hit(t))))
        return e if is_any else Not(e)
    def vc_contains(self, I, x):
        return self.map(lambda v: I.same(v, x)).vc_quant(I, True)
    def term(self, i, conv):
        """Contribution of index i to a sum, as a real."""
        g = self.guard(i)
        v = self.elem(i)
        if isinstance(v, Nothing):
            self.ctx.assume(Not(g))
            return z3.RealVal(0)
        v = conv(v)
        return z3.If(zb(g), v, z3.RealVal(0)) if g is not True else v
    def sum_term(self, conv, key):
        if key in self._sum: return self._sum[key]
        s = Sum(self.ctx, self.base, lambda i: self.term(i, conv))
        if self.ctx.depth == 0: self._sum[key] = s.value
        return s.value
    def vc_sum(self, I, start):
        w = self.base.index('k')
        v = None
        if self.ctx.branch(self.guard(w)): v = self.elem(w)
        if isinstance(v, LogV): return self.vc_prod(I, start)
        def conv(x):
            x = I.lift(x)
            if not (isinstance(x.tag, int) and x.tag == 0): raise Unsupported('sum of extended numbers')
            return x.val
        r = Sc(0, self.sum_term(conv, 'sum'))
        return r if isinstance(start, int) and start == 0 else I.binop(ast.Add, r, start)
    def vc_prod(self, I, start):
        """Sum of logarithms: the product of the terms."""
        def conv(x):
            l = as_log(x)
            if l is None: raise Unsupported('sum of log values')
            return l.p
        key = 'prod'
        if key not in self._sum:
            p = Prod(self.ctx, self.base, lambda i: z3.If(zb(self.guard(i)), conv(self.elem(i)), z3.RealVal(1)))
            self._sum[key] = p.value
        r = LogV(self._sum[key])
        return r if isinstance(start, int) and start == 0 else I.binop(ast.Add, r, start)
    def vc_logsumexp(self, I):
        if not I.ctx.branch(simp(self.guard.nonempty(I.ctx))): I.throw(ValueError, 'zero-size array')
        def conv(x):
            l = as_log(x)
            if l is None: raise Unsupported('logsumexp of %r' % (x,))
            return l.p
        return LogV(self.sum_term(conv, 'lse'))
    def vc_minmax(self, I, is_min):
        ctx, b = I.ctx, self.base
        if not ctx.branch(simp(self.guard.nonempty(ctx))): I.throw(ValueError, 'min of empty')
        w = b.index('m')
        ctx.assume(self.guard(w))
        m = self.elem(w)
        le = (lambda x, y: I.truth(I.compare(ast.LtE, x, y))) if is_min else (lambda x, y: I.truth(I.compare(ast.GtE, x, y)))
        ctx.assume_forall(b.sort, lambda t: Implies(self.guard(t), le(m, self.elem(t))))
        return m
    def vc_flatten(self, I): return Flat(I, self)
    def vc_binop(self, I, op, o, reflected):
        if op is not ast.Add: return NotImplemented
        return concat(I, o, self) if reflected else concat(I, self, o)
    def vc_reduce(self, I, f, init):
        ctx = I.ctx
        if init is MISSING and not ctx.branch(simp(zb(self.guard.nonempty(ctx)))): I.throw(TypeError, 'reduce of an empty sequence')
        v = self.elem(self.base.index('r'))
        if not hasattr(v, 'vc_fold'): raise Unsupported('reduce over a sequence of unknown length')
        return v.vc_fold(I, f, self, init)


class Flat:
    """Concatenation of a family of sequences."""
    vc_unbounded = True
    def __init__(self, I, outer):
        self.I, self.outer, self.kind = I, outer, 'list'
    def inner(self, i): return self.outer.elem(i)
    def vc_list(self, I): return self
    def vc_truth(self, I): raise Unsupported('truth of a flattened sequence')
    def vc_len(self, I): return FlatLen(self)
    def vc_iter(self, I): raise Unsupported('iteration over a sequence of unknown length')
    def vc_isinstance(self, I, t): return getattr(t, 'name', None) in ('list', 'tuple')
    def vc_comp(self, I, e, scope, kind):
        outer = self.outer
        snap = snapshot(scope)
        def val(i):
            sc = Scope(snap)
            sc.vars['__flat__'] = outer.elem(i)
            c = ast.copy_location(type(e)(elt=e.elt, generators=[ast.comprehension(
                target=e.generators[0].target, iter=ast.Name(id='__flat__', ctx=ast.Load()), ifs=e.generators[0].ifs, is_async=0)]), e)
            return I.eval(c, sc)
        return Flat(I, Family(I, outer.guard, val))
    def vc_zip(self, I, a):
        if not all(isinstance(x, Flat) and x.outer.guard is self.outer.guard for x in a): raise Unsupported('zip')
        B = I.B
        return Flat(I, Family(I, self.outer.guard, lambda i: B.b_zip(I, [x.outer.elem(i) for x in a], {})))
    def nested(self, I, conv):
        def inner(i):
            v = self.outer.elem(i)
            if isinstance(v, Family): return v.sum_term(conv, 'nested')
            if isinstance(v, Flat): return v.nested(I, conv)
            s = z3.RealVal(0)
            for x in (v if isinstance(v, tuple) else v.items): s = s + conv(x)
            return z3.simplify(s)
        return Family(I, self.outer.guard, lambda i: Sc(0, inner(i))).sum_term(lambda x: x.val, 'outer')
    def vc_logsumexp(self, I): return LogV(self.nested(I, lambda x: as_log(x).p))
    def vc_quant(self, I, is_any):
        B = I.B
        return Family(I, self.outer.guard, lambda i: B.quant(I, self.outer.elem(i), is_any)).vc_quant(I, is_any)
    def vc_getitem(self, I, k):
        if k == 0:
            return I.getitem(self.outer.vc_getitem(I, 0), 0)
        raise Unsupported('subscript of a flattened sequence')

def concat(I, a, b):
    parts = []
    for x in (a, b):
        if isinstance(x, Cat): parts.extend(x.parts)
        elif isinstance(x, (PList, tuple, Family)): parts.append(x)
        else: return NotImplemented
    kinds = [getattr(x, 'kind', None) or ('tuple' if isinstance(x, tuple) else 'list') for x in (a, b)]
    if kinds[0] != kinds[1]: I.throw(TypeError, 'concatenation of %s and %s' % tuple(kinds))
    return Cat(I, parts, kinds[0])

class Cat:
    """A sequence given by consecutive parts, some of unknown length."""
    vc_unbounded = True
    def __init__(self, I, parts, kind='list'): self.I, self.parts, self.kind = I, parts, kind
    def vc_list(self, I): return Cat(I, self.parts)
    def vc_truth(self, I): return Or(*[I.truth(p) for p in self.parts])
    def vc_iter(self, I): raise Unsupported('iteration over a sequence of unknown length')
    def vc_isinstance(self, I, t): return getattr(t, 'name', None) == self.kind
    def vc_comp(self, I, e, scope, kind):
        snap = snapshot(scope)
        out = []
        for p in self.parts:
            sc = Scope(snap)
            sc.vars['__part__'] = p
            g = e.generators[0]
            c = ast.copy_location(ast.ListComp(elt=e.elt, generators=[ast.comprehension(
                target=g.target, iter=ast.Name(id='__part__', ctx=ast.Load()), ifs=g.ifs, is_async=0)]), e)
            out.append(I.eval(c, sc))
        return Cat(I, out, 'gen' if kind == 'gen' else 'list')
    def vc_quant(self, I, is_any):
        return (Or if is_any else And)(*[I.B.quant(I, p, is_any) for p in self.parts])
    def vc_contains(self, I, x): return Or(*[I.contains(p, x) for p in self.parts])
    def vc_binop(self, I, op, o, reflected):
        if op is not ast.Add: return NotImplemented
        return concat(I, o, self) if reflected else concat(I, self, o)
    def vc_reduce(self, I, f, init):
        acc = init
        for p in self.parts:
            if not I.ctx.branch(simp(zb(I.truth(p)))): continue
            a = [f, p] if acc is MISSING else [f, p, acc]
            acc = I.B.reduce_(I, a, {})
        if acc is MISSING: I.throw(TypeError, 'reduce of an empty sequence')
        return acc

class FlatLen:
    def __init__(self, flat): self.flat = flat
    def vc_eq(self, I, o):
        return isinstance(o, FlatLen) and o.flat.outer.guard is self.flat.outer.guard


def snapshot(scope):
    """The scope as it is now: later assignments do not show."""
    if scope is None or scope.vars is scope.globals: return scope
    s = Scope(snapshot(scope.parent), is_class=scope.is_class, globals_=scope.globals, func=scope.func)
    s.vars = dict(scope.vars)
    s.glob_names = scope.glob_names
    return s

def total(ctx, thunk, given=True):
    """The value of code known not to raise here, when `given` holds (the
    value is not used otherwise)."""
    def run():
        ctx.given(given)
        return thunk()
    outs = ctx.explore(run)
    rets = [(c, v) for c, k, v in outs if k == 'ret']
    for c, k, v in outs:
        if k == 'exc': ctx.assume(Not(c))
    if not rets: return Nothing()
    if len(rets) == 1: return rets[0][1]
    try:
        return merge_values(rets)
    except CannotMerge:
        pass
    # the paths fork the current one
    for c, v in rets[:-1]:
        if ctx.branch(c): return v
    return rets[-1][1]

class Nothing:
    """The element at an index outside the guard."""
    def vc_merge(self, pairs): return merge_values([p for p in pairs if not isinstance(p[1], Nothing)])

def raises(I, fam, bind, ifs, elt):
    """Fork a path on which evaluating some element raises."""
    ctx = I.ctx
    j = fam.base.index('j')
    def run():
        ctx.given(fam.guard(j))
        sc = bind(j)
        for c in ifs:
            if not I.test(I.eval(c, sc)): return None
        I.eval(elt, sc)
        return None
    outs = ctx.explore(run)
    excs = [(c, v) for c, k, v in outs if k == 'exc']
    for c, e in excs:
        b = ctx.bool_('raises')
        if ctx.branch(b):
            ctx.assume(c)
            raise e
    return None


def assigned(nodes):
    return {n.id for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

def for_loop(I, fam, s, scope):
    """A loop without effects on the rest of the function: either every
    iteration ends normally, or there is a first one that does not."""
    from .interp import Return, Break, Continue
    ctx, b = I.ctx, fam.base
    if s.orelse: raise Unsupported('for/else over a sequence of unknown length')
    names = assigned([s.target] + s.body)
    inside = {id(n) for n in ast.walk(s)}
    node = scope.func.node if scope.func is not None else None
    if node is None: raise Unsupported('loop outside a function')
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load) and id(n) not in inside:
            raise Unsupported('a loop over a sequence of unknown length that computes %s' % (n.id,))
    def once(i, sc):
        try:
            I.assign(s.target, fam.elem(i), sc)
            I.exec_block(s.body, sc)
        except Continue: pass
        except Break: return 'break'
        except Return: return 'return'
        return 'next'
    def local():
        sc = Scope(snapshot(scope))
        sc.func = scope.func
        return sc
    def leaves(i):
        """The conditions on which iteration i ends the loop."""
        def run():
            ctx.given(fam.guard(i))
            return once(i, local())
        return [c for c, k, v in ctx.explore(run) if k == 'exc' or v != 'next']
    j = b.index('j')
    out = leaves(j)
    def quiet(t): return Implies(fam.guard(t), And(*[Not(c) for c in leaves(t)]))
    if out:
        if ctx.branch(ctx.bool_('leaves')):
            ctx.assume(And(fam.guard(j), Or(*out)))
            ctx.assume_forall(b.sort, lambda t: Implies(t < j, quiet(t)))
            try:
                I.assign(s.target, fam.elem(j), scope)
                I.exec_block(s.body, scope)
            except Break: return
            except Continue: pass
            raise Infeasible()
        ctx.assume_forall(b.sort, quiet)

# ---------------------------------------------------------------------------
# Finite sums over the indices of a base.  The facts below hold for every
# finite sum of reals; each is used on ground instances only.

class Sum:
    def __init__(self, ctx, base, term):
        self.ctx, self.base = ctx, base
        self.cache = {}
        self._term = term
        self.value = z3.Real(ctx.fresh('SUM'))
        self.term_ids = {}
        j = base.index('pos')
        t = lambda i: z3.If(zb(base.inside(i)), self.term(i), z3.RealVal(0))
        self.t = t
        # terms not negative: neither is the sum; zero iff all terms are
        neg = base.index('neg')
        ctx.assume(Or(t(neg) < 0, self.value >= 0))
        ctx.assume(Implies(self.value > 0, t(j) > 0))
        ctx.assume_forall(base.sort, lambda i: Or(t(neg) < 0, self.value >= t(i)))
        for o in ctx.sums:
            if o.base is base: equal_terms(ctx, self, o, z3.RealVal(1))
        if ctx.depth == 0: ctx.sums.append(self)
    def term(self, i):
        k = i.get_id()
        if k in self.cache and self.ctx.depth == 0: return self.cache[k][1]
        v = self._term(i)
        if self.ctx.depth == 0: self.cache[k] = (i, v)
        return v

def equal_terms(ctx, s, o, c):
    """If s(i) = c o(i) for all i then the sums are equal up to c."""
    d = s.base.index('d')
    ctx.assume(Or(s.t(d) != c * o.t(d), s.value == c * o.value))

def scaled(ctx, a, b, c):
    """Lemma: a(i) = c b(i) for all i implies SUM a = c SUM b."""
    equal_terms(ctx, find(ctx, a), find(ctx, b), c)

def scaled_by(ctx, a, k, b):
    """Lemma: a(i) k = b(i) for all i implies SUM a k = SUM b."""
    a, b = find(ctx, a), find(ctx, b)
    d = a.base.index('d')
    ctx.assume(Or(a.t(d) * k != b.t(d), a.value * k == b.value))

def single(ctx, a, u):
    """Lemma: if all terms but that of u are zero, the sum is that term."""
    s = find(ctx, a)
    d = s.base.index('e')
    ctx.assume(Or(And(d != u, s.t(d) != 0), s.value == s.t(u)))

def additive(ctx, a, b, c):
    """Lemma: a(i) = b(i) + c(i) for all i implies the sums add up."""
    a, b, c = find(ctx, a), find(ctx, b), find(ctx, c)
    d = a.base.index('a')
    ctx.assume(Or(a.t(d) != b.t(d) + c.t(d), a.value == b.value + c.value))

def monotone(ctx, a, b):
    a, b = find(ctx, a), find(ctx, b)
    d = a.base.index('m')
    ctx.assume(Or(a.t(d) > b.t(d), a.value <= b.value))

def find(ctx, v):
    for s in ctx.sums:
        if s.value.eq(v): return s
    raise Unsupported('not a sum')

def spec_sum(I, base, fn):
    """SUM of a specification term over all indices of the base."""
    return Sum(I.ctx, base, fn).value

class Prod:
    """Product over the indices; extensional, zero iff a factor is zero."""
    def __init__(self, ctx, base, term):
        self.ctx, self.base = ctx, base
        self.value = z3.Real(ctx.fresh('PROD'))
        t = lambda i: z3.If(zb(base.inside(i)), term(i), z3.RealVal(1))
        self.t = t
        neg, z = base.index('neg'), base.index('zero')
        ctx.assume(Or(t(neg) < 0, self.value >= 0))
        ctx.assume(Implies(self.value == 0, t(z) == 0))
        ctx.assume_forall(base.sort, lambda i: Implies(t(i) == 0, self.value == 0))
        for o in getattr(ctx, 'prods', []):
            if o.base is base:
                d = base.index('d')
                ctx.assume(Or(t(d) != o.t(d), self.value == o.value))
        if not hasattr(ctx, 'prods'): ctx.prods = []
        ctx.prods.append(self)

def spec_prod(I, base, fn): return Prod(I.ctx, base, fn).value
