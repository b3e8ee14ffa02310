"""Unbounded symbolic sets of numbers or strings (Python frozensets)."""
import ast
from .core import *
from .interp import (PList, PSet, NativeF, MISSING, Scope, PIter, Star, HashV, Obj)


class Pred:
    """A predicate on finite reals (sort R) or strings (sort S), cached per term."""
    def __init__(self, fn):
        self.fn, self.cache = fn, {}
    def __call__(self, t):
        # inside a nested exploration the formula may depend on its path
        if Ctx.cur.depth: return self.fn(t)
        i = t.get_id()
        if i not in self.cache: self.cache[i] = (t, self.fn(t))
        return self.cache[i][1]


class VSet:
    vc_unbounded = True
    def __init__(self, ctx, sort, mem, pinf=False, ninf=False, frozen=True, name='V'):
        self.ctx, self.sort, self.mem = ctx, sort, mem
        self.pinf, self.ninf = pinf, ninf
        self.frozen, self.name = frozen, name
        self.depth = ctx.depth
        self._nonempty = None
        self.extra = False     # formula for members outside the sort (unused)
    def __repr__(self): return 'VSet(%s)' % (self.name,)

    @staticmethod
    def fresh(ctx, name, sort='R', infs=True):
        dom = z3.RealSort() if sort == 'R' else z3.IntSort()
        f = z3.Function(ctx.fresh(name), dom, z3.BoolSort())
        p = ctx.bool_(name + '_pinf') if infs and sort == 'R' else False
        n = ctx.bool_(name + '_ninf') if infs and sort == 'R' else False
        return VSet(ctx, sort, Pred(lambda t: f(t)), p, n, name=name)

    # -- spec-level view
    def has(self, x):
        """Membership of a scalar, as a formula."""
        ctx = self.ctx
        if isinstance(x, (str, SStr)):
            if self.sort != 'S': return False
            t = str_term(x); ctx.add_term('S', t)
            return self.mem(t)
        if not is_num(x) and not (is_sym(x) and z3.is_bool(x)): return False
        if self.sort != 'R': return False
        x = lift(x)
        ctx.add_term('R', x.val)
        if isinstance(x.tag, int):
            return {0: lambda: self.mem(x.val), 1: lambda: self.pinf, -1: lambda: self.ninf}[x.tag]()
        return Or(And(x.tag == 0, self.mem(x.val)), And(x.tag == 1, self.pinf), And(x.tag == -1, self.ninf))
    def nonempty(self):
        """A formula equivalent to the set having a member."""
        if self._nonempty is None:
            ctx = self.ctx
            e = ctx.bool_('nonempty')
            w = ctx.witness('w', self.sort)
            ctx.assume(Implies(e, Or(self.mem(w), self.pinf, self.ninf)))
            ctx.assume_forall(self.sort, lambda t: Implies(self.mem(t), e))
            ctx.assume(Implies(Or(self.pinf, self.ninf), e))
            if ctx.depth == 0: self._nonempty = e
            return e
        return self._nonempty
    def assume_nonempty(self):
        ctx = self.ctx
        w = ctx.witness('w', self.sort)
        ctx.assume(Or(self.mem(w), self.pinf, self.ninf))
        if ctx.depth == 0: self._nonempty = True
    def members(self, m):
        """Members named in a model."""
        out = []
        ctx = self.ctx
        for t in ctx.pool[self.sort]:
            if z3.is_true(m.eval(zb(self.mem(t)), model_completion=True)):
                out.append(m.eval(t, model_completion=True))
        vals = []
        for v in out:
            if not any(v.eq(u) for u in vals): vals.append(v)
        r = [model_real(v) if self.sort == 'R' else 's%s' % v for v in vals]
        if z3.is_true(m.eval(zb(self.pinf), model_completion=True)): r.append('inf')
        if z3.is_true(m.eval(zb(self.ninf), model_completion=True)): r.append('-inf')
        return r

    # -- protocol
    def vc_contains(self, I, x): return self.has(x)
    def vc_truth(self, I): return self.nonempty()
    def vc_set(self, I, frozen):
        return VSet(self.ctx, self.sort, self.mem, self.pinf, self.ninf, frozen, self.name)
    def vc_list(self, I): return self
    def vc_isinstance(self, I, t):
        n = getattr(t, 'name', None)
        return n == ('frozenset' if self.frozen else 'set')
    def vc_iter(self, I): raise Unsupported('iteration over an unbounded set')
    def vc_len(self, I):
        ctx = self.ctx
        n = ctx.int_('len')
        ctx.assume(n >= 0)
        e = self.nonempty()
        ctx.assume(Iff(e, n >= 1) if not isinstance(e, bool) else (n >= 1 if e else n == 0))
        # one element exactly when any two members agree
        w = ctx.witness('only', self.sort)
        tag = z3.Int(ctx.fresh('onlytag'))
        one = n == 1
        if self.sort == 'R':
            x = Sc(tag, w)
            ctx.assume(And(tag >= -1, tag <= 1))
            ctx.assume(Implies(one, self.has(x)))
            ctx.assume_forall('R', lambda t: Implies(And(one, self.mem(t)), And(tag == 0, w == t)))
            ctx.assume(Implies(And(one, self.pinf), tag == 1))
            ctx.assume(Implies(And(one, self.ninf), tag == -1))
            u = ctx.witness('other', 'R')
            utag = z3.Int(ctx.fresh('othertag'))
            y = Sc(utag, u)
            ctx.assume(And(utag >= -1, utag <= 1))
            ctx.assume(Implies(n >= 2, And(self.has(x), self.has(y), Not(sc_eq(x, y)))))
        else:
            ctx.assume(Implies(one, self.mem(w)))
            ctx.assume_forall('S', lambda t: Implies(And(one, self.mem(t)), w == t))
            u = ctx.witness('other', 'S')
            ctx.assume(Implies(n >= 2, And(self.mem(w), self.mem(u), w != u)))
        return n
    def lifted(self, I, other):
        if isinstance(other, VSet): return other
        if isinstance(other, PSet): return VPset(self.ctx, self.sort, other.items)
        return None
    def vc_eq(self, I, other):
        o = self.lifted(I, other)
        if o is None: return False
        if o is self: return True
        if self.sort != o.sort: return And(Not(self.nonempty()), Not(o.nonempty()))
        ctx = self.ctx
        e = ctx.bool_('seteq')
        infs = And(Iff(self.pinf, o.pinf), Iff(self.ninf, o.ninf))
        ctx.assume(Implies(e, infs))
        ctx.assume_forall(self.sort, lambda t: Implies(e, Iff(self.mem(t), o.mem(t))))
        w = ctx.witness('differ', self.sort)
        ctx.assume(Implies(Not(e), Or(Not(infs), Not(Iff(self.mem(w), o.mem(w))))))
        return e
    def vc_binop(self, I, op, other, reflected):
        o = self.lifted(I, other)
        if o is None or o.sort != self.sort:
            if o is not None: raise Unsupported('sets of mixed sorts')
            return NotImplemented
        if op is ast.BitOr: f = Or
        elif op is ast.BitAnd: f = And
        elif op is ast.Sub: f = (lambda a, b: And(b, Not(a))) if reflected else (lambda a, b: And(a, Not(b)))
        else: return NotImplemented
        a, b = self, o
        return VSet(self.ctx, self.sort, Pred(lambda t: f(a.mem(t), b.mem(t))),
            f(a.pinf, b.pinf), f(a.ninf, b.ninf), self.frozen)
    def vc_attr(self, I, name):
        def remove(I, a, k):
            self._mut()
            if not I.ctx.branch(self.has(a[0])): I.throw(KeyError, 'remove')
            self._drop(I, a[0])
        def discard(I, a, k):
            self._mut(); self._drop(I, a[0])
        def add(I, a, k):
            self._mut()
            x, old, p, n = lift(a[0]), self.mem, self.pinf, self.ninf
            self.mem = Pred(lambda t: Or(old(t), And(tag_eq(x.tag, 0), t == x.val)))
            self.pinf = Or(p, tag_eq(x.tag, 1)); self.ninf = Or(n, tag_eq(x.tag, -1))
            self._nonempty = True
        def union(I, a, k):
            r = self
            for x in a: r = r.vc_binop(I, ast.BitOr, x, False)
            return r
        def inter(I, a, k):
            r = self
            for x in a: r = r.vc_binop(I, ast.BitAnd, x, False)
            return r
        def diff(I, a, k):
            r = self
            for x in a: r = r.vc_binop(I, ast.Sub, x, False)
            return r
        d = dict(remove=remove, discard=discard, add=add, union=union, intersection=inter, difference=diff,
            copy=lambda I, a, k: self.vc_set(I, self.frozen))
        if name in d: return NativeF(name, d[name])
        if name in ('issubset', 'issuperset', 'isdisjoint', 'symmetric_difference', 'pop', 'update'):
            raise Unsupported('set.%s' % name)
        return MISSING
    def _mut(self):
        if self.depth < self.ctx.depth: raise CannotMerge('mutation')
    def _drop(self, I, x):
        old, p, n = self.mem, self.pinf, self.ninf
        if self.sort == 'S':
            s = str_term(x)
            self.mem = Pred(lambda t: And(old(t), t != s))
        else:
            x = lift(x)
            self.mem = Pred(lambda t: And(old(t), Not(And(tag_eq(x.tag, 0), t == x.val))))
            self.pinf = And(p, Not(tag_eq(x.tag, 1)))
            self.ninf = And(n, Not(tag_eq(x.tag, -1)))
        self._nonempty = None

    # -- comprehensions  [elt for v in self if conds]
    def vc_comp(self, I, e, scope, kind):
        g = e.generators[0]
        if not isinstance(g.target, ast.Name): raise Unsupported('target')
        def bind(v):
            sc = Scope(scope)
            sc.vars[g.target.id] = v
            return sc
        def conds(v):
            def run():
                sc = bind(v)
                out = True
                for c in g.ifs:
                    t = I.truth(I.eval(c, sc))
                    if t is False: return False
                    out = And(out, t)
                return out
            return I.ctx.merged(run)
        gen = VGen(I, self, conds, lambda v: I.eval(e.elt, bind(v)), scope)
        if isinstance(e.elt, ast.Name) and e.elt.id == g.target.id:
            return gen.filtered(frozen=False)
        if kind == 'gen': return gen
        raise Unsupported('comprehension over an unbounded set')
    def scalar(self, t): return Sc(0, t) if self.sort == 'R' else SStr(t)
    def vc_filter(self, I, f):
        gen = VGen(I, self, lambda v: I.ctx.merged(lambda: I.truth(I.call(f, [v], {}))), None, None)
        return gen.filtered(False)
    def vc_quant(self, I, is_any):
        gen = VGen(I, self, lambda v: True, lambda v: v, None)
        return gen.vc_quant(I, is_any)
    def vc_minmax(self, I, is_min):
        ctx = self.ctx
        if self.sort != 'R': raise Unsupported('min of strings')
        if not ctx.branch(self.nonempty()): I.throw(ValueError, 'min of empty')
        m = ctx.num('min' if is_min else 'max')
        ctx.assume(self.has(m))
        le = (lambda a, b: sc_le(a, b)) if is_min else (lambda a, b: sc_le(b, a))
        ctx.assume_forall('R', lambda t: Implies(self.mem(t), le(m, Sc(0, t))))
        ctx.assume(Implies(self.pinf, le(m, INF)))
        ctx.assume(Implies(self.ninf, le(m, -INF)))
        return m


def VPset(ctx, sort, items):
    items = [x for x in items]
    if sort == 'R':
        if not all(is_num(x) for x in items): raise Unsupported('sets of mixed sorts')
        xs = [lift(x) for x in items]
        return VSet(ctx, 'R', Pred(lambda t: Or(*[And(tag_eq(x.tag, 0), simp(t == x.val)) for x in xs])),
            Or(*[tag_eq(x.tag, 1) for x in xs]), Or(*[tag_eq(x.tag, -1) for x in xs]))
    if not all(isinstance(x, (str, SStr)) for x in items): raise Unsupported('sets of mixed sorts')
    return VSet(ctx, 'S', Pred(lambda t: Or(*[simp(t == str_term(x)) for x in items])))


class VGen:
    """A generator over an unbounded set."""
    vc_unbounded = True
    def __init__(self, I, base, conds, elt, scope):
        self.I, self.base, self.conds, self.elt, self.scope = I, base, conds, elt, scope
    def filtered(self, frozen):
        b, I = self.base, self.I
        p = And(b.pinf, self.conds(INF)) if b.pinf is not False else False
        n = And(b.ninf, self.conds(-INF)) if b.ninf is not False else False
        return VSet(b.ctx, b.sort, Pred(lambda t: And(b.mem(t), self.conds(b.scalar(t)))), p, n, frozen, b.name + '|')
    def vc_set(self, I, frozen): raise Unsupported('set of generator')
    def vc_iter(self, I): raise Unsupported('iteration over an unbounded set')
    def body(self, v):
        I = self.I
        return And(self.conds(v), I.ctx.merged(lambda: I.truth(self.elt(v))))
    def vc_quant(self, I, is_any):
        """any/all of the generated items."""
        b, ctx = self.base, self.I.ctx
        if is_any: hit = lambda v: self.body(v)
        else: hit = lambda v: And(self.conds(v), Not(I.ctx.merged(lambda: I.truth(self.elt(v)))))
        # exists v in base. hit(v)
        special = Or(And(b.pinf, hit(INF)) if b.pinf is not False else False,
            And(b.ninf, hit(-INF)) if b.ninf is not False else False)
        # one-point rule: hit(v) forces v to be one of the scalars in scope
        c = ctx.witness('any', b.sort)
        h = hit(b.scalar(c))
        r = None
        if h is False: r = special
        else:
            for x in self.candidates():
                same = And(tag_eq(x.tag, 0), x.val == c) if isinstance(x, Sc) else (x.term == c)
                if ctx.check(h, Not(same)) == z3.unsat:
                    y = x.val if isinstance(x, Sc) else x.term
                    ok = tag_eq(x.tag, 0) if isinstance(x, Sc) else True
                    ctx.add_term(b.sort, y)
                    r = Or(special, And(ok, b.mem(y), hit(b.scalar(y))))
                    break
        if r is None:
            e = ctx.bool_('exists')
            ctx.assume(Implies(e, Or(special, And(b.mem(c), h))))
            ctx.assume(Implies(special, e))
            ctx.assume_forall(b.sort, lambda t: Implies(And(b.mem(t), Not(e)), Not(hit(b.scalar(t)))))
            r = e
        return r if is_any else Not(r)
    def candidates(self):
        s = self.scope
        out = []
        while s is not None and s.vars is not s.globals:
            for v in s.vars.values():
                if isinstance(v, bool): continue
                if self.base.sort == 'R' and is_num(v):
                    out.append(lift(v))
                if self.base.sort == 'S' and isinstance(v, (str, SStr)):
                    out.append(SStr(str_term(v)))
            s = s.parent
        return out


def model_real(v):
    if z3.is_algebraic_value(v): v = v.approx(20)
    if z3.is_rational_value(v):
        return '%s/%s' % (v.numerator_as_long(), v.denominator_as_long()) if v.denominator_as_long() != 1 \
            else str(v.numerator_as_long())
    if z3.is_int_value(v): return str(v.as_long())
    return str(v)

def model_num(m, x):
    x = lift(x)
    t = x.tag if isinstance(x.tag, int) else m.eval(x.tag, model_completion=True).as_long()
    if t: return 'inf' if t > 0 else '-inf'
    return model_real(m.eval(x.val, model_completion=True))
