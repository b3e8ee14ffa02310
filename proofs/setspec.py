"""Specification view of outcome sets: den(A)(x), well-formedness, builders.

den(A)(x) is the mathematical meaning of a set object; the contracts of
sets.py are stated with it, and `x in A` is proved equal to it.
"""
from pyvc.core import *
from pyvc.interp import Interp, Obj, PSet, PList, MISSING, load_module, NativeF
from pyvc.vset import VSet, model_num, model_real

M = 'sppl.sets'

class Sets:
    """The set classes of the current source, for one interpreter."""
    def __init__(self, I):
        self.I = I
        ns = load_module(I, M).ns
        self.ns = ns
        for c in ('EmptySetC', 'FiniteNominal', 'FiniteReal', 'Interval', 'Union', 'EmptySet', 'Set'):
            if c not in ns: raise Unsupported('no %s in sets' % c)
            setattr(self, c, ns[c])

def attr(o, name):
    if name not in o.attrs: raise Unsupported('no attribute %s' % name)
    return o.attrs[name]

def kind(o):
    if not isinstance(o, Obj): raise Unsupported('not a set: %r' % (o,))
    return {'EmptySetC': 'E', 'FiniteNominal': 'FN', 'FiniteReal': 'FR', 'Interval': 'IV', 'Union': 'UN'}.get(o.cls.name)

def coll_has(I, coll, x):
    if isinstance(coll, VSet): return coll.has(x)
    if isinstance(coll, PSet):
        out = False
        for y in coll.items:
            if isinstance(y, (str, SStr)) != isinstance(x, (str, SStr)): continue
            out = Or(out, sc_eq(I.lift(x), I.lift(y)) if not isinstance(x, (str, SStr)) else simp(str_term(x) == str_term(y)))
        return out
    raise Unsupported('collection %r' % (coll,))

def den(I, A, x):
    """The meaning of set A at the scalar x, as a formula."""
    if not isinstance(A, Obj) and hasattr(A, 'vc_den'): return A.vc_den(x)
    k = kind(A)
    isstr = isinstance(x, (str, SStr))
    if k == 'E': return False
    if k == 'IV':
        if isstr: return False
        a, b, x = I.lift(attr(A, 'a')), I.lift(attr(A, 'b')), I.lift(x)
        lo, ro = I.truth(attr(A, 'left_open')), I.truth(attr(A, 'right_open'))
        return And(Or(sc_lt(a, x), And(Not(lo), sc_eq(a, x))), Or(sc_lt(x, b), And(Not(ro), sc_eq(x, b))))
    if k == 'FR': return False if isstr else coll_has(I, attr(A, 'values'), x)
    if k == 'FN':
        neg = I.truth(attr(A, 'b'))
        if not isstr:
            return And(Not(neg), coll_has(I, attr(A, 'values'), x))
        e = coll_has(I, attr(A, 'values'), x)
        return Or(And(Not(neg), e), And(neg, Not(e)))
    if k == 'UN':
        return Or(*[den(I, p, x) for p in pieces(A)])
    raise Unsupported('set %r' % (A,))

def pieces(A):
    k = kind(A)
    if k == 'E': return []
    if k != 'UN': return [A]
    out = []
    for n in ('nominals', 'atoms'):
        p = attr(A, n)
        if kind(p) != 'E': out.append(p)
    iv = attr(A, 'intervals')
    if not isinstance(iv, PSet): raise Unsupported('intervals')
    return out + list(iv.items)

# -- builders of arbitrary well-formed sets

class Builder:
    def __init__(self, I):
        self.I, self.ctx, self.S = I, I.ctx, Sets(I)
    def empty(self): return self.S.EmptySet
    def interval(self, n='i'):
        """Any interval the class invariant admits: a < b, infinite ends open."""
        c = self.ctx
        a, b = c.num(n + 'a'), c.num(n + 'b')
        lo, ro = c.bool_(n + 'lo'), c.bool_(n + 'ro')
        c.assume(sc_lt(a, b))
        c.assume(Implies(a.tag == -1, lo))
        c.assume(Implies(b.tag == 1, ro))
        return self.mk_interval(a, b, lo, ro)
    def mk_interval(self, a, b, lo, ro):
        return Obj(self.S.Interval, dict(a=a, b=b, left_open=lo, right_open=ro, left=a, right=b), self.ctx.depth)
    def real(self, n='F'):
        v = VSet.fresh(self.ctx, n)
        v.assume_nonempty()
        return Obj(self.S.FiniteReal, dict(values=v), self.ctx.depth)
    def real_k(self, k, n='f'):
        """k pairwise distinct numbers."""
        xs = [self.ctx.num('%s%d' % (n, i)) for i in range(k)]
        for i in range(k):
            for j in range(i): self.ctx.assume(Not(sc_eq(xs[i], xs[j])))
        return Obj(self.S.FiniteReal, dict(values=PSet(xs, 0, True)), self.ctx.depth)
    def nominal(self, n='N', b=None):
        v = VSet.fresh(self.ctx, n, 'S')
        if b is None: b = self.ctx.bool_(n + 'b')
        e = v.nonempty()
        self.ctx.assume(Or(e, b))
        return Obj(self.S.FiniteNominal, dict(values=v, b=b), self.ctx.depth)
    def union(self, n='U', k=2, nom=None, atoms=None):
        """A union with k intervals, and a nominal or finite part if asked."""
        I, c = self.I, self.ctx
        ivs = [self.interval('%s_i%d' % (n, j)) for j in range(k)]
        nominals = self.nominal(n + '_n') if nom else self.S.EmptySet
        at = self.real(n + '_f') if atoms else self.S.EmptySet
        for j in range(k):
            for i in range(j): c.assume(disjoint_intervals(I, ivs[i], ivs[j]))
            if atoms:
                iv = ivs[j]
                c.assume_forall('R', lambda t, iv=iv: Not(And(den(I, iv, Sc(0, t)), den(I, at, Sc(0, t)))))
                for inf in (INF, -INF): c.assume(Not(And(den(I, iv, inf), den(I, at, inf))))
        ps = ([nominals] if nom else []) + ([at] if atoms else []) + ivs
        if len(ps) < 2: raise ValueError
        return Obj(self.S.Union, dict(nominals=nominals, atoms=at, intervals=PSet(ivs, 0, True),
            values=PSet(ps, 0, True), args=PList(list(ps), 0)), c.depth)
    def of(self, k, n):
        if k == 'E': return self.empty()
        if k == 'IV': return self.interval(n)
        if k == 'FR': return self.real(n)
        if k == 'FN': return self.nominal(n)
        if isinstance(k, tuple): return self.union(n, k[1], k[2], k[3])
        raise ValueError(k)

def disjoint_intervals(I, p, q):
    """No common point, for intervals with a < b."""
    def before(p, q):
        b, a = I.lift(attr(p, 'b')), I.lift(attr(q, 'a'))
        ro, lo = I.truth(attr(p, 'right_open')), I.truth(attr(q, 'left_open'))
        return Or(sc_lt(b, a), And(sc_eq(b, a), Or(ro, lo)))
    return Or(before(p, q), before(q, p))

# -- well-formedness of a result

def wf(I, A):
    """Formulas of the class invariant of a result: list of (name, formula)."""
    k = kind(A)
    out = []
    if k is None: return [('a known set class', False)]
    if k == 'E':
        return [('EmptySet is the singleton', A is Sets(I).EmptySet)]
    if k == 'IV':
        a, b = I.lift(attr(A, 'a')), I.lift(attr(A, 'b'))
        lo, ro = I.truth(attr(A, 'left_open')), I.truth(attr(A, 'right_open'))
        out.append(('a < b', sc_lt(a, b)))
        out.append(('infinite ends are open', And(Implies(tag_eq(a.tag, -1), lo), Implies(tag_eq(b.tag, 1), ro))))
        out.append(('left/right agree with a/b', And(I.same(attr(A, 'left'), attr(A, 'a')), I.same(attr(A, 'right'), attr(A, 'b')))))
    if k == 'FR': out.append(('nonempty values', I.truth(attr(A, 'values'))))
    if k == 'FN': out.append(('nonempty values or co-finite', Or(I.truth(attr(A, 'values')), I.truth(attr(A, 'b')))))
    if k == 'UN':
        ps = pieces(A)
        vals = attr(A, 'values').items
        args = I.tolist(attr(A, 'args'))
        out.append(('at least two pieces', len(ps) >= 2))
        for nm, lst in (('values', vals), ('args', args)):
            out.append(('%s are the pieces' % nm, len(lst) == len(ps) and all(any(p is q for q in lst) for p in ps)))
        for p in ps:
            out.append(('piece kinds', kind(p) in ('FN', 'FR', 'IV')))
            out.extend(wf(I, p))
        num = [p for p in ps if kind(p) in ('FR', 'IV')]
        for i, p in enumerate(num):
            for q in num[:i]:
                if kind(p) == kind(q) == 'IV':
                    out.append(('pieces disjoint', disjoint_intervals(I, p, q)))
                elif kind(p) != kind(q):
                    y = I.ctx.num('y')
                    out.append(('pieces disjoint', Not(And(den(I, p, y), den(I, q, y)))))
                else: out.append(('one finite piece', False))
    return out

# -- counterexamples as data for the replayer

def set_model(I, A):
    """A function from a model to JSON data describing A."""
    def build(m):
        k = kind(A)
        tv = lambda f: z3.is_true(m.eval(zb(f), model_completion=True))
        if k == 'E': return ['E']
        if k == 'IV':
            return ['IV', model_num(m, attr(A, 'a')), model_num(m, attr(A, 'b')),
                tv(I.truth(attr(A, 'left_open'))), tv(I.truth(attr(A, 'right_open')))]
        if k in ('FR', 'FN'):
            v = attr(A, 'values')
            xs = v.members(m) if isinstance(v, VSet) else [
                model_num(m, x) if not isinstance(x, (str, SStr)) else scalar_model(x)(m) for x in v.items]
            return ['FR', xs] if k == 'FR' else ['FN', xs, tv(I.truth(attr(A, 'b')))]
        return ['UN', [set_model(I, p)(m) for p in pieces(A)]]
    return build

def scalar_model(x):
    def build(m):
        if isinstance(x, SStr): return 's%s' % (m.eval(x.term, model_completion=True),)
        if isinstance(x, str): return x
        return model_num(m, x)
    return build
