"""Outcome sets seen through the contracts of sets.py.

An ASet is an arbitrary well-formed set of outcomes, given by its membership
predicate.  The operators have the contracts proved for C01 and C02: & | ~ are
intersection, union and complement, a set without members is EmptySet, and the
class of a set says which pieces it is made of.
"""
import ast
from pyvc.core import *
from pyvc.interp import Interp, Obj, ClassV, PSet, PList, PDict, PIter, NativeF, MISSING, Star, BoundM
from pyvc.vset import VSet
from pyvc.family import Family, Base, Guard, Cat, total
from . import setspec
from .setspec import den

SETS = 'sppl.sets'
KINDS = {'EmptySetC': 0, 'FiniteReal': 1, 'FiniteNominal': 2, 'Interval': 3, 'Union': 4}
E, FR, FN, IV, UN = 0, 1, 2, 3, 4

class ASet:
    vc_unbounded = True
    is_aset = True
    piece = False              # a piece of a union, hence no union itself
    def __init__(self, I, num=None, pinf=False, ninf=False, strs=None, kind=None, name='A'):
        self.I, self.ctx = I, I.ctx
        self.num, self.pinf, self.ninf, self.strs = num, pinf, ninf, strs
        self.name = name
        self.known = kind          # the class, if known
        self._iv = self._nom = None
        self.names, self.stated = {}, set()
        self.items = None          # the members, if known
        self.cache = {}
        self.depth = I.ctx.depth
    def __repr__(self): return 'ASet(%s)' % (self.name,)
    kind_facts = None          # what the operator that made the set says of its class
    part_kind = None           # the class of every piece, if known
    parts = None               # the pieces, if known
    def made(self, f):
        self.kind_facts = f
        return self
    def named(self, key, make):
        if key not in self.names: self.names[key] = make()
        return self.names[key]
    def fresh_facts(self, key):
        """Do the facts about key have to be stated (again)?  Facts stated
        inside a nested exploration are forgotten when it ends."""
        if key in self.stated: return False
        if self.ctx.depth == 0: self.stated.add(key)
        return True

    @staticmethod
    def fresh(I, name='A', nums=True, strs=True, infs=True, kind=None):
        ctx = I.ctx
        f = z3.Function(ctx.fresh(name), z3.RealSort(), z3.BoolSort()) if nums else None
        g = z3.Function(ctx.fresh(name + 's'), z3.IntSort(), z3.BoolSort()) if strs else None
        p = ctx.bool_(name + '_pinf') if nums and infs else False
        n = ctx.bool_(name + '_ninf') if nums and infs else False
        return ASet(I, (lambda t: f(t)) if nums else None, p, n, (lambda t: g(t)) if strs else None, kind, name)
    def like(self):
        """The type-checked copy with given class."""
        return self

    # -- membership
    def mem(self, t):
        if self.num is None: return False
        if self.ctx.depth: return self.num(t)
        k = t.get_id()
        if k not in self.cache: self.cache[k] = (t, self.num(t))
        return self.cache[k][1]
    def smem(self, t): return False if self.strs is None else self.strs(t)
    def has(self, x):
        ctx = self.ctx
        if isinstance(x, (str, SStr)):
            if self.strs is None: return False
            t = str_term(x)
            ctx.add_term('S', t)
            return self.smem(t)
        if hasattr(x, 'vc_member'): return x.vc_member(self)
        if not is_num(x) and not (is_sym(x) and z3.is_bool(x)): return False
        x = self.I.lift(x)
        if isinstance(x.tag, int):
            if x.tag: return self.pinf if x.tag > 0 else self.ninf
            if self.num is None: return False
            ctx.add_term('R', x.val)
            return self.mem(x.val)
        if self.num is not None: ctx.add_term('R', x.val)
        return Or(And(x.tag == 0, self.mem(x.val)), And(x.tag == 1, self.pinf), And(x.tag == -1, self.ninf))
    vc_den = has
    def numeric(self): return self.num is not None or self.pinf is not False or self.ninf is not False
    def nonempty(self):
        if self.known == E: return False
        if self.known is not None and self.known != E: return self._some()
        return self._some()
    def _some(self):
        if self.items is not None: return True
        ctx = self.ctx
        e = self.named('some', lambda: ctx.bool_('nonempty'))
        if self.fresh_facts('some'):
            alts = [self.pinf, self.ninf]
            if self.num is not None:
                w = self.named('w', lambda: z3.Real(ctx.fresh('w')))
                ctx.add_term('R', w)
                alts.append(self.mem(w))
                ctx.assume_forall('R', lambda t: Implies(self.mem(t), e))
            if self.strs is not None:
                u = self.named('ws', lambda: z3.Int(ctx.fresh('ws')))
                ctx.add_term('S', u)
                alts.append(self.smem(u))
                ctx.assume_forall('S', lambda t: Implies(self.smem(t), e))
            ctx.assume(Implies(e, Or(*alts)))
            ctx.assume(Implies(Or(self.pinf, self.ninf), e))
            if self.known is not None: ctx.assume(e)
        return e

    # -- the class
    def kind(self):
        """The class of the set, as a term."""
        if self.known is not None: return self.known
        ctx = self.ctx
        k = self.named('kind', lambda: ctx.int_('kind'))
        if self.fresh_facts('kind'):
            e = self.nonempty()
            ctx.assume(And(k >= 0, k <= 4))
            if self.kind_facts is not None:
                for f in self.kind_facts(k): ctx.assume(f)
            ctx.assume(Iff(k == E, Not(e)))
            if self.num is not None:
                ctx.assume_forall('R', lambda t: Implies(self.mem(t), k != FN))
            ctx.assume(Implies(Or(self.pinf, self.ninf), And(k != FN, k != IV)))
            if self.strs is not None:
                ctx.assume_forall('S', lambda t: Implies(self.smem(t), And(k != FR, k != IV)))
            else: ctx.assume(k != FN)
            if not self.numeric(): ctx.assume(And(k != FR, k != IV, k != UN))
        return k
    def is_kind(self, c):
        k = self.kind()
        return k == c if isinstance(k, int) else (k == c)

    # -- parts, each guarded by the class
    def as_interval(self):
        if self._iv is not None: return self._iv
        ctx = self.ctx
        r = self.named('iv', lambda: (Sc(z3.Int(ctx.fresh('at')), z3.Real(ctx.fresh('a'))), Sc(z3.Int(ctx.fresh('bt')), z3.Real(ctx.fresh('b'))),
            ctx.bool_('lo'), ctx.bool_('ro')))
        if self.fresh_facts('iv'):
            g = self.is_kind(IV)
            for x in r[:2]: ctx.assume(And(x.tag >= -1, x.tag <= 1))
            self._set_iv(*r, g)
            interval_terms(ctx, r[0], r[1])
        return r
    def _set_iv(self, a, b, lo, ro, g):
        ctx, I = self.ctx, self.I
        ctx.assume(Implies(g, And(sc_lt(a, b), Implies(tag_eq(a.tag, -1), lo), Implies(tag_eq(b.tag, 1), ro))))
        ctx.assume_forall('R', lambda t: Iff(self.mem(t), in_interval(a, b, lo, ro, t)), g)
    def elements(self):
        """The members of a finite set, as a sequence."""
        ctx, I = self.ctx, self.I
        if self.items is not None: return PList(list(self.items), ctx.depth)
        g = self.is_kind(FR)
        b, val, tag, pos = self.named('el', lambda: (Base(ctx, 'El'),
            z3.Function(ctx.fresh('el'), z3.IntSort(), z3.RealSort()),
            z3.Function(ctx.fresh('elt'), z3.IntSort(), z3.IntSort()),
            z3.Function(ctx.fresh('pos'), z3.RealSort(), z3.IntSort())))
        def el(i): return Sc(tag(i), val(i), None)
        if self.fresh_facts('el'):
            def fact(i):
                if not (z3.is_app(i) and i.decl().eq(pos)): ctx.add_term('R', val(i))
                return Implies(b.inside(i), And(tag(i) >= -1, tag(i) <= 1, self.has(el(i))))
            ctx.assume_forall(b.sort, fact, g)
            def back(t):
                i = pos(t)
                f = Implies(self.mem(t), And(b.inside(i), tag(i) == 0, val(i) == t))
                if self.mem(t) is not False and not (z3.is_app(t) and t.decl().eq(val)): ctx.add_term(b.sort, i)
                return f
            ctx.assume_forall('R', back, g)
            for t, m in ((1, self.pinf), (-1, self.ninf)):
                if m is False: continue
                i = self.named('inf%d' % t, lambda: z3.Int(ctx.fresh('inf')))
                ctx.add_term(b.sort, i)
                ctx.assume(Implies(And(g, m), And(b.inside(i), tag(i) == t)))
            ctx.assume(Implies(g, b.n >= 1))
        return self.named('els', lambda: Family(I, b.all_, el))
    def pieces(self):
        ctx, I = self.ctx, self.I
        if self.parts is not None: return PList(list(self.parts), ctx.depth)
        g = self.is_kind(UN)
        has_num, has_str = self.num is not None, self.strs is not None
        def make():
            d = dict(b=Base(ctx, 'Pc'))
            d['f'] = z3.Function(ctx.fresh('pc'), z3.IntSort(), z3.RealSort(), z3.BoolSort())
            d['fs'] = z3.Function(ctx.fresh('pcs'), z3.IntSort(), z3.IntSort(), z3.BoolSort())
            d['fi'] = {s: z3.Function(ctx.fresh('pci'), z3.IntSort(), z3.BoolSort()) for s in (1, -1)}
            d['kd'] = z3.Function(ctx.fresh('pck'), z3.IntSort(), z3.IntSort())
            d['own'] = z3.Function(ctx.fresh('own'), z3.RealSort(), z3.IntSort())
            d['owns'] = z3.Function(ctx.fresh('owns'), z3.IntSort(), z3.IntSort())
            return d
        d = self.named('pc', make)
        b, f, fs, fi, kd, own, owns = [d[k] for k in ('b', 'f', 'fs', 'fi', 'kd', 'own', 'owns')]
        if self.fresh_facts('pc'):
            ctx.assume(Implies(g, b.n >= 2))
            if has_num:
                def num(t):
                    i = own(t)
                    ctx.add_term(b.sort, i)
                    ctx.assume_forall(b.sort, lambda j: Implies(And(b.inside(j), f(j, t)), self.mem(t)), g)
                    return Implies(self.mem(t), And(b.inside(i), f(i, t)))
                ctx.assume_forall('R', num, g)
            if has_str:
                def st(t):
                    i = owns(t)
                    ctx.add_term(b.sort, i)
                    ctx.assume_forall(b.sort, lambda j: Implies(And(b.inside(j), fs(j, t)), self.smem(t)), g)
                    return Implies(self.smem(t), And(b.inside(i), fs(i, t)))
                ctx.assume_forall('S', st, g)
            for s, m in ((1, self.pinf), (-1, self.ninf)):
                if m is False:
                    ctx.assume_forall(b.sort, lambda j, s=s: Not(fi[s](j)), g); continue
                i = self.named('pinf%d' % s, lambda: z3.Int(ctx.fresh('inf')))
                ctx.add_term(b.sort, i)
                ctx.assume(Implies(And(g, m), And(b.inside(i), fi[s](i))))
                ctx.assume_forall(b.sort, lambda j, s=s, m=m: Implies(And(b.inside(j), fi[s](j)), m), g)
            # the pieces are finite sets, intervals, and sets of strings
            if self.part_kind is not None: ctx.assume_forall(b.sort, lambda j: Implies(b.inside(j), kd(j) == self.part_kind), g)
            ctx.assume_forall(b.sort, lambda j: Implies(b.inside(j), Or(kd(j) == FR, kd(j) == FN, kd(j) == IV)), g)
        made = {}
        def piece(i):
            if i.get_id() in made: return made[i.get_id()][1]
            p = ASet(I, (lambda t: f(i, t)) if has_num else None, fi[1](i), fi[-1](i),
                (lambda t: fs(i, t)) if has_str else None, name='%s[%s]' % (self.name, i))
            p.names['kind'] = kd(i)
            p.piece = True
            made[i.get_id()] = (i, p)
            return p
        return self.named('pieces', lambda: Family(I, b.all_, piece))

    # -- protocol
    def vc_truth(self, I):
        if self.ctx.branch(Or(self.is_kind(FR), self.is_kind(FN))): raise Unsupported('length of a set')
        return True
    def vc_contains(self, I, x): return self.has(x)
    def vc_isinstance(self, I, t):
        if not isinstance(t, ClassV): return False
        if t.name == 'Set': return True
        if t.name not in KINDS: return False
        c = KINDS[t.name]
        if c == E: return Not(self.nonempty())
        r = self.is_kind(c)
        return r if isinstance(r, bool) else simp(r)
    def vc_is(self, I, o):
        if isinstance(o, Obj) and o.cls.name == 'EmptySetC': return Not(self.nonempty())
        if o is self: return True
        if isinstance(o, (ASet, Obj)):
            if not is_set(o): return False
            raise Unsupported('identity of sets')
        return False
    def vc_merge(self, pairs):
        ps = [(c, lift_set(self.I, v)) for c, v in pairs]
        if any(p is None for _, p in ps): raise CannotMerge('sets')
        some = lambda f: lambda t: Or(*[And(c, f(p, t)) for c, p in ps])
        kinds = {p.known for _, p in ps}
        return ASet(self.I, some(ASet.mem) if any(p.num is not None for _, p in ps) else None,
            Or(*[And(c, p.pinf) for c, p in ps]), Or(*[And(c, p.ninf) for c, p in ps]),
            some(ASet.smem) if any(p.strs is not None for _, p in ps) else None,
            kinds.pop() if len(kinds) == 1 else None, name='merged')
    def vc_iter(self, I):
        if self.items is not None: return iter(list(self.items))
        if self.parts is not None: return iter(list(self.parts))
        if self.known == IV: I.throw(TypeError, 'not iterable')
        if self.known == FR: raise Unsupported('iteration over a set')
        k = self.kind()
        raise Unsupported('iteration over a set')
    def vc_comp(self, I, e, scope, kind):
        ctx = self.ctx
        if self.items is not None: return MISSING
        if ctx.branch(self.is_kind(FR)): return self.elements().vc_comp(I, e, scope, kind)
        if ctx.branch(self.is_kind(UN)):
            if self.parts is not None: return MISSING
            return self.pieces().vc_comp(I, e, scope, kind)
        if ctx.branch(Or(self.is_kind(IV), Not(self.nonempty()))): I.throw(TypeError, 'not iterable')
        raise Unsupported('iteration over strings')
    def vc_list(self, I):
        if self.items is not None: return PList(list(self.items), I.ctx.depth)
        return self.elements()
    def vc_len(self, I):
        if self.items is not None: return len(self.items)
        raise Unsupported('length of a set')
    def vc_attr(self, I, name):
        ctx = self.ctx
        if name in ('left', 'right', 'a', 'b', 'left_open', 'right_open'):
            if name == 'b' and not ctx.branch(self.is_kind(IV)):
                if ctx.branch(self.is_kind(FN)): return self.cofinite()
                return MISSING
            if not ctx.branch(self.is_kind(IV)): return MISSING
            a, b, lo, ro = self.as_interval()
            return {'left': a, 'a': a, 'right': b, 'b': b, 'left_open': lo, 'right_open': ro}[name]
        if name == 'args':
            if not ctx.branch(self.is_kind(UN)): return MISSING
            return self.pieces()
        if name == 'values':
            if ctx.branch(self.is_kind(FR)): return self.elements()
            if ctx.branch(self.is_kind(UN)): return self.pieces()
            raise Unsupported('values of a set')
        return MISSING
    def cofinite(self):
        """The flag of a set of strings: true if almost all belong to it."""
        if self._nom is None: self._nom = self.ctx.bool_('cofinite')
        return self._nom
    def vc_eq(self, I, o):
        o = lift_set(I, o)
        if o is None: return False
        if o is self: return True
        if self.known is not None and o.known is not None and self.known != o.known: return False
        ctx = self.ctx
        e = ctx.bool_('seteq')
        same = And(Iff(self.pinf, o.pinf), Iff(self.ninf, o.ninf))
        ctx.assume(Implies(e, same))
        diff = [Not(same)]
        if self.num is not None or o.num is not None:
            ctx.assume_forall('R', lambda t: Implies(e, Iff(self.mem(t), o.mem(t))))
            w = ctx.witness('differ')
            diff.append(Not(Iff(self.mem(w), o.mem(w))))
        if self.strs is not None or o.strs is not None:
            ctx.assume_forall('S', lambda t: Implies(e, Iff(self.smem(t), o.smem(t))))
            w = ctx.witness('differ', 'S')
            diff.append(Not(Iff(self.smem(w), o.smem(w))))
        # unions with the same members may be made of different pieces
        ctx.assume(Or(e, Or(*diff), And(self.is_kind(UN), o.is_kind(UN))))
        return e
    def vc_hash(self, I): raise Unsupported('hash of a set')
    def vc_binop(self, I, op, o, reflected):
        if op not in (ast.BitAnd, ast.BitOr): return NotImplemented
        o = lift_set(I, o)
        if o is None: return NotImplemented
        return combine(I, op, self, o)
    def vc_unary(self, I, op):
        if op is not ast.Invert: raise Unsupported('unary on a set')
        return complement(I, self)

def in_interval(a, b, lo, ro, t):
    x = Sc(0, t)
    return And(Or(sc_lt(a, x), And(Not(lo), sc_eq(a, x))), Or(sc_lt(x, b), And(Not(ro), sc_eq(x, b))))

def interval_terms(ctx, a, b):
    """Points of an interval: between its ends, and between 0 and its ends."""
    (x, y) = (a.val, b.val)
    half = z3.Q(1, 2)
    for t in (x, y, x * half, y * half, (x + y) * half, x + 1, y - 1, z3.RealVal(0), z3.RealVal(1), z3.RealVal(-1)): ctx.add_term("R", z3.simplify(t))

def is_set(v): return isinstance(v, ASet) or (isinstance(v, Obj) and v.cls.name in KINDS)

_lifted = {}
def lift_set(I, v):
    """The contract view of a set."""
    if isinstance(v, ASet): return v
    if not is_set(v): return None
    ctx = I.ctx
    if not hasattr(ctx, 'lifted_sets'): ctx.lifted_sets = {}
    k = id(v)
    if k in ctx.lifted_sets: return ctx.lifted_sets[k][1]
    kind = KINDS[v.cls.name]
    if kind == E: r = ASet(I, kind=E, name='EmptySet')
    else:
        num = lambda t: den(I, v, Sc(0, t))
        names = [p.cls.name for p in setspec.pieces(v)]
        hasn, hass = set(names) != {'FiniteNominal'}, 'FiniteNominal' in names
        r = ASet(I, num if hasn else None, den(I, v, INF) if hasn else False, den(I, v, -INF) if hasn else False,
            (lambda t: den(I, v, SStr(t))) if hass else None, kind, v.cls.name)
        if kind == IV:
            a, b = I.lift(v.attrs['a']), I.lift(v.attrs['b'])
            r._iv = (v.attrs['a'], v.attrs['b'], I.truth(v.attrs['left_open']), I.truth(v.attrs['right_open']))
        if kind == FN: r._nom = I.truth(v.attrs['b'])
        if kind == FR and isinstance(v.attrs['values'], PSet): r.items = list(v.attrs['values'].items)
    if ctx.depth == 0: ctx.lifted_sets[k] = (v, r)
    return r

def combine(I, op, a, b):
    f = And if op is ast.BitAnd else Or
    if a.known == E: return EMPTY(I) if op is ast.BitAnd else b
    if b.known == E: return EMPTY(I) if op is ast.BitAnd else a
    both = op is ast.BitAnd
    if both:
        for x, y in ((a, b), (b, a)):
            if x.items is not None and len(x.items) <= 3 and (y.items is None or len(y.items) >= len(x.items)):
                return finite_or_empty(I, [v for v in x.items if I.ctx.branch(simp(zb(y.has(v))))])
    def need(x, y): return (x is not None and y is not None) if both else (x is not None or y is not None)
    return ASet(I, (lambda t: f(a.mem(t), b.mem(t))) if need(a.num, b.num) else None,
        f(a.pinf, b.pinf), f(a.ninf, b.ninf),
        (lambda t: f(a.smem(t), b.smem(t))) if need(a.strs, b.strs) else None,
        name='(%s%s%s)' % (a.name, '&' if both else '|', b.name)).made(lambda k: and_kinds(a, b, k) if both else or_kinds(a, b, k))

def and_kinds(a, b, k):
    return [Implies(Or(a.is_kind(FR), b.is_kind(FR)), Or(k == E, k == FR)),
        Implies(Or(a.is_kind(FN), b.is_kind(FN)), Or(k == E, k == FN)),
        Implies(And(a.is_kind(IV), b.is_kind(IV)), And(k != FN, k != UN))]

def or_kinds(a, b, k):
    return [Implies(And(a.is_kind(FR), b.is_kind(FR)), k == FR), Implies(And(a.is_kind(FN), b.is_kind(FN)), k == FN),
        Implies(Or(a.is_kind(IV), b.is_kind(IV)), Or(k == IV, k == UN))]

def finite_or_empty(I, values):
    return finite(I, values) if values else EMPTY(I)

def complement(I, a):
    """Within the numbers, or within the strings."""
    ctx = I.ctx
    if a.known == E: return lift_set(I, module(I, 'Reals'))
    if a.known == IV or a.known is None and a.numeric() and ctx.branch(a.is_kind(IV)):
        x, y, lo, ro = a.as_interval()
        out = []
        if not ctx.branch(simp(zb(tag_eq(I.lift(x).tag, -1)))): out.append(interval(I, -INF, x, True, Not(lo)))
        if not ctx.branch(simp(zb(tag_eq(I.lift(y).tag, 1)))): out.append(interval(I, y, INF, Not(ro), True))
        if not out: return EMPTY(I)
        if len(out) == 1: return out[0]
        r = ASet(I, lambda t: Not(a.mem(t)), False, False, None, UN, name='~' + a.name)
        r.parts = out
        return r
    if a.known == FR or a.known is None and a.numeric() and ctx.branch(a.is_kind(FR)):
        # the intervals between the points
        w = ctx.witness('hole')
        some = ctx.bool_('holes')
        ctx.assume(Implies(some, a.mem(w)))
        ctx.assume_forall('R', lambda t: Implies(a.mem(t), some))
        if not ctx.branch(some): return lift_set(I, module(I, 'Reals'))
        r = ASet(I, lambda t: Not(a.mem(t)), False, False, None, name='~' + a.name)
        r.part_kind = IV
        r.known = UN
        return r
    if a.known is None:
        if not ctx.branch(a.nonempty()): return lift_set(I, module(I, 'Reals'))
        if a.numeric() and a.strs is not None:
            if ctx.branch(a.is_kind(UN)): raise Unsupported('complement of a union of numbers and strings')
            if ctx.branch(a.is_kind(FN)):
                return ASet(I, None, False, False, lambda t: Not(a.smem(t)), name='~' + a.name)
            return ASet(I, lambda t: Not(a.mem(t)), False, False, None, name='~' + a.name)
    if a.strs is not None and not a.numeric() or a.known == FN:
        return ASet(I, None, False, False, lambda t: Not(a.smem(t)), name='~' + a.name)
    if a.known == UN and a.strs is not None: raise Unsupported('complement of a union of numbers and strings')
    return ASet(I, lambda t: Not(a.mem(t)), False, False, None, name='~' + a.name)

def module(I, name): return I.modules[SETS].ns[name]
def EMPTY(I): return module(I, 'EmptySet')

# -- constructors

def finite(I, values):
    """FiniteReal(*values)."""
    ctx = I.ctx
    if len(values) == 1 and isinstance(values[0], Star):
        c = values[0].coll
        if isinstance(c, ASet): return c
        if isinstance(c, Family): return of_family(I, c)
        raise Unsupported('FiniteReal of %r' % (c,))
    if any(isinstance(v, Star) for v in values): raise Unsupported('FiniteReal of a mixed sequence')
    if not values: I.throw(AssertionError, 'FiniteReal()')
    if any(isinstance(v, (str, SStr)) or v is None for v in values): raise Unsupported('FiniteReal of text')
    xs = [I.lift(v) for v in values]
    r = ASet(I, lambda t: Or(*[And(tag_eq(x.tag, 0), simp(t == x.val)) for x in xs]),
        Or(*[tag_eq(x.tag, 1) for x in xs]), Or(*[tag_eq(x.tag, -1) for x in xs]), None, FR, name='FiniteReal')
    for x in xs: ctx.add_term('R', x.val)
    if len(values) == 1 or all(isinstance(v, (int, Fraction)) for v in values) and len(set(values)) == len(values): r.items = list(values)
    return r

def of_family(I, fam):
    """The finite set of the elements of a sequence."""
    ctx = I.ctx
    if not ctx.branch(simp(zb(fam.guard.nonempty(ctx)))): I.throw(AssertionError, 'FiniteReal()')
    el = lambda i: I.lift(fam.elem(i))
    def hit(x): return fam.map(lambda v: sc_eq(I.lift(v), x)).vc_quant(I, True)
    return ASet(I, lambda t: hit(Sc(0, t)), hit(INF), hit(-INF), None, FR, name='FiniteReal')

def interval(I, a, b, lo=None, ro=None):
    ctx = I.ctx
    if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)): raise Unsupported('interval of text')
    lt = I.truth(I.compare(ast.Lt, a, b))
    if not ctx.branch(lt): I.throw(AssertionError, 'Interval: a < b')
    x, y = I.lift(a), I.lift(b)
    lo = Or(I.truth(lo), tag_eq(x.tag, -1)) if lo is not None else tag_eq(x.tag, -1)
    ro = Or(I.truth(ro), tag_eq(y.tag, 1)) if ro is not None else tag_eq(y.tag, 1)
    lo, ro = [simp(v) if not isinstance(v, bool) else v for v in (lo, ro)]
    for v in (x, y): ctx.add_term('R', v.val)
    # +inf as left end or -inf as right end is impossible since a < b
    r = ASet(I, lambda t: in_interval(x, y, lo, ro, t), False, False, None, IV, name='Interval')
    r._iv = (a, b, lo, ro)
    return r

def nominal(I, values, b=None):
    ctx = I.ctx
    if any(isinstance(v, Star) for v in values): raise Unsupported('FiniteNominal of a sequence')
    neg = I.truth(b) if b is not None else False
    if not values and not ctx.branch(neg): I.throw(AssertionError, 'FiniteNominal()')
    if not all(isinstance(v, (str, SStr)) for v in values): raise Unsupported('FiniteNominal of numbers')
    if not isinstance(neg, bool): neg = ctx.branch(neg)
    ts = [str_term(v) for v in values]
    for t in ts: ctx.add_term('S', t)
    inn = lambda t: Or(*[simp(t == u) for u in ts])
    r = ASet(I, None, False, False, (lambda t: Not(inn(t))) if neg else inn, FN, name='FiniteNominal')
    r._nom = neg
    return r

def big(I, op, items):
    """make_union / make_intersection."""
    ctx = I.ctx
    out = None
    for x in items:
        if isinstance(x, Star):
            c = x.coll
            if isinstance(c, ASet): c = c.elements()
            if isinstance(c, Cat):
                for p in c.parts:
                    if isinstance(p, Family):
                        if I.ctx.branch(simp(zb(p.guard.nonempty(ctx)))):
                            v = family_op(I, op, p)
                            out = v if out is None else I.binop(op, out, v)
                    else:
                        for v in I.tolist(p): out = v if out is None else I.binop(op, out, v)
                continue
            if isinstance(c, (PList, tuple)):
                for v in I.tolist(c): out = v if out is None else I.binop(op, out, v)
                continue
            if not isinstance(c, Family): raise Unsupported('union of %r' % (c,))
            if out is None and not ctx.branch(simp(zb(c.guard.nonempty(ctx)))): I.throw(TypeError, 'reduce of an empty sequence')
            v = family_op(I, op, c)
        else: v = x
        out = v if out is None else I.binop(op, out, v)
    if out is None: I.throw(TypeError, 'reduce of an empty sequence')
    return out

def family_op(I, op, fam):
    """Union or intersection of a sequence of sets."""
    is_any = op is ast.BitOr
    def el(i):
        s = lift_set(I, fam.elem(i))
        if s is None: raise Unsupported('union of values')
        return s
    q = lambda f: Family(I, fam.guard, f).vc_quant(I, is_any)
    return ASet(I, lambda t: q(lambda i: el(i).mem(t)), q(lambda i: el(i).pinf), q(lambda i: el(i).ninf),
        lambda t: q(lambda i: el(i).smem(t)), name='big')

def install(I):
    """Callers see sets.py through its contracts."""
    def hook(I, what, *a):
        if what == 'bin':
            op, x, y = a
            if op in (ast.BitAnd, ast.BitOr) and is_set(x) and is_set(y):
                return combine(I, op, lift_set(I, x), lift_set(I, y))
        elif what == 'un':
            if a[0] is ast.Invert and is_set(a[1]): return complement(I, lift_set(I, a[1]))
        elif what == 'in':
            if is_set(a[0]): return lift_set(I, a[0]).has(a[1])
        elif what == 'eq':
            x, y = a
            if is_set(x) and is_set(y) and x is not y: return lift_set(I, x).vc_eq(I, y)
        return MISSING
    I.hooks.append(hook)
    C = I.contracts
    C[SETS + '.FiniteReal'] = lambda I, f, a, k: finite(I, a)
    C[SETS + '.Interval'] = lambda I, f, a, k: interval(I, *a, **{{'left_open': 'lo', 'right_open': 'ro'}.get(n, n): v for n, v in k.items()})
    C[SETS + '.FiniteNominal'] = lambda I, f, a, k: nominal(I, a, **k)
    def un(op):
        def c(I, f, a, k):
            if len(a) == 1 and not is_set(a[0]) and not isinstance(a[0], Star): return a[0]
            return big(I, op, a)
        return c
    C[SETS + '.make_union'] = un(ast.BitOr)
    C[SETS + '.make_intersection'] = un(ast.BitAnd)
