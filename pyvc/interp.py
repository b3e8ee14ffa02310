"""Interpreter for the Python subset of /repo/src, over symbolic values.

The source files are parsed on every run; nothing is translated by hand.
"""
import ast
import os
import builtins as pybuiltins
from .core import *

MISSING = object()


# ---------------------------------------------------------------------------
# Values

class ClassV:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = self._mro()
    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, ClassV)]
        seqs.append([b for b in self.bases if isinstance(b, ClassV)])
        out = [self]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in t[1:] for t in seqs):
                    c = s[0]; break
            else:
                raise Unsupported('mro of %s' % self.name)
            out.append(c)
            for s in seqs:
                if s and s[0] is c: s.pop(0)
        return out
    def lookup(self, name):
        for c in self.mro:
            if name in c.ns: return c.ns[name]
        return MISSING
    def native_base(self):
        for c in self.mro:
            for b in c.bases:
                if isinstance(b, type) and b is not object: return b
        return None
    @property
    def qual(self): return '%s.%s' % (self.module, self.name)
    def __repr__(self): return '<class %s>' % (self.qual,)

class Obj:
    __slots__ = ('cls', 'attrs', 'depth', 'tag')
    def __init__(self, cls, attrs=None, depth=0, tag=None):
        self.cls, self.attrs, self.depth = cls, attrs or {}, depth
        self.tag = tag
    def __repr__(self): return '<%s %s>' % (self.cls.name, self.attrs)

class FuncV:
    def __init__(self, node, scope, module, qual, defaults, kwdefaults, cls=None):
        self.node, self.scope, self.module, self.qual = node, scope, module, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.attrs = {}
    @property
    def name(self): return getattr(self.node, 'name', '<lambda>')
    def __repr__(self): return '<function %s>' % (self.qual,)

class BoundM:
    __slots__ = ('func', 'self_')
    def __init__(self, func, self_): self.func, self.self_ = func, self_

class StaticV:
    def __init__(self, func): self.func = func
class ClassMethodV:
    def __init__(self, func): self.func = func
class PropertyV:
    def __init__(self, func): self.func = func

class NativeF:
    """A built-in function: fn(interp, args, kwargs)."""
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return '<native %s>' % (self.name,)

class TypeV:
    """A built-in or external type, for isinstance."""
    def __init__(self, name, test, call=None):
        self.name, self.test, self.call = name, test, call
        self.attrs = {}
    def __repr__(self): return '<type %s>' % (self.name,)

class ModV:
    def __init__(self, name, ns): self.name, self.ns = name, ns
    def __repr__(self): return '<module %s>' % (self.name,)

class PList:
    __slots__ = ('items', 'depth')
    def __init__(self, items, depth=0): self.items, self.depth = items, depth
    def __repr__(self): return 'PList(%r)' % (self.items,)

class PSet:
    """Finite set of pairwise distinct items."""
    __slots__ = ('items', 'depth', 'frozen')
    def __init__(self, items, depth=0, frozen=False):
        self.items, self.depth, self.frozen = items, depth, frozen
    def __repr__(self): return 'PSet(%r)' % (self.items,)

class PDict:
    __slots__ = ('pairs', 'depth', 'cls', 'default')
    def __init__(self, pairs, depth=0, cls='dict', default=None):
        self.pairs, self.depth, self.cls, self.default = pairs, depth, cls, default
    def __repr__(self): return 'PDict(%r)' % (self.pairs,)

class Star:
    """An argument list segment of unknown length."""
    def __init__(self, coll): self.coll = coll

class PIter:
    """A one-shot iterator over interpreted values."""
    def __init__(self, gen, depth):
        self.gen, self.depth = gen, depth
        self.buf = []

class HashV:
    """The hash of a value: a function of its contents."""
    def __init__(self, content): self.content = content

class SliceV:
    def __init__(self, a, b, c): self.a, self.b, self.c = a, b, c

class SuperV:
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_


class Scope:
    __slots__ = ('vars', 'parent', 'is_class', 'globals', 'glob_names', 'func')
    def __init__(self, parent=None, is_class=False, globals_=None, func=None):
        self.vars = {}
        self.parent = parent
        self.is_class = is_class
        self.globals = globals_ if globals_ is not None else (parent.globals if parent else None)
        self.glob_names = set()
        self.func = func if func is not None else (parent.func if parent else None)
    def get(self, name):
        s = self
        first = True
        while s is not None:
            if (first or not s.is_class) and name in s.vars: return s.vars[name]
            first = False
            s = s.parent
        return MISSING

class Return(Exception):
    def __init__(self, v): self.v = v
class Break(Exception): pass
class Continue(Exception): pass


# ---------------------------------------------------------------------------

BINOPS = {
    ast.Add: ('__add__', '__radd__'), ast.Sub: ('__sub__', '__rsub__'),
    ast.Mult: ('__mul__', '__rmul__'), ast.Div: ('__truediv__', '__rtruediv__'),
    ast.Pow: ('__pow__', '__rpow__'), ast.BitAnd: ('__and__', '__rand__'),
    ast.BitOr: ('__or__', '__ror__'), ast.BitXor: ('__xor__', '__rxor__'),
    ast.LShift: ('__lshift__', '__rlshift__'), ast.RShift: ('__rshift__', '__rrshift__'),
    ast.Mod: ('__mod__', '__rmod__'), ast.FloorDiv: ('__floordiv__', '__rfloordiv__'),
    ast.MatMult: ('__matmul__', '__rmatmul__'),
}
CMPOPS = {
    ast.Lt: ('__lt__', '__gt__'), ast.Gt: ('__gt__', '__lt__'),
    ast.LtE: ('__le__', '__ge__'), ast.GtE: ('__ge__', '__le__'),
}

class Interp:
    def __init__(self, ctx, modules=None):
        self.ctx = ctx
        self.modules = modules if modules is not None else {}
        self.contracts = {}      # qualified name -> fn(interp, func, args, kwargs)
        self.mergeable = set()   # qualified names whose calls are joined
        self.while_rules = {}    # qualified name -> invariant of its while loops
        self.loop_rules = {}     # (qualified name, loop index) -> rule
        self.depth = 0
        self.externals = {}      # contracts of library functions, by name
        self.hooks = []          # fn(interp, kind, *operands) -> value or MISSING
        from . import builtins_ as B
        self.B = B
        self.builtins = B.make_builtins(self)

    # -- exceptions
    def throw(self, cls, msg='', node=None):
        raise PyExc(cls, (msg,), msg)

    # -- truth
    def truth(self, v):
        """Truth value as a formula (bool or z3 Bool)."""
        if v is None: return False
        if isinstance(v, bool): return v
        if is_sym(v):
            if z3.is_bool(v): return v
            return simp(v != 0)
        if isinstance(v, (int, float, Fraction, str, tuple)): return bool(v)
        if isinstance(v, Sc): return Not(sc_eq(v, 0))
        if isinstance(v, PList): return bool(v.items)
        if isinstance(v, PSet): return bool(v.items)
        if isinstance(v, PDict): return bool(v.pairs)
        if isinstance(v, Obj):
            f = v.cls.lookup('__bool__')
            if f is not MISSING: return self.truth(self.call(BoundM(f, v), [], {}))
            f = v.cls.lookup('__len__')
            if f is not MISSING:
                n = self.call(BoundM(f, v), [], {})
                return Not(sc_eq(n, 0)) if not isinstance(n, int) else n != 0
            return True
        if hasattr(v, 'vc_truth'): return v.vc_truth(self)
        if isinstance(v, (SStr, OpaqueStr)):
            raise Unsupported('truth of symbolic string')
        return True
    def test(self, v):
        return self.ctx.branch(self.truth(v))

    # -- equality
    def eq(self, a, b):
        """a == b as a formula."""
        r = self.eq_value(a, b)
        return self.truth(r)
    def eq_value(self, a, b):
        for h in self.hooks:
            r = h(self, 'eq', a, b)
            if r is not MISSING: return r
        if isinstance(a, HashV) and isinstance(b, HashV):
            return self.hash_eq(a.content, b.content)
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                f = a.cls.lookup('__eq__')
                if f is not MISSING:
                    r = self.call_pure(f, [a, b])
                    if r is not NotImplemented: return r
            if isinstance(b, Obj):
                f = b.cls.lookup('__eq__')
                if f is not MISSING:
                    r = self.call_pure(f, [b, a])
                    if r is not NotImplemented: return r
            return a is b
        if hasattr(a, 'vc_eq'):
            r = a.vc_eq(self, b)
            if r is not NotImplemented: return r
        if hasattr(b, 'vc_eq'):
            r = b.vc_eq(self, a)
            if r is not NotImplemented: return r
        if is_sym(a) and z3.is_bool(a) and (isinstance(b, bool) or (is_sym(b) and z3.is_bool(b))):
            return Iff(a, b)
        if is_sym(b) and z3.is_bool(b) and isinstance(a, bool): return Iff(b, a)
        if self.isnum(a) and self.isnum(b):
            if not isinstance(a, Sc) and not isinstance(b, Sc) and not is_sym(a) and not is_sym(b):
                return a == b
            return sc_eq(self.lift(a), self.lift(b))
        sa, sb = isinstance(a, (str, SStr)), isinstance(b, (str, SStr))
        if sa and sb:
            if isinstance(a, str) and isinstance(b, str): return a == b
            return simp(str_term(a) == str_term(b))
        if isinstance(a, OpaqueStr) and isinstance(b, OpaqueStr):
            if a is b: return True
            raise Unsupported('comparison of formatted text')
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
            if sa or sb: raise Unsupported('comparison of formatted text')
            return False
        if isinstance(a, tuple) and isinstance(b, tuple) or \
                isinstance(a, PList) and isinstance(b, PList):
            xs = a if isinstance(a, tuple) else a.items
            ys = b if isinstance(b, tuple) else b.items
            if len(xs) != len(ys): return False
            out = True
            for x, y in zip(xs, ys):
                if x is y: continue
                out = And(out, self.eq(x, y))
                if out is False: return False
            return out
        if isinstance(a, PSet) and isinstance(b, PSet):
            if len(a.items) != len(b.items): return False
            return And(*[Or(*[self.eq(x, y) for y in b.items]) for x in a.items])
        if isinstance(a, PDict) and isinstance(b, PDict):
            return self.dict_eq(a, b)
        if a is b: return True
        if type(a) is type(b) and isinstance(a, (bool, type(None))): return a == b
        return False
    def dict_eq(self, a, b):
        if len(a.pairs) != len(b.pairs): return False
        if a.cls == b.cls == 'OrderedDict':
            return And(*[And(self.eq(k, l), self.eq(v, w))
                for (k, v), (l, w) in zip(a.pairs, b.pairs)])
        return And(*[Or(*[And(self.eq(k, l), self.eq(v, w)) for l, w in b.pairs])
            for k, v in a.pairs])
    def hash_eq(self, a, b):
        """Equality of hashes, proved from equality of what is hashed."""
        if isinstance(a, HashV): a = a.content
        if isinstance(b, HashV): b = b.content
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return And(*[self.hash_eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, PSet) and isinstance(b, PSet):
            if len(a.items) != len(b.items): return False
            return And(*[Or(*[self.hash_eq(x, y) for y in b.items]) for x in a.items])
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a is b: return True
            fa, fb = a.cls.lookup('__hash__'), b.cls.lookup('__hash__')
            if fa is MISSING or fb is MISSING: return a is b
            return self.hash_eq(self.call(fa, [a], {}), self.call(fb, [b], {}))
        if a is None or b is None: return a is b
        if is_sym(a) and z3.is_bool(a) or is_sym(b) and z3.is_bool(b):
            if isinstance(a, bool) or isinstance(b, bool) or (is_sym(a) and is_sym(b)):
                return Iff(a, b)
        # hash(None) differs from hash(False): a missing flag is not False
        return self.eq(a, b)

    def isnum(self, v):
        return is_num(v) or (is_sym(v) and z3.is_bool(v))
    def lift(self, v):
        if is_sym(v) and z3.is_bool(v):
            return Sc(0, z3.If(v, z3.RealVal(1), z3.RealVal(0)), 'int')
        return lift(v)

    # -- ordering
    def compare(self, op, a, b):
        """a op b for an ordering operator; returns a value."""
        for h in self.hooks:
            r = h(self, 'cmp', op, a, b)
            if r is not MISSING: return r
        n1, n2 = CMPOPS[op]
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                f = a.cls.lookup(n1)
                if f is not MISSING:
                    r = self.call(f, [a, b], {})
                    if r is not NotImplemented: return r
            if isinstance(b, Obj):
                f = b.cls.lookup(n2)
                if f is not MISSING:
                    r = self.call(f, [b, a], {})
                    if r is not NotImplemented: return r
            self.throw(TypeError, 'ordering')
        if hasattr(a, 'vc_cmp'):
            r = a.vc_cmp(self, op, b)
            if r is not NotImplemented: return r
        if hasattr(b, 'vc_cmp'):
            r = b.vc_cmp(self, {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[op], a)
            if r is not NotImplemented: return r
        if self.isnum(a) and self.isnum(b):
            if not any(isinstance(x, Sc) or is_sym(x) for x in (a, b)):
                return {ast.Lt: a < b, ast.Gt: a > b, ast.LtE: a <= b, ast.GtE: a >= b}[op]
            a, b = self.lift(a), self.lift(b)
            if op is ast.Lt: return sc_lt(a, b)
            if op is ast.Gt: return sc_lt(b, a)
            if op is ast.LtE: return sc_le(a, b)
            return sc_le(b, a)
        if isinstance(a, tuple) and isinstance(b, tuple):
            strict = op in (ast.Lt, ast.Gt)
            lt = ast.Lt if op in (ast.Lt, ast.LtE) else ast.Gt
            out = (len(a) < len(b) if lt is ast.Lt else len(a) > len(b)) if strict else \
                (len(a) <= len(b) if lt is ast.Lt else len(a) >= len(b))
            for x, y in reversed(list(zip(a, b))):
                e = self.eq(x, y)
                if e is True: continue
                out = Or(And(Not(e), self.truth(self.compare(lt, x, y))), And(e, out))
            return out
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.Gt: a > b, ast.LtE: a <= b, ast.GtE: a >= b}[op]
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            x, y = str_term(a), str_term(b)    # some total order
            return simp({ast.Lt: x < y, ast.Gt: x > y, ast.LtE: x <= y, ast.GtE: x >= y}[op])
        if isinstance(a, PSet) and isinstance(b, PSet):
            if op is ast.LtE: return And(*[self.contains(b, x) for x in a.items])
        if (a is None or b is None) or isinstance(a, (str, SStr)) != isinstance(b, (str, SStr)):
            if isinstance(a, (type(None), str, SStr)) and self.isnum(b) or \
               isinstance(b, (type(None), str, SStr)) and self.isnum(a) or a is None or b is None:
                self.throw(TypeError, 'ordering of %r and %r' % (a, b))
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    # -- membership
    def contains(self, coll, x):
        """x in coll, as a formula."""
        for h in self.hooks:
            r = h(self, 'in', coll, x)
            if r is not MISSING: return r
        if isinstance(coll, Obj):
            f = coll.cls.lookup('__contains__')
            if f is not MISSING:
                return self.truth(self.call_pure(f, [coll, x]))
        if hasattr(coll, 'vc_contains'): return coll.vc_contains(self, x)
        if isinstance(coll, PDict):
            return Or(*[self.same(k, x) for k, _ in coll.pairs])
        if isinstance(coll, (PList, tuple, PSet)):
            items = coll if isinstance(coll, tuple) else coll.items
            out = False
            for i in items:
                out = Or(out, self.same(i, x))
                if out is True: return True
            return out
        if isinstance(coll, str) and isinstance(x, str): return x in coll
        out = False
        for i in self.iterate(coll):
            out = Or(out, self.same(i, x))
            if out is True: return True
        return out
    def same(self, a, b):
        return True if a is b else self.eq(a, b)

    # -- arithmetic
    def binop(self, op, a, b):
        for h in self.hooks:
            r = h(self, 'bin', op, a, b)
            if r is not MISSING: return r
        n1, n2 = BINOPS[op]
        if isinstance(a, Obj) or isinstance(b, Obj):
            tried = False
            swap = isinstance(a, Obj) and isinstance(b, Obj) and a.cls is not b.cls \
                and a.cls in b.cls.mro and b.cls.lookup(n2) is not a.cls.lookup(n2)
            order = [(a, b, n1), (b, a, n2)]
            if swap: order.reverse()
            for x, y, n in order:
                if not isinstance(x, Obj):
                    if hasattr(x, 'vc_binop'):
                        r = x.vc_binop(self, op, y, n == n2)
                        if r is not NotImplemented: return r
                    continue
                if n == n2 and isinstance(a, Obj) and a.cls is b.cls and x is b and not swap: continue
                f = x.cls.lookup(n)
                if f is not MISSING and f is not None:
                    r = self.call(f, [x, y], {})
                    if r is not NotImplemented: return r
            self.throw(TypeError, 'unsupported operand types for %s' % (n1,))
        if hasattr(a, 'vc_binop'):
            r = a.vc_binop(self, op, b, False)
            if r is not NotImplemented: return r
        if hasattr(b, 'vc_binop'):
            r = b.vc_binop(self, op, a, True)
            if r is not NotImplemented: return r
        if getattr(a, 'is_sub', False) or getattr(b, 'is_sub', False): self.throw(TypeError, 'unsupported operand types for %s' % (n1,))
        if self.isnum(a) and self.isnum(b): return self.arith(op, a, b)
        return self.B.container_binop(self, op, a, b)

    def num_tag(self, a):
        """Concrete tag of an extended real, by branching."""
        a = self.lift(a)
        if isinstance(a.tag, int): return a.tag
        if self.ctx.branch(a.tag == 0): return 0
        return 1 if self.ctx.branch(a.tag == 1) else -1

    def arith(self, op, a, b):
        conc = lambda v: isinstance(v, (bool, int, float, Fraction))
        if conc(a) and conc(b):
            try:
                if op is ast.Add: return a + b
                if op is ast.Sub: return a - b
                if op is ast.Mult: return a * b
                if op is ast.Div:
                    if isinstance(a, int) and isinstance(b, int):
                        if b == 0: self.throw(ZeroDivisionError)
                        r = Fraction(a, b)
                        return float(r) if Fraction(float(r)) == r else r
                    return a / b
                if op is ast.Pow: return a ** b
                if op is ast.Mod: return a % b
                if op is ast.FloorDiv: return a // b
                if op is ast.BitAnd: return a & b
                if op is ast.BitOr: return a | b
                if op is ast.BitXor: return a ^ b
            except ZeroDivisionError:
                self.throw(ZeroDivisionError, 'division')
            raise Unsupported('operator %s' % (op.__name__,))
        if op in (ast.BitAnd, ast.BitOr):
            ba = isinstance(a, bool) or (is_sym(a) and z3.is_bool(a))
            bb = isinstance(b, bool) or (is_sym(b) and z3.is_bool(b))
            if ba and bb: return And(a, b) if op is ast.BitAnd else Or(a, b)
            raise Unsupported('bitwise operator')
        a, b = self.lift(a), self.lift(b)
        cls = 'int' if a.cls == b.cls == 'int' else None
        ta, tb = self.num_tag(a), self.num_tag(b)
        if op is ast.Sub:
            b = sc_neg(b); tb = -tb; op = ast.Add
        if op is ast.Add:
            if ta == 0 and tb == 0: return Sc(0, z3.simplify(a.val + b.val), cls)
            if ta and tb and ta != tb: raise Unsupported('inf - inf')
            return Sc(ta or tb, z3.RealVal(0))
        if op is ast.Mult:
            if ta == 0 and tb == 0: return Sc(0, z3.simplify(a.val * b.val), cls)
            if ta and tb: return Sc(ta * tb, z3.RealVal(0))
            fin, t = (b, ta) if ta else (a, tb)
            if self.ctx.branch(simp(fin.val > 0)): return Sc(t, z3.RealVal(0))
            if self.ctx.branch(simp(fin.val < 0)): return Sc(-t, z3.RealVal(0))
            raise Unsupported('inf * 0')
        if op is ast.Div:
            if tb:
                if ta: raise Unsupported('inf / inf')
                return Sc(0, z3.RealVal(0))
            if self.ctx.branch(simp(b.val == 0)): self.throw(ZeroDivisionError, 'division')
            if ta:
                return Sc(ta if self.ctx.branch(simp(b.val > 0)) else -ta, z3.RealVal(0))
            if z3.is_rational_value(b.val):
                return Sc(0, z3.simplify(a.val / b.val))
            q = self.ctx.real('quot')
            self.ctx.assume(q * b.val == a.val)
            return Sc(0, q)
        if op is ast.Pow:
            if ta == 0 and tb == 0 and z3.is_rational_value(b.val):
                n = b.val.as_fraction()
                if n.denominator == 1 and 0 <= n <= 8:
                    v = z3.RealVal(1)
                    for _ in range(int(n)): v = v * a.val
                    return Sc(0, z3.simplify(v), cls)
        raise Unsupported('arithmetic %s' % (op.__name__,))

    def unary(self, op, a):
        for h in self.hooks:
            r = h(self, 'un', op, a)
            if r is not MISSING: return r
        if op is ast.Not: return Not(self.truth(a))
        name = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[op]
        if isinstance(a, Obj):
            f = a.cls.lookup(name)
            if f is MISSING: self.throw(TypeError, name)
            return self.call(f, [a], {})
        if hasattr(a, 'vc_unary'): return a.vc_unary(self, op)
        if self.isnum(a):
            if op is ast.USub:
                return -a if isinstance(a, (int, float, Fraction)) else sc_neg(self.lift(a))
            if op is ast.UAdd: return a
            if isinstance(a, int): return ~a
        raise Unsupported('unary %s' % (name,))

    # -- iteration
    def iterate(self, v):
        """Python iterator over the items of v."""
        if isinstance(v, (tuple, list)): return iter(v)
        if isinstance(v, (PList, PSet)): return iter(list(v.items)) if isinstance(v, PSet) else self.iter_list(v)
        if isinstance(v, PDict): return iter([k for k, _ in v.pairs])
        if isinstance(v, PIter):
            if v.depth != self.ctx.depth: raise CannotMerge('iterator crosses a join')
            return v.gen
        if isinstance(v, str): return iter(v)
        if isinstance(v, range): return iter(v)
        if isinstance(v, Obj):
            f = v.cls.lookup('__iter__')
            if f is not MISSING: return self.iterate(self.call(f, [v], {}))
            if v.cls.lookup('__getitem__') is not MISSING: raise Unsupported('iteration by __getitem__')
            self.throw(TypeError, 'not iterable: %s' % v.cls.name)
        if hasattr(v, 'vc_iter'): return v.vc_iter(self)
        if v is None or self.isnum(v): self.throw(TypeError, 'not iterable')
        raise Unsupported('iteration over %s' % (type(v).__name__,))
    def iter_list(self, v):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1
    def tolist(self, v):
        return list(self.iterate(v))

    # -- attributes
    def getattr(self, v, name, default=MISSING):
        r = self.getattr_(v, name)
        if r is MISSING:
            if default is not MISSING: return default
            self.throw(AttributeError, '%s of %r' % (name, type(v).__name__ if not isinstance(v, Obj) else v.cls.name))
        return r
    def getattr_(self, v, name):
        for h in self.hooks:
            r = h(self, 'attr', v, name)
            if r is not MISSING: return r
        if isinstance(v, Obj):
            if name in v.attrs: return v.attrs[name]
            if name == '__class__': return v.cls
            f = v.cls.lookup(name)
            if f is MISSING: return MISSING
            return self.bind(f, v)
        if isinstance(v, ClassV):
            if name == '__name__': return v.name
            f = v.lookup(name)
            if isinstance(f, StaticV): return f.func
            if isinstance(f, ClassMethodV): return BoundM(f.func, v)
            return f
        if isinstance(v, ModV): return self.constant(v.ns.get(name, MISSING))
        if isinstance(v, SuperV):
            mro = v.self_.cls.mro
            for c in mro[mro.index(v.cls) + 1:]:
                if name in c.ns: return self.bind(c.ns[name], v.self_)
            return MISSING
        if isinstance(v, FuncV):
            if name == '__name__': return v.name
            return v.attrs.get(name, MISSING)
        if isinstance(v, NativeF) and name == '__name__': return v.name
        if isinstance(v, TypeV): return v.attrs.get(name, MISSING)
        if hasattr(v, 'vc_attr'): return v.vc_attr(self, name)
        return self.B.builtin_attr(self, v, name)
    def bind(self, f, obj):
        if isinstance(f, (FuncV, NativeF)): return BoundM(f, obj)
        if isinstance(f, StaticV): return f.func
        if isinstance(f, ClassMethodV): return BoundM(f.func, obj.cls)
        if isinstance(f, PropertyV): return self.call(f.func, [obj], {})
        return f
    def setattr(self, v, name, value):
        if isinstance(v, ast.AST):
            setattr(v, name, list(value.items) if isinstance(value, PList) else value)
            return
        if isinstance(v, Obj):
            if v.depth < self.ctx.depth: raise CannotMerge('attribute assignment')
            v.attrs[name] = value
            return
        if isinstance(v, FuncV):
            v.attrs[name] = value
            return
        if hasattr(v, 'vc_setattr'): return v.vc_setattr(self, name, value)
        raise Unsupported('attribute assignment on %s' % (type(v).__name__,))

    # -- items
    def getitem(self, v, k):
        if isinstance(v, PDict):
            for key, val in v.pairs:
                if self.ctx.branch(self.same(key, k)): return val
            if v.default is not None:
                if v.depth < self.ctx.depth: raise CannotMerge('defaultdict')
                r = v.default()
                v.pairs.append((k, r))
                return r
            self.throw(KeyError, repr(k))
        if isinstance(v, range): v = tuple(v) if not isinstance(k, SliceV) else PList(list(v), self.ctx.depth)
        if isinstance(v, (PList, tuple)):
            items = v if isinstance(v, tuple) else v.items
            if isinstance(k, SliceV):
                s = slice(*[self.conc_int(x) for x in (k.a, k.b, k.c)])
                r = items[s]
                return r if isinstance(v, tuple) else PList(list(r), self.ctx.depth)
            i = self.conc_int(k)
            if i is None: raise Unsupported('index')
            try:
                return items[i]
            except IndexError:
                self.throw(IndexError, 'index')
        if isinstance(v, Obj):
            f = v.cls.lookup('__getitem__')
            if f is not MISSING: return self.call(f, [v, k], {})
        if hasattr(v, 'vc_getitem'): return v.vc_getitem(self, k)
        if isinstance(v, str) and isinstance(k, int): return v[k]
        if isinstance(v, str) and isinstance(k, SliceV):
            return v[slice(*[self.conc_int(x) for x in (k.a, k.b, k.c)])]
        if isinstance(v, (PSet, type(None))) or self.isnum(v): self.throw(TypeError, 'not subscriptable')
        raise Unsupported('subscript of %s' % (type(v).__name__,))
    def conc_int(self, k):
        if k is None: return None
        if isinstance(k, (bool, int)): return int(k)
        if isinstance(k, Sc) or is_sym(k):
            k = self.lift(k)
            s = z3.simplify(k.val)
            if z3.is_rational_value(s) and s.denominator_as_long() == 1: return s.numerator_as_long()
            for i in range(-1, 6):
                if self.ctx.branch(simp(k.val == i)): return i
        raise Unsupported('symbolic index')
    def setitem(self, v, k, value):
        if hasattr(v, 'vc_setitem'): return v.vc_setitem(self, k, value)
        if isinstance(v, PDict):
            if v.depth < self.ctx.depth: raise CannotMerge('item assignment')
            for i, (key, _) in enumerate(v.pairs):
                if self.ctx.branch(self.same(key, k)):
                    v.pairs[i] = (key, value)
                    return
            v.pairs.append((k, value))
            return
        if isinstance(v, PList):
            if v.depth < self.ctx.depth: raise CannotMerge('item assignment')
            i = self.conc_int(k)
            if not -len(v.items) <= i < len(v.items): self.throw(IndexError, 'assignment index')
            v.items[i] = value
            return
        if isinstance(v, tuple): self.throw(TypeError, 'tuple assignment')
        raise Unsupported('item assignment on %s' % (type(v).__name__,))

    # -- sets
    def make_set(self, items, frozen=False):
        out = []
        for x in items:
            if isinstance(x, (PList, PDict)) or (isinstance(x, PSet) and not x.frozen):
                self.throw(TypeError, 'unhashable')
            dup = Or(*[self.same(y, x) for y in out])
            if not self.ctx.branch(dup): out.append(x)
        return PSet(out, self.ctx.depth, frozen)

    # -- calls
    def call_pure(self, f, args):
        """Call of a function without side effects: paths are joined."""
        return self.ctx.merged(lambda: self.call(f, args, {}))

    def call(self, f, args, kwargs):
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncV):
            c = self.contracts.get(f.qual)
            if c is not None:
                r = c(self, f, list(args), dict(kwargs))
                if r is not MISSING: return r
            if f.qual in self.mergeable and not getattr(self, '_in_merge', None) == (f, self.ctx.depth):
                return self.ctx.merged(lambda: self.call_body(f, args, kwargs))
            return self.call_body(f, args, kwargs)
        if isinstance(f, NativeF): return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, ClassV): return self.instantiate(f, args, kwargs)
        if isinstance(f, TypeV):
            if f.call is None: raise Unsupported('call of type %s' % (f.name,))
            return f.call(self, list(args), dict(kwargs))
        if isinstance(f, StaticV): return self.call(f.func, args, kwargs)
        if isinstance(f, Obj):
            m = f.cls.lookup('__call__')
            if m is not MISSING: return self.call(m, [f] + list(args), kwargs)
            self.throw(TypeError, 'not callable: %s' % f.cls.name)
        if hasattr(f, 'vc_call'): return f.vc_call(self, list(args), dict(kwargs))
        if isinstance(f, type) and issubclass(f, BaseException):
            return PyExc(f, tuple(args))
        if f is None or self.isnum(f): self.throw(TypeError, 'not callable')
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kwargs):
        nb = cls.native_base()
        if nb is not None and issubclass(nb, BaseException):
            return PyExc(nb, tuple(args))
        c = self.contracts.get(cls.qual)
        if c is not None:
            r = c(self, cls, list(args), dict(kwargs))
            if r is not MISSING: return r
        o = Obj(cls, {}, self.ctx.depth)
        init = cls.lookup('__init__')
        if init is not MISSING: self.call(init, [o] + list(args), kwargs)
        elif args or kwargs: self.throw(TypeError, 'constructor takes no arguments')
        return o

    def call_body(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Unsupported('recursion too deep')
        try:
            self.ctx.run.functions.add(f.qual)
            scope = Scope(f.scope, globals_=f.scope.globals if f.scope else None, func=f)
            self.bind_args(f, scope, args, kwargs)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, scope)
            if is_generator(f.node): raise Unsupported('generator function %s' % f.qual)
            try:
                self.exec_block(f.node.body, scope)
            except Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def bind_args(self, f, scope, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        args = list(args)
        kwargs = dict(kwargs)
        vals = {}
        i = 0
        while i < len(args) and i < len(pos) and not isinstance(args[i], Star):
            vals[pos[i]] = args[i]
            i += 1
        rest = args[i:]
        if a.vararg is not None:
            if len(rest) == 1 and isinstance(rest[0], Star):
                vals[a.vararg.arg] = rest[0].coll
            elif any(isinstance(x, Star) for x in rest):
                vals[a.vararg.arg] = self.B.concat_star(self, rest)
            else:
                vals[a.vararg.arg] = tuple(rest)
        elif rest:
            if any(isinstance(x, Star) for x in rest): raise Unsupported('star arguments')
            self.throw(TypeError, 'too many arguments for %s' % f.qual)
        kwonly = [x.arg for x in a.kwonlyargs]
        for k in list(kwargs):
            if k in pos or k in kwonly:
                if k in vals: self.throw(TypeError, 'multiple values for %s' % k)
                vals[k] = kwargs.pop(k)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PDict([(k, v) for k, v in kwargs.items()], self.ctx.depth)
        elif kwargs:
            self.throw(TypeError, 'unexpected keyword %s for %s' % (list(kwargs), f.qual))
        for name, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            if name not in vals: vals[name] = d
        for name, d in f.kwdefaults.items():
            if name not in vals: vals[name] = d
        for name in pos + kwonly:
            if name not in vals: self.throw(TypeError, 'missing argument %s of %s' % (name, f.qual))
        scope.vars.update(vals)

    # -- statements
    def exec_block(self, body, scope):
        for s in body: self.exec(s, scope)

    def exec(self, s, scope):
        self.ctx.run.tick()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement %s' % (type(s).__name__,))
        return m(s, scope)

    def s_Expr(self, s, scope):
        if isinstance(s.value, ast.Constant): return
        self.eval(s.value, scope)
    def s_Pass(self, s, scope): pass
    def s_Break(self, s, scope): raise Break()
    def s_Continue(self, s, scope): raise Continue()
    def s_Return(self, s, scope):
        raise Return(self.eval(s.value, scope) if s.value is not None else None)
    def s_Global(self, s, scope): scope.glob_names.update(s.names)
    def s_Nonlocal(self, s, scope): raise Unsupported('nonlocal')
    def s_Assert(self, s, scope):
        if not self.ctx.branch(self.truth(self.eval(s.test, scope))):
            raise PyExc(AssertionError, (), 'assert at %s:%d' % (scope.func.qual if scope.func else '?', s.lineno))
    def s_If(self, s, scope):
        self.exec_block(s.body if self.test(self.eval(s.test, scope)) else s.orelse, scope)
    def s_Raise(self, s, scope):
        if s.exc is None:
            cur = scope.get('__current_exception__')
            if cur is MISSING: raise Unsupported('bare raise')
            raise cur
        v = self.eval(s.exc, scope)
        where = '%s:%d' % (scope.func.qual if scope.func else '?', s.lineno)
        if isinstance(v, PyExc):
            v.where = where
            raise v
        if isinstance(v, type) and issubclass(v, BaseException): raise PyExc(v, (), where)
        if isinstance(v, ClassV):
            nb = v.native_base()
            raise PyExc(nb or Exception, (), where)
        raise Unsupported('raise %r' % (v,))
    def s_Try(self, s, scope):
        try:
            self.exec_block(s.body, scope)
        except PyExc as e:
            for h in s.handlers:
                if h.type is None: ok = True
                else:
                    t = self.eval(h.type, scope)
                    ts = t if isinstance(t, tuple) else (t,)
                    ok = any(isinstance(x, type) and isinstance(e.cls, type) and issubclass(e.cls, x) for x in ts)
                if ok:
                    if h.name: scope.vars[h.name] = e
                    scope.vars['__current_exception__'] = e
                    self.exec_block(h.body, scope)
                    break
            else:
                raise
        else:
            self.exec_block(s.orelse, scope)
        finally:
            self.exec_block(s.finalbody, scope)
    def s_With(self, s, scope):
        if len(s.items) == 1:
            v = self.eval(s.items[0].context_expr, scope)
            if hasattr(v, 'vc_with'):
                return v.vc_with(self, lambda: self.exec_block(s.body, scope))
            if isinstance(v, Obj):
                r = self.call(self.getattr(v, '__enter__'), [], {})
                if s.items[0].optional_vars is not None: self.assign(s.items[0].optional_vars, r, scope)
                leave = lambda *a: self.truth(self.call(self.getattr(v, '__exit__'), list(a), {}))
                try: self.exec_block(s.body, scope)
                except PyExc as e:
                    t = leave(e.cls, e, None)
                    if t is True: return
                    if t is not False and self.ctx.branch(t): return
                    raise
                except (Return, Break, Continue):
                    leave(None, None, None)
                    raise
                leave(None, None, None)
                return
        raise Unsupported('with statement')
    def s_FunctionDef(self, s, scope):
        f = self.make_function(s, scope)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, scope), [f], {})
        self.assign_name(s.name, f, scope)
    def make_function(self, s, scope):
        a = s.args
        defaults = [self.eval(d, scope) for d in a.defaults]
        kwd = {x.arg: self.eval(d, scope) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        cls = scope.vars.get('__classname__') if scope.is_class else (scope.func.cls if scope.func else None)
        prefix = scope.vars.get('__qual__') if scope.is_class else \
            (scope.func.qual + '.<locals>' if scope.func else scope.globals['__name__'])
        qual = '%s.%s' % (prefix, getattr(s, 'name', '<lambda>'))
        return FuncV(s, scope, scope.globals['__name__'], qual, defaults, kwd, cls)
    def s_ClassDef(self, s, scope):
        bases = [self.eval(b, scope) for b in s.bases]
        bases = [b for b in bases if isinstance(b, (ClassV, type))]
        cscope = Scope(scope, is_class=True)
        cscope.vars['__classname__'] = s.name
        cscope.vars['__qual__'] = '%s.%s' % (scope.globals['__name__'], s.name)
        self.exec_block(s.body, cscope)
        def mangled(k): return '_%s%s' % (s.name.lstrip('_'), k) if k.startswith('__') and not k.endswith('__') else k
        ns = {mangled(k): v for k, v in cscope.vars.items() if k not in ('__classname__', '__qual__')}
        if '__eq__' in ns and '__hash__' not in ns: ns['__hash__'] = None
        c = ClassV(s.name, bases, ns, scope.globals['__name__'])
        for v in ns.values():
            g = v.func if isinstance(v, (StaticV, ClassMethodV, PropertyV)) else v
            if isinstance(g, FuncV) and g.qual.startswith(c.qual + '.'): g.cls = c
        if s.decorator_list: raise Unsupported('class decorator')
        self.assign_name(s.name, c, scope)
    def s_Import(self, s, scope):
        for n in s.names:
            m = self.import_module(n.name, scope)
            if '.' in n.name and not n.asname: m = self.import_module(n.name.split('.')[0], scope)
            self.assign_name(n.asname or n.name.split('.')[0], m, scope)
    def s_ImportFrom(self, s, scope):
        pkg = scope.globals['__name__'].split('.')[:-1]
        if s.level:
            base = pkg[:len(pkg) - (s.level - 1)] if s.level > 1 else pkg
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        for n in s.names:
            if s.module is None or (s.level and not s.module):
                m = self.import_module('.'.join([name, n.name]).strip('.'), scope)
                self.assign_name(n.asname or n.name, m, scope)
                continue
            m = self.import_module(name, scope, full=True)
            if n.name == '*':
                for k, v in m.ns.items():
                    if not k.startswith('_'): scope.vars[k] = v
                continue
            v = self.getattr_(m, n.name)
            if v is MISSING: v = self.B.external(self, name, n.name)
            self.assign_name(n.asname or n.name, v, scope)
    def import_module(self, name, scope, full=False):
        return load_module(self, name)
    def s_Assign(self, s, scope):
        v = self.eval(s.value, scope)
        for t in s.targets: self.assign(t, v, scope)
    def s_AnnAssign(self, s, scope):
        if s.value is not None: self.assign(s.target, self.eval(s.value, scope), scope)
    def s_AugAssign(self, s, scope):
        t = s.target
        if isinstance(t, ast.Name): cur = self.lookup(t.id, scope)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, scope)
            cur = self.getattr(o, self.mangle(t.attr, scope))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, scope)
            k = self.eval(t.slice, scope)
            cur = self.getitem(o, k)
        else: raise Unsupported('augmented assignment')
        v = self.eval(s.value, scope)
        if isinstance(cur, PList) and isinstance(s.op, ast.Add):
            if cur.depth < self.ctx.depth: raise CannotMerge('list +=')
            cur.items.extend(self.tolist(v))
            r = cur
        elif isinstance(cur, PSet) and not cur.frozen and isinstance(s.op, ast.BitOr):
            r = self.binop(ast.BitOr, cur, v)
        else:
            r = self.binop(type(s.op), cur, v)
        if isinstance(t, ast.Name): self.assign_name(t.id, r, scope)
        elif isinstance(t, ast.Attribute): self.setattr(o, self.mangle(t.attr, scope), r)
        else: self.setitem(o, k, r)
    def s_Delete(self, s, scope):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.eval(t.value, scope), self.eval(t.slice, scope)
                if isinstance(o, PDict):
                    if o.depth < self.ctx.depth: raise CannotMerge('del')
                    for i, (key, _) in enumerate(o.pairs):
                        if self.ctx.branch(self.same(key, k)):
                            del o.pairs[i]
                            break
                    else: self.throw(KeyError)
                    continue
                if isinstance(o, PList):
                    if o.depth < self.ctx.depth: raise CannotMerge('del')
                    i = slice(*[None if x is None else self.conc_int(x) for x in (k.a, k.b, k.c)]) if isinstance(k, SliceV) else self.conc_int(k)
                    try: del o.items[i]
                    except IndexError: self.throw(IndexError)
                    continue
            elif isinstance(t, ast.Name):
                scope.vars.pop(t.id, None)
                continue
            raise Unsupported('del')
    def s_For(self, s, scope):
        it = self.eval(s.iter, scope)
        rule = self.loop_rule(s, scope, it)
        if rule is not None: return rule(self, s, scope, it)
        if hasattr(it, 'vc_for'): return it.vc_for(self, s, scope)
        broke = False
        for v in self.iterate(it):
            self.assign(s.target, v, scope)
            try:
                self.exec_block(s.body, scope)
            except Break:
                broke = True
                break
            except Continue:
                continue
        if not broke: self.exec_block(s.orelse, scope)
    def loop_rule(self, s, scope, it):
        if not self.loop_rules or scope.func is None: return None
        return self.loop_rules.get(scope.func.qual)
    def s_While(self, s, scope):
        rule = scope.func is not None and self.while_rules.get(scope.func.qual)
        if rule: return self.while_invariant(s, scope, rule)
        n = 0
        while self.test(self.eval(s.test, scope)):
            n += 1
            if n > 60: raise Unsupported('loop without a bound')
            try:
                self.exec_block(s.body, scope)
            except Break:
                return
            except Continue:
                continue
        self.exec_block(s.orelse, scope)

    def while_invariant(self, s, scope, rule):
        """A loop by its invariant: an arbitrary iteration from an arbitrary
        state in which the variables the body assigns satisfy it."""
        names = sorted({n.id for b in s.body + [s.test] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))})
        get = lambda: {n: scope.vars[n] for n in names if n in scope.vars}
        start = get()
        rule.holds(self, start, 'initially')
        for n, v in start.items(): scope.vars[n] = rule.arbitrary(self, n, v)
        for n in names:
            if n not in start: scope.vars.pop(n, None)
        if not self.test(self.eval(s.test, scope)):
            return self.exec_block(s.orelse, scope)
        try: self.exec_block(s.body, scope)
        except Break: return
        except Continue: pass
        rule.holds(self, {n: v for n, v in get().items() if n in start}, 'after an iteration')
        raise Infeasible()

    # -- assignment
    def assign_name(self, name, v, scope):
        if name in scope.glob_names: scope.globals[name] = v
        else: scope.vars[name] = v
    def assign(self, t, v, scope):
        if isinstance(t, ast.Name): return self.assign_name(t.id, v, scope)
        if isinstance(t, ast.Attribute):
            return self.setattr(self.eval(t.value, scope), self.mangle(t.attr, scope), v)
        if isinstance(t, ast.Subscript):
            return self.setitem(self.eval(t.value, scope), self.eval(t.slice, scope), v)
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.tolist(v)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1: self.throw(ValueError, 'unpack')
                for e, x in zip(t.elts[:i], items[:i]): self.assign(e, x, scope)
                self.assign(t.elts[i].value, PList(items[i:len(items) - after], self.ctx.depth), scope)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]): self.assign(e, x, scope)
                return
            if len(items) != len(t.elts): self.throw(ValueError, 'unpack')
            for e, x in zip(t.elts, items): self.assign(e, x, scope)
            return
        raise Unsupported('assignment target')

    # -- expressions
    def mangle(self, name, scope):
        if name.startswith('__') and not name.endswith('__'):
            s = scope
            f = scope.func
            if f is not None and f.cls is not None:
                c = f.cls.name if isinstance(f.cls, ClassV) else f.cls
                return '_%s%s' % (c.lstrip('_'), name)
        return name
    def constant(self, v):
        """A number or text of an external library."""
        if type(v) is self.B.ExtRef:
            r = v.resolve(self)
            if isinstance(r, (Sc, str, int, float)): return r
        return v
    def lookup(self, name, scope):
        v = scope.get(name)
        if v is not MISSING: return self.constant(v)
        if scope.globals is not None and name in scope.globals: return self.constant(scope.globals[name])
        if name in self.builtins: return self.builtins[name]
        self.throw(NameError, name)
    def eval(self, e, scope):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s' % (type(e).__name__,))
        return m(e, scope)
    def e_Constant(self, e, scope): return e.value
    def e_Name(self, e, scope): return self.lookup(e.id, scope)
    def e_Attribute(self, e, scope):
        return self.getattr(self.eval(e.value, scope), self.mangle(e.attr, scope))
    def e_Tuple(self, e, scope): return tuple(self.elts(e.elts, scope))
    def e_List(self, e, scope):
        items = self.elts(e.elts, scope, star_ok=True)
        if any(isinstance(x, Star) for x in items): return self.B.concat_star(self, items)
        return PList(items, self.ctx.depth)
    def e_Set(self, e, scope): return self.make_set(self.elts(e.elts, scope))
    def elts(self, elts, scope, star_ok=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, scope)
                if getattr(v, 'vc_unbounded', False):
                    if not star_ok: raise Unsupported('star of unbounded collection')
                    out.append(Star(v))
                else: out.extend(self.iterate(v))
            else: out.append(self.eval(x, scope))
        return out
    def e_Dict(self, e, scope):
        d = PDict([], self.ctx.depth)
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, scope)
                for kk in self.tolist(o): self.setitem(d, kk, self.getitem(o, kk))
            else:
                kk = self.eval(k, scope)
                self.setitem(d, kk, self.eval(v, scope))
        return d
    def e_BinOp(self, e, scope):
        a = self.eval(e.left, scope)
        if isinstance(e.op, ast.Mod) and isinstance(a, (str, OpaqueStr)):
            return self.B.format_percent(self, a, self.eval(e.right, scope))
        return self.binop(type(e.op), a, self.eval(e.right, scope))
    def e_UnaryOp(self, e, scope): return self.unary(type(e.op), self.eval(e.operand, scope))
    def e_BoolOp(self, e, scope):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], scope)
        for i, x in enumerate(e.values[1:]):
            t = self.truth(v)
            if isinstance(t, bool):
                if t != is_and: return v
                v = self.eval(x, scope)
                continue
            if self.boolish(v) and pure(x):
                # total, side effect free operand: no need to fork
                try: w = self.eval(x, scope)
                except PyExc:
                    # raised only if the operand is evaluated at all
                    if self.ctx.branch(t) != is_and: return v
                    raise
                if self.boolish(w) or isinstance(w, bool) or w is None:
                    tw = self.truth(w)
                    v = And(t, tw) if is_and else Or(t, tw)
                    continue
                if self.ctx.branch(t) != is_and: return v
                v = w
                continue
            if self.ctx.branch(t) != is_and: return v
            v = self.eval(x, scope)
        return v
    def boolish(self, v):
        return isinstance(v, bool) or (is_sym(v) and z3.is_bool(v))
    def e_Compare(self, e, scope):
        left = self.eval(e.left, scope)
        out = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, scope)
            v = self.cmp1(op, left, right)
            if len(e.ops) == 1: return v
            t = self.truth(v)
            if i == len(e.ops) - 1:
                return v if out is True else And(out, t)
            if isinstance(t, bool):
                if not t: return False if out is True else And(out, False)
            elif all(pure(c) for c in e.comparators):
                out = And(out, t)
            elif not self.ctx.branch(t): return False
            left = right
        return out
    def cmp1(self, op, a, b):
        t = type(op)
        if t is ast.Eq: return self.eq_value(a, b)
        if t is ast.NotEq:
            if isinstance(a, Obj) and a.cls.lookup('__ne__') is not MISSING: raise Unsupported('__ne__')
            return Not(self.eq(a, b))
        if t is ast.Is: return self.is_(a, b)
        if t is ast.IsNot: return Not(self.is_(a, b))
        if t is ast.In: return self.contains(b, a)
        if t is ast.NotIn: return Not(self.contains(b, a))
        return self.compare(t, a, b)
    def is_(self, a, b):
        for h in self.hooks:
            r = h(self, 'is', a, b)
            if r is not MISSING: return r
        if hasattr(a, 'vc_is'): return a.vc_is(self, b)
        if hasattr(b, 'vc_is'): return b.vc_is(self, a)
        if a is b: return True
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if isinstance(a, bool) and is_sym(b) and z3.is_bool(b): return Iff(b, a)
        if isinstance(b, bool) and is_sym(a) and z3.is_bool(a): return Iff(a, b)
        if a is None or b is None: return a is b
        if isinstance(a, (TypeV, ClassV, Obj, FuncV)) or isinstance(b, (TypeV, ClassV, Obj, FuncV)): return a is b
        if isinstance(a, (PList, PDict, PSet)) or isinstance(b, (PList, PDict, PSet)): return a is b
        if a is NotImplemented or b is NotImplemented: return a is b
        if isinstance(a, bool) or isinstance(b, bool): return False
        raise Unsupported('identity of %s and %s' % (type(a).__name__, type(b).__name__))
    def e_IfExp(self, e, scope):
        t = self.truth(self.eval(e.test, scope))
        if not isinstance(t, bool) and pure(e.body) and pure(e.orelse):
            a, b = self.eval(e.body, scope), self.eval(e.orelse, scope)
            try:
                return merge_values([(t, a), (Not(t), b)])
            except (CannotMerge, Unsupported):
                pass
        return self.eval(e.body if self.ctx.branch(t) else e.orelse, scope)
    def e_Lambda(self, e, scope): return self.make_function(e, scope)
    def e_JoinedStr(self, e, scope):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(v.value)
            elif getattr(self, 'texts', None) and v.format_spec is None and v.conversion in (-1, 114, 115):
                parts.append(self.texts.text(self.eval(v.value, scope), 'repr' if v.conversion == 114 else 'str'))
            else: return OpaqueStr()
        if getattr(self, 'texts', None): return self.texts.join('', parts)
        return ''.join(parts)
    def e_Starred(self, e, scope): raise Unsupported('starred')
    def e_Subscript(self, e, scope):
        return self.getitem(self.eval(e.value, scope), self.eval(e.slice, scope))
    def e_Slice(self, e, scope):
        ev = lambda x: self.eval(x, scope) if x is not None else None
        return SliceV(ev(e.lower), ev(e.upper), ev(e.step))
    def e_Index(self, e, scope): return self.eval(e.value, scope)
    def e_Call(self, e, scope):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            cls = scope.func.cls
            selfv = scope.get(scope.func.node.args.args[0].arg)
            return SuperV(cls, selfv)
        if isinstance(e.func, ast.Name) and e.func.id == 'globals' and not e.args and scope.get('globals') is MISSING:
            return scope.globals
        f = self.eval(e.func, scope)
        args = self.elts(e.args, scope, star_ok=True)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, scope)
                for kk in self.tolist(d):
                    if not isinstance(kk, str): raise Unsupported('keyword')
                    kwargs[kk] = self.getitem(d, kk)
            else: kwargs[k.arg] = self.eval(k.value, scope)
        return self.call(f, args, kwargs)

    # -- comprehensions
    def comp(self, gens, scope, fn):
        """Yield fn(scope) for every assignment of the generators."""
        def rec(i, sc):
            if i == len(gens):
                yield fn(sc)
                return
            g = gens[i]
            it = self.iterate(self.eval(g.iter, sc if i else scope))
            for v in it:
                self.assign(g.target, v, sc)
                ok = True
                for c in g.ifs:
                    if not self.test(self.eval(c, sc)):
                        ok = False
                        break
                if ok: yield from rec(i + 1, sc)
        return rec(0, Scope(scope))
    def comp_abstract(self, e, scope, kind):
        """Comprehension over one unbounded collection, or None."""
        if len(e.generators) != 1: return MISSING
        g = e.generators[0]
        it = self.eval(g.iter, scope)
        elt = getattr(e, 'elt', None)
        if getattr(it, 'vc_unbounded', False):
            return it.vc_comp(self, e, scope, kind)
        # evaluated once already: iterate over the value
        sc = Scope(scope)
        def run():
            for v in self.iterate(it):
                self.assign(g.target, v, sc)
                if all(self.test(self.eval(c, sc)) for c in g.ifs):
                    yield self.eval(elt, sc)
        return run()
    def e_ListComp(self, e, scope):
        r = self.comp_abstract(e, scope, 'list')
        if r is MISSING: r = self.comp(e.generators, scope, lambda sc: self.eval(e.elt, sc))
        elif getattr(r, 'vc_unbounded', False) or isinstance(r, PList): return r
        return PList(list(r), self.ctx.depth)
    def e_SetComp(self, e, scope):
        r = self.comp_abstract(e, scope, 'set')
        if r is MISSING: r = self.comp(e.generators, scope, lambda sc: self.eval(e.elt, sc))
        elif getattr(r, 'vc_unbounded', False) or isinstance(r, PSet): return r
        return self.make_set(list(r))
    def e_GeneratorExp(self, e, scope):
        r = self.comp_abstract(e, scope, 'gen')
        if r is MISSING: r = self.comp(e.generators, scope, lambda sc: self.eval(e.elt, sc))
        elif getattr(r, 'vc_unbounded', False): return r
        return PIter(r, self.ctx.depth)
    def e_DictComp(self, e, scope):
        d = PDict([], self.ctx.depth)
        for k, v in self.comp(e.generators, scope,
                lambda sc: (self.eval(e.key, sc), self.eval(e.value, sc))):
            self.setitem(d, k, v)
        return d


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
    return False

PURE_CALLS = {'isinf_neg', 'isinf_pos', 'isinf', 'bool', 'isinstance'}
def pure(e):
    """Evaluating e cannot raise or have an effect (syntactic, conservative)."""
    if isinstance(e, (ast.Constant, ast.Name)): return True
    if isinstance(e, ast.Attribute): return isinstance(e.value, (ast.Name, ast.Attribute)) and pure(e.value)
    if isinstance(e, ast.UnaryOp): return isinstance(e.op, ast.Not) and pure(e.operand)
    if isinstance(e, ast.BoolOp): return all(pure(x) for x in e.values)
    if isinstance(e, ast.Compare):
        return pure(e.left) and all(pure(c) for c in e.comparators) \
            and all(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq)) for o in e.ops) \
            and all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant)) for x in [e.left] + e.comparators)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id in PURE_CALLS and not e.keywords \
            and all(pure(a) for a in e.args)
    if isinstance(e, ast.Tuple): return all(pure(x) for x in e.elts)
    return False


# ---------------------------------------------------------------------------
# Modules

SRC = os.environ.get('VC_SRC', '/repo/src')
AST_CACHE = {}

def module_path(name):
    p = os.path.join(SRC, *name.split('.')[1:])
    if os.path.isdir(p): return os.path.join(p, '__init__.py')
    return p + '.py'

def parse(name):
    path = module_path(name)
    if path not in AST_CACHE:
        with open(path) as f: AST_CACHE[path] = ast.parse(f.read(), path)
    return AST_CACHE[path]

def load_module(interp, name):
    if name in interp.modules: return interp.modules[name]
    if name.split('.')[0] != 'sppl':
        m = interp.B.external_module(interp, name)
        interp.modules[name] = m
        return m
    tree = parse(name)
    scope = Scope(None)
    scope.globals = scope.vars
    scope.vars['__name__'] = name
    m = ModV(name, scope.vars)
    interp.modules[name] = m
    interp.exec_block(tree.body, scope)
    return m
