"""Built-in functions and modelled externals of the interpreted subset."""
import ast
import itertools
import re
from .core import *
from .interp import (ClassV, Obj, FuncV, BoundM, StaticV, ClassMethodV, PropertyV,
    NativeF, TypeV, ModV, PList, PSet, PDict, PIter, HashV, SliceV, Star, MISSING)


# ---------------------------------------------------------------------------
# Types

def _is_int(v):
    if isinstance(v, (bool, int)): return True
    if is_sym(v): return z3.is_bool(v) or z3.is_int(v)
    if isinstance(v, Sc):
        if v.cls == 'int': return True
        if v.cls in ('sym', 'symint', 'float'): return False
        raise Unsupported('class of a symbolic number')
    return False
def _is_float(v):
    if isinstance(v, float): return True
    if isinstance(v, Sc):
        if v.cls in ('int', 'sym', 'symint'): return False
        if v.cls == 'float': return True
        raise Unsupported('class of a symbolic number')
    return False

ITERATORS = ('enumerate',)
def isinstance_(I, v, t):
    """isinstance as a formula."""
    if isinstance(t, tuple):
        names = {x.name for x in t if isinstance(x, TypeV)}
        if isinstance(v, Sc) and v.cls is None and {'int', 'float'} <= names: return True
        return Or(*[isinstance_(I, v, x) for x in t])
    for h in I.hooks:
        r = h(I, 'isinstance', v, t)
        if r is not MISSING: return r
    if hasattr(v, 'vc_isinstance'): return v.vc_isinstance(I, t)
    if isinstance(t, ClassV):
        return isinstance(v, Obj) and t in v.cls.mro
    if isinstance(t, TypeV): return t.test(v)
    if t is object: return True
    if isinstance(t, type): return False
    if isinstance(t, NativeF) and t.name in ITERATORS: return isinstance(v, PIter) and getattr(v, 'kind', None) == t.name
    if hasattr(t, 'vc_instancecheck'): return t.vc_instancecheck(I, v)
    raise Unsupported('isinstance with %r' % (t,))

def b_isinstance(I, a, k): return isinstance_(I, a[0], a[1])

def b_len(I, a, k):
    v = a[0]
    if isinstance(v, (tuple, str)): return len(v)
    if isinstance(v, (PList, PSet)): return len(v.items)
    if isinstance(v, PDict): return len(v.pairs)
    if isinstance(v, range): return len(v)
    if isinstance(v, Obj):
        f = v.cls.lookup('__len__')
        if f is not MISSING: return I.call(f, [v], {})
        I.throw(TypeError, 'len')
    if hasattr(v, 'vc_len'): return v.vc_len(I)
    if v is None or I.isnum(v) or isinstance(v, PIter): I.throw(TypeError, 'len')
    raise Unsupported('len of %s' % (type(v).__name__,))

def quant(I, it, is_any):
    if hasattr(it, 'vc_quant'): return it.vc_quant(I, is_any)
    acc = not is_any
    src = I.iterate(it)
    while True:
        try:
            v = next(src)
        except StopIteration:
            return acc
        except PyExc:
            # raised only if no earlier item decided the result
            if isinstance(acc, bool): raise
            if I.ctx.branch(acc) == is_any: return is_any
            raise
        t = I.truth(v)
        acc = Or(acc, t) if is_any else And(acc, t)
        if acc is is_any: return is_any

def b_any(I, a, k): return quant(I, a[0], True)
def b_all(I, a, k): return quant(I, a[0], False)

def sort_items(I, items, key=None, reverse=False):
    keyed = [(I.call(key, [x], {}) if key is not None else x, x) for x in items]
    out = []
    for kx, x in keyed:
        i = len(out)
        # insertion from the right keeps the sort stable
        while i > 0:
            lt = I.compare(ast.Lt, kx, out[i - 1][0]) if not reverse else I.compare(ast.Lt, out[i - 1][0], kx)
            if not I.test(lt): break
            i -= 1
        out.insert(i, (kx, x))
    return [x for _, x in out]

def b_sorted(I, a, k):
    if hasattr(a[0], 'vc_sorted'): return a[0].vc_sorted(I, k)
    key = k.get('key')
    rev = k.get('reverse', False)
    items = I.tolist(a[0])
    if key is None:
        # any order of unknown texts is a list of unknown texts
        if any(isinstance(x, OpaqueStr) for x in items) and all(isinstance(x, (str, SStr, OpaqueStr)) for x in items):
            return PList([OpaqueStr() for _ in items], I.ctx.depth)
    return PList(sort_items(I, items, key, rev), I.ctx.depth)

def minmax(I, a, k, is_min):
    if len(a) == 1 and hasattr(a[0], 'vc_minmax') and not k: return a[0].vc_minmax(I, is_min)
    items = I.tolist(a[0]) if len(a) == 1 else a
    key = k.get('key')
    if not items:
        if 'default' in k: return k['default']
        I.throw(ValueError, 'min of empty')
    best = items[0]
    for x in items[1:]:
        p, q = (x, best) if key is None else (I.call(key, [x], {}), I.call(key, [best], {}))
        lt = I.truth(I.compare(ast.Lt, p, q) if is_min else I.compare(ast.Gt, p, q))
        if isinstance(lt, bool): best = x if lt else best
        elif I.isnum(x) and I.isnum(best): best = sc_ite(lt, I.lift(x), I.lift(best))
        else: best = x if I.ctx.branch(lt) else best
    return best
def b_min(I, a, k): return minmax(I, a, k, True)
def b_max(I, a, k): return minmax(I, a, k, False)

def b_sum(I, a, k):
    acc = a[1] if len(a) > 1 else 0
    if hasattr(a[0], 'vc_sum'): return a[0].vc_sum(I, acc)
    for x in I.iterate(a[0]): acc = I.binop(ast.Add, acc, x)
    return acc

def b_zip(I, a, k):
    if any(getattr(x, 'vc_unbounded', False) for x in a):
        for x in a:
            if hasattr(x, 'vc_zip'): return x.vc_zip(I, a)
        raise Unsupported('zip of unbounded collection')
    its = [I.iterate(x) for x in a]
    def run():
        while True:
            row = []
            for i in its:
                try: row.append(next(i))
                except StopIteration: return
            yield tuple(row)
    return PIter(run() if its else iter(()), I.ctx.depth)

def b_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if hasattr(a[0], 'vc_enumerate'): return a[0].vc_enumerate(I)
    r = PIter(((i, v) for i, v in enumerate(I.iterate(a[0]), start)), I.ctx.depth)
    r.kind = 'enumerate'
    return r

def b_range(I, a, k):
    if len(a) == 1 and is_sym(a[0]) and z3.is_int(a[0]):
        from .family import Family, Guard
        b = I.ctx.bases.get(a[0].get_id())
        if b is None: raise Unsupported('range of unknown length')
        return Family(I, b.all_, lambda i: i)
    return range(*[I.conc_int(x) for x in a])

def b_list(I, a, k):
    if not a: return PList([], I.ctx.depth)
    if hasattr(a[0], 'vc_list'): return a[0].vc_list(I)
    return PList(I.tolist(a[0]), I.ctx.depth)
def b_tuple(I, a, k):
    if a and hasattr(a[0], 'vc_list'):
        r = a[0].vc_list(I)
        if isinstance(r, PList): return tuple(r.items)
        from .family import Family, Cat
        if isinstance(r, Family): return Family(I, r.guard, r.elem, 'tuple')
        if isinstance(r, Cat): return Cat(I, r.parts, 'tuple')
        return r
    return tuple(I.tolist(a[0])) if a else ()
def b_set(I, a, k):
    if not a: return PSet([], I.ctx.depth)
    if hasattr(a[0], 'vc_set'): return a[0].vc_set(I, False)
    if isinstance(a[0], PSet): return PSet(list(a[0].items), I.ctx.depth)
    return I.make_set(I.tolist(a[0]))
def b_frozenset(I, a, k):
    if not a: return PSet([], I.ctx.depth, True)
    if hasattr(a[0], 'vc_set'): return a[0].vc_set(I, True)
    if isinstance(a[0], PSet): return PSet(list(a[0].items), I.ctx.depth, True)
    return I.make_set(I.tolist(a[0]), True)
def b_dict(I, a, k, cls='dict'):
    d = PDict([], I.ctx.depth, cls)
    if a:
        src = a[0]
        if hasattr(src, 'vc_dict'): return src.vc_dict(I, cls)
        if isinstance(src, PDict): d.pairs = list(src.pairs)
        else:
            for row in I.iterate(src):
                kk, vv = I.tolist(row)
                I.setitem(d, kk, vv)
    for kk, vv in k.items(): I.setitem(d, kk, vv)
    return d

def b_float(I, a, k):
    v = a[0] if a else 0.0
    if hasattr(v, 'vc_float'): return v.vc_float(I)
    if isinstance(v, str):
        try: return float(v)
        except ValueError: I.throw(ValueError, 'float')
    if isinstance(v, (bool, int)): return float(v)
    if isinstance(v, (float, Fraction)): return v
    if isinstance(v, SStr): I.throw(ValueError, 'float of text')
    if I.isnum(v):
        v = I.lift(v)
        return Sc(v.tag, v.val, v.cls if v.cls == 'int' else 'float')
    I.throw(TypeError, 'float of %r' % (v,))
def b_int(I, a, k):
    v = a[0] if a else 0
    if isinstance(v, str):
        try: return int(v)
        except ValueError: I.throw(ValueError, 'int')
    if isinstance(v, (bool, int, Fraction)): return int(v)
    if isinstance(v, float):
        if v in (INF, -INF): I.throw(OverflowError, 'int')
        return int(v)
    if I.isnum(v):
        v = I.lift(v)
        if I.num_tag(v) != 0: I.throw(OverflowError, 'int')
        n = z3.If(v.val >= 0, z3.ToInt(v.val), -z3.ToInt(-v.val))
        if v.cls == 'int': return Sc(0, v.val, 'int')
        return Sc(0, z3.simplify(z3.ToReal(n)), 'int')
    if isinstance(v, SStr): I.throw(ValueError, 'int of text')
    I.throw(TypeError, 'int')
def b_bool(I, a, k): return I.truth(a[0]) if a else False
def b_str(I, a, k):
    if not a: return ''
    v = a[0]
    if isinstance(v, (str, SStr)): return v
    return OpaqueStr()
def b_repr(I, a, k): return OpaqueStr()
def b_hash(I, a, k):
    v = a[0]
    if isinstance(v, Obj):
        f = v.cls.lookup('__hash__')
        if f is None: I.throw(TypeError, 'unhashable type')
        if f is not MISSING: return I.call(f, [v], {})
    check_hashable(I, v)
    return HashV(v)
def check_hashable(I, v):
    if isinstance(v, (PList, PDict)) or (isinstance(v, PSet) and not v.frozen): I.throw(TypeError, 'unhashable')
    if isinstance(v, tuple):
        for x in v: check_hashable(I, x)
    if isinstance(v, Obj) and v.cls.lookup('__hash__') is None: I.throw(TypeError, 'unhashable')
    if getattr(v, 'vc_unhashable', False): I.throw(TypeError, 'unhashable')
def b_type(I, a, k):
    v = a[0]
    if isinstance(v, Obj): return v.cls
    if hasattr(v, 'vc_type'): return v.vc_type(I)
    if isinstance(v, bool): return I.builtins['bool']
    if isinstance(v, int): return I.builtins['int']
    if isinstance(v, float): return I.builtins['float']
    if isinstance(v, (str, SStr)): return I.builtins['str']
    if isinstance(v, tuple): return I.builtins['tuple']
    if isinstance(v, PList): return I.builtins['list']
    if isinstance(v, PDict): return I.builtins['dict']
    return Opaque('type')
def b_iter(I, a, k):
    if hasattr(a[0], 'vc_iterobj'): return a[0].vc_iterobj(I)
    return PIter(I.iterate(a[0]), I.ctx.depth)
def b_next(I, a, k):
    if hasattr(a[0], 'vc_next'): return a[0].vc_next(I)
    if not isinstance(a[0], PIter): raise Unsupported('next')
    try:
        return next(I.iterate(a[0]))
    except StopIteration:
        if len(a) > 1: return a[1]
        I.throw(StopIteration, 'next')
def b_map(I, a, k):
    its = [I.iterate(x) for x in a[1:]]
    return PIter((I.call(a[0], list(r), {}) for r in zip(*its)), I.ctx.depth)
def b_filter(I, a, k):
    if hasattr(a[1], 'vc_filter'): return a[1].vc_filter(I, a[0])
    f = a[0]
    return PIter((x for x in I.iterate(a[1])
        if I.test(x if f is None else I.call(f, [x], {}))), I.ctx.depth)
def b_abs(I, a, k):
    v = a[0]
    if isinstance(v, (int, float, Fraction)): return abs(v)
    if isinstance(v, Obj):
        f = v.cls.lookup('__abs__')
        if f is not MISSING: return I.call(f, [v], {})
    if I.isnum(v):
        v = I.lift(v)
        return sc_ite(sc_lt(v, 0), sc_neg(v), v)
    raise Unsupported('abs')
def b_reversed(I, a, k): return PIter(iter(I.tolist(a[0])[::-1]), I.ctx.depth)
def b_getattr(I, a, k):
    return I.getattr(a[0], a[1], a[2] if len(a) > 2 else MISSING)
def b_setattr(I, a, k): return I.setattr(a[0], a[1], a[2])
def b_hasattr(I, a, k): return I.getattr_(a[0], a[1]) is not MISSING
def b_callable(I, a, k):
    v = a[0]
    if isinstance(v, (FuncV, BoundM, NativeF, ClassV, TypeV)): return True
    return isinstance(v, Obj) and v.cls.lookup('__call__') is not MISSING
def b_id(I, a, k):
    return IdV(a[0])
def b_print(I, a, k): return None
def b_round(I, a, k): raise Unsupported('round')

class IdV:
    """id(x): equal exactly when the objects are identical."""
    def __init__(self, v): self.v = v
    def vc_eq(self, I, other):
        if isinstance(other, IdV): return self.v.vc_is(I, other.v) if hasattr(self.v, 'vc_is') else self.v is other.v
        return False

def reduce_(I, a, k):
    f, it = a[0], a[1]
    if hasattr(it, 'vc_reduce'): return it.vc_reduce(I, f, a[2] if len(a) > 2 else MISSING)
    src = I.iterate(it)
    if len(a) > 2: acc = a[2]
    else:
        acc = next(src, MISSING)
        if acc is MISSING: I.throw(TypeError, 'reduce of empty sequence')
    for x in src: acc = I.call(f, [acc, x], {})
    return acc

def chain_(I, a, k):
    if any(getattr(x, 'vc_unbounded', False) for x in a):
        return concat_star(I, [Star(x) for x in a])
    return PIter(itertools.chain(*[I.iterate(x) for x in a]), I.ctx.depth)
def chain_from(I, a, k):
    if hasattr(a[0], 'vc_flatten'): return a[0].vc_flatten(I)
    def run():
        for x in I.iterate(a[0]): yield from I.iterate(x)
    return PIter(run(), I.ctx.depth)
def product_(I, a, k):
    if k: raise Unsupported('product(repeat=)')
    return PIter(iter(list(itertools.product(*[I.tolist(x) for x in a]))), I.ctx.depth)
def combinations_(I, a, k):
    return PIter(iter(list(itertools.combinations(I.tolist(a[0]), I.conc_int(a[1])))), I.ctx.depth)

def isinf_(I, a, k):
    v = a[0]
    if isinstance(v, float): return v in (INF, -INF)
    if isinstance(v, (bool, int, Fraction)): return False
    if hasattr(v, 'vc_isinf'): return v.vc_isinf(I)
    if I.isnum(v):
        t = I.lift(v).tag
        return t != 0 if isinstance(t, int) else simp(t != 0)
    I.throw(TypeError, 'isinf of %r' % (v,))

def concat_star(I, items):
    """A sequence with segments of unbounded length."""
    for x in items:
        if isinstance(x, Star) and hasattr(x.coll, 'vc_concat'):
            return x.coll.vc_concat(I, items)
    raise Unsupported('sequence with an unbounded segment')


# ---------------------------------------------------------------------------
# Methods of built-in values

def method(fn):
    return fn

def builtin_attr(I, v, name):
    if isinstance(v, PList): tbl = LIST_M
    elif isinstance(v, PSet): tbl = SET_M
    elif isinstance(v, PDict): tbl = DICT_M
    elif isinstance(v, (str, SStr, OpaqueStr)):
        return NativeF('str.' + name, lambda I, a, k: str_method(I, v, name, a, k)) if hasattr('', name) else MISSING
    elif isinstance(v, tuple): tbl = TUPLE_M
    elif isinstance(v, Fraction):
        if name in ('numerator', 'denominator'): return getattr(v, name)
        return MISSING
    elif isinstance(v, PyExc):
        if name == 'args': return v.eargs
        return MISSING
    elif is_num(v):
        if name == 'is_number': return MISSING if isinstance(v, (int, float)) else True
        if name in ('numerator', 'denominator') and isinstance(v, Sc): return ratio_part(I, v, name)
        return MISSING
    else: return MISSING
    if name not in tbl: return MISSING
    f = tbl[name]
    return NativeF(name, lambda I, a, k: f(I, v, a, k))

def ratio_part(I, v, name):
    """v = n / d for some d >= 1."""
    ctx = I.ctx
    if not hasattr(ctx, 'ratio_parts'): ctx.ratio_parts = {}
    k = v.val.get_id()
    if k not in ctx.ratio_parts:
        d = ctx.real('den')
        ctx.assume(d >= 1)
        ctx.ratio_parts[k] = (v.val, d)
    d = ctx.ratio_parts[k][1]
    return Sc(0, v.val * d if name == 'numerator' else d, 'int')

def str_method(I, v, name, a, k):
    if isinstance(v, str) and all(isinstance(x, (str, int)) for x in a) and not k:
        if name == 'join': pass
        else:
            r = getattr(v, name)(*a)
            return PList(r, I.ctx.depth) if isinstance(r, list) else r
    if isinstance(v, str) and name in ('translate', 'maketrans') and len(a) == 1:
        if isinstance(a[0], PDict): return str.maketrans(dict(a[0].pairs))
        if isinstance(a[0], dict): return v.translate(a[0])
    if name == 'join':
        items = I.tolist(a[0])
        if isinstance(v, str) and all(isinstance(x, str) for x in items): return v.join(items)
        if getattr(I, 'texts', None): return I.texts.join(v, items)
        return OpaqueStr()
    if name == 'format':
        if getattr(I, 'texts', None) and isinstance(v, str) and not k and not re.search(r'\{[^}]|\{\{|\}\}', v):
            return I.texts.percent(v.replace('%', '%%').replace('{}', '%s'), tuple(a))
        return OpaqueStr()
    if getattr(I, 'texts', None) and isinstance(v, OpaqueStr): return I.texts.method(v, name, a)
    raise Unsupported('str.%s' % name)

def mut(I, v):
    if v.depth < I.ctx.depth: raise CannotMerge('mutation')

def l_append(I, v, a, k): mut(I, v); v.items.append(a[0])
def l_extend(I, v, a, k): mut(I, v); v.items.extend(I.tolist(a[0]))
def l_pop(I, v, a, k):
    mut(I, v)
    if not v.items: I.throw(IndexError, 'pop')
    return v.items.pop(I.conc_int(a[0]) if a else -1)
def l_insert(I, v, a, k): mut(I, v); v.items.insert(I.conc_int(a[0]), a[1])
def l_copy(I, v, a, k): return PList(list(v.items), I.ctx.depth)
def l_index(I, v, a, k):
    items = v if isinstance(v, tuple) else v.items
    for i, x in enumerate(items):
        if I.ctx.branch(I.same(x, a[0])): return i
    I.throw(ValueError, 'index')
def l_count(I, v, a, k):
    items = v if isinstance(v, tuple) else v.items
    n = 0
    for x in items:
        e = I.same(x, a[0])
        if I.ctx.branch(e): n += 1
    return n
def l_remove(I, v, a, k):
    mut(I, v)
    for i, x in enumerate(v.items):
        if I.ctx.branch(I.same(x, a[0])):
            del v.items[i]
            return None
    I.throw(ValueError, 'remove')
def l_sort(I, v, a, k):
    mut(I, v); v.items[:] = sort_items(I, v.items, k.get('key'), k.get('reverse', False))
def l_reverse(I, v, a, k): mut(I, v); v.items.reverse()
LIST_M = dict(append=l_append, extend=l_extend, pop=l_pop, insert=l_insert, copy=l_copy,
    index=l_index, count=l_count, remove=l_remove, sort=l_sort, reverse=l_reverse)
TUPLE_M = dict(index=l_index, count=l_count)

def s_add(I, v, a, k):
    mut(I, v)
    if not I.ctx.branch(I.contains(v, a[0])): v.items.append(a[0])
def s_remove(I, v, a, k):
    mut(I, v)
    for i, x in enumerate(v.items):
        if I.ctx.branch(I.same(x, a[0])):
            del v.items[i]
            return None
    I.throw(KeyError, 'remove')
def s_discard(I, v, a, k):
    mut(I, v)
    for i, x in enumerate(v.items):
        if I.ctx.branch(I.same(x, a[0])):
            del v.items[i]
            return None
def s_pop(I, v, a, k):
    mut(I, v)
    if not v.items: I.throw(KeyError, 'pop')
    return v.items.pop(I.ctx.choose(len(v.items), 'set.pop'))
def s_union(I, v, a, k):
    items = list(v.items)
    for x in a: items.extend(I.tolist(x))
    return I.make_set(items, v.frozen)
def s_inter(I, v, a, k):
    cur = v
    for x in a:
        other = x if isinstance(x, PSet) else I.make_set(I.tolist(x))
        cur = PSet([i for i in cur.items if I.ctx.branch(I.contains(other, i))], I.ctx.depth, v.frozen)
    return cur
def s_diff(I, v, a, k):
    cur = v
    for x in a:
        other = x if isinstance(x, PSet) else I.make_set(I.tolist(x))
        cur = PSet([i for i in cur.items if not I.ctx.branch(I.contains(other, i))], I.ctx.depth, v.frozen)
    return cur
def s_issubset(I, v, a, k): return And(*[I.contains(a[0], x) for x in v.items])
def s_issuperset(I, v, a, k): return And(*[I.contains(v, x) for x in I.tolist(a[0])])
def s_isdisjoint(I, v, a, k): return And(*[Not(I.contains(v, x)) for x in I.tolist(a[0])])
def s_copy(I, v, a, k): return PSet(list(v.items), I.ctx.depth, v.frozen)
def s_update(I, v, a, k):
    mut(I, v)
    for x in a: v.items[:] = s_union(I, v, [x], {}).items
SET_M = dict(add=s_add, remove=s_remove, discard=s_discard, pop=s_pop, union=s_union,
    intersection=s_inter, difference=s_diff, issubset=s_issubset, issuperset=s_issuperset,
    isdisjoint=s_isdisjoint, copy=s_copy, update=s_update)

def d_items(I, v, a, k): return PList([(x, y) for x, y in v.pairs], I.ctx.depth)
def d_keys(I, v, a, k): return PSet([x for x, _ in v.pairs], I.ctx.depth, True)
def d_values(I, v, a, k): return PList([y for _, y in v.pairs], I.ctx.depth)
def d_get(I, v, a, k):
    for x, y in v.pairs:
        if I.ctx.branch(I.same(x, a[0])): return y
    return a[1] if len(a) > 1 else None
def d_update(I, v, a, k):
    if a:
        src = a[0]
        for x, y in (src.pairs if isinstance(src, PDict) else [I.tolist(r) for r in I.iterate(src)]):
            I.setitem(v, x, y)
    for x, y in k.items(): I.setitem(v, x, y)
def d_pop(I, v, a, k):
    mut(I, v)
    for i, (x, y) in enumerate(v.pairs):
        if I.ctx.branch(I.same(x, a[0])):
            del v.pairs[i]
            return y
    if len(a) > 1: return a[1]
    I.throw(KeyError, 'pop')
def d_setdefault(I, v, a, k):
    for x, y in v.pairs:
        if I.ctx.branch(I.same(x, a[0])): return y
    d = a[1] if len(a) > 1 else None
    I.setitem(v, a[0], d)
    return d
def d_copy(I, v, a, k): return PDict(list(v.pairs), I.ctx.depth, v.cls)
DICT_M = dict(items=d_items, keys=d_keys, values=d_values, get=d_get, update=d_update,
    pop=d_pop, setdefault=d_setdefault, copy=d_copy)

def container_binop(I, op, a, b):
    if op is ast.Add:
        if isinstance(a, PList) and isinstance(b, PList): return PList(a.items + b.items, I.ctx.depth)
        if isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if isinstance(a, (str, SStr, OpaqueStr)) and isinstance(b, (str, SStr, OpaqueStr)):
            if isinstance(a, str) and isinstance(b, str): return a + b
            if getattr(I, 'texts', None): return I.texts.join('', [a, b])
            return OpaqueStr()
    if op is ast.Mult:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, str) and isinstance(y, int): return x * y
            if isinstance(x, (PList, tuple)) and I.isnum(y):
                n = I.conc_int(y)
                return PList(x.items * n, I.ctx.depth) if isinstance(x, PList) else x * n
    if isinstance(a, PSet) and isinstance(b, PSet):
        if op is ast.BitOr: return s_union(I, a, [b], {})
        if op is ast.BitAnd: return s_inter(I, a, [b], {})
        if op is ast.Sub: return s_diff(I, a, [b], {})
    if isinstance(a, (str, SStr, OpaqueStr)) and op is ast.Mod: return OpaqueStr()
    for x in (a, b):
        if not isinstance(x, (PList, tuple, PSet, PDict, str, SStr, OpaqueStr, type(None))) and not I.isnum(x):
            raise Unsupported('operator %s on %s, %s' % (op.__name__, type(a).__name__, type(b).__name__))
    I.throw(TypeError, 'operator %s' % op.__name__)

def format_percent(I, a, b):
    if getattr(I, 'texts', None): return I.texts.percent(a, b)
    if isinstance(a, str):
        xs = b if isinstance(b, tuple) else (b,)
        if all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in xs):
            try: return a % xs
            except Exception: pass
    return OpaqueStr()


# ---------------------------------------------------------------------------

EXC = ['Exception', 'AssertionError', 'TypeError', 'ValueError', 'KeyError', 'IndexError',
    'AttributeError', 'NotImplementedError', 'ZeroDivisionError', 'StopIteration', 'OverflowError',
    'NameError', 'RuntimeError', 'TimeoutError', 'BaseException', 'ArithmeticError', 'LookupError',
    'ImportError', 'RecursionError']

def T(name, test, call=None): return TypeV(name, test, call)

def make_builtins(I):
    import builtins as pb
    N = lambda n, f: NativeF(n, f)
    d = {n: getattr(pb, n) for n in EXC}
    d.update({
        'NotImplemented': NotImplemented, 'object': object, 'Ellipsis': Ellipsis,
        'isinstance': N('isinstance', b_isinstance), 'len': N('len', b_len),
        'any': N('any', b_any), 'all': N('all', b_all), 'sorted': N('sorted', b_sorted),
        'min': N('min', b_min), 'max': N('max', b_max), 'sum': N('sum', b_sum),
        'zip': N('zip', b_zip), 'enumerate': N('enumerate', b_enumerate), 'range': N('range', b_range),
        'repr': N('repr', b_repr), 'hash': N('hash', b_hash), 'iter': N('iter', b_iter),
        'next': N('next', b_next), 'map': N('map', b_map), 'filter': N('filter', b_filter),
        'abs': N('abs', b_abs), 'reversed': N('reversed', b_reversed), 'getattr': N('getattr', b_getattr),
        'setattr': N('setattr', b_setattr), 'hasattr': N('hasattr', b_hasattr),
        'callable': N('callable', b_callable), 'id': N('id', b_id), 'print': N('print', b_print),
        'round': N('round', b_round),
        'staticmethod': N('staticmethod', lambda I, a, k: StaticV(a[0])),
        'classmethod': N('classmethod', lambda I, a, k: ClassMethodV(a[0])),
        'property': N('property', lambda I, a, k: PropertyV(a[0])),
        'str': T('str', lambda v: isinstance(v, (str, SStr, OpaqueStr)), b_str),
        'int': T('int', _is_int, b_int), 'float': T('float', _is_float, b_float),
        'bool': T('bool', lambda v: isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)), b_bool),
        'tuple': T('tuple', lambda v: isinstance(v, tuple), b_tuple),
        'list': T('list', lambda v: isinstance(v, PList), b_list),
        'set': T('set', lambda v: isinstance(v, PSet) and not v.frozen, b_set),
        'frozenset': T('frozenset', lambda v: isinstance(v, PSet) and v.frozen, b_frozenset),
        'dict': T('dict', lambda v: isinstance(v, PDict), b_dict),
        'type': T('type', lambda v: isinstance(v, (ClassV, TypeV)), b_type),
    })
    return d


# ---------------------------------------------------------------------------
# External modules

class ExtRef:
    """A name of an external library the verifier has no contract for."""
    def __init__(self, name): self.name = name
    def __repr__(self): return '<external %s>' % (self.name,)
    def resolve(self, I):
        return getattr(I, 'externals', {}).get(self.name)
    def vc_call(self, I, a, k):
        f = self.resolve(I)
        if f is None: raise Unsupported('external %s' % (self.name,))
        I.ctx.run.trusted.add('contract of %s' % (self.name,))
        return I.call(f, a, k)
    def vc_attr(self, I, name): return external(I, self.name, name)
    def vc_instancecheck(self, I, v):
        f = self.resolve(I)
        if f is not None: return isinstance_(I, v, f)
        if isinstance(v, Sc) and v.cls in (None, 'sym') and self.name.startswith('sympy'):
            raise Unsupported('isinstance with %s' % (self.name,))
        return False
    def vc_unary(self, I, op):
        v = self.resolve(I)
        if v is None: raise Unsupported('external %s' % (self.name,))
        return I.unary(op, v)
    def vc_binop(self, I, op, b, r):
        v = self.resolve(I)
        if v is None: raise Unsupported('external %s' % (self.name,))
        return I.binop(op, b, v) if r else I.binop(op, v, b)

class ExtMod(ModV):
    def __init__(self, name):
        super().__init__(name, {})

def getmembers_(I, a, k):
    return PList([(n, v) for n, v in sorted(a[0].ns.items()) if not n.startswith('__') and I.test(I.call(a[1], [v], {}))], I.ctx.depth)

def ordered_dict(I, a, k): return b_dict(I, a, k, 'OrderedDict')

EXTERNAL = {
    'functools.reduce': NativeF('reduce', reduce_),
    'itertools.product': NativeF('product', product_),
    'itertools.combinations': NativeF('combinations', combinations_),
    'math.isinf': NativeF('isinf', isinf_),
    'collections.OrderedDict': TypeV('OrderedDict', lambda v: isinstance(v, PDict) and v.cls == 'OrderedDict', ordered_dict),
    'inspect.getmembers': NativeF('getmembers', getmembers_),
    'collections.Callable': TypeV('Callable', lambda v: isinstance(v, (FuncV, BoundM, NativeF, ClassV, TypeV))),
}
_chain = TypeV('chain', lambda v: False, chain_)
_chain.attrs['from_iterable'] = NativeF('chain.from_iterable', chain_from)
EXTERNAL['itertools.chain'] = _chain

def external(I, mod, name):
    key = '%s.%s' % (mod, name)
    extra = getattr(I, 'externals', None)
    if extra and key in extra: return extra[key]
    if key in EXTERNAL: return EXTERNAL[key]
    return ExtRef(key)

class ExtModV(ModV):
    def __init__(self, I, name):
        self.name = name
        self.ns = _Lazy(I, name)
class _Lazy(dict):
    def __init__(self, I, name): self.I, self.n = I, name
    def get(self, k, d=None):
        return external(self.I, self.n, k)

def external_module(I, name): return ExtModV(I, name)
