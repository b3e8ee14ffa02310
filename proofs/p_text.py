"""Contracts of the texts of sets, expressions and events, and of the
dictionary form of models (compilers/spe_to_dict.py): C15."""
from .spespec import *
from .registry import Task
from .modelspec import F_
from pyvc import texts
from pyvc.texts import Text, Tok, mk
from .trspec import Sub, Point
from .p_events import Ev
import ast, itertools

D = 'sppl.compilers.spe_to_dict'
TMODS = ('sppl.sets', 'sppl.transforms', 'sppl.dnf', 'sppl.spe', D)
T, S = 'sppl.transforms', 'sppl.sets'

def interp(ctx, mods=TMODS):
    I = Interp(ctx, ctx.run.modules(ctx, mods))
    texts.install(I)
    install_log(I.externals)
    E = I.externals
    E['sympy.sympify'] = NativeF('sympify', lambda I, a, k: a[0])
    E['sympy.Symbol'] = NativeF('Symbol', lambda I, a, k: Opaque('symbol'))
    E['sympy.oo'] = Sc(1, real_of(0), 'sym')
    E['sympy.E'] = Sc(0, ctx.real('E'), 'sym')
    E['sympy.exp'] = NativeF('exp', lambda I, a, k: E['sympy.E'])
    ctx.assume(And(E['sympy.E'].val > real_of(Fraction(27, 10)), E['sympy.E'].val < real_of(Fraction(28, 10))))
    I.contracts['sppl.sym_util.sympify_number'] = sympify
    I.contracts['sppl.transforms.make_sympy_polynomial'] = lambda I, f, a, k: Opaque('symbol')
    I.hooks.append(lambda I, what, *a: tag_eq(I.lift(a[0]).tag, 0) if what == 'attr' and a[1] == 'is_finite' and I.isnum(a[0]) else MISSING)
    return I

def sympify(I, f, a, k):
    if I.isnum(a[0]) and not (is_sym(a[0]) and z3.is_bool(a[0])): return a[0]
    I.throw(TypeError, 'sympify_number')

def cls(I, name):
    for m in (T, S, 'sppl.spe', D):
        if m in I.modules and name in I.modules[m].ns: return I.modules[m].ns[name]

def num(ctx, kind, name='n', finite=False):
    """A number of Python (int, float) or of sympy."""
    if kind == 'int':
        v = Sc(0, ctx.real(name), 'int')
        return v
    if finite: return Sc(0, ctx.real(name), kind)
    v = ctx.num(name)
    return Sc(v.tag, v.val, kind)

KEYS = {'FiniteReal': ['values'], 'FiniteNominal': ['values', 'b'], 'Interval': ['a', 'b', 'left_open', 'right_open'],
    'Union': ['values'], 'Identity': ['token'], 'Radical': ['subexpr', 'degree'], 'Exponential': ['subexpr', 'base'],
    'Logarithm': ['subexpr', 'base'], 'Abs': ['subexpr'], 'Reciprocal': ['subexpr'], 'Poly': ['subexpr', 'coeffs'],
    'Piecewise': ['subexprs', 'events'], 'EventInterval': ['subexpr', 'values'], 'EventFiniteReal': ['subexpr', 'values'],
    'EventFiniteNominal': ['subexpr', 'values'], 'EventOr': ['subexprs'], 'EventAnd': ['subexprs']}
FLAGS = ('b', 'left_open', 'right_open')

def same(I, a, b):
    """The same object, up to the identity of its parts."""
    if a is b: return True
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls: return False
        if a.cls.name not in KEYS: raise Unsupported('structure of %s' % a.cls.name)
        out = []
        for k in KEYS[a.cls.name]:
            x, y = I.getattr(a, k), I.getattr(b, k)
            out.append(Iff(I.truth(x), I.truth(y)) if k in FLAGS else same(I, x, y))
        return And(*out)
    if isinstance(a, PSet) and isinstance(b, PSet):
        if len(a.items) != len(b.items): return False
        return And(*[Or(*[same(I, x, y) for y in b.items]) for x in a.items])
    seq = lambda v: v.items if isinstance(v, PList) else v
    if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
        x, y = seq(a), seq(b)
        return And(len(x) == len(y), *[same(I, p, q) for p, q in zip(x, y)])
    if isinstance(a, (Obj, PSet, PList, tuple)) or isinstance(b, (Obj, PSet, PList, tuple)): return False
    for x, y in ((a, b), (b, a)):
        # hash(oo) != hash(inf), hence finite sets with them are different
        if isinstance(x, float) and isinstance(y, Sc) and y.cls == 'sym': return False
    return I.eq(a, b)

# ---------------------------------------------------------------------------
# texts of sets and expressions are read back

def set_(I, ctx, spec, i=''):
    """A set: ('interval', kind, kind), ('reals', kinds), ('names', n, b), ('union', specs)"""
    k = spec[0]
    if k == 'empty': return cls(I, 'EmptySet')
    if k == 'interval':
        a, b = num(ctx, spec[1], 'a' + i), num(ctx, spec[2], 'b' + i)
        ctx.assume(sc_lt(a, b))
        return I.call(cls(I, 'Interval'), [a, b], {'left_open': ctx.bool_('l' + i), 'right_open': ctx.bool_('r' + i)})
    if k == 'reals': return I.call(cls(I, 'FiniteReal'), [num(ctx, x, 'v%s%d' % (i, j)) for j, x in enumerate(spec[1])], {})
    if k == 'names':
        xs = [ctx.string('s%d' % j) for j in range(spec[1])]
        for x, y in itertools.combinations(xs, 2): ctx.assume(Not(I.eq(x, y)))
        return I.call(cls(I, 'FiniteNominal'), xs, {'b': spec[2]})

class Piece:
    """An arbitrary set, given to Union by name."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name

def reads_back(ctx, I, v, how='repr', where=D):
    """eval_exact(repr(v)) is v."""
    t = guard(ctx, 'text', lambda: I.call(I.builtins['repr'], [v], {}))
    r = guard(ctx, 'reading back', lambda: I.call(I.modules[where].ns['eval_exact'], [t], {}))
    ctx.prove('the text read back is the same', same(I, r, v))

def back_set(spec):
    def h(ctx):
        I = interp(ctx)
        reads_back(ctx, I, set_(I, ctx, spec))
    return h

def back_union(n):
    def h(ctx):
        I = interp(ctx)
        parts = tuple(Piece('set%d' % i) for i in range(n))
        U = Obj(cls(I, 'Union'), {'args': parts, 'values': PSet(list(parts), 0, True)})
        c = I.modules[S].ns['Union']
        I.contracts['sppl.sets.Union'] = lambda I, f, a, k: Obj(c, {'args': tuple(a), 'values': PSet(list(a), 0, True)})
        reads_back(ctx, I, U)
    return h

def subs(I, ctx, n, event=False):
    pt = Point(ctx)
    if event: return [Ev(I, pt, 'event%d' % i) for i in range(n)]
    return [Sub(I, pt, 'e%d' % i) for i in range(n)]

def back_expr(name, make, n=1, m=0):
    def h(ctx):
        I = interp(ctx)
        xs, es = subs(I, ctx, n), subs(I, ctx, m, True)
        v = make(I, ctx, lambda c, a, k=None: Obj(cls(I, c), dict(zip(KEYS[c], a))), xs, es)
        if v is None: raise Infeasible()
        # a constructor keeps its arguments
        for c in KEYS:
            if c in ('FiniteReal', 'FiniteNominal', 'Interval', 'Union'): continue
            def con(I, f, a, k, c=c):
                p = init_args(I, cls(I, c), a, k)
                return Obj(cls(I, c), {x: p[x] for x in KEYS[c]})
            I.contracts['sppl.transforms.' + c] = con
        reads_back(ctx, I, v)
    return h

def init_args(I, c, a, k):
    """The arguments of a constructor by name."""
    from pyvc.interp import Scope
    f = c.lookup('__init__')
    s = Scope(f.scope, globals_=f.scope.globals, func=f)
    I.bind_args(f, s, [None] + list(a), k)
    return s.vars

def exprs():
    one = lambda name, make, **k: (name, back_expr(name, make, **k))
    yield one('Identity', lambda I, c, N, x, e: N('Identity', ['X']), n=0)
    yield one('Radical', lambda I, c, N, x, e: N('Radical', [x[0], num(c, 'int', 'degree')]))
    for k in ('int', 'float', 'sym'):
        yield one('Exponential, base %s' % k, lambda I, c, N, x, e, k=k: N('Exponential', [x[0], num(c, k, 'base', True)]))
        yield one('Logarithm, base %s' % k, lambda I, c, N, x, e, k=k: N('Logarithm', [x[0], num(c, k, 'base', True)]))
    yield one('Abs', lambda I, c, N, x, e: N('Abs', [x[0]]))
    yield one('Reciprocal', lambda I, c, N, x, e: N('Reciprocal', [x[0]]))
    for ks in (('int', 'int'), ('float', 'sym'), ('sym', 'int', 'float')):
        yield one('Poly, coefficients %s' % ', '.join(ks),
            lambda I, c, N, x, e, ks=ks: N('Poly', [x[0], tuple(num(c, k, 'c%d' % i, True) for i, k in enumerate(ks))]))
    for n in (1, 2, 3):
        yield one('Piecewise of %d' % n, lambda I, c, N, x, e: N('Piecewise', [PList(x, 0), PList(e, 0)]), n=n, m=n)
        for k in ('EventOr', 'EventAnd'):
            yield one('%s of %d' % (k, n), lambda I, c, N, x, e, k=k: N(k, [tuple(e)]), n=0, m=n)
    for k in ('EventInterval', 'EventFiniteReal', 'EventFiniteNominal'):
        yield one(k, lambda I, c, N, x, e, k=k: N(k, [x[0], Piece('set')]))

# ---------------------------------------------------------------------------
# models as dictionaries

class Frozen:
    """A distribution of scipy with its parameters."""
    def __init__(self, name, args, kw, table=None): self.name, self.args, self.kw, self.table = name, args, kw, table
    def __repr__(self): return 'scipy.stats.%s' % self.name
    def vc_truth(self, I): return True
    def vc_attr(self, I, name):
        if name == 'dist': return Generic(self)
        if name == 'args': return self.args
        if name == 'kwds': return PDict(list(self.kw.items()), 0)
        if name == 'freeze': return NativeF(name, lambda I, a, k: self)
        return MISSING
    def same(self, I, o):
        if not isinstance(o, Frozen) or o.name != self.name or set(o.kw) != set(self.kw): return False
        if (self.table is None) != (o.table is None): return False
        r = [same(I, tuple(self.args), tuple(o.args))] + [same(I, self.kw[k], o.kw[k]) for k in self.kw]
        if self.table is not None: r += [same(I, tuple(x), tuple(y)) for x, y in zip(self.table, o.table)]
        return And(*r)
class Generic:
    def __init__(self, d): self.d = d
    def vc_attr(self, I, name):
        if name == 'name': return self.d.name
        if name in ('xk', 'pk') and self.d.table is not None: return Array(self.d.table[name == 'pk'])
        return MISSING
class Array:
    def __init__(self, xs): self.xs = xs
    def vc_attr(self, I, name):
        if name == 'tolist': return NativeF(name, lambda I, a, k: PList(list(self.xs), I.ctx.depth))
        return MISSING

class Component:
    """An arbitrary component of a model."""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') in ('SPE',)
class Encoded:
    """The dictionary of a component."""
    def __init__(self, c): self.c = c

def json_form(I, v):
    """json.loads(json.dumps(v))"""
    if isinstance(v, PDict):
        out = []
        for k, x in v.pairs:
            if not isinstance(k, (str, Text, SStr)): raise NotJson('key %r' % (k,))
            out.append((k, json_form(I, x)))
        return PDict(out, I.ctx.depth)
    if isinstance(v, (PList, tuple)): return PList([json_form(I, x) for x in I.tolist(v)], I.ctx.depth)
    if v is None or isinstance(v, (str, Text, SStr, bool, int, float, Encoded)): return v
    if is_sym(v) and z3.is_bool(v): return v
    if isinstance(v, Sc) and v.cls in ('int', 'float'): return v
    raise NotJson('%r' % (v,))
class NotJson(Exception): pass

NAMES = ('ContinuousLeaf', 'DiscreteLeaf', 'AtomicLeaf', 'NominalLeaf', 'SumSPE', 'ProductSPE')

def round_trip(make, js):
    """spe_from_dict(spe_to_dict(m)) calls the constructor of m with what m holds."""
    def h(ctx):
        I = interp(ctx)
        for c in ('Identity',):
            pass
        I.externals['fractions.Fraction'] = TypeV('Fraction', lambda v: isinstance(v, Fraction), fraction)
        def dist(name):
            def c(I, a, k):
                if name == 'rv_discrete' and set(k) == {'values'} and not a:
                    x, p = I.tolist(k['values'])
                    return Frozen(name, (), {}, (I.tolist(x), I.tolist(p)))
                return Frozen(name, tuple(a), dict(k))
            return NativeF(name, c)
        for n in ('norm', 'poisson', 'rv_discrete'): I.externals['scipy.stats.' + n] = dist(n)
        c, held = make(I, ctx)
        m = Obj(cls(I, c), dict(held))
        built = []
        for n in NAMES:
            def con(I, f, a, k, n=n):
                v = init_args(I, cls(I, n), a, k)
                built.append((n, v))
                return Obj(cls(I, n), {'built': len(built)})
            I.contracts['sppl.spe.' + n] = con
        I.contracts[D + '.spe_to_dict'] = lambda I, f, a, k: Encoded(a[0]) if isinstance(a[0], Component) else MISSING
        I.contracts[D + '.spe_from_dict'] = lambda I, f, a, k: a[0].c if isinstance(a[0], Encoded) else MISSING
        d = guard(ctx, 'writing', lambda: I.call(I.modules[D].ns['spe_to_dict'], [m], {}))
        if js:
            try: d = json_form(I, d)
            except NotJson as e: ctx.fail('the dictionary can be encoded', str(e)); return
        r = guard(ctx, 'reading', lambda: I.call(I.modules[D].ns['spe_from_dict'], [d], {}))
        ctx.prove('one model is built', len(built) == 1 and isinstance(r, Obj) and r.attrs.get('built') == 1)
        n, v = built[0]
        ctx.prove('of the same class', n == c)
        for k, x in held.items():
            if k not in v:
                if k != 'env': ctx.fail('%s is given' % k)
                continue
            y = v[k]
            if k == 'env':
                e = [(held['symbol'], held['symbol'])] if y is None else I.pairs(y) if hasattr(I, 'pairs') else list(y.pairs)
                xs = list(x.pairs)
                ctx.prove('the same derived variables', len(e) == len(xs))
                for (p, q), (s_, t) in zip(e, xs): ctx.prove('a derived variable', And(same(I, p, s_), same(I, q, t)))
            elif isinstance(x, Frozen): ctx.prove('the same distribution', x.same(I, y))
            elif k == 'dist':
                ys = list(y.pairs)
                ctx.prove('as many outcomes', len(ys) == len(x.pairs))
                for (o, w), (o2, w2) in zip(x.pairs, ys):
                    ctx.prove('an outcome', I.eq(o, o2))
                    ctx.prove('its weight', sc_eq(I.lift(w), I.lift(w2)))
            elif k == 'conditioned': ctx.prove('conditioned or not', Iff(I.truth(x), I.truth(y)))
            else:
                if k in ('children', 'weights'): x, y = tuple(x), tuple(I.tolist(y))
                ctx.prove('the same ' + k, same(I, x, y))
    return h

def fraction(I, a, k):
    if len(a) == 1: return a[0]
    n, d = I.lift(a[0]), I.lift(a[1])
    w = I.ctx.real('quotient')
    I.ctx.assume(w * d.val == n.val)
    return Sc(0, w)

def symbol(I, name='X'): return Obj(cls(I, 'Identity'), {'token': name, 'symbols': PSet([], 0, True)})

def env_of(I, ctx, X, n):
    pairs = [(X, X)]
    for i, e in enumerate(subs(I, ctx, n)): pairs.append((Obj(cls(I, 'Identity'), {'token': 'Z%d' % i}), e))
    return PDict(pairs, 0, 'OrderedDict')

def real_leaf(kind, args, cond, n, table=0):
    def make(I, ctx):
        X = symbol(I)
        ns = [num(ctx, k, 'p%d' % i, True) for i, k in enumerate(args)]
        name = 'norm' if kind == 'ContinuousLeaf' else 'poisson'
        if table: d = Frozen('rv_discrete', (), {}, ([num(ctx, 'int', 'k') for _ in range(table)], [num(ctx, 'float', 'w', True) for _ in range(table)]))
        elif len(args) == 1: d = Frozen(name, tuple(ns), {})
        else: d = Frozen(name, (), {'loc': ns[0], 'scale': ns[1]}) if ns else Frozen(name, (), {})
        return kind, {'symbol': X, 'dist': d, 'support': Piece('support'), 'conditioned': cond, 'env': env_of(I, ctx, X, n)}
    return make

def atomic(kind, n):
    def make(I, ctx):
        X = symbol(I)
        return 'AtomicLeaf', {'symbol': X, 'value': num(ctx, kind, 'value', True), 'env': env_of(I, ctx, X, n)}
    return make

def nominal(n):
    def make(I, ctx):
        X = symbol(I)
        xs = [ctx.string('s%d' % j) for j in range(n)]
        for x, y in itertools.combinations(xs, 2): ctx.assume(Not(I.eq(x, y)))
        return 'NominalLeaf', {'symbol': X, 'dist': PDict([(x, Sc(0, ctx.real('w'))) for x in xs], 0), 'env': env_of(I, ctx, X, 0)}
    return make

def branch(kind, n):
    def make(I, ctx):
        h = {'children': tuple(Component('model%d' % i) for i in range(n))}
        if kind == 'SumSPE': h['weights'] = tuple(num(ctx, 'float', 'w') for i in range(n))
        return kind, h
    return make

def tasks(prop, tier):
    out = []
    if prop == 'C15':
        K = ('int', 'float', 'sym')
        sets = [('empty',)] + [('interval', a, b) for a in K for b in K]
        for s in sets: out.append(Task('text of %s' % ' '.join(s), back_set(s), **F_))
        for ks in itertools.chain(*[itertools.combinations_with_replacement(K, n) for n in (1, 2)]):
            out.append(Task('text of finite numbers: %s' % ' '.join(ks), back_set(('reals', ks)), bound='at most 2 numbers', **F_))
        for n in (0, 1, 2, 3):
            for b in (True, None, False):
                if n or b: out.append(Task('text of %d names, b=%s' % (n, b), back_set(('names', n, b)), bound='at most 3 names', **F_))
        for n in (2, 3): out.append(Task('text of a union of %d' % n, back_union(n), bound='at most 3 pieces', **F_))
        for n, h in exprs():
            out.append(Task('text of ' + n, h, bound='at most 3 parts' if 'of ' in n or ',' in n and 'coeff' in n else None, **F_))
        for js in (False, True):
            J = ', through JSON' if js else ''
            add = lambda name, make, bound=None: out.append(Task(name + J, round_trip(make, js), bound=bound, **F_))
            for kind in ('ContinuousLeaf', 'DiscreteLeaf'):
                for args in ((), ('float',), ('int', 'float')):
                    for cond in (None, True, False):
                        for n in (0, 1, 2):
                            add('%s of %d parameters, conditioned=%s, %d derived variables' % (kind, len(args), cond, n), real_leaf(kind, args, cond, n), 'at most 2 parameters and derived variables')
            for t in (1, 2, 3):
                for n in (0, 1): add('table of %d outcomes, %d derived variables' % (t, n), real_leaf('DiscreteLeaf', (), t == 2, n, t), 'at most 3 outcomes')
            for k in ('int', 'float', 'sym'):
                for n in (0, 1, 2): add('atom %s, %d derived variables' % (k, n), atomic(k, n), 'at most 2 derived variables')
            for n in (1, 2, 3): add('nominal leaf of %d outcomes' % n, nominal(n), 'at most 3 outcomes')
            for n in (2, 3):
                for k in ('SumSPE', 'ProductSPE'): add('%s of %d' % (k, n), branch(k, n), 'at most 3 components')
    return out

ASSUMPTIONS = {'C15': [
    'repr and str of numbers of Python and sympy are expressions that evaluate to them (a literal, a literal after a minus sign, an infinity, or for sympy any sum); floating-point numbers agree to the printed precision',
    'components, sub-expressions and events are read back from their own text or dictionary (induction)',
    'a distribution of scipy is determined by its name, args, kwds and table; a constructor is a function of its arguments',
    'json.dumps and loads keep numbers, texts, lists and dictionaries with text keys, and turn tuples into lists']}
