"""Contracts of the renderer of models (compilers/spe_to_sppl.py): C18.

The text that the renderer writes for a model over arbitrary parameters,
components and expressions is compiled by the compiler of program text itself
and run; the commands it builds must be those of the model."""
from .p_compile import *
from .p_compile import MODS as CMODS, K, A
from .p_text import num, Piece
from . import p_text, p_compile
from pyvc.texts import Tok

R = 'sppl.compilers.spe_to_sppl'
RMODS = ('sppl.sets', 'sppl.transforms', 'sppl.dnf', 'sppl.spe', 'sppl.distributions', A, K, R)

def rinterp(ctx):
    I = interp(ctx, RMODS)
    E = I.externals
    E['sympy.E'] = Sc(0, ctx.real('E'), 'sym')
    ctx.assume(And(E['sympy.E'].val > real_of(Fraction(27, 10)), E['sympy.E'].val < real_of(Fraction(28, 10))))
    E['sympy.oo'] = Sc(1, real_of(0), 'sym')
    E['sympy.Integer'] = TypeV('Integer', lambda v: isinstance(v, Sc) and v.cls == 'symint')
    E['sympy.sympify'] = NativeF('sympify', lambda I, a, k: a[0])
    E['sympy.Symbol'] = NativeF('Symbol', lambda I, a, k: Opaque('symbol'))
    I.contracts['sppl.sym_util.sympify_number'] = p_text.sympify
    I.contracts['sppl.transforms.make_sympy_polynomial'] = lambda I, f, a, k: Opaque('symbol')
    I.hooks.append(lambda I, what, *a: tag_eq(I.lift(a[0]).tag, 0) if what == 'attr' and a[1] == 'is_finite' and I.isnum(a[0]) else MISSING)
    # the text of a component is given by its contract
    call = lambda f, c: I.contracts.__setitem__('%s.%s' % (R, f), lambda I, ff, a, k: mk([Tok(a[0]), '(X)']) if isinstance(a[0], c) else MISSING)
    call('transform_to_sppl', Expr)
    call('event_to_sppl', Guard)
    return I

def cls(I, name):
    for m in ('sppl.transforms', 'sppl.sets', 'sppl.spe'):
        if name in I.modules[m].ns: return I.modules[m].ns[name]

class Expr:
    """An arbitrary expression: its text mentions variables."""
    def __init__(self, name, value=None): self.name, self.value = name, value
    def __repr__(self): return self.name
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_eq(self, I, o): return self is o
    def vc_hash(self, I): return id(self)
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') == 'Transform'
    def vc_call(self, I, a, k): return Term('expression', (self.name,)) if self.value is None else self.value
class Guard(Expr):
    """An arbitrary event."""
    def __init__(self, ctx, name): self.name, self.f = name, ctx.bool_(name)
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') in ('Event', 'Transform')
    def vc_call(self, I, a, k): return Ev(self.f)

def alike(I, a, b):
    """Sets with the same members, by their form."""
    if not (isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls): return False
    n = a.cls.name
    if n == 'EmptySet' or a is b: return True
    g = I.getattr
    if n == 'Interval':
        return And(*[sc_eq(I.lift(g(a, x)), I.lift(g(b, x))) for x in 'ab'], *[Iff(I.truth(g(a, x)), I.truth(g(b, x))) for x in ('left_open', 'right_open')])
    if n in ('FiniteReal', 'FiniteNominal'):
        x, y = (I.tolist(g(s, 'values')) for s in (a, b))
        eq = (lambda p, q: sc_eq(I.lift(p), I.lift(q))) if n == 'FiniteReal' else I.eq
        r = [Or(*[eq(p, q) for q in y]) for p in x] + [Or(*[eq(p, q) for p in x]) for q in y]
        if n == 'FiniteNominal': r.append(Iff(I.truth(g(a, 'b')), I.truth(g(b, 'b'))))
        return And(*r)
    if n == 'Union':
        x, y = g(a, 'args'), g(b, 'args')
        return And(len(x) == len(y), *[p is q or alike(I, p, q) for p, q in zip(x, y)])
    raise Unsupported('form of %s' % n)

def near(I, a, b):
    """Values of the same text."""
    if isinstance(a, Sc) or isinstance(b, Sc):
        if not (I.isnum(a) and I.isnum(b)): return False
        return sc_eq(I.lift(a), I.lift(b))
    if isinstance(a, Term) and isinstance(b, Term): return And(a.op == b.op, len(a.args) == len(b.args), *[near(I, x, y) for x, y in zip(a.args, b.args)])
    if isinstance(a, Ev) and isinstance(b, Ev): return Iff(a.f, b.f)
    if isinstance(a, Obj) and isinstance(b, Obj): return alike(I, a, b)
    if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
        x, y = (v.items if isinstance(v, PList) else v for v in (a, b))
        return And(len(x) == len(y), *[near(I, p, q) for p, q in zip(x, y)])
    if isinstance(a, PDict) and isinstance(b, PDict):
        if len(a.pairs) != len(b.pairs): return False
        return And(*[Or(*[And(near(I, k, l), near(I, v, w)) for l, w in b.pairs]) for k, v in a.pairs])
    if I.isnum(a) and I.isnum(b): return sc_eq(I.lift(a), I.lift(b))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)): return I.eq(a, b)
    return ident(a, b)

# ---------------------------------------------------------------------------
# expressions, sets and numbers

def names_of_text(I):
    """What a rendered program imports."""
    env = {n: cls(I, n) for n in ('FiniteNominal', 'FiniteReal', 'Interval', 'Union')}
    for n in ('Exp', 'Log', 'Logarithm'):
        env[n] = NativeF(n, lambda I, a, k, n=n: Term(n, a))
    env['X'] = Term('variable', ('X',))
    return env

def written(ctx, I, f, v):
    """The value of the text of v, which no operator next to it takes apart."""
    t = guard(ctx, 'text', lambda: I.call(I.modules[R].ns[f], [v], {}))
    s = I.texts.source(t)
    try:
        e = ast.parse(s, mode='eval')
        ok = all(ast.dump(ast.parse(x % s)) == ast.dump(ast.parse(x % ('(%s)' % s))) for x in ('_a_ ** %s ** _b_', '-%s', '%s.c', '%s(1)', '_a_ & %s', '%s << _a_', 'f(%s, 2)'))
    except SyntaxError as x: ctx.fail('the text is an expression', '%s: %s' % (x, s)); raise Infeasible()
    ctx.prove('the text is one operand', ok)
    def run():
        env = names_of_text(I)
        env['abs'] = NativeF('abs', lambda I, a, k: Term('abs', a))
        return I.texts.eval(e.body, dict(I.modules['sppl.sets'].ns), env)
    return guard(ctx, 'reading', run)

KINDS = ('int', 'float', 'sym', 'symint')
def number(ctx, kind, name='n', finite=False):
    if kind in ('int', 'symint'): return Sc(0, z3.ToReal(ctx.int_(name)), kind)
    return num(ctx, kind, name, finite)

def a_number(kind):
    def h(ctx):
        I = rinterp(ctx)
        x = number(ctx, kind)
        r = written(ctx, I, 'number_to_sppl', x)
        ctx.prove('a number', bool(I.isnum(r)))
        ctx.prove('the same number', sc_eq(I.lift(r), x))
    return h

def make_set(I, ctx, spec, i=''):
    k = spec[0]
    if k == 'interval':
        a, b = number(ctx, spec[1], 'a' + i), number(ctx, spec[2], 'b' + i)
        ctx.assume(sc_lt(a, b))
        return I.call(cls(I, 'Interval'), [a, b], {'left_open': ctx.bool_('l' + i), 'right_open': ctx.bool_('r' + i)})
    if k == 'reals':
        xs = [number(ctx, x, 'v%s%d' % (i, j), True) for j, x in enumerate(spec[1])]
        for x, y in itertools.combinations(xs, 2): ctx.assume(Not(sc_eq(x, y)))
        return I.call(cls(I, 'FiniteReal'), xs, {})
    if k == 'names':
        xs = [ctx.string('s%d' % j) for j in range(spec[1])]
        for x, y in itertools.combinations(xs, 2): ctx.assume(Not(I.eq(x, y)))
        return I.call(cls(I, 'FiniteNominal'), xs, {'b': spec[2]})

def a_set(spec):
    def h(ctx):
        I = rinterp(ctx)
        S = make_set(I, ctx, spec)
        r = written(ctx, I, 'set_to_sppl', S)
        ctx.prove('the same set', alike(I, r, S))
    return h

def a_union(n):
    def h(ctx):
        I = rinterp(ctx)
        c = cls(I, 'Union')
        parts = tuple(Part('set%d' % i) for i in range(n))
        I.contracts[R + '.set_to_sppl'] = lambda I, f, a, k: mk([Tok(a[0])]) if isinstance(a[0], Part) else MISSING
        I.contracts['sppl.sets.Union'] = lambda I, f, a, k: Obj(c, {'args': tuple(a)})
        U = Obj(c, {'args': parts, 'values': PSet(list(parts), 0, True)})
        r = written(ctx, I, 'set_to_sppl', U)
        ctx.prove('the same set', alike(I, r, U))
    return h
class Part(Piece):
    def vc_isinstance(self, I, t): return False
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o

FIELDS = p_text.KEYS
def an_expr(make, f='transform_to_sppl'):
    def h(ctx):
        I = rinterp(ctx)
        new = lambda c, a: Obj(cls(I, c), dict(zip(FIELDS[c], a)))
        v, want = make(I, ctx, new)
        r = written(ctx, I, f, v)
        if callable(want): want(r)
        else: ctx.prove('the same expression', near(I, r, want))
    return h

def exprs():
    sub = lambda n='e': Expr(n)
    t = lambda e: Term('expression', (e.name,))
    def ident_(I, ctx, new): return new('Identity', ['X']), Term('variable', ('X',))
    yield 'Identity', ident_
    def radical(I, ctx, new):
        e, d = sub(), number(ctx, 'int', 'degree')
        ctx.assume(d.val > 0)
        return new('Radical', [e, d]), Term('Pow', (t(e), (1, d)))
    yield 'Radical', radical
    for k in KINDS:
        for c, natural in (('Exponential', 'Exp'), ('Logarithm', 'Log')):
            def base(I, ctx, new, k=k, c=c, natural=natural):
                e, b = sub(), number(ctx, k, 'base', True)
                ctx.assume(b.val > 0)
                def want(r):
                    if r.op == natural:
                        ctx.prove('the base is e', sc_eq(b, I.externals['sympy.E']))
                        ctx.prove('the same expression', near(I, r, Term(natural, (t(e),))))
                    else: ctx.prove('the same expression', near(I, r, Term('Pow', (b, t(e))) if c == 'Exponential' else Term(c, (t(e), b))))
                return new(c, [e, b]), want
            yield '%s, base %s' % (c, k), base
    def abs_(I, ctx, new):
        e = sub()
        return new('Abs', [e]), Term('abs', (t(e),))
    yield 'Abs', abs_
    def rec(I, ctx, new):
        e = sub()
        return new('Reciprocal', [e]), Term('Div', (1, t(e)))
    yield 'Reciprocal', rec
    for ks in (('int', 'float'), ('sym', 'symint'), ('float', 'int', 'sym'), ('symint', 'float', 'int', 'float')):
        def poly(I, ctx, new, ks=ks):
            u = ctx.real('u')
            e = Expr('e', Sc(0, u, 'float'))
            cs = [number(ctx, k, 'c%d' % i, True) for i, k in enumerate(ks)]
            w = z3.RealVal(0)
            for i, c in enumerate(cs):
                p = z3.RealVal(1)
                for _ in range(i): p = p * u
                w = w + c.val * p
            return new('Poly', [e, tuple(cs)]), Sc(0, w)
        yield 'Poly, coefficients %s' % ', '.join(ks), poly
    for n in (1, 2, 3):
        def piece(I, ctx, new, n=n):
            es, gs = [Expr('e%d' % i) for i in range(n)], [Guard(ctx, 'g%d' % i) for i in range(n)]
            ts = [Term('Mult', (t(e), Ev(g.f))) for e, g in zip(es, gs)]
            w = ts[0]
            for x in ts[1:]: w = Term('Add', (w, x))
            return new('Piecewise', [tuple(es), tuple(gs)]), w
        yield 'Piecewise of %d' % n, piece

def events():
    for c in ('EventInterval', 'EventFiniteReal', 'EventFiniteNominal'):
        def basic(I, ctx, new, c=c):
            S = Part('set')
            I.contracts[R + '.set_to_sppl'] = lambda I, f, a, k: mk([Tok(a[0])])
            e = Expr('e')
            return new(c, [e, S]), lambda r: ctx.prove('membership of the same expression in the same set', any(
                isinstance(r, Ev) and r.f is b and u.op == 'In' and u.args[1] is S and bool(ident(u.args[0], Term('expression', ('e',)))) for u, b in I.atoms))
        yield c, basic
    for n in (1, 2, 3):
        for c in ('EventOr', 'EventAnd'):
            def junct(I, ctx, new, c=c, n=n):
                gs = [Guard(ctx, 'g%d' % i) for i in range(n)]
                return new(c, [tuple(gs)]), Ev((Or if c == 'EventOr' else And)(*[g.f for g in gs]))
            yield '%s of %d' % (c, n), junct

# ---------------------------------------------------------------------------
# models

class Frozen(p_text.Frozen):
    """A distribution of scipy with its parameters."""
    def __init__(self, name, shapes, args, kw, table=None):
        super().__init__(name, args, kw, table)
        self.shapes = shapes
    def vc_attr(self, I, name):
        if name == 'dist': return Generic(self)
        return super().vc_attr(I, name)
    def parameters(self):
        names = (self.shapes.split(', ') if self.shapes else []) + ['loc', 'scale']
        return dict(zip(names, self.args), **self.kw)
class Generic(p_text.Generic):
    def vc_attr(self, I, name):
        if name == 'shapes': return self.d.shapes
        return super().vc_attr(I, name)

class Component:
    """An arbitrary model: its text is a statement."""
    def __init__(self, name, symbols): self.name, self.symbols = name, symbols
    def __repr__(self): return self.name
    def vc_truth(self, I): return True
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') == 'SPE'
    def vc_attr(self, I, name):
        if name == 'get_symbols': return NativeF(name, lambda I, a, k: PSet(list(self.symbols), 0, True))
        return MISSING

def variable(I, name): return Obj(cls(I, 'Identity'), {'token': name, 'symbols': PSet([], 0, True)})

def rendered(ctx, I, m):
    """The commands of the program of a model."""
    def helper(I, f, a, k):
        if not isinstance(a[0], Component): return MISSING
        st = a[1]
        I.call(I.getattr(I.getattr(st, 'stream'), 'write'), ['%s%s\n' % (' ' * I.getattr(st, 'indentation'), a[0].name)], {})
        return st
    I.contracts[R + '.render_sppl_helper'] = helper
    out = guard(ctx, 'rendering', lambda: I.call(I.modules[R].ns['render_sppl'], [m], {}))
    t = guard(ctx, 'the text', lambda: I.call(I.getattr(out, 'getvalue'), [], {}))
    src = I.texts.source(t)
    given, I.texts.names = dict(I.texts.names), {}
    stmts = {x: [] for x in re.findall(r'\bs\d\b', src)}
    I.visited = []
    I.texts.visit_hook = statement_hook(I, stmts)
    I.given = dict(given, _cmd_=NativeF('cmd', lambda I, a, k: Node('Stmt', tuple(a))))
    env_of(I)
    def run():
        c = I.call(I.modules[K].ns['SPPL_Compiler'], [src], {})
        return I.call(I.getattr(c, 'execute_module'), [], {})
    ns = guard(ctx, 'compiling ' + src, run)
    r = I.getattr(ns, 'model')
    ctx.prove('the model is the result of the commands', isinstance(r, Run) and r.given == ((), {}))
    return tree(I, r.node), ns

def target(name):
    if not name.endswith(']'): return Term('variable', (name,))
    a, i = name[:-1].split('[')
    return ('element', a, int(i))
def is_target(ctx, I, what, got, name):
    w = target(name)
    if isinstance(w, Term): ok = ident(got, w)
    else:
        ok = isinstance(got, Term) and got.op == 'element' and got.args[0] == w[1] and got.args[2] == w[2]
        if ok: ok = isinstance(got.args[1], int) and got.args[1] > w[2]
    ctx.prove(what, bool(ok))

def spec_of(I, m):
    """Checks that consume the commands of a model."""
    name = m.cls.name
    return name

def check(ctx, I, cmds, m, seen, weights):
    """The commands start with those of m; the rest is returned."""
    def pop(kind):
        if not cmds or cmds[0][0] != kind:
            ctx.fail('the commands are those of the model', 'got %r, want %s of %r' % (cmds[:1], kind, m)); raise Infeasible()
        return cmds.pop(0)
    if isinstance(m, Component):
        ctx.prove('the component is rendered', pop('stmt')[1:] == (m.name,)); return
    a, c = m.attrs, m.cls.name
    if c == 'ProductSPE':
        for x in a['children']: check(ctx, I, cmds, x, seen, weights)
        return
    if c == 'SumSPE':
        if len(a['children']) == 1: return check(ctx, I, cmds, a['children'][0], seen, weights)
        br = pop('if')[1]
        ctx.prove('as many branches as components', len(br) == len(a['children']))
        own = set()
        for i, ((g, body), x) in enumerate(zip(br, a['children'])):
            f = [u for u, b in I.atoms if isinstance(g, Ev) and b is g.f and u.op == 'Eq']
            ok = bool(f) and isinstance(f[0].args[0], Term) and f[0].args[0].op == 'variable' and isinstance(f[0].args[1], str)
            ctx.prove('the branch is taken at an outcome of a variable', ok)
            v, o = f[0].args[0].args[0], f[0].args[1]
            if v not in own: ctx.prove('the variable is new', v not in seen and v in weights)
            own.add(v); seen.add(v)
            ws = [w for k, w in weights[v].pairs if k == o]
            ctx.prove('its outcome has a weight', len(ws) == 1)
            ctx.prove('the weight of the component', sc_eq(I.lift(ws[0]), Sc(0, as_log(a['weights'][i]).p)))
            body = list(body)
            check(ctx, I, body, x, seen, weights)
            ctx.prove('nothing else in the branch', not body)
        ctx.prove('one variable selects the branch', len(own) == 1)
        v = own.pop()
        ctx.prove('as many outcomes as components', len(weights[v].pairs) == len(br) and len({k for k, _ in weights[v].pairs}) == len(br))
        return
    sym = a['symbol'].attrs['token']
    s = pop('sample')
    is_target(ctx, I, 'the variable is sampled', s[1], sym)
    d = s[2]
    dname = d.args[0] if isinstance(d, Term) and d.op == 'distribution' else None
    kw = {x.args[0]: x.args[1] for x in d.args[1:] if isinstance(x, Term) and x.op == '='} if dname else {}
    pos = [x for x in d.args[1:] if not (isinstance(x, Term) and x.op == '=')] if dname else []
    if c == 'NominalLeaf':
        ctx.prove('a choice of outcomes', dname == 'NominalDistribution' and len(pos) == 1 and not kw and isinstance(pos[0], PDict))
        ctx.prove('the same outcomes and weights', near(I, pos[0], a['dist']))
        return
    if c == 'AtomicLeaf':
        k = pop('constrain')
        ctx.prove('constrained to one value', isinstance(k[1], PDict) and len(k[1].pairs) == 1)
        is_target(ctx, I, 'of the variable', k[1].pairs[0][0], sym)
        ctx.prove('the value of the atom', near(I, k[1].pairs[0][1], a['value']))
        # a value of positive density
        ctx.prove('drawn from a density which is positive everywhere', dname == 'norm' and not pos and And(*[near(I, v, {'loc': 0, 'scale': 1}[n]) for n, v in kw.items()]))
    else:
        D = a['dist']
        if D.table is not None:
            x, p = D.table
            ctx.prove('the table', dname == 'discrete' and len(pos) == 1 and near(I, pos[0], PDict(list(zip(x, p)), 0)))
        else:
            w = D.parameters()
            ctx.prove('the distribution', dname == D.name and not pos and set(kw) == set(w))
            for n in w: ctx.prove('parameter %s' % n, near(I, kw[n], w[n]))
        if a['conditioned']:
            e = pop('condition')[1]
            f = [u for u, b in I.atoms if isinstance(e, Ev) and b is e.f and u.op == 'In']
            ctx.prove('a condition on one variable', bool(f))
            is_target(ctx, I, 'on this variable', f[0].args[0], sym)
            ctx.prove('by the support', alike(I, f[0].args[1], a['support']))
    for v, e in a['env'].pairs[1:]:
        t = pop('transform')
        is_target(ctx, I, 'the derived variable', t[1], v.attrs['token'])
        ctx.prove('its definition', bool(ident(t[2], Term('expression', (e.name,)))))

def model(make):
    def h(ctx):
        I = rinterp(ctx)
        m = make(I, ctx)
        tokens = set()
        def toks(x):
            if isinstance(x, Component): tokens.update(s.attrs['token'] for s in x.symbols)
            elif 'children' in x.attrs:
                for y in x.attrs['children']: toks(y)
                x.attrs['symbols'] = PSet(symbols(x), 0, True)
            else: tokens.update(k.attrs['token'] for k, _ in x.attrs['env'].pairs)
        def symbols(x):
            if isinstance(x, Component): return list(x.symbols)
            if 'children' in x.attrs:
                out = []
                for y in x.attrs['children']:
                    for s in symbols(y):
                        if not any(s.attrs['token'] == q.attrs['token'] for q in out): out.append(s)
                return out
            return [k for k, _ in x.attrs['env'].pairs]
        toks(m)
        cmds, ns = rendered(ctx, I, m)
        # the variables that select branches come first
        weights = {}
        while cmds and cmds[0][0] == 'sample' and isinstance(cmds[0][1], Term) and cmds[0][1].op == 'variable' and cmds[0][1].args[0] not in tokens:
            _, t, d = cmds.pop(0)
            ok = isinstance(d, Term) and d.op == 'distribution' and d.args[0] == 'NominalDistribution' and len(d.args) == 2 and isinstance(d.args[1], PDict)
            ctx.prove('a choice of outcomes', bool(ok))
            ctx.prove('declared once', t.args[0] not in weights)
            weights[t.args[0]] = d.args[1]
        seen = set()
        check(ctx, I, cmds, m, seen, weights)
        ctx.prove('no other commands', not cmds)
        ctx.prove('no other variables', set(weights) == seen)
    return h

def weight(ctx):
    w = ctx.real('w')
    ctx.assume(And(w > 0, w <= 1))
    return Sc(0, w, 'float')

def env_pairs(I, X, n, name='Z'):
    pairs = [(X, X)]
    for i in range(n): pairs.append((variable(I, '%s%d' % (name, i)), Expr('definition%d' % i)))
    return PDict(pairs, 0, 'OrderedDict')

def real(kind, name, shapes, pos, kws, cond=False, n=0, table=0, sym='X', ends=('float', 'float')):
    def make(I, ctx):
        X = variable(I, sym)
        p = lambda i: number(ctx, ('float', 'int')[i % 2], 'p%d' % i, True)
        if table: d = Frozen('rv_discrete', None, (), {}, ([number(ctx, ('int', 'float')[i % 2], 'k%d' % i, True) for i in range(table)], [weight(ctx) for i in range(table)]))
        else: d = Frozen(name, shapes, tuple(p(i) for i in range(pos)), {k: p(9 + i) for i, k in enumerate(kws)})
        if d.table:
            for x, y in itertools.combinations(d.table[0], 2): ctx.assume(Not(sc_eq(x, y)))
        S = make_set(I, ctx, ('interval',) + ends)
        return Obj(cls(I, kind), {'symbol': X, 'dist': d, 'support': S, 'conditioned': cond, 'env': env_pairs(I, X, n)})
    return make

def atomic(kind, n, sym='X'):
    def make(I, ctx):
        X = variable(I, sym)
        return Obj(cls(I, 'AtomicLeaf'), {'symbol': X, 'value': number(ctx, kind, 'value', True), 'env': env_pairs(I, X, n)})
    return make

def nominal(n, sym='X'):
    def make(I, ctx):
        X = variable(I, sym)
        xs = [ctx.string('s%d' % j) for j in range(n)]
        for x, y in itertools.combinations(xs, 2): ctx.assume(Not(I.eq(x, y)))
        return Obj(cls(I, 'NominalLeaf'), {'symbol': X, 'dist': PDict([(x, weight(ctx)) for x in xs], 0), 'env': env_pairs(I, X, 0)})
    return make

def tree_of(spec, names=('X',)):
    """spec: 'c' a component, ('sum', ...), ('prod', ...)"""
    def make(I, ctx):
        count = itertools.count()
        vs = [variable(I, n) for n in names]
        def b(s):
            if s == 'c': return Component('s%d' % next(count), vs)
            if callable(s): return s(I, ctx)
            ch = tuple(b(x) for x in s[1:])
            if s[0] == 'prod': return Obj(cls(I, 'ProductSPE'), {'children': ch})
            ws = []
            for _ in ch:
                w = ctx.real('w')
                ctx.assume(And(w > 0, w <= 1))
                ws.append(LogV(w))
            return Obj(cls(I, 'SumSPE'), {'children': ch, 'weights': tuple(ws)})
        return b(spec)
    return make

TREES = [('sum', 'c'), ('sum', 'c', 'c'), ('sum', 'c', 'c', 'c'), ('sum',) + ('c',) * 5, ('prod', 'c', 'c'), ('prod', 'c', 'c', 'c'), ('sum', ('prod', 'c', 'c'), 'c'), ('prod', ('sum', 'c', 'c'), 'c'),
    ('prod', 'c', ('sum', 'c', 'c')), ('prod', ('sum', 'c', 'c'), ('sum', 'c', 'c', 'c')), ('sum', ('sum', 'c', 'c'), 'c'), ('sum', 'c', ('sum', 'c', 'c')),
    ('sum', ('sum', 'c', 'c'), ('sum', 'c', 'c')), ('sum', ('prod', ('sum', 'c', 'c'), 'c'), ('prod', 'c', ('sum', 'c', 'c'))), ('prod', ('sum', ('prod', 'c', ('sum', 'c', 'c')), 'c'), ('sum', 'c', 'c'))]

def tasks(prop, tier):
    out = []
    if prop != 'C18': return out
    add = lambda n, h, bound=None: out.append(Task(n, h, bound=bound, **F_))
    for k in KINDS: add('number %s' % k, a_number(k))
    for a in KINDS:
        for b in KINDS: add('interval %s %s' % (a, b), a_set(('interval', a, b)))
    for ks in itertools.chain(*[itertools.combinations_with_replacement(KINDS, n) for n in (1, 2)]): add('finite numbers: ' + ' '.join(ks), a_set(('reals', ks)), 'at most 2 numbers')
    for n in (0, 1, 2, 3):
        for b in (True, False):
            if n or b: add('%d names, b=%s' % (n, b), a_set(('names', n, b)), 'at most 3 names')
    for n in (2, 3): add('union of %d' % n, a_union(n), 'at most 3 pieces')
    for n, m in exprs(): add('expression ' + n, an_expr(m), 'at most 3 parts' if ' of ' in n or 'coeff' in n else None)
    for n, m in events(): add('event ' + n, an_expr(m, 'event_to_sppl'), 'at most 3 parts' if ' of ' in n else None)
    for kind, name, shapes in (('ContinuousLeaf', 'norm', None), ('ContinuousLeaf', 'beta', 'a, b'), ('DiscreteLeaf', 'poisson', 'mu'), ('DiscreteLeaf', 'binom', 'n, p')):
        for pos, kws in ((0, ()), (0, ('loc',)), (0, ('loc', 'scale')), (1, ()), (1, ('scale',)), (2, ())):
            if 'scale' in kws and kind == 'DiscreteLeaf': continue
            for cond in (False, True):
                for n in (0, 2): add('%s %s, %d and %d parameters, conditioned=%s, %d derived variables' % (kind, name, pos, len(kws), cond, n), model(real(kind, name, shapes, pos, kws, cond, n)), 'at most 2 parameters and derived variables')
    for a in KINDS:
        for b in KINDS: add('support from %s to %s' % (a, b), model(real('ContinuousLeaf', 'norm', None, 0, ('loc',), True, 0, ends=(a, b))))
    for t in (1, 2, 3):
        for c in (False, True)[:4 - t]: add('table of %d outcomes, conditioned=%s' % (t, c), model(real('DiscreteLeaf', '', None, 0, (), c, 1, t)), 'at most 3 outcomes')
    for k in KINDS:
        for n in (0, 2): add('atom %s, %d derived variables' % (k, n), model(atomic(k, n)), 'at most 2 derived variables')
    for n in (1, 2, 3): add('nominal leaf of %d outcomes' % n, model(nominal(n)), 'at most 3 outcomes')
    for t in TREES: add('tree %s' % (t,), model(tree_of(t)), 'arbitrary components under at most 4 levels')
    for n in (('branch_var_0', 'X'), ('branch_var_0', 'branch_var_1'), ('branch_var_1', 'X'), ('branch_var_', 'branch_var_0a', 'branch_var_2')):
        for t in (TREES[1], TREES[9], TREES[13]): add('variables %s, tree %s' % (' '.join(n), t), model(tree_of(t, n)), 'four sets of names')
    leaf = lambda s, c=False: real('ContinuousLeaf', 'norm', None, 0, ('loc',), c, 0, sym=s)
    for n, t in (('one', ('prod', leaf('X[0]'), leaf('X[1]'))), ('two', ('prod', leaf('X[3]'), nominal(2, 'Y[10]'), atomic('int', 0, 'Z'))), ('of a mixture', ('sum', ('prod', leaf('X[0]'), leaf('Y')), ('prod', leaf('X[0]'), atomic('float', 0, 'Y')))),
            ('condition', leaf('A[12]', True))):
        add('arrays: ' + n, model(tree_of(t)), 'three programs')
    plain = real('ContinuousLeaf', 'norm', None, 0, ())
    add('mixture of leaves', model(tree_of(('sum', real('ContinuousLeaf', 'beta', 'a, b', 2, (), False, 1), real('DiscreteLeaf', 'poisson', 'mu', 0, ('mu',), False, 1), atomic('int', 1)))), 'one program')
    add('mixture of products', model(tree_of(('sum', ('prod', plain, nominal(2, 'Y')), ('prod', plain, ('sum', nominal(1, 'Y'), nominal(2, 'Y')))))), 'one program')
    return out

ASSUMPTIONS = {'C18': [
    'str and repr of numbers are literals which evaluate to them (floating-point numbers agree to the printed precision; with fwidth the text is rounded on purpose)',
    'components, sub-expressions and events are rendered by their own contract (induction); the text of an expression mentions its variables',
    'the operators of transforms in a rendered expression build that expression (C04, C05), commands do what they say (C13)',
    'a distribution of scipy is determined by its name and parameters; positional parameters are its shapes, loc and scale, in this order',
    'ast.parse and astunparse.unparse are inverse']}
