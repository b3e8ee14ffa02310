"""Contracts of primitive distributions (distributions.py): C17.

The contract of scipy.stats is the table of standard supports, scaled and
moved by scale and loc.  All parameters are arbitrary admissible numbers."""
import os, sys
from .spespec import *
from .setspec import den
from .modelspec import F_
from .registry import Task
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'rt'))
from supports import SUPPORTS, DISCRETE

DI = 'sppl.distributions'
DMODS = ('sppl.sets', 'sppl.transforms', 'sppl.dnf', 'sppl.spe', DI)

class Frozen:
    """What a constructor of scipy returns."""
    def __init__(self, name, kw): self.name, self.kw = name, kw
    def vc_attr(self, I, name):
        if name == 'freeze': return NativeF(name, lambda I, a, k: self)
        return MISSING

def interp(ctx):
    I = Interp(ctx, ctx.run.modules(ctx, DMODS))
    install_log(I.externals)
    pi = ctx.pi = z3.Real(ctx.fresh('pi'))
    ctx.assume(And(pi > real_of(Fraction(314159, 100000)), pi < real_of(Fraction(314160, 100000))))
    I.externals['sympy.pi'] = Sc(0, pi)
    I.contracts['sppl.sym_util.sympify_number'] = sympify
    names = set(SUPPORTS) | set(DISCRETE) | {'rv_discrete'}
    for n in names:
        def make(I, a, k, n=n):
            if a: raise Unsupported('positional parameters of scipy')
            return Frozen(n, dict(k))
        I.externals['scipy.stats.' + n] = NativeF(n, make)
    ctx.leaves = []
    def leaf(kind):
        def c(I, f, a, k):
            if len(a) != 3 or k: raise Unsupported('options of a leaf')
            ctx.leaves.append((kind, a[0], a[1], a[2]))
            return ctx.leaves[-1]
        return c
    for n in ('ContinuousLeaf', 'DiscreteLeaf'): I.contracts['sppl.spe.' + n] = leaf(n)
    return I

def sympify(I, f, a, k):
    if I.isnum(a[0]) and not (is_sym(a[0]) and z3.is_bool(a[0])): return a[0]
    I.throw(TypeError, 'sympify_number')

def built(ctx, I, name, args, kw):
    """X >> name(...): the leaf."""
    c = I.modules[DI].ns[name]
    X = I.call(I.modules['sppl.transforms'].ns['Identity'], ['X'], {})
    d = guard(ctx, 'parameters', lambda: I.call(c, args, kw))
    r = guard(ctx, 'leaf', lambda: I.call(d, [X], {}))
    if r not in ctx.leaves: ctx.fail('a leaf', repr(r)); raise Infeasible()
    ctx.prove('of the variable', r[1] is X)
    return r

def value(ctx, text, env):
    """The value of an expression of the table."""
    def mx(a, b): return z3.If(a >= b, a, b)
    def mn(a, b): return z3.If(a <= b, a, b)
    d = dict(env, oo=None, And=And, maximum=mx, minimum=mn, pi=ctx.pi)
    if text in ('oo', '-oo'): return 1 if text == 'oo' else -1, None
    if '1/c' in text:
        q = ctx.real('inverse')
        ctx.assume(q * env['c'] == 1)
        return 0, eval(text.replace('1/c', 'q'), dict(d, q=q))
    v = eval(text, d)
    return 0, z3.RealVal(v) if isinstance(v, (int, float)) else v

def primitive(name, cls_, case, loc, scale, discrete):
    shapes, cond, lo, hi = case
    def h(ctx):
        I = interp(ctx)
        env, kw = {}, {}
        for s in shapes:
            s, whole = s.split(':')[0], s.endswith(':I')
            if whole:
                t = ctx.int_(s); env[s] = z3.ToReal(t); kw[s] = t
            else:
                env[s] = ctx.real(s); kw[s] = Sc(0, env[s], 'float')
        c = eval(cond, dict(env, And=And))
        if c is not True: ctx.assume(c)
        l, s = z3.RealVal(0), z3.RealVal(1)
        if loc:
            if discrete:
                t = ctx.int_('loc'); l = z3.ToReal(t); kw['loc'] = t
            else:
                l = ctx.real('loc'); kw['loc'] = Sc(0, l, 'float')
        if scale:
            s = ctx.real('scale'); kw['scale'] = Sc(0, s, 'float')
            ctx.assume(s > 0)
        kind, X, dist, dom = built(ctx, I, cls_, [], dict(kw))
        ctx.prove('the kind of leaf', kind == ('DiscreteLeaf' if discrete else 'ContinuousLeaf'))
        ctx.prove('the distribution of its name', isinstance(dist, Frozen) and dist.name == name)
        ctx.prove('with the parameters given', set(dist.kw) == set(kw) and And(*[sc_eq(I.lift(dist.kw[k]), I.lift(kw[k])) for k in kw if k in dist.kw]))
        x = ctx.real('x')
        (a, av), (b, bv) = value(ctx, lo, env), value(ctx, hi, env)
        inside = []
        if discrete:
            k = ctx.int_('k')
            x = z3.ToReal(k)
            if not a: inside.append(x >= l + av)
            if not b: inside.append(x <= l + bv)
        else:
            if not a: inside.append(x > l + s * av)
            if not b: inside.append(x < l + s * bv)
        ctx.prove('the support has all outcomes of the distribution', Implies(And(*inside), den(I, dom, Sc(0, x))))
    return h

def atoms(how, n):
    """Distributions given by their outcomes."""
    def h(ctx):
        I = interp(ctx)
        vs = [ctx.int_('v%d' % i) for i in range(n)]
        for i in range(n):
            for j in range(i): ctx.assume(vs[i] != vs[j])
        ws = [ctx.real('w%d' % i) for i in range(n)]
        for w in ws: ctx.assume(w > 0)
        W = [Sc(0, w, 'float') for w in ws]
        if how == 'discrete':
            args, kw = [PDict(list(zip(vs, W)), 0)], {}
        elif how == 'uniformd':
            args, kw = [], dict(values=PList(list(vs), 0))
            W = [Fraction(1, n)] * n
        elif how == 'rv_discrete': args, kw = [], dict(values=(tuple(vs), tuple(W)))
        else: args, kw = [], dict(loc=vs[0])
        kind, X, dist, dom = built(ctx, I, how, args, kw)
        ctx.prove('a discrete leaf', kind == 'DiscreteLeaf')
        for v in vs: ctx.prove('the support has every outcome', den(I, dom, Sc(0, z3.ToReal(v))))
        if how == 'atomic':
            ctx.prove('one value', isinstance(dist, Frozen) and dist.name == 'randint' and set(dist.kw) == {'low', 'high'}
                and And(sc_eq(I.lift(dist.kw['low']), I.lift(vs[0])), sc_eq(I.lift(dist.kw['high']), I.lift(vs[0] + 1))))
            return
        ctx.prove('a table', isinstance(dist, Frozen) and dist.name == 'rv_discrete' and set(dist.kw) == {'values'})
        if not (isinstance(dist, Frozen) and set(dist.kw) == {'values'}): return
        xk, pk = (I.tolist(t) for t in I.tolist(dist.kw['values']))
        ctx.prove('as many weights as outcomes', len(xk) == len(pk) == n)
        if not len(xk) == len(pk) == n: return
        tol = real_of(Fraction(1, 10 ** 12))
        for v, w in zip(vs, W):
            w = I.lift(w).val
            ctx.prove('each outcome has its weight', Or(*[And(sc_eq(I.lift(x), I.lift(v)), I.lift(p).val - w <= tol, w - I.lift(p).val <= tol) for x, p in zip(xk, pk)]))
    return h

def not_whole(how):
    """Outcomes that are not integers are rejected."""
    def h(ctx):
        I = interp(ctx)
        a, b = ctx.real('a'), ctx.real('b')
        ctx.assume(And(Not(z3.IsInt(a)), a != b))
        vs, W = (Sc(0, a, 'float'), Sc(0, b, 'float')), (Sc(0, z3.RealVal('1/2'), 'float'),) * 2
        args, kw = ([PDict(list(zip(vs, W)), 0)], {}) if how == 'discrete' else ([], dict(values=(vs, W)))
        try:
            d = I.call(I.modules[DI].ns[how], args, kw)
            I.call(d, [I.call(I.modules['sppl.transforms'].ns['Identity'], ['X'], {})], {})
        except PyExc: ctx.prove('rejected', True); return
        ctx.fail('outcomes that are not integers are rejected', 'accepted')
    return h

def positional(ctx):
    I = interp(ctx)
    for n in ('norm', 'poisson', 'uniform'):
        try: I.call(I.modules[DI].ns[n], [3], {})
        except PyExc: ctx.prove('rejected', True); continue
        ctx.fail('parameters without a name are rejected', n)

def tasks(prop, tier):
    if prop != 'C17': return []
    out = []
    for table, discrete in ((SUPPORTS, False), (DISCRETE, True)):
        for n, (shapes, cases) in sorted(table.items()):
            for cls_ in [n] + (['normal'] if n == 'norm' else []):
                for case in cases:
                    for loc in (False, True):
                        for scale in ((False,) if discrete else (False, True)):
                            nm = '%s%s%s%s' % (cls_, ' where ' + case[0] if len(cases) > 1 else '', ', loc' if loc else '', ', scale' if scale else '')
                            out.append(Task('support of ' + nm, primitive(n, cls_, (shapes,) + case, loc, scale, discrete), fast_ms=150, check_ms=5000))
    for how in ('discrete', 'uniformd', 'rv_discrete'):
        for n in (1, 2, 3):
            out.append(Task('%s of %d outcomes' % (how, n), atoms(how, n), bound='%d outcomes' % n, weight=n, **F_))
        if how != 'uniformd': out.append(Task('%s of other numbers' % how, not_whole(how), bound='2 outcomes', **F_))
    out.append(Task('atomic', atoms('atomic', 1), **F_))
    out.append(Task('parameters without a name', positional, **F_))
    return out

ASSUMPTIONS = {'C17': [
    'scipy.stats: the standard support of each distribution is that of rt/supports.py, scaled by scale and moved by loc (compared with scipy itself by the suite primitive.table); end points carry no mass for continuous distributions',
    'parameters are exact numbers; the class of a numeric parameter is float for continuous and int for integer parameters',
    'ContinuousLeaf and DiscreteLeaf keep the distribution and the support given (C08, C21)']}
