"""Contracts of sets.py (C01, C02)."""
import ast
from .setspec import *
from .registry import Task

def scalar(ctx, sort):
    return ctx.num('x') if sort == 'num' else ctx.string('x')

def new(ctx):
    I = Interp(ctx, ctx.run.modules(ctx))
    install_membership(I)
    return I

def install_membership(I):
    """Callers use the contract of __contains__, not its body."""
    def c(I, f, args, kw):
        if len(args) == 2 and isinstance(args[0], Obj) and not kw and \
                (isinstance(args[1], (str, SStr)) or I.isnum(args[1])) and not isinstance(args[1], bool):
            if not (is_sym(args[1]) and z3.is_bool(args[1])): return den(I, args[0], args[1])
        return MISSING
    for k in ('EmptySetC', 'FiniteNominal', 'FiniteReal', 'Interval', 'Union'):
        I.contracts['%s.%s.__contains__' % (M, k)] = c
    def u(I, f, args, kw):
        # ensures: a frozenset with the members of its argument
        if len(args) == 1 and isinstance(args[0], VSet) and not kw: return args[0].vc_set(I, True)
        return MISSING
    I.contracts['%s.unique_numbers' % M] = u

def guard(ctx, name, thunk, detail=None):
    """Run code that must not raise."""
    try:
        return thunk()
    except PyExc as e:
        ctx.fail(name + ': no exception', '%s at %s' % (getattr(e.cls, '__name__', e.cls), e.where))
        raise Infeasible()

def contains_harness(k, sort):
    def h(ctx):
        I = Interp(ctx, ctx.run.modules(ctx))
        B = Builder(I)
        A = B.of(k, 'A')
        x = scalar(ctx, sort)
        ctx.inputs = [('A', set_model(I, A)), ('x', scalar_model(x))]
        f = A.cls.lookup('__contains__')
        r = guard(ctx, 'contains', lambda: I.truth(I.call(f, [A, x], {})))
        ctx.prove('x in A iff x is a member', Iff(r, den(I, A, x)))
    return h

def binop_harness(op, ka, kb, sort, what='den'):
    opn = {'and': ast.BitAnd, 'or': ast.BitOr}[op]
    def h(ctx):
        I = new(ctx)
        B = Builder(I)
        A, C = B.of(ka, 'A'), B.of(kb, 'B')
        x = scalar(ctx, sort)
        ctx.inputs = [('A', set_model(I, A)), ('B', set_model(I, C)), ('x', scalar_model(x))]
        r = guard(ctx, op, lambda: I.binop(opn, A, C))
        f = And if op == 'and' else Or
        if what == 'wf': return check_wf(ctx, I, r)
        ctx.prove('x in (A %s B)' % op, Iff(den(I, r, x), f(den(I, A, x), den(I, C, x))))
    return h

def invert_harness(ka, sort, what='den'):
    def h(ctx):
        I = new(ctx)
        B = Builder(I)
        A = B.real_k(ka[1]) if isinstance(ka, tuple) and ka[0] == 'FRk' else B.of(ka, 'A')
        x = scalar(ctx, sort)
        ctx.inputs = [('A', set_model(I, A)), ('x', scalar_model(x))]
        r = guard(ctx, 'invert', lambda: I.unary(ast.Invert, A))
        if what == 'wf': return check_wf(ctx, I, r)
        if sort == 'num':
            numeric = kind(A) != 'FN'
            goal = Iff(den(I, r, x), And(tag_eq(lift(x).tag, 0), Not(den(I, A, x)))) if numeric else Not(den(I, r, x))
        else:
            goal = Iff(den(I, r, x), Not(den(I, A, x))) if kind(A) == 'FN' else Not(den(I, r, x))
        ctx.prove('x in ~A', goal)
    return h

def check_wf(ctx, I, r):
    for n, f in wf(I, r): ctx.prove('well-formed: ' + n, f)

def eqhash_harness(ka, kb):
    def h(ctx):
        I = new(ctx)
        B = Builder(I)
        A, C = B.of(ka, 'A'), B.of(kb, 'B')
        x, s = ctx.num('x'), ctx.string('s')
        ctx.inputs = [('A', set_model(I, A)), ('B', set_model(I, C)), ('x', scalar_model(x)), ('s', scalar_model(s))]
        e = guard(ctx, 'eq', lambda: I.truth(I.eq_value(A, C)))
        if e is False:
            ctx.prove('sets of different kinds are not equal', True)
            return
        if not ctx.branch(e): return
        ctx.prove('equal sets have equal members', Iff(den(I, A, x), den(I, C, x)))
        ctx.prove('equal sets have equal strings', Iff(den(I, A, s), den(I, C, s)))
        hash_ = I.builtins['hash']
        ha = guard(ctx, 'hash', lambda: I.call(hash_, [A], {}))
        hb = guard(ctx, 'hash', lambda: I.call(hash_, [C], {}))
        ctx.prove('equal sets have equal hashes', I.eq(ha, hb))
    return h


# ---------------------------------------------------------------------------

BASE = ['E', 'IV', 'FR', 'FN']

def label(k):
    if isinstance(k, str): return {'E': 'EmptySet', 'IV': 'Interval', 'FR': 'FiniteReal', 'FN': 'FiniteNominal'}[k]
    if k[0] == 'FRk': return 'FiniteReal of %d' % k[1]
    return 'Union(%d intervals%s%s)' % (k[1], ', nominal' if k[2] else '', ', finite' if k[3] else '')

def as_case(e, x):
    """Add the witness as an operand, so that the replay probes it."""
    if isinstance(x, str) and (x[:1] == 's' or x in ('a', 'b', 'c')): return ['or', e, ['FN', [x], False]]
    return ['or', e, ['FR', [x]]] if x is not None else e

def op_cases(suite, op):
    def f(m):
        e = [op, m['A'], m['B']] if 'B' in m else ['not', m['A']]
        if op == 'in': e = m['A']
        out = [(suite, e)]
        if m.get('x') is not None: out.append((suite, as_case(e, m['x'])))
        return out
    return f

UNIONS = [('UN', 2, False, False), ('UN', 0, True, True), ('UN', 1, True, False)]

def tasks(prop, tier):
    what = 'den' if prop == 'C01' else 'wf'
    suite = 'sets.operators' if prop == 'C01' else 'sets.wellformed'
    sorts = ['num', 'str'] if what == 'den' else ['num']
    out = []
    def bound(*ks):
        n = [k for k in ks if isinstance(k, tuple)]
        return None if not n else 'operands: ' + ', '.join(label(k) for k in ks)
    for op in ('and', 'or'):
        for a in BASE:
            for b in BASE:
                for s in sorts:
                    out.append(Task('%s %s %s at a %s' % (label(a), op, label(b), s), binop_harness(op, a, b, s, what),
                        cases=op_cases(suite, op)))
        for u in UNIONS:
            for b in BASE:
                for s in sorts:
                    if s == 'str' and not u[2]: continue
                    out.append(Task('%s %s %s at a %s' % (label(u), op, label(b), s), binop_harness(op, u, b, s, what),
                        bound=bound(u, b), cases=op_cases(suite, op), weight=20))
    for a in ['E', 'IV', 'FN', ('FRk', 1), ('FRk', 3), ('UN', 2, False, False)]:
        for s in sorts:
            if a == 'E' and what == 'den': continue
            out.append(Task('invert %s at a %s' % (label(a), s), invert_harness(a, s, what), bound=bound(a),
                cases=op_cases(suite, 'not'), weight=3))
    if prop == 'C01':
        for a in BASE + [('UN', 2, True, True)]:
            for s in sorts:
                out.append(Task('membership %s of a %s' % (label(a), s), contains_harness(a, s), bound=bound(a),
                    cases=op_cases(suite, 'in')))
    else:
        for a in BASE:
            for b in BASE:
                out.append(Task('equality %s, %s' % (label(a), label(b)), eqhash_harness(a, b),
                    cases=lambda m: [('sets.equality', [m['A'], m['B']])]))
        for u in UNIONS[:3]:
            out.append(Task('equality %s' % label(u), eqhash_harness(u, u), bound=bound(u),
                cases=lambda m: [('sets.equality', [m['A'], m['B']])], weight=5))
    return out
