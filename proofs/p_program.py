"""Contracts of commands (compilers/ast_to_spe.py): C13.

k guards have 2**k truth combinations (cells) and the model gives each an
arbitrary probability, so every Boolean combination of the guards is known by
its cells.  What a command does to a model is arbitrary; the result of a
conditional must be the mixture of what the branches do to the model given
their guard and not the guards before."""
from .spespec import *
from .spespec import _and, _meas
from .registry import Task
from .modelspec import F_
import os

C = 'sppl.compilers.ast_to_spe'
PMODS = ('sppl.sets', 'sppl.transforms', 'sppl.dnf', 'sppl.spe', C)

def interp(ctx):
    I = Interp(ctx, ctx.run.modules(ctx, PMODS))
    install_log(I.externals)
    I.externals['fractions.Fraction'] = TypeV('Fraction', lambda v: isinstance(v, (Fraction, Sc)), fraction)
    env = NativeF('os.environ.get', lambda I, a, k: 'yes' if ctx.branch(ctx.bool_('nosimplify')) else (a[1] if len(a) > 1 else None))
    I.externals['os.environ.get'] = env
    I.externals['os.getenv'] = env
    return I

def cmd(I, name): return I.modules[C].ns[name]

class Cells:
    """An event, or a set of outcomes of one variable, as a Boolean
    combination of the guards."""
    def __init__(self, w, cells, kind='event'): self.w, self.cells, self.kind = w, frozenset(cells), kind
    def __repr__(self): return '%s%s' % (self.kind, sorted(self.cells))
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_isinstance(self, I, t):
        n = getattr(t, 'name', '')
        if self.kind == 'event': return n in ('Event', 'Transform')
        return n == 'Set'
    def vc_binop(self, I, op, o, r):
        if not isinstance(o, Cells) or o.kind != self.kind: return NotImplemented
        f = {ast.BitAnd: self.cells & o.cells, ast.BitOr: self.cells | o.cells, ast.BitXor: self.cells ^ o.cells}.get(op)
        if f is None or op is ast.BitXor and self.kind == 'set': return NotImplemented
        return Cells(self.w, f, self.kind)
    def vc_unary(self, I, op):
        if op is not ast.Invert: raise Unsupported('operator')
        return Cells(self.w, self.w.all - self.cells, self.kind)

class Guards:
    def __init__(self, ctx, k):
        self.ctx, self.k = ctx, k
        self.all = frozenset(range(2 ** k))
        self.p = {c: ctx.real('p%d' % c) for c in sorted(self.all)}
        for x in self.p.values(): ctx.assume(x >= 0)
        ctx.assume(self.prob(self.all) == 1)
    def guard(self, i, kind='event'): return Cells(self, {c for c in self.all if c >> i & 1}, kind)
    def prob(self, cells):
        s = z3.RealVal(0)
        for c in sorted(cells): s = s + self.p[c]
        return s
    def first(self, i):
        """Guard i holds and those before it do not."""
        return frozenset(c for c in self.all if c >> i & 1 and not any(c >> j & 1 for j in range(i)))
    def none(self): return frozenset({0})

class Model:
    """The model given that one of the cells holds."""
    def __init__(self, w, cells=None): self.w, self.cells = w, w.all if cells is None else cells
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') == 'SPE'
    def given(self, I, e):
        if e is None: I.throw(AttributeError, 'query of None')
        if not isinstance(e, Cells) or e.kind != 'event': raise Unsupported('event %r' % (e,))
        return self.w.prob(e.cells & self.cells)
    def vc_attr(self, I, name):
        ctx, w = I.ctx, self.w
        if name in ('logprob', 'prob'):
            def f(I, a, k):
                p = self.given(I, a[0])
                if self.cells != w.all: p = quotient(ctx, p, w.prob(self.cells))
                return LogV(p) if name == 'logprob' else Sc(0, p)
            return NativeF(name, f)
        if name == 'condition':
            def f(I, a, k):
                p = self.given(I, a[0])
                if ctx.branch(simp(p == 0)): I.throw(ValueError, 'zero probability')
                return Model(w, self.cells & a[0].cells)
            return NativeF(name, f)
        return MISSING

class Done:
    """What command j makes of the model given some cells."""
    def __init__(self, j, model): self.j, self.model = j, model
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_isinstance(self, I, t):
        if getattr(t, 'name', '') == 'SPE': return True
        raise Unsupported('class of an arbitrary model')

class Cmd:
    def __init__(self, j): self.j = j
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') == 'Command'
    def vc_attr(self, I, name):
        if name != 'interpret': return MISSING
        return NativeF(name, lambda I, a, k: Done(self.j, a[0] if a else k.get('spe')))

class Mix:
    def __init__(self, parts): self.parts = parts
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o

def use_contracts(I):
    ctx = I.ctx
    def normal(I, f, a, k):
        e = a[0]
        if not isinstance(e, Cells): raise Unsupported('normal form')
        if ctx.branch(ctx.bool_('unsat')):
            ctx.assume(e.w.prob(e.cells) == 0)
            return None
        return Cells(e.w, e.cells)
    I.contracts['sppl.dnf.dnf_normalize'] = normal
    def mix(I, f, a, k):
        cs, ws = I.tolist(a[0]), I.tolist(a[1])
        if len(cs) != len(ws): ctx.fail('as many weights as components', '%d and %d' % (len(cs), len(ws)))
        return Mix([(c, as_log(x).p) for c, x in zip(cs, ws)])
    I.contracts['sppl.spe.SumSPE'] = mix
    I.contracts['sppl.spe.spe_simplify_sum'] = lambda I, f, a, k: a[0]

def check_mixture(ctx, w, r, want):
    """r is the mixture of what command j does given the cells want[j]."""
    parts = r.parts if isinstance(r, Mix) else [(r, z3.RealVal(1))]
    if not all(isinstance(c, Done) and isinstance(c.model, Model) for c, _ in parts):
        ctx.fail('the components are the branches run on the model', repr(parts)); return
    total = z3.RealVal(0)
    for j, cells in want.items():
        mine = [(c, p) for c, p in parts if c.j == j]
        s = z3.RealVal(0)
        for c, p in mine:
            ctx.prove('branch %d runs given its guard and not those before' % j, w.prob(c.model.cells ^ cells) == 0)
            ctx.prove('branch %d has positive probability when it runs' % j, w.prob(cells) > 0)
            s = s + p
        ctx.prove('branch %d is taken with the probability of its guard' % j, s == w.prob(cells))
    ctx.prove('no other branch', all(c.j in want for c, _ in parts))

def exhaustive(ctx, w, total, run):
    lo = real_of(Fraction(1, 10**6))
    try: r = run()
    except PyExc:
        ctx.prove('rejected: the guards are not exhaustive', total != 1)
        return None
    ctx.prove('accepted: the guards are exhaustive', And(total - 1 < lo, 1 - total < lo))
    # the tolerance of the comparison is below printing accuracy
    ctx.assume(total == 1)
    return r

def if_else(k, other):
    def h(ctx):
        I = interp(ctx); use_contracts(I)
        w = Guards(ctx, k)
        conds = [w.guard(i) for i in range(k)]
        want = {i: w.first(i) for i in range(k)}
        br = [x for i in range(k) for x in (conds[i], Cmd(i))]
        if other:
            br += [True, Cmd(k)]
            want[k] = w.none()
        total = z3.RealVal(0)
        for c in want.values(): total = total + w.prob(c)
        c = I.call(cmd(I, 'IfElse'), br, {})
        r = exhaustive(ctx, w, total, lambda: I.call(I.getattr(c, 'interpret'), [Model(w)], {}))
        if r is not None: check_mixture(ctx, w, r, want)
    return h

class Sym:
    """A variable: its values lie in the sets."""
    def __init__(self, w, gen): self.w, self.gen = w, gen
    def vc_truth(self, I): return True
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') in ('Identity', 'Transform')
    def vc_binop(self, I, op, o, r):
        if op is not ast.LShift or r: return NotImplemented
        if isinstance(o, Cells) and o.kind == 'set': return Cells(self.w, o.cells)
        cells = frozenset()
        for v in I.tolist(o): cells = cells | self.gen(v)
        return Cells(self.w, cells)

def switch(kinds, mode):
    """mode: list, enumerate, or iterator; kinds: number, string or set."""
    def h(ctx):
        I = interp(ctx); use_contracts(I)
        w = Guards(ctx, len(kinds))
        vals = []
        for i, n in enumerate(kinds):
            if n == 'num':
                v = ctx.num('v%d' % i); ctx.assume(tag_eq(v.tag, 0)); v = Sc(0, v.val, 'float')
            elif n == 'int': v = ctx.int_('v%d' % i)
            elif n == 'str': v = ctx.string('s%d' % i)
            else: v = w.guard(i, 'set')
            vals.append(v)
        def gen(v, want):
            for i, (n, x) in enumerate(zip(kinds, vals)):
                if x is v and (n == want or n == 'int' and want == 'num'): return w.guard(i).cells
            if any(x is v for x in vals): I.throw(AssertionError, 'value of the other sort')
            raise Unsupported('value %r as %s' % (v, want))
        def make(n):
            def f(I, fn, a, k):
                if k or not a: raise Unsupported('options')
                cells = frozenset()
                for v in a: cells = cells | gen(v, n)
                return Cells(w, cells, 'set')
            return f
        I.contracts['sppl.sets.FiniteReal'] = make('num')
        I.contracts['sppl.sets.FiniteNominal'] = make('str')
        X = Sym(w, lambda v: gen(v, 'str' if not I.isnum(v) else 'num'))
        def f(I, a, k):
            v = a[-1]
            j = [i for i, x in enumerate(vals) if x is v]
            ctx.prove('the body gets a case value', len(j) == 1)
            if mode == 'enumerate':
                ctx.prove('the body gets the index and the value', len(a) == 2 and I.concrete_int(a[0]) == j[0] if hasattr(I, 'concrete_int') else len(a) == 2 and a[0] == j[0])
            else: ctx.prove('the body gets one value', len(a) == 1)
            return Cmd(j[0])
        L = PList(list(vals), 0)
        if mode == 'enumerate': L = I.B.b_enumerate(I, [L], {})
        if mode == 'iterator': L = I.B.b_iter(I, [L], {})
        want = {i: w.first(i) for i in range(len(kinds))}
        total = z3.RealVal(0)
        for c in want.values(): total = total + w.prob(c)
        s = I.call(cmd(I, 'Switch'), [X, L, NativeF('body', f)], {})
        run = lambda: I.call(I.getattr(s, 'interpret'), [Model(w)], {})
        r = exhaustive(ctx, w, total, run)
        if r is None: return
        check_mixture(ctx, w, r, want)
        if len(kinds) <= 2:
            r = guard(ctx, 'interpreted again', run)
            check_mixture(ctx, w, r, want)
    return h

def branches(ctx):
    """interpret_if_block, for any number of branches."""
    I = interp(ctx)
    b = Base(ctx, 'B', least=1)
    S = z3.IntSort()
    evt = z3.Function(ctx.fresh('event'), S, S)
    none = z3.Function(ctx.fresh('unsat'), S, z3.BoolSort())
    P = z3.Function(ctx.fresh('P'), S, z3.RealSort())
    run = z3.Function(ctx.fresh('run'), S, S, S, z3.RealSort())
    q = z3.Int(ctx.fresh('q'))
    ctx.assume_forall(b.sort, lambda i: And(P(evt(i)) >= 0, P(evt(i)) <= 1, Implies(none(i), P(evt(i)) == 0)))
    class Event_:
        def __init__(self, i): self.i = i
        def vc_truth(self, I): return Not(none(self.i))
        def vc_is(self, I, o):
            if o is None: return none(self.i)
            return self is o
    class Given:
        def __init__(self, e): self.e = e
    class Spe:
        def vc_attr(self, I, name):
            if name == 'logprob': return NativeF(name, lambda I, a, k: LogV(P(evt(a[0].i))))
            if name == 'condition':
                def f(I, a, k):
                    e = evt(a[0].i)
                    if not I.ctx.branch(simp(P(e) > 0)): I.throw(ValueError, 'zero probability')
                    return Given(e)
                return NativeF(name, f)
            return MISSING
    class Command:
        def __init__(self, i): self.i = i
        def vc_attr(self, I, name):
            if name == 'interpret':
                def f(I, a, k):
                    s = a[0]
                    if not isinstance(s, Given):
                        I.ctx.fail('a branch runs on the model given its guard', repr(s))
                        raise Infeasible()
                    t = run(self.i, s.e, q)
                    return Child(I, self.i, lambda ev: t)
                return NativeF(name, f)
            return MISSING
    I.contracts['sppl.spe.SumSPE'] = lambda I, f, a, k: Mixture(I, a[0], a[1])
    I.contracts['sppl.spe.spe_simplify_sum'] = lambda I, f, a, k: a[0]
    events = Family(I, b.all_, Event_)
    cmds = Family(I, b.all_, Command)
    total = spec_sum(I, b, lambda i: P(evt(i)))
    want = spec_sum(I, b, lambda i: z3.If(P(evt(i)) > 0, P(evt(i)) * run(i, evt(i), q), z3.RealVal(0)))
    lo = real_of(Fraction(1, 10**6))
    try: r = I.call(cmd(I, 'interpret_if_block'), [Spe(), events, cmds], {})
    except PyExc:
        ctx.prove('rejected: the guards are not exhaustive', total != 1)
        return
    ev = Ev(q)
    got = mu_of(r, ev)
    if isinstance(r, Mixture):
        ctx.prove('as many weights as components', I.B.b_len(I, [r.children], {}) == I.B.b_len(I, [r.weights], {}))
        ws = as_log(r.weights.vc_logsumexp(I)).p
        ctx.prove('the weights are those of the branches', ws == total)
        ctx.assume(ws == total)
        ctx.prove('accepted: the guards are exhaustive', And(total - 1 < lo, 1 - total < lo))
    else:
        g = Family(I, Guard(b, lambda i: P(evt(i)) > 0), lambda i: i).guard.first(ctx)
        single(ctx, want, g); single(ctx, total, g)
        ctx.prove('accepted: the guards are exhaustive', And(total - 1 < lo, 1 - total < lo))
        ctx.assume(total == 1)
    ctx.prove('the probability of every query is the average over the branches', got == want)

# -- the other commands

class Opaque:
    def __init__(self, name, log): self.name, self.log = name, log
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_attr(self, I, name):
        if name in ('transform', 'condition', 'constrain'):
            def f(I, a, k):
                r = Opaque('%s.%s' % (self.name, name), self.log)
                self.log.append((self, name, list(a), r))
                return r
            return NativeF(name, f)
        return MISSING
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') == 'SPE'
    def vc_binop(self, I, op, o, r):
        a, b = (o, self) if r else (self, o)
        res = Opaque('op', self.log)
        self.log.append((a, op, [b], res))
        return res

def simple(name, method, nargs):
    def h(ctx):
        I = interp(ctx); log = []
        args = [Opaque('arg%d' % i, log) for i in range(nargs)]
        S = Opaque('S', log)
        c = I.call(cmd(I, name), args, {})
        r = guard(ctx, name, lambda: I.call(I.getattr(c, 'interpret'), [S], {}))
        ok = [e for e in log if e[3] is r]
        ctx.prove('%s of the model so far' % method, len(ok) == 1 and ok[0][0] is S and ok[0][1] == method)
        ctx.prove('with the arguments written', len(ok) == 1 and len(ok[0][2]) == nargs and all(x is y for x, y in zip(ok[0][2], args)))
    return h

def sample(first):
    def h(ctx):
        I = interp(ctx); log = []
        X, D, S = (Opaque(n, log) for n in 'XDS')
        c = I.call(cmd(I, 'Sample'), [X, D], {})
        r = guard(ctx, 'Sample', lambda: I.call(I.getattr(c, 'interpret'), [] if first else [S], {}))
        by = lambda x: next((e for e in log if e[3] is x), None)
        leaf = r
        if not first:
            e = by(r)
            ctx.prove('the product of the model so far', e is not None and e[1] is ast.BitAnd and (e[0] is S or e[2][0] is S))
            if e is None: return
            leaf = e[2][0] if e[0] is S else e[0]
        e = by(leaf)
        ctx.prove('the variable with its distribution', e is not None and e[1] is ast.RShift and e[0] is X and e[2][0] is D)
    return h

def skip(ctx):
    I = interp(ctx)
    S = Opaque('S', [])
    c = I.call(cmd(I, 'Skip'), [], {})
    ctx.prove('the model so far', guard(ctx, 'skip', lambda: I.call(I.getattr(c, 'interpret'), [S], {})) is S)
    ctx.prove('no model yet', guard(ctx, 'skip', lambda: I.call(I.getattr(c, 'interpret'), [], {})) is None)

def chain(r, S):
    """The commands run, last first, down to the model S."""
    out = []
    while isinstance(r, Done):
        out.append(r.j); r = r.model
    return out[::-1], r is S

def sequence(n, first):
    def h(ctx):
        I = interp(ctx)
        S = None if first else Opaque('S', [])
        c = I.call(cmd(I, 'Sequence'), [Cmd(i) for i in range(n)], {})
        r = guard(ctx, 'sequence', lambda: I.call(I.getattr(c, 'interpret'), [] if first else [S], {}))
        ctx.prove('every command once, in order, each on the result of the one before', chain(r, S) == (list(range(n)), True))
    return h

def loop(n0, n):
    def h(ctx):
        I = interp(ctx)
        S = Opaque('S', [])
        c = I.call(cmd(I, 'For'), [n0, n0 + n, NativeF('body', lambda I, a, k: Cmd(a[0]))], {})
        run = lambda: I.call(I.getattr(c, 'interpret'), [S], {})
        for _ in range(2):
            r = guard(ctx, 'loop', run)
            ctx.prove('the body once for each index from first to last', chain(r, S) == (list(range(n0, n0 + n)), True))
    return h

def null_all(ctx):
    """No branch of positive probability."""
    I = interp(ctx); use_contracts(I)
    w = Guards(ctx, 1)
    ctx.assume(w.prob(w.guard(0).cells) == 0)
    c = I.call(cmd(I, 'IfElse'), [w.guard(0), Cmd(0)], {})
    try: I.call(I.getattr(c, 'interpret'), [Model(w)], {})
    except PyExc: ctx.prove('rejected', True); return
    ctx.fail('a conditional with no possible branch is rejected', 'accepted')

def no_model(name, args):
    def h(ctx):
        I = interp(ctx)
        c = I.call(cmd(I, name), args(I), {})
        try: I.call(I.getattr(c, 'interpret'), [], {})
        except PyExc: ctx.prove('rejected', True); return
        ctx.fail('%s without a model is rejected' % name, 'accepted')
    return h

def tasks(prop, tier):
    if prop != 'C13': return []
    out = [Task('conditional with any number of branches', branches, weight=10, **F_),
        Task('conditional with no possible branch', null_all, **F_),
        Task('skip', skip, **F_), Task('first sample', sample(True), **F_), Task('sample', sample(False), **F_),
        Task('transform', simple('Transform', 'transform', 2), **F_),
        Task('condition', simple('Condition', 'condition', 1), **F_),
        Task('constrain', simple('Constrain', 'constrain', 1), **F_)]
    for n in ('Transform', 'Condition', 'Constrain'):
        out.append(Task('%s without a model' % n, no_model(n, lambda I, n=n: [Opaque('a', [])] * (2 if n == 'Transform' else 1)), **F_))
    out.append(Task('IfElse without a model', no_model('IfElse', lambda I: [Cells(Guards(I.ctx, 1), {1}), Cmd(0), True, Cmd(1)]), **F_))
    for k in range(1, 5 if tier == 'thorough' else 4):
        for other in (False, True):
            out.append(Task('%d guards%s' % (k, ' and otherwise' if other else ''), if_else(k, other), weight=k ** 3, bound='%d guards' % k, **F_))
    kinds = [('num',), ('str',), ('set',), ('num', 'num'), ('str', 'str'), ('set', 'set'), ('num', 'set'), ('str', 'num'), ('int',), ('int', 'num'), ('set', 'str', 'num'), ('num', 'num', 'num')]
    for ks in kinds:
        for mode in ('list', 'enumerate', 'iterator'):
            out.append(Task('switch over %s %s' % (mode, '-'.join(ks)), switch(ks, mode), weight=len(ks) ** 3, bound='%d cases' % len(ks), **F_))
    for n in range(5):
        for first in (False, True):
            out.append(Task('sequence of %d%s' % (n, ', no model' if first else ''), sequence(n, first), bound='%d commands' % n, **F_))
    for n0, n in ((0, 0), (0, 1), (0, 3), (2, 2), (-2, 4), (3, -1)):
        out.append(Task('loop of %d from %d' % (n, n0), loop(n0, n), bound='%d rounds' % n, **F_))
    return out

ASSUMPTIONS = {'C13': [
    'the contracts of logprob, condition, constrain, transform and the product and mixture of models (C07-C10, C12, C21), of &, |, ~ and << on events and sets (C01, C05) and of dnf_normalize (C06)',
    'what a subcommand does to a model is arbitrary; the branches of a conditional assign the same variables (the constructor of SumSPE rejects others, C21)',
    'the guards of a conditional are exhaustive up to the tolerance 1e-8 of numpy.allclose']}
