"""C03, C04, C05, C06, C19, C22: transforms, events, normal forms."""
from texpr import *

def exact_set(rng):
    s = rnd_set(rng, False)
    return s

def small_sets(rng):
    """Sets that touch the special points of transforms (0, 1, infinities)."""
    r = rng.random()
    if r < .4: return rnd_set(rng, False)
    a, b = rng.choice([('0', '1'), ('0', '4'), ('-1', '0'), ('1', '2'), ('1/2', '8'), ('-4', '4'), ('-inf', '0'), ('0', 'inf'), ('1', 'inf'), ('-inf', '1'), ('-inf', 'inf'), ('2', '9')])
    if r < .8: return ['IV', a, b, rng.random() < .5 or a == '-inf', rng.random() < .5 or b == 'inf']
    return ['FR', rng.sample(['0', '1', '2', '4', '-1', '8', '1/2', 'inf', '-inf', '9'], rng.randint(1, 3))]

def check_inverse(t, S):
    try:
        tr = make(t)
    except ValueError as e:
        return None if 'Incompatible' in str(e) else 'cannot build %s: %s' % (t, e)
    sp = spec(S)
    r = tr.invert(build(S))
    d = solution_differs(r, lambda x: in_set(sp, value(t, {'X': x})))
    if d is not None:
        return 'inverse image of %s under %s is %s: wrong at %s (should%s be in it)' % (build(S), tr, r, d[0], '' if d[1] else ' not')
    v = spurious_points(t, sp, r)
    if v is not None: return 'inverse image of %s under %s is %s: %s should not be in it' % (build(S), tr, r, v)
    for p in sp.points:
        if p not in (inf, -inf) and sp.fnum(p) and not sp.fnum(p + Fraction(1, 997)) and not sp.fnum(p - Fraction(1, 997)):
            x = missing_roots(t, p, r)
            if x is not None: return 'inverse image of %s under %s is %s: the solution %s is missing' % (build(S), tr, r, x)
    return None

@suite('C03')
class SingleSteps:
    """compositions of at most 1 operation on one variable, sets with at most 6 end points"""
    name = 'transforms.inverse1'
    weight = 2.0
    @staticmethod
    def gen(rng, tier):
        ones = []
        X = ['var', 'X']
        for c in ['2', '-1', '1/2', '-3']: ones.append(['mul', ['num', c], X])
        ones += [['add', X, ['num', '1']], ['sub', ['num', '1'], X], ['div', ['num', '1'], X], ['div', ['num', '-2'], X],
            ['abs', X], ['root', X, 2], ['root', X, 3], ['expb', 'e', X], ['expb', '2', X], ['expb', '1/2', X],
            ['logb', X, 'e'], ['logb', X, '2'], ['logb', X, '10'], ['pow', X, 2], ['pow', X, 3], ['sub', ['pow', X, 2], X], ['pow', X, -1], ['pow', X, -2]]
        while True:
            rng.shuffle(ones)
            for t in ones: yield [t, small_sets(rng)]
    @staticmethod
    def check(case): return check_inverse(case[0], case[1])

@suite('C03')
class Compositions:
    """compositions of at most 4 operations on one variable"""
    name = 'transforms.inverse'
    weight = 3.0
    @staticmethod
    def gen(rng, tier):
        while True: yield [rnd_trans(rng), small_sets(rng)]
    @staticmethod
    def check(case): return check_inverse(case[0], case[1])

@suite('C03')
class Indicators:
    """arithmetic on the truth value of an event with at most 4 literals"""
    name = 'transforms.indicators'
    @staticmethod
    def gen(rng, tier):
        while True:
            X = ['var', 'X']
            e = rnd_event(rng, lambda: lit(rng, X if rng.random() < .7 else rng.choice(cheap_trans('X'))), rng.choice([1, 1, 2]))
            c = rng.choice(['2', '-1', '3'])
            t = ['mul', ['num', c], ['ind', e]]
            if rng.random() < .3: t = ['add', t, ['num', '1']]
            if rng.random() < .2: t = ['abs', t]
            yield exactify([t, rng.choice([['FR', ['0']], ['FR', [c]], ['FR', ['1']], ['FR', ['0', c]], small_sets(rng)])])
    @staticmethod
    def check(case): return check_inverse(case[0], case[1])

# ---------------------------------------------------------------------------

def rnd_arith(rng, depth):
    """A written expression; both operands of + and * may mention X."""
    X = ['var', 'X']
    if depth == 0: return X
    r = rng.random()
    a = rnd_arith(rng, depth - 1)
    if r < .35: return rnd_step(rng, a)
    c = ['num', rnd_coef(rng)]
    if r < .6:
        op = rng.choice(['add', 'sub', 'mul', 'div'])
        return [op, c, a] if rng.random() < .5 else [op, a, c]
    # two polynomials in the same subexpression
    b = rng.choice([a, ['mul', c, a], ['add', a, c], ['pow', a, 2], ['sub', c, a], ['neg', a], ['sub', ['pow', a, 3], a]])
    op = rng.choice(['add', 'sub', 'mul'])
    return [op, a, b] if rng.random() < .5 else [op, b, a]

def near(a, b):
    if isinstance(a, str) or isinstance(b, str): return a == b
    a, b = M(a), M(b)
    return abs(a - b) <= mpf(10) ** -9 * (1 + abs(b))

def lib_val(v):
    if isinstance(v, bool): return v
    if isinstance(v, (int, float)): return mpf(v) if v == v else None
    if isinstance(v, (sympy.Basic,)) or hasattr(v, 'evalf'):
        n = sympy.N(v, 40)
        if n == sympy.oo: return mpf('inf')
        if n == -sympy.oo: return mpf('-inf')
        if not n.is_real: return None
        return mpf(str(n))
    return mpf(float(v))

@suite('C04')
class Arithmetic:
    """expressions of at most 3 nested operations, evaluated at 24 points"""
    name = 'transforms.arithmetic'
    @staticmethod
    def gen(rng, tier):
        while True: yield rnd_arith(rng, rng.choice([1, 2, 2, 3]))
    @staticmethod
    def check(t):
        from sppl.transforms import Identity
        try:
            tr = make(t)
        except (ValueError, TypeError, AssertionError, NotImplementedError) as e:
            if must_work(t): return 'cannot build %s: %s: %s' % (t, type(e).__name__, e)
            return None
        for x in GRID:
            try:
                want = value(t, {'X': x})
            except (Undefined, Ambiguous): continue
            if abs(M(want)) > 1e15: continue
            try:
                got = tr.evaluate({Identity('X'): topy(x)})
            except AssertionError:
                return '%s cannot be evaluated at %s, where it is %s' % (tr, x, want)
            got = lib_val(got)
            if got is None or not near(got, want):
                return 'written %s, built %s: %s at %s instead of %s' % (t, tr, got, x, want)
        return None

@suite('C04')
class NonVariables:
    """operands that cannot be combined"""
    name = 'transforms.rejected'
    max_cases = 200
    @staticmethod
    def gen(rng, tier):
        for op in ['add', 'sub', 'mul', 'div', 'pow', 'radd', 'rmul', 'rsub', 'rdiv', 'rpow']:
            for b in ['str', 'none', 'list', 'Y', 'abs', 'Y2', 'dict']: yield [op, b]
        for op in ['rpow0', 'rpowneg', 'pow0', 'powhalf', 'log1', 'exp1', 'expneg', 'powsqrt2',
            'div0', 'mulinf', 'addinf', 'addnan']: yield [op, '']
    @staticmethod
    def check(case):
        from sppl.transforms import Identity, Logarithm, Exponential, Transform
        X, Y = Identity('X'), Identity('Y')
        b = dict(str='abc', none=None, list=[1], Y=Y, abs=abs(X), Y2=Y**2 + 1, dict={}).get(case[1])
        op = case[0]
        fs = dict(add=lambda: X + b, sub=lambda: X - b, mul=lambda: X * b, div=lambda: X / b, pow=lambda: X ** b,
            radd=lambda: b + X, rmul=lambda: b * X, rsub=lambda: b - X, rdiv=lambda: b / X, rpow=lambda: b ** X,
            rpow0=lambda: 0 ** X, rpowneg=lambda: (-2) ** X, pow0=lambda: X ** 0, powhalf=lambda: X ** sympy.Rational(2, 3),
            log1=lambda: Logarithm(X, 1), exp1=lambda: Exponential(X, 1), expneg=lambda: Exponential(X, -1),
            powsqrt2=lambda: X ** sympy.sqrt(2), div0=lambda: X / 0,
            mulinf=lambda: X * float('inf'), addinf=lambda: X + sympy.oo, addnan=lambda: float('nan') + X)
        try:
            r = fs[op]()
        except Exception:
            return None
        return 'combining operands %s gave %r instead of an error' % (case, r)

def poly_in(t):
    """(subexpression, is polynomial) of t as the library sees it."""
    k = t[0]
    if k in ('add', 'sub', 'mul', 'div', 'neg', 'pow'):
        pass
    return None

def must_work(t):
    """Expressions every one of whose operations has a number on one side, or
    combines polynomials in the same subexpression."""
    k = t[0]
    if k in ('var', 'num'): return True
    if k in ('add', 'sub', 'mul', 'div'):
        if t[1][0] == 'num' or t[2][0] == 'num':
            return must_work(t[1]) and must_work(t[2]) and not has_const(t)
        return False
    return all(must_work(x) for x in t[1:] if isinstance(x, list))

def has_const(t):
    return False

# ---------------------------------------------------------------------------

def uni_event(rng):
    ts = [['var', 'X']] + [rnd_trans(rng, 1) for _ in range(1)] + [rnd_trans(rng, 2)]
    ts = [t for t in ts if steps(t) <= 3]
    return rnd_event(rng, lambda: lit(rng, ts[0] if rng.random() < .5 else rng.choice(ts)), rng.choice([0, 1, 2, 2, 3]))

def lib_truth(ev, env):
    r = ev.evaluate(env)
    return bool(r)

@suite('C05')
class Events:
    """Boolean combinations of at most 8 literals on one numeric variable, evaluated and solved"""
    name = 'events.univariate'
    weight = 2.0
    @staticmethod
    def gen(rng, tier):
        while True: yield exactify(uni_event(rng))
    @staticmethod
    def check(e):
        from sppl.transforms import Identity
        try: ev = make_event(e)
        except ValueError as f:
            if 'Incompatible' in str(f): return None
            raise
        X = Identity('X')
        for x in GRID:
            try:
                want = holds(e, {'X': x})
            except (Undefined, Ambiguous): continue
            got = lib_truth(ev, {X: topy(x)})
            if got != want: return 'event %s is %s at X=%s, written formula is %s' % (ev, got, x, want)
        r = ev.solve()
        d = solution_differs(r, lambda x: holds_defined(e, {'X': x}))
        if d is not None: return 'event %s solved as %s: wrong at %s (should%s be in it)' % (ev, r, d[0], '' if d[1] else ' not')
        return None

def holds_defined(e, env):
    """Events are compared only where every literal is defined."""
    try:
        return holds(e, env)
    except Undefined:
        raise Ambiguous()

def multi_lits(rng, names=('X', 'Y', 'Z'), noms=('N',), depth=1):
    def f():
        r = rng.random()
        if r < .2 and noms: return nom_lit(rng, rng.choice(noms))
        v = rng.choice(names)
        t = ['var', v] if rng.random() < .7 else rng.choice(cheap_trans(v))
        return lit(rng, t)
    return f

def cheap_trans(v):
    V = ['var', v]
    return [['add', ['mul', ['num', '2'], V], ['num', '1']], ['neg', V], ['abs', V], ['expb', 'e', V], ['expb', '2', V], ['pow', V, 2], ['sub', ['num', '1'], V]]

def assignments(rng, names, noms, n):
    out = []
    for _ in range(n):
        env = {v: rng.choice(GRID) for v in names}
        env.update({v: rng.choice(STRINGS + ['zz!']) for v in noms})
        out.append(env)
    return out

def to_lib(env):
    from sppl.transforms import Identity
    return {Identity(k): (v if isinstance(v, str) else topy(v)) for k, v in env.items()}

@suite('C05')
class MultiEvents:
    """Boolean combinations of at most 8 literals on 3 numeric and 1 nominal variables"""
    name = 'events.multivariate'
    @staticmethod
    def gen(rng, tier):
        while True: yield [rnd_event(rng, multi_lits(rng), rng.choice([1, 2, 3])), rng.randint(0, 10 ** 6)]
    @staticmethod
    def check(case):
        e, seed = case
        ev = make_event(e)
        for env in assignments(random.Random(seed), ['X', 'Y', 'Z'], ['N'], 30):
            try:
                want = holds(e, env)
            except (Undefined, Ambiguous): continue
            if lib_truth(ev, to_lib(env)) != want: return 'event %s is %s at %s' % (ev, not want, env)
        return None

@suite('C05')
class Nominal:
    """events on one nominal variable, solved"""
    name = 'events.nominal'
    max_cases = 3000
    weight = .4
    @staticmethod
    def gen(rng, tier):
        while True: yield rnd_event(rng, lambda: nom_lit(rng, 'N'), rng.choice([0, 1, 2, 3]))
    @staticmethod
    def check(e):
        from sppl.transforms import Identity
        ev = make_event(e)
        r = ev.solve()
        for s in STRINGS + ['zz!']:
            want = holds(e, {'N': s})
            if lib_truth(ev, {Identity('N'): s}) != want: return 'event %s at %s should be %s' % (ev, s, want)
            if (s in r) != want: return 'event %s solved as %s: wrong at %s' % (ev, r, s)
        return None

# ---------------------------------------------------------------------------
# normal forms

@suite('C06')
class NormalForms:
    """events of at most 8 literals on 3 numeric and 1 nominal variables"""
    name = 'dnf.meaning'
    weight = 2.0
    @staticmethod
    def gen(rng, tier):
        while True:
            nums = rng.choice([['X'], ['X', 'Y'], ['X', 'Y', 'Z']])
            yield [rnd_event(rng, multi_lits(rng, nums, rng.choice([(), ('N',)])), rng.choice([1, 2, 2, 3])), rng.randint(0, 10 ** 6)]
    @staticmethod
    def check(case):
        from sppl.transforms import Identity, EventAnd, EventOr, EventBasic
        from sppl.dnf import dnf_factor, dnf_normalize
        e, seed = case
        ev = make_event(e)
        dnf = ev.to_dnf()
        if dnf_size(dnf) > 60: return None
        clauses = ev.to_dnf_list()
        syms = sorted(ev.get_symbols(), key=str)
        rng = random.Random(seed)
        factor = dnf_factor(dnf)
        lookup = {s: rng.randint(0, 1) for s in syms}
        factor2 = dnf_factor(dnf, lookup)
        norm = dnf_normalize(ev)
        names = [str(s) for s in syms]
        noms = [n for n in names if n == 'N']
        nums = [n for n in names if n != 'N']
        for c in (dnf.subexprs if isinstance(dnf, EventOr) else [dnf]):
            if not (isinstance(c, EventBasic) or isinstance(c, EventAnd) and all(isinstance(x, EventBasic) for x in c.subexprs)):
                return 'to_dnf of %s is not in disjunctive normal form' % (ev,)
        for key in [k for c in factor2 for k in c]:
            pass
        for c in factor2:
            for k, x in c.items():
                for s in x.get_symbols():
                    if lookup[s] != k: return 'clause for component %s mentions %s' % (k, s)
        for c in factor:
            for k, x in c.items():
                if set(x.get_symbols()) != {k}: return 'clause for %s mentions %s' % (k, x.get_symbols())
        for env in assignments(rng, nums, noms, 25):
            try:
                want = holds(e, env)
            except (Undefined, Ambiguous): continue
            le = to_lib(env)
            if lib_truth(dnf, le) != want: return 'to_dnf of %s differs at %s' % (ev, env)
            if any(all(lib_truth(x, le) for x in c) for c in clauses) != want: return 'to_dnf_list of %s differs at %s' % (ev, env)
            for f in (factor, factor2):
                if any(all(lib_truth(x, le) for x in c.values()) for c in f) != want: return 'dnf_factor of %s differs at %s' % (ev, env)
            if norm is None:
                if want: return '%s reported without solution, but %s satisfies it' % (ev, env)
            elif lib_truth(norm, le) != want and not near_boundary(norm, le): return 'normalised %s is %s, which differs at %s' % (ev, norm, env)
        return None

def dnf_size(ev):
    from sppl.transforms import EventOr
    return len(ev.subexprs) if isinstance(ev, EventOr) else 1

def literals(ev):
    from sppl.transforms import EventBasic
    return [ev] if isinstance(ev, EventBasic) else [x for s in ev.subexprs for x in literals(s)]

def near_boundary(ev, le):
    """Some literal is decided by an inexact end point at this assignment."""
    for l in literals(ev):
        for s in l.get_symbols():
            v = le.get(s)
            if v is None or isinstance(v, str): continue
            if near_inexact(exact(v), lib_points(l.values)): return True
    return False

@suite('C06')
class Disjoint:
    """events of at most 5 clauses on plain variables"""
    name = 'dnf.disjoint'
    weight = 2.0
    @staticmethod
    def gen(rng, tier):
        while True:
            nums = rng.choice([['X'], ['X', 'Y'], ['X', 'Y', 'Z']])
            def l():
                if rng.random() < .2: return nom_lit(rng, 'N')
                v = ['var', rng.choice(nums)]
                if rng.random() < .7:
                    while True:
                        x = lit(rng, v)
                        if x[0] != 'in': return x
                if rng.random() < .6: return ['in', v, rnd_interval(rng)]
                return lit(rng, v)
            def clause():
                c = l()
                for _ in range(rng.choice([0, 1, 1, 2])): c = ['and', c, l()]
                return c
            e = clause()
            for _ in range(rng.choice([1, 1, 2])): e = ['or', e, clause()]
            yield [e, rng.randint(0, 10 ** 6)]
    @staticmethod
    def check(case):
        from sppl.transforms import EventOr
        from sppl.dnf import dnf_normalize, dnf_to_disjoint_union, dnf_non_disjoint_clauses
        e, seed = case
        ev = make_event(e)
        norm = dnf_normalize(ev)
        rng = random.Random(seed)
        names = sorted(str(s) for s in ev.get_symbols())
        noms = [n for n in names if n == 'N']
        nums = [n for n in names if n != 'N']
        envs = assignments(rng, nums, noms, 30)
        if norm is None:
            for env in envs:
                if holds(e, env): return '%s reported without solution, but %s satisfies it' % (ev, env)
            return None
        if dnf_size(norm) > 5: return None
        over = dnf_non_disjoint_clauses(norm)
        cl = norm.subexprs if isinstance(norm, EventOr) else (norm,)
        dis = dnf_to_disjoint_union(norm)
        dcl = dis.subexprs if isinstance(dis, EventOr) else (dis,)
        for env in envs + special_points(norm, nums, noms, rng):
            want = holds(e, env)
            le = to_lib(env)
            sat = [i for i, c in enumerate(cl) if lib_truth(c, le)]
            for a, i in enumerate(sat):
                for j in sat[a + 1:]:
                    if i not in over.get(j, []): return 'clauses %s and %s of %s overlap at %s but are reported disjoint' % (i, j, norm, env)
            n = sum(lib_truth(c, le) for c in dcl)
            if n > 1: return 'clauses of the disjoint form %s overlap at %s' % (dis, env)
            if (n == 1) != want: return 'disjoint form %s of %s differs at %s' % (dis, ev, env)
        return None

def special_points(ev, nums, noms, rng):
    pts = {}
    for l in literals(ev):
        for s in l.get_symbols():
            pts.setdefault(str(s), set()).update(p for p, _ in lib_points(l.values))
    out = []
    for _ in range(25):
        env = {}
        for v in nums:
            c = sorted(pts.get(v, set()))
            env[v] = rng.choice(c) if c and rng.random() < .7 else rng.choice(GRID)
        for v in noms: env[v] = rng.choice(STRINGS + ['zz!'])
        out.append(env)
    return out

# ---------------------------------------------------------------------------
# polynomials

def rnd_poly(rng):
    r = rng.random()
    deg = rng.choice([1, 2, 2, 2, 3, 3, 4])
    if r < .45:     # from roots
        roots = [rng.choice([-3, -2, -1, 0, 1, 1, 2, 3]) for _ in range(deg)]
        c = [rng.choice([1, -1, 2])]
        for z in roots:
            d = [0] * (len(c) + 1)
            for i, a in enumerate(c):
                d[i] += -z * a
                d[i + 1] += a
            c = d
        return [str(x) for x in c]
    if r < .6:      # even powers, no or repeated real roots
        q = [rng.randint(-2, 2), rng.randint(-2, 2), 1]
        c = [0] * 5
        for i, a in enumerate(q):
            for j, b in enumerate(q): c[i + j] += a * b
        c[0] += rng.choice([0, 0, 1, -1])
        return [str(x) for x in c]
    c = [rng.randint(-4, 4) for _ in range(deg)] + [rng.choice([-2, -1, 1, 2, 3])]
    if rng.random() < .2: return ['f%s' % (x / 2) for x in c]
    return [str(x) for x in c]

@suite('C19')
class Polynomials:
    """degree at most 4, coefficients of magnitude at most 200"""
    name = 'poly.solve'
    @staticmethod
    def gen(rng, tier):
        while True:
            b = rng.choice(['0', '0', '1', '-1', '2', '1/2', 'f0.5', '-4', 'inf', '-inf', '4'])
            yield [rnd_poly(rng), b, rng.choice(['<', '<=', '=']), rng.choice(['symbolic', 'numeric', 'numeric', 'timeout'])]
    @staticmethod
    def check(case):
        import os
        from sppl import poly
        from sppl.transforms import make_sympy_polynomial
        c, b, op, mode = case
        if all(exact(x) == 0 for x in c[1:]): return None
        expr = make_sympy_polynomial([num(x) for x in c])
        bound = num(b)
        def expire(*a): raise TimeoutError('Timeout')
        saved = {k: getattr(poly, k) for k in ('solve_poly_inequality_symbolically', 'solve_poly_equality_symbolically')}
        os.environ.pop('SPPL_NO_SYMBOLIC', None)
        try:
            if mode == 'numeric': os.environ['SPPL_NO_SYMBOLIC'] = '1'
            if mode == 'timeout':
                for k in saved: setattr(poly, k, expire)
            if op == '=': r = poly.solve_poly_equality(expr, bound)
            else: r = poly.solve_poly_inequality(expr, bound, op == '<', extended=random.Random(str(case)).choice([None, False, True]))
        finally:
            os.environ.pop('SPPL_NO_SYMBOLIC', None)
            for k in saved: setattr(poly, k, saved[k])
        t = ['num', c[0]]
        for i, a in enumerate(c[1:], 1):
            t = ['add', t, ['mul', ['num', a], ['pow', ['var', 'X'], i]]]
        e = ['in', t, ['FR', [b]]] if op == '=' else ['cmp', op, t, b]
        inexact = mode != 'symbolic' or any(x.startswith('f') for x in c + [b])
        pts = lib_points(r)
        for x in probes_for(r):
            if any(abs(x - p) < Fraction(1, 10 ** 7) * (1 + abs(p)) and (inexact or not ex) for p, ex in pts): continue
            want = holds(e, {'X': x})
            if lib_in(x, r) != want:
                # a root the numeric solver is expected to miss by rounding only
                if op != '<' and want and inexact and value(t, {'X': x}) == exact(b) and \
                        any(abs(x - p) < Fraction(1, 10 ** 5) for p, _ in pts): continue
                return 'solution of p(x) %s %s, p=%s (%s): %s is wrong at %s' % (op, b, expr, mode, r, x)
        if op == '=' and b not in ('inf', '-inf'):
            x = missing_roots(t, exact(b), r)
            if x is not None: return 'solution of p(x) = %s, p=%s (%s): %s misses %s' % (b, expr, mode, r, x)
        if op in ('=', '<=') and b not in ('inf', '-inf'):
            v = spurious_points(t, spec(['FR', [b]]) if op == '=' else spec(['IV', '-inf', b, True, False]), r)
            if v is not None: return 'solution of p(x) %s %s, p=%s (%s): %s contains %s' % (op, b, expr, mode, r, v)
            # roots must be included
            for z in range(-4, 5):
                if value(t, {'X': Fraction(z)}) == exact(b) and not lib_in(Fraction(z), r) and \
                        not any(abs(z - p) < Fraction(1, 10 ** 5) for p, _ in pts):
                    return 'solution of p(x) %s %s, p=%s (%s): %s misses %s' % (op, b, expr, mode, r, z)
        if op == '<' and b not in ('inf', '-inf'):
            from sppl.sets import FiniteReal, Union
            if any(isinstance(s, FiniteReal) for s in ([r] + list(r.args) if isinstance(r, Union) else [r])):
                return 'strict inequality p(x) < %s, p=%s (%s) has isolated solutions %s' % (b, expr, mode, r)
        return None

# ---------------------------------------------------------------------------
# piecewise

def rnd_pw(rng):
    """Disjoint regions on X, with a branch for each."""
    cuts = sorted(rng.sample(range(-3, 4), rng.choice([1, 2, 3])))
    ends = ['-inf'] + [str(c) for c in cuts] + ['inf']
    out = []
    closed = None
    for a, b in zip(ends, ends[1:]):
        if rng.random() < .2 and len(ends) > 3:
            closed = None
            continue
        lo = rng.random() < .5 or a == '-inf' or closed == a
        ro = rng.random() < .5 or b == 'inf'
        closed = b if not ro else None
        e = ['in', ['var', 'X'], ['IV', a, b, lo, ro]]
        if not lo and not ro and False: pass
        br = rng.choice([['var', 'X'], rnd_trans(rng, 1), rnd_trans(rng, 1), rnd_trans(rng, 2)])
        if br[0] == 'num': br = ['var', 'X']
        out.append([br, e])
    if not out: return rnd_pw(rng)
    if rng.random() < .25 and len(out) > 1:    # a region that is a union
        s1, s2 = out[0][1], out[-1][1]
        out = [[out[0][0], ['or', s1, s2]]] + out[1:-1]
    rng.shuffle(out)
    return ['pw', out]

@suite('C22')
class PiecewiseInverse:
    """at most 4 regions, branches of at most 2 operations"""
    name = 'piecewise.inverse'
    @staticmethod
    def gen(rng, tier):
        while True: yield exactify([rnd_pw(rng), small_sets(rng), rng.random() < .25])
    @staticmethod
    def check(case):
        from sppl.transforms import Identity, Piecewise
        t, S, direct = case
        try: parts = [(make(s), make_event(e)) for s, e in t[1]]
        except ValueError as e:
            if 'Incompatible' in str(e): raise Skip()
            raise
        tr = Piecewise([s for s, _ in parts], [e for _, e in parts]) if direct else make(t)
        if len(t[1]) == 1 and not isinstance(tr, Piecewise): return 'not a Piecewise: %r' % (tr,)
        X = Identity('X')
        for x in GRID:
            try:
                want = value(t, {'X': x})
                undef = False
            except LogZero: continue
            except Undefined: undef = True
            except Ambiguous: continue
            inside = any(holds(e, {'X': x}) for _, e in t[1])
            try:
                got = tr.evaluate({X: topy(x)})
            except (ValueError, AssertionError):
                if not undef: return '%s cannot be evaluated at %s, where it is %s' % (tr, x, want)
                continue
            if undef:
                if not inside: return '%s has the value %s at %s, outside its regions' % (tr, got, x)
                continue
            g = lib_val(got)
            if abs(M(want)) < 1e15 and (g is None or not near(g, want)): return '%s is %s at %s instead of %s' % (tr, got, x, want)
            if (topy(x) in tr.domain()) is not True: return 'domain of %s lacks %s' % (tr, x)
        sp = spec(S)
        r = tr.invert(build(S))
        d = solution_differs(r, lambda x: in_set(sp, value(t, {'X': x})))
        if d is not None: return 'inverse image of %s under %s is %s: wrong at %s (should%s be in it)' % (build(S), tr, r, d[0], '' if d[1] else ' not')
        v = spurious_points(t, sp, r)
        if v is not None: return 'inverse image of %s under %s is %s: %s should not be in it' % (build(S), tr, r, v)
        return None

@suite('C22')
class PiecewiseRejected:
    """two or three regions"""
    name = 'piecewise.rejected'
    max_cases = 400
    weight = .3
    @staticmethod
    def gen(rng, tier):
        while True:
            n = rng.choice([2, 2, 3])
            yield [[rnd_set(rng, False) for _ in range(n)], rng.choice(['X', 'X', 'X', 'Y']), rng.choice([0, 1])]
    @staticmethod
    def check(case):
        from sppl.transforms import Identity, Piecewise
        sets, var, style = case
        X, V = Identity('X'), Identity(var)
        sps = [spec(s) for s in sets]
        pts = set().union(*[s.points for s in sps])
        over = any(sps[i].fnum(x) and sps[j].fnum(x) for i in range(len(sps)) for j in range(i) for x in probe_points(pts))
        bad = over or var != 'X'
        bs = [X, 2 * X, X ** 2][:len(sets)]
        try:
            if style == 0: r = Piecewise(bs, [(X if i else V) << build(s) for i, s in enumerate(sets)])
            else:
                r = None
                for i, (b, s) in enumerate(zip(bs, sets)):
                    p = b * ((X if i else V) << build(s))
                    r = p if r is None else r + p
        except ValueError:
            return None if bad else 'disjoint regions %s were rejected' % (sets,)
        except TypeError: return None
        if bad: return 'regions %s on %s were accepted' % (sets, var)
        return None
