"""Written expressions over variables: data, meaning, and library objects.

The meaning is evaluated independently of the library, with exact rationals
where possible and 40-digit floats elsewhere.
"""
from common import *
import mpmath
mpmath.mp.dps = 40
mpf = mpmath.mpf

class Undefined(Exception): pass
class Ambiguous(Exception):
    """An intermediate value is infinite or too close to call."""

# T: ['var',x] ['num',s] ['add'|'sub'|'mul'|'div',a,b] ['pow',a,n] ['root',a,n]
#    ['neg',a] ['abs',a] ['expb',base,a] ['logb',a,base] ['pw',[[T,E]..]]
# base: 'e' or a number

def M(v):
    if isinstance(v, Fraction): return mpf(v.numerator) / mpf(v.denominator)
    return v

def iroot(n, k):
    if n < 0: return None
    r = int(round(n ** (1.0 / k)))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n: return c
    return None

def value(t, env, sets=None):
    """Exact Fraction or mpf value of t; Undefined or Ambiguous otherwise."""
    k = t[0]
    if k == 'var': return env[t[1]]
    if k == 'num': return exact(t[1])
    if k in ('add', 'sub', 'mul', 'div'):
        a, b = value(t[1], env), value(t[2], env)
        if not (isinstance(a, Fraction) and isinstance(b, Fraction)): a, b = M(a), M(b)
        if k == 'add': return a + b
        if k == 'sub': return a - b
        if k == 'mul': return a * b
        if not isinstance(b, Fraction) and abs(b) < mpf(10) ** -30: raise Ambiguous()
        if b == 0: raise Undefined()
        return a / b
    if k == 'neg': return -value(t[1], env)
    if k == 'abs': return abs(value(t[1], env))
    if k == 'pow':
        a = value(t[1], env)
        if t[2] < 0:
            if not isinstance(a, Fraction) and abs(a) < mpf(10) ** -30: raise Ambiguous()
            if a == 0: raise Undefined()
        return a ** t[2]
    if k == 'root':
        a = value(t[1], env)
        if not isinstance(a, Fraction) and abs(a) < mpf(10) ** -30: raise Ambiguous()
        n = t[2]
        inv = n < 0
        n = abs(n)
        if a < 0 or (inv and a == 0): raise Undefined()
        if isinstance(a, Fraction):
            p, q = iroot(a.numerator, n), iroot(a.denominator, n)
            if p is not None and q is not None: return 1 / Fraction(p, q) if inv else Fraction(p, q)
        r = mpmath.root(M(a), n) if a != 0 else mpf(0)
        return 1 / r if inv else r
    if k == 'expb':
        a = value(t[2], env)
        if t[1] == 'e':
            return Fraction(1) if a == 0 and isinstance(a, Fraction) else mpmath.exp(M(a))
        b = exact(t[1])
        if isinstance(a, Fraction) and a.denominator == 1 and abs(a) < 60: return b ** int(a)
        if abs(M(a)) > 1e6: raise Ambiguous()
        return mpmath.power(M(b), M(a))
    if k == 'logb':
        a = value(t[1], env)
        if not isinstance(a, Fraction) and abs(a) < mpf(10) ** -30: raise Ambiguous()
        if a == 0: raise LogZero()
        if a < 0: raise Undefined()
        if isinstance(a, Fraction):
            if a == 1: return Fraction(0)
            if t[2] != 'e':
                b = exact(t[2])
                for i in range(-12, 13):
                    if b ** i == a: return Fraction(i)
        b = mpmath.e if t[2] == 'e' else M(exact(t[2]))
        return mpmath.log(M(a)) / mpmath.log(b)
    if k == 'ind':
        # one where the event holds, zero where it does not
        try: return Fraction(1 if holds(t[1], env) else 0)
        except Undefined: raise Ambiguous()
    if k == 'pw':
        for s, e in t[1]:
            if holds(e, env): return value(s, env)
        raise Undefined()
    raise ValueError(k)

class LogZero(Undefined):
    """log(0): undefined, or minus infinity in the extended reals."""

def in_set(sp, v):
    """Membership of a value in the meaning of a set; Ambiguous if close."""
    if isinstance(v, str): return sp.fstr(v)
    if isinstance(v, Fraction): return sp.fnum(v)
    for p in sp.points:
        if p in (inf, -inf): continue
        if abs(v - M(p)) <= mpf(10) ** -15 * (1 + abs(M(p))): raise Ambiguous()
    big = mpf(2) ** 1000        # beyond all numbers in the sets
    f = Fraction(int(mpmath.floor(min(max(v, -big), big) * mpf(2) ** 100)), 2 ** 100)
    return sp.fnum(f)

# E: ['cmp',op,T,num] ['rcmp',num,op,T] ['chain',num,op,T,op,num] ['in',T,set]
#    ['inl',T,[values]] ['and'|'or'|'xor',e,e] ['not',e]

CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}

def cmp_val(v, op, b):
    b = exact(b)
    if isinstance(v, str): raise Undefined()
    if isinstance(v, Fraction) or b in (inf, -inf): return CMP[op](v, b)
    if abs(v - M(b)) <= mpf(10) ** -15 * (1 + abs(M(b))): raise Ambiguous()
    return CMP[op](v, M(b))

def val_is(v, s):
    if isinstance(v, str) or s.startswith("'"): return v == s[1:] if s.startswith("'") else False
    e = exact(s)
    if e in (inf, -inf): return False
    if isinstance(v, Fraction): return v == e
    if abs(v - M(e)) <= mpf(10) ** -15 * (1 + abs(M(e))): raise Ambiguous()
    return False

def holds(e, env):
    """Truth of an event; a literal on an undefined value raises Undefined."""
    k = e[0]
    if k == 'cmp': return cmp_val(value(e[2], env), e[1], e[3])
    if k == 'rcmp': return cmp_val(value(e[3], env), FLIP[e[2]], e[1])
    if k == 'chain':
        v = value(e[3], env)
        return cmp_val(v, FLIP[e[2]], e[1]) and cmp_val(v, e[4], e[5])
    if k == 'in': return in_set(spec(e[2]), value(e[1], env))
    if k == 'inl':
        v = value(e[1], env)
        return any(val_is(v, s) for s in e[2])
    if k == 'not': return not holds(e[1], env)
    a, b = holds(e[1], env), holds(e[2], env)
    return (a and b) if k == 'and' else (a or b) if k == 'or' else a != b

def vars_of(t):
    if isinstance(t, list):
        if len(t) == 2 and t[0] == 'var': return {t[1]}
        return set().union(set(), *[vars_of(x) for x in t])
    return set()

# -- library objects

def make(t):
    from sppl.transforms import Identity, Radical, Exponential, Logarithm, Exp, Log, Sqrt
    k = t[0]
    if k == 'var': return Identity(t[1])
    if k == 'num': return num(t[1])
    if k == 'add': return make(t[1]) + make(t[2])
    if k == 'sub': return make(t[1]) - make(t[2])
    if k == 'mul': return make(t[1]) * make(t[2])
    if k == 'div': return make(t[1]) / make(t[2])
    if k == 'neg': return -make(t[1])
    if k == 'abs': return abs(make(t[1]))
    if k == 'pow': return make(t[1]) ** t[2]
    if k == 'root':
        a = make(t[1])
        return a ** ((1, t[2]) if t[2] > 0 else (-1, -t[2])) if t[2] != 2 else Sqrt(a)
    if k == 'expb': return Exp(make(t[2])) if t[1] == 'e' else num(t[1]) ** make(t[2])
    if k == 'logb': return Log(make(t[1])) if t[2] == 'e' else Logarithm(make(t[1]), num(t[2]))
    if k == 'ind': return make_event(t[1])
    if k == 'pw':
        r = None
        for s, e in t[1]:
            b = make_event(e) * make(s) if len(str(s)) % 2 else make(s) * make_event(e)
            r = b if r is None else r + b
        return r
    raise ValueError(k)

def pynum(s): return s[1:] if s.startswith("'") else num(s)

def make_event(e):
    k = e[0]
    if k == 'cmp': return CMP[e[1]](make(e[2]), num(e[3]))
    if k == 'rcmp': return CMP[e[2]](num(e[1]), make(e[3]))
    if k == 'chain': return CMP[e[4]](CMP[e[2]](num(e[1]), make(e[3])), num(e[5]))
    if k == 'in': return make(e[1]) << build(e[2])
    if k == 'inl':
        vs = [pynum(s) for s in e[2]]
        c = [list, tuple, set, frozenset][len(vs) % 4]
        return make(e[1]) << c(vs)
    if k == 'not': return ~make_event(e[1])
    a, b = make_event(e[1]), make_event(e[2])
    return (a & b) if k == 'and' else (a | b) if k == 'or' else (a ^ b)

# -- random expressions

def rnd_coef(rng):
    r = rng.random()
    if r < .7: return str(rng.choice([-3, -2, -1, 1, 2, 3, 4]))
    if r < .85: return rng.choice(['1/2', '-1/3', '2/3', '-3/2'])
    return rng.choice(['f0.5', 'f-1.5', 'f2.0', 'f0.25'])

def rnd_step(rng, t, costly=True):
    """One more operation applied to t."""
    k = rng.choice(['affine', 'affine', 'affine', 'poly', 'recip', 'abs', 'root', 'exp', 'log'] if costly else
        ['affine', 'affine', 'recip', 'abs', 'root', 'exp', 'log'])
    if k == 'affine':
        c, d = rnd_coef(rng), rnd_coef(rng)
        r = rng.random()
        if r < .3: return ['add', ['mul', ['num', c], t], ['num', d]]
        if r < .45: return ['sub', ['num', d], t]
        if r < .6: return ['add', t, ['num', d]]
        if r < .7: return ['sub', t, ['num', d]]
        if r < .8: return ['div', t, ['num', rng.choice(['2', '-2', '3', '4'])]]
        if r < .9: return ['neg', t]
        return ['mul', t, ['num', c]]
    if k == 'poly':
        r = rng.random()
        if r < .4: return ['pow', t, 2]
        if r < .55: return ['pow', t, 3]
        if r < .75: return ['sub', ['pow', t, 2], t]
        if r < .9: return ['add', ['mul', ['num', rnd_coef(rng)], ['pow', t, 2]], ['num', rnd_coef(rng)]]
        return ['add', ['sub', ['pow', t, 3], ['mul', ['num', str(rng.choice([1, 3]))], t]], ['num', str(rng.randint(-2, 2))]]
    if k == 'recip':
        return rng.choice([['div', ['num', '1'], t], ['div', ['num', rng.choice(['2', '-3', '-1'])], t], ['pow', t, -1]])
    if k == 'abs': return ['abs', t]
    if k == 'root': return ['root', t, rng.choice([2, 2, 3])]
    if k == 'exp': return ['expb', rng.choice(['e', 'e', '2', '1/2', '3']), t]
    return ['logb', t, rng.choice(['e', 'e', '2', '10'])]

def rnd_trans(rng, depth=None, var='X'):
    t = ['var', var]
    n = rng.choice([1, 1, 2, 2, 3]) if depth is None else depth
    npoly = 0
    for _ in range(n):
        s = rnd_step(rng, t, npoly == 0)
        if 'pow' in str(s) and 'pow' not in str(t): npoly += 1
        t = s
    return t

def steps(t):
    return sum(steps(x) for x in t[1:] if isinstance(x, list)) + (t[0] not in ('var', 'num'))

def lit(rng, t):
    """A literal on the transform t."""
    r = rng.random()
    if r < .35: return ['cmp', rng.choice(list(CMP)), t, rnd_num(rng)]
    if r < .5: return ['rcmp', rnd_num(rng), rng.choice(list(CMP)), t]
    if r < .62:
        a, b = rnd_num(rng), rnd_num(rng)
        if exact(a) > exact(b): a, b = b, a
        up = rng.random() < .6
        if up: return ['chain', a, rng.choice(['<', '<=']), t, rng.choice(['<', '<=']), b]
        return ['chain', b, rng.choice(['>', '>=']), t, rng.choice(['>', '>=']), a]
    if r < .85: return ['in', t, rnd_set(rng, False)]
    return ['inl', t, list(dict.fromkeys(rnd_num(rng) for _ in range(rng.randint(1, 3))))]

def nom_lit(rng, var):
    r = rng.random()
    if r < .5: return ['in', ['var', var], ['FN', rng.sample(STRINGS, rng.randint(1, 3)), rng.random() < .35]]
    return ['inl', ['var', var], ["'" + s for s in rng.sample(STRINGS, rng.randint(1, 2))]]

def rnd_event(rng, lits, depth):
    """A Boolean combination of literals drawn from lits()."""
    if depth == 0 or rng.random() < .2: return lits()
    op = rng.choice(['and', 'or', 'and', 'or', 'not', 'xor'])
    if op == 'not': return ['not', rnd_event(rng, lits, depth - 1)]
    return [op, rnd_event(rng, lits, depth - 1), rnd_event(rng, lits, depth - 1)]

GRID = [Fraction(n, 2) for n in range(-8, 9)] + [Fraction(1, 3), Fraction(-1, 3), Fraction(-7), Fraction(11), Fraction(1, 10), Fraction(-100), Fraction(100)]

def lib_points(A):
    """Finite end points of a library set: (value, exact?)."""
    from sppl.sets import FiniteReal, Interval, Union
    if isinstance(A, Interval): vs = [A.a, A.b]
    elif isinstance(A, FiniteReal): vs = list(A.values)
    elif isinstance(A, Union): return [p for x in A.args for p in lib_points(x)]
    else: return []
    out = []
    for v in vs:
        if v in (inf, -inf) or v == sympy.oo or v == -sympy.oo: continue
        ok = isinstance(v, (int, sympy.Rational))
        if ok: out.append((Fraction(int(v)) if isinstance(v, int) else Fraction(int(v.p), int(v.q)), True))
        else: out.append((Fraction(float(v)), False))
    return out

def probes_for(A):
    pts = lib_points(A)
    out = list(GRID)
    for p, ex in pts:
        d = Fraction(1, 10 ** 6) * (1 + abs(p))
        out += [p - d, p + d]
        if ex: out.append(p)
    fin = sorted(p for p, _ in pts)
    out += [(a + b) / 2 for a, b in zip(fin, fin[1:]) if b - a > Fraction(1, 10 ** 6)]
    return list(dict.fromkeys(out))

def lib_in(x, A):
    """Membership asked of the library with an exact number."""
    return topy(x) in A

def near_inexact(x, pts):
    return any(not ex and abs(x - p) <= Fraction(1, 10 ** 9) * (1 + abs(p)) for p, ex in pts)

def solution_differs(r, truth, probes=None):
    """A point where the solved set r differs from truth(x), or None.
    truth(x): bool; may raise Undefined (counts as False) or Ambiguous."""
    pts = lib_points(r)
    for x in probes or probes_for(r):
        if near_inexact(x, pts): continue
        try:
            want = truth(x)
        except LogZero: continue
        except Undefined: want = False
        except Ambiguous: continue
        if lib_in(x, r) != want: return x, want
    return None

def missing_roots(t, p, r, var='X'):
    """A root of t = p (found by bisection) far from every point of r."""
    pts = [float(q) for q, _ in lib_points(r)]
    xs = [Fraction(n, 7) for n in range(-42, 43)]
    def f(x):
        try: return M(value(t, {var: x})) - M(p)
        except (Undefined, Ambiguous, OverflowError): return None
    prev = None
    for x in xs:
        v = f(x)
        if v is not None and prev is not None and (v < 0) != (prev[1] < 0) and abs(v - prev[1]) < 50:
            a, b = prev[0], x
            ok = True
            for _ in range(60):
                m = (a + b) / 2
                fm = f(m)
                if fm is None:
                    ok = False
                    break
                if (fm < 0) == (prev[1] < 0): a = m
                else: b = m
            if ok and abs(f(b) or 1) < mpf(10) ** -10:
                root = float(a)
                if not any(abs(root - q) < 1e-6 * (1 + abs(root)) for q in pts) and not lib_in(Fraction(root), r): return root
        prev = (x, v) if v is not None else None
    return None

def spurious_points(t, sp, r, var='X'):
    """An isolated point of the solution whose image is far from the set."""
    from sppl.sets import FiniteReal, Union
    parts = [r] if isinstance(r, FiniteReal) else [x for x in r.args if isinstance(x, FiniteReal)] if isinstance(r, Union) else []
    for f in parts:
        for v in f.values:
            if v in (inf, -inf) or v == sympy.oo or v == -sympy.oo: continue
            x = mpf(str(sympy.N(v, 40))) if not isinstance(v, (int, float)) else M(exact(v))
            try:
                y = M(value(t, {var: x}))
            except (Undefined, Ambiguous):
                continue
            near = any(abs(y - M(p)) < 1e-6 * (1 + abs(M(p))) for p in sp.points if p not in (inf, -inf))
            fy = Fraction(int(mpmath.floor(y * mpf(2) ** 60)), 2 ** 60)
            if not near and not sp.fnum(fy): return v
    return None

# Answers of the slow external solvers are remembered between cases.
def remember(f):
    table = {}
    def g(*a, **k):
        key = (tuple((type(x), str(x)) for x in a), str(sorted(k.items())))
        if key not in table:
            if len(table) > 20000: table.clear()
            table[key] = f(*a, **k)
        return table[key]
    return g
sympy.solveset = remember(sympy.solveset)
import sppl.transforms as _T
if hasattr(_T, 'function_range'): _T.function_range = remember(_T.function_range)
