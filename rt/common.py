"""Runtime side: executes the real code of /repo (PyPy environment).

A suite is a pair: gen(rng, tier) yields JSON cases, check(case) returns None
or a message saying how the real code violated the contract on that case.
"""
import itertools
import math
import random
import re
from fractions import Fraction

import sympy

inf = float('inf')
SUITES = {}

def suite(prop):
    def deco(cls):
        SUITES.setdefault(prop, []).append(cls)
        return cls
    return deco

class Fail(Exception):
    pass

class Skip(Exception):
    """The case says nothing: not expressible, or out of reach of the oracle."""

def exactify(case):
    """Floats become fractions in cases with functions whose values are
    irrational: there an equality of floats is a matter of rounding."""
    def has(c): return any(has(x) for x in c) if isinstance(c, list) else c in ('expb', 'logb', 'root')
    def fix(c):
        if isinstance(c, list): return [fix(x) for x in c]
        if isinstance(c, str) and re.match(r'f-?[0-9]', c): return str(Fraction(float(c[1:])))
        return c
    return fix(case) if has(case) else case

def require(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)

# -- numbers: "3", "1/3" (exact), "f0.5" (float), "inf", "-inf"

def num(s):
    if isinstance(s, (int, float)): return s
    if s in ('inf', '-inf'): return float(s)
    if s.startswith('f'): return float(s[1:])
    if '/' in s:
        p, q = s.split('/')
        return sympy.Rational(int(p), int(q))
    if '.' in s or 'e' in s: return float(s)
    return int(s)

def exact(s):
    """Exact value: Fraction or +-inf."""
    if isinstance(s, (int, float)):
        return s if s in (inf, -inf) else Fraction(s)
    if isinstance(s, Fraction): return s
    if isinstance(s, str):
        if s in ('inf', '-inf'): return float(s)
        if s.startswith('f'): return Fraction(float(s[1:]))
        if '/' not in s and ('.' in s or 'e' in s): return Fraction(float(s))
        return Fraction(s)
    if isinstance(s, sympy.Rational): return Fraction(int(s.p), int(s.q))
    if s == sympy.oo: return inf
    if s == -sympy.oo: return -inf
    if isinstance(s, sympy.Float): return Fraction(float(s))
    return Fraction(float(s))

def rnd_num(rng, infs=0.0):
    if rng.random() < infs: return rng.choice(['inf', '-inf'])
    r = rng.random()
    if r < .6: return str(rng.randint(-3, 4))
    if r < .8: return 'f%s' % (rng.choice([-2.5, -1.5, -.5, .5, 1.5, 2.25, 1.0, 2.0, -1.0]),)
    return '%d/%d' % (rng.choice([-5, -2, -1, 1, 2, 4, 7]), rng.choice([3, 7, 2]))

STRINGS = ['a', 'b', 'c']

# -- sets as data: ['E'] ['IV',a,b,lo,ro] ['FR',[..]] ['FN',[..],b] ['UN',[..]]

def build(d):
    from sppl.sets import EmptySet, FiniteNominal, FiniteReal, Interval, Union
    k = d[0]
    if k == 'E': return EmptySet
    if k == 'IV': return Interval(num(d[1]), num(d[2]), left_open=d[3], right_open=d[4])
    if k == 'FR': return FiniteReal(*[num(x) for x in d[1]])
    if k == 'FN': return FiniteNominal(*d[1], b=d[2])
    if k == 'UN': return Union(*[build(x) for x in d[1]])
    raise ValueError(k)

class Spec:
    """A set by its meaning: a numeric and a string predicate."""
    def __init__(self, fnum, fstr, points, strings):
        self.fnum, self.fstr = fnum, fstr
        self.points, self.strings = points, strings
    def probes(self):
        return probe_points(self.points)
    def has(self, x):
        return self.fstr(x) if isinstance(x, str) else self.fnum(x)
    def numeric(self):
        return not any(self.fstr(s) for s in list(self.strings) + ['zz!'])
    def nominal(self):
        return not any(self.fnum(x) for x in self.probes())
    def empty(self):
        return self.numeric() and self.nominal()

def probe_points(points):
    fin = sorted(set(p for p in points if p not in (inf, -inf)))
    out = [-inf, inf]
    if not fin: out.append(Fraction(0))
    else:
        out += [fin[0] - 1, fin[-1] + 1]
        for a, b in zip(fin, fin[1:]): out.append((a + b) / 2)
        out += fin
    return out

def spec(d):
    k = d[0]
    no = lambda x: False
    if k == 'E': return Spec(no, no, set(), set())
    if k == 'IV':
        a, b, lo, ro = exact(d[1]), exact(d[2]), d[3] or d[1] == '-inf', d[4] or d[2] == 'inf'
        return Spec(lambda x: (a < x or (a == x and not lo)) and (x < b or (x == b and not ro)), no, {a, b}, set())
    if k == 'FR':
        vs = [exact(x) for x in d[1]]
        return Spec(lambda x: x in vs, no, set(vs), set())
    if k == 'FN':
        vs, b = list(d[1]), d[2]
        return Spec(no, (lambda s: s not in vs) if b else (lambda s: s in vs), set(), set(vs))
    if k == 'UN':
        return s_or([spec(x) for x in d[1]])
    raise ValueError(k)

def s_or(ss):
    return Spec(lambda x: any(s.fnum(x) for s in ss), lambda x: any(s.fstr(x) for s in ss),
        set().union(*[s.points for s in ss]), set().union(*[s.strings for s in ss]))
def s_and(ss):
    return Spec(lambda x: all(s.fnum(x) for s in ss), lambda x: all(s.fstr(x) for s in ss),
        set().union(*[s.points for s in ss]), set().union(*[s.strings for s in ss]))
def s_not(s):
    if s.numeric() and s.nominal():
        # ~EmptySet is the real line by convention
        return Spec(lambda x: x not in (inf, -inf), lambda x: False, s.points, s.strings)
    if s.numeric(): return Spec(lambda x: x not in (inf, -inf) and not s.fnum(x), lambda x: False, s.points, s.strings)
    if s.nominal(): return Spec(lambda x: False, lambda x: not s.fstr(x), s.points, s.strings)
    return None

def topy(x):
    """An exact value as a number of the library."""
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else sympy.Rational(x.numerator, x.denominator)
    return x

def rnd_interval(rng):
    while True:
        a, b = rnd_num(rng), rnd_num(rng)
        r = rng.random()
        if r < .12: a = '-inf'
        elif r < .24: b = 'inf'
        elif r < .28: a, b = '-inf', 'inf'
        if exact(a) < exact(b):
            return ['IV', a, b, rng.random() < .5 or a == '-inf', rng.random() < .5 or b == 'inf']

def rnd_atom(rng, nominal=True):
    r = rng.random()
    if r < .45: return rnd_interval(rng)
    if r < .75 or not nominal:
        seen, out = set(), []
        for _ in range(rng.randint(1, 3)):
            x = rnd_num(rng, .12)
            if exact(x) not in seen:
                seen.add(exact(x)); out.append(x)
        return ['FR', out]
    if r < .95:
        b = rng.random() < .4
        return ['FN', rng.sample(STRINGS, rng.randint(0 if b else 1, 3)), b]
    return ['E']

def rnd_disjoint(rng, nominal=True):
    """A union of pairwise disjoint pieces, as data."""
    pts = sorted(rng.sample(range(-6, 7), rng.randint(2, 6)))
    ps, atoms = [], []
    if rng.random() < .25: pts = ['-inf'] + pts
    if rng.random() < .25: pts = pts + ['inf']
    prev_closed = None
    i = 0
    while i + 1 < len(pts):
        a, b = pts[i], pts[i + 1]
        if rng.random() < .55:
            lo = rng.random() < .5 or a == '-inf' or prev_closed == a
            ro = rng.random() < .5 or b == 'inf'
            ps.append(['IV', str(a), str(b), lo, ro])
            prev_closed = b if not ro else None
            if lo and a != '-inf' and prev_closed != a and rng.random() < .2 and \
                    not any(p[0] == 'IV' and p[2] == str(a) and not p[4] for p in ps):
                atoms.append(str(a))
        elif rng.random() < .4 and a != '-inf' and prev_closed != a:
            if not any(p[2] == str(a) and not p[4] for p in ps): atoms.append(str(a))
        i += 1
    if rng.random() < .15 and 'inf' not in atoms: atoms.append(rng.choice(['inf', '-inf']))
    atoms = list(dict.fromkeys(atoms))
    sp = [spec(p) for p in ps]
    atoms = [x for x in atoms if not any(s.fnum(exact(x)) for s in sp)]
    out = list(ps)
    if atoms: out.append(['FR', atoms])
    if nominal and rng.random() < .35:
        b = rng.random() < .4
        out.append(['FN', rng.sample(STRINGS, rng.randint(0 if b else 1, 3)), b])
    rng.shuffle(out)
    if not out: return rnd_atom(rng, nominal)
    return out[0] if len(out) == 1 else ['UN', out]

def rnd_set(rng, nominal=True):
    return rnd_atom(rng, nominal) if rng.random() < .5 else rnd_disjoint(rng, nominal)

def same_sets(A, sp, extra=()):
    """None, or a point where the library's set differs from its meaning."""
    pts = probe_points(set(sp.points) | set(extra) | set_points(A))
    for x in pts:
        if (topy(x) in A) != sp.fnum(x): return x
    for s in sorted(set(sp.strings) | {'a', 'zz!'}):
        if (s in A) != sp.fstr(s): return s
    return None

def set_points(A):
    from sppl.sets import FiniteReal, Interval, Union
    if isinstance(A, Interval): return {exact(A.a), exact(A.b)}
    if isinstance(A, FiniteReal): return {exact(v) for v in A.values}
    if isinstance(A, Union): return set().union(*[set_points(v) for v in A.args])
    return set()

def well_formed(A, probes, strings):
    """Class invariants of a result, checked directly."""
    from sppl.sets import EmptySet, EmptySetC, FiniteNominal, FiniteReal, Interval, Union
    if isinstance(A, EmptySetC):
        require(A is EmptySet, 'a second empty set object')
        return
    if isinstance(A, Interval):
        require(exact(A.a) < exact(A.b), 'interval %s has a >= b', A)
        require(A.left == A.a and A.right == A.b, 'left/right differ from a/b in %s', A)
        require(exact(A.a) != -inf or A.left_open, '%s contains -inf', A)
        require(exact(A.b) != inf or A.right_open, '%s contains inf', A)
    elif isinstance(A, FiniteReal): require(len(A.values) > 0, 'empty FiniteReal')
    elif isinstance(A, FiniteNominal): require(A.b or len(A.values) > 0, 'empty FiniteNominal')
    elif isinstance(A, Union):
        ps = list(A)
        require(len(ps) >= 2, 'union of %d pieces: %s', len(ps), A)
        require(len(list(A.args)) == len(ps) and all(any(p is q or p == q for q in A.args) for p in ps), 'args differ from pieces: %s', A)
        require(len(A.values) == len(ps) and all(p in ps for p in A.values), 'values differ from pieces: %s', A)
        for c in (FiniteReal, FiniteNominal):
            require(sum(isinstance(p, c) for p in ps) <= 1, 'two finite pieces: %s', A)
        for p in ps:
            require(isinstance(p, (FiniteReal, FiniteNominal, Interval)), 'piece %r', p)
            well_formed(p, probes, strings)
        for x in [topy(x) for x in probes] + list(strings):
            n = sum(x in p for p in ps)
            require(n <= 1, 'pieces of %s overlap at %s', A, x)
            require((x in A) == (n == 1), 'pieces of %s do not cover it at %s', A, x)
    else:
        require(False, 'unknown set %r', A)
