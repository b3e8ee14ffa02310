"""C01, C02: outcome sets."""
from common import *

OPS = ['and', 'or', 'not']

def rnd_expr(rng, depth):
    if depth == 0 or rng.random() < .2: return rnd_set(rng)
    op = rng.choice(['and', 'or', 'or', 'and', 'not'])
    if op == 'not': return ['not', rnd_expr(rng, depth - 1)]
    return [op, rnd_expr(rng, depth - 1), rnd_expr(rng, depth - 1)]

def evaluate(e, log):
    """(library set, meaning) of an expression; every result is logged."""
    if e[0] in ('and', 'or'):
        a, sa = evaluate(e[1], log)
        b, sb = evaluate(e[2], log)
        if sa is None or sb is None: return None, None
        r = (a & b) if e[0] == 'and' else (a | b)
        s = (s_and if e[0] == 'and' else s_or)([sa, sb])
        log.append((e[0], r, s))
        return r, s
    if e[0] == 'not':
        a, sa = evaluate(e[1], log)
        if sa is None: return None, None
        s = s_not(sa)
        if s is None: return None, None
        r = ~a
        log.append(('not', r, s))
        return r, s
    r, s = build(e), spec(e)
    log.append(('set', r, s))
    return r, s

def pair_gen(rng, tier):
    """Every pair of a family of small sets, then random expressions."""
    pts = ['0', '1', '2']
    ivs = [['IV', a, b, lo, ro] for a in ['-inf'] + pts for b in pts + ['inf'] if exact(a) < exact(b)
        for lo in (False, True) for ro in (False, True) if (lo or a != '-inf') and (ro or b != 'inf')]
    frs = [['FR', list(c)] for n in (1, 2, 3) for c in itertools.combinations(['0', '1', '2', 'inf', '-inf'], n)]
    fns = [['FN', [], True], ['FN', ['a'], True], ['FN', ['a'], False], ['FN', ['a', 'b'], False]]
    base = ivs + frs + fns + [['E']]
    for x in base: yield ['not', x]
    pairs = [(x, y) for x in base for y in base]
    rng.shuffle(pairs)
    head, tail = pairs[:1200], pairs[1200:]
    for x, y in head:
        yield [rng.choice(['and', 'or']), x, y]
    while True:
        for _ in range(20): yield rnd_expr(rng, rng.randint(1, 4))
        if tail:
            for x, y in tail[:5]:
                yield ['and', x, y]
                yield ['or', x, y]
            del tail[:5]

@suite('C01')
class Operators:
    name = 'sets.operators'
    @staticmethod
    def gen(rng, tier): return pair_gen(rng, tier)
    @staticmethod
    def check(case):
        log = []
        try:
            evaluate(case, log)
        except RecursionError: raise
        except Exception as e:
            return 'an operator failed: %s: %s' % (type(e).__name__, e)
        for op, r, s in log:
            x = same_sets(r, s)
            if x is not None:
                return '%s: result %s is wrong at %s' % (op, r, x)
        return None

@suite('C02')
class WellFormed:
    name = 'sets.wellformed'
    @staticmethod
    def gen(rng, tier): return pair_gen(rng, tier)
    @staticmethod
    def check(case):
        from sppl.sets import EmptySet
        log = []
        try:
            evaluate(case, log)
        except Exception as e:
            return 'an operator failed: %s: %s' % (type(e).__name__, e)
        for op, r, s in log:
            probes = probe_points(s.points | set_points(r))
            strings = sorted(s.strings | {'zz!'})
            try:
                well_formed(r, probes, strings)
                empty = not any(topy(x) in r for x in probes) and not any(t in r for t in strings)
                require(empty == (r is EmptySet), '%s is%s empty', r, '' if empty else ' not')
            except Fail as f:
                return '%s: %s' % (op, f)
        for (_, a, sa), (_, b, sb) in itertools.combinations(log, 2):
            if a == b:
                if hash(a) != hash(b): return 'equal sets %s, %s have different hashes' % (a, b)
                x = same_sets(a, sb)
                if x is not None: return 'equal sets %s, %s differ at %s' % (a, b, x)
                if not (b == a): return 'equality of %s, %s is not symmetric' % (a, b)
        return None

def retype(d, rng):
    """The same set written with other number types."""
    def f(s):
        if s in ('inf', '-inf'): return s
        v = exact(s)
        c = ['f%s' % float(v)] if Fraction(float(v)) == v else []
        c.append('%d/%d' % (v.numerator, v.denominator))
        if v.denominator == 1: c.append(str(v.numerator))
        return rng.choice(c)
    if d[0] == 'IV': return ['IV', f(d[1]), f(d[2]), d[3], d[4]]
    if d[0] == 'FR':
        xs = [f(x) for x in d[1]]
        rng.shuffle(xs)
        return ['FR', xs]
    if d[0] == 'UN':
        xs = [retype(x, rng) for x in d[1]]
        rng.shuffle(xs)
        return ['UN', xs]
    return d

@suite('C02')
class EqualHash:
    name = 'sets.equality'
    @staticmethod
    def gen(rng, tier):
        while True:
            a = rnd_set(rng)
            yield [a, retype(a, rng) if rng.random() < .6 else rnd_set(rng)]
    @staticmethod
    def check(case):
        a, b = build(case[0]), build(case[1])
        if (a == b) != (b == a): return 'equality of %s, %s is not symmetric' % (a, b)
        if a == b:
            if hash(a) != hash(b): return 'equal sets %r, %r have different hashes' % (a, b)
            x = same_sets(a, spec(case[1]))
            if x is not None: return 'equal sets %s, %s differ at %s' % (a, b, x)
        return None
