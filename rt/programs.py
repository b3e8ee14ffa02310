"""Programs as data, the distribution they denote, and their texts.

commands: ['sample',v,DX] ['def',v,T] ['cond',E] ['skip']
  ['if',[[E or None,[cmds]]..]]  ['ifexp',v,[[E or None,DX or T]..]]
  ['for',i,n0,n1,[cmds]]  ['switch',v,names,values,[cmds]]
DX: D whose parameters may be Python expressions of loop variables, or
  ['mix',[[w,D]..]];  v: 'X' or 'A[expr]';  values: strings, numbers, sets
"""
from models import *

class NotExhaustive(Exception): pass
class NullCondition(Exception): pass

def ev(x, env):
    """A parameter: a number, or an expression over the loop variables."""
    if isinstance(x, str) and not plain(x): return eval(x, {}, dict(env))
    return x

def plain(s):
    try:
        exact(s)
        return True
    except Exception:
        return False

def res_name(v, env):
    if '[' not in v: return v
    a, i = v[:-1].split('[')
    return '%s[%d]' % (a, eval(i, {}, dict(env)))

def res_dist(d, env):
    if d[0] == 'mix': return ['mix', [[w, res_dist(x, env)] for w, x in d[1]]]
    if d[0] == 'nom': return ['nom', {k: wt(ev(w, env)) for k, w in d[1].items()}]
    if d[0] in ('disc',): return d
    out = [d[0]] + [ev(x, env) for x in d[1:]]
    if d[0] == 'atom': out = ['randint', int(out[1]), int(out[1]) + 1]
    return out

def wt(w): return w if isinstance(w, str) else str(Fraction(w)) if isinstance(w, int) else 'f%r' % w

def res(t, env):
    """Names resolved in a transform or an event."""
    if isinstance(t, list):
        if len(t) == 2 and t[0] == 'var': return ['var', res_name(t[1], env)]
        return [res(x, env) for x in t]
    return t

def value_set(v):
    """The set a case value stands for."""
    if isinstance(v, list): return v
    if isinstance(v, str) and not plain(v): return ['FN', [v], False]
    return ['FR', [str(v)]]

def denote_program(cmds, comps=None, env={}):
    if comps is None: comps = [Comp(1.0, {}, {}, None)]
    for c in cmds:
        comps = denote_command(c, comps, env)
        if len(comps) > 200: raise Skip()
    return comps

def denote_command(c, comps, env):
    k = c[0]
    if k == 'skip': return comps
    if k == 'sample':
        v, d = res_name(c[1], env), res_dist(c[2], env)
        if d[0] == 'mix': return [Comp(x.w * float(exact(w)), dict(x.bases, **{v: y}), x.defs, x.given) for x in comps for w, y in d[1]]
        return [Comp(x.w, dict(x.bases, **{v: d}), x.defs, x.given) for x in comps]
    if k == 'def':
        v = res_name(c[1], env)
        return [Comp(x.w, x.bases, dict(x.defs, **{v: res(c[2], env)}), x.given) for x in comps]
    if k == 'cond':
        r = conditioned(comps, res(c[1], env))
        if not r: raise NullCondition()
        return r
    if k == 'if': return branches(comps, [(res(e, env) if e else None, lambda s, b=b: denote_program(b, s, env)) for e, b in c[1]])
    if k == 'ifexp':
        return branches(comps, [(res(e, env) if e else None,
            lambda s, x=x: denote_command(['sample' if is_dist(x) else 'def', c[1], x], s, env)) for e, x in c[2]])
    if k == 'for':
        for i in range(ev(c[2], env), ev(c[3], env)): comps = denote_program(c[4], comps, dict(env, **{c[1]: i}))
        return comps
    if k == 'switch':
        v = res_name(c[1], env)
        bs = []
        for j, x in enumerate(c[3]):
            e = dict(env, **bind(c[2], j, x))
            bs.append((['in', ['var', v], value_set(x)], lambda s, e=e: denote_program(c[4], s, e)))
        return branches(comps, bs)
    raise ValueError(k)

class Bin:
    def __init__(self, d):
        self.left, self.right = float(exact(d[1])), float(exact(d[2]))

def bind(names, j, x):
    y = Bin(x) if isinstance(x, list) else x if isinstance(x, str) and not plain(x) else num(str(x))
    return {names[0]: y} if len(names) == 1 else {names[0]: j, names[1]: y}

def is_dist(x): return x[0] in CONT or x[0] in ('nom', 'disc', 'randint', 'bern', 'binom', 'pois', 'geom', 'atom', 'mix')

def branches(comps, bs):
    out, before, tot = [], None, 0.0
    for e, f in bs:
        g = e
        if before is not None: g = ['not', before] if e is None else ['and', e, ['not', before]]
        if e is not None: before = e if before is None else ['or', before, e]
        p = robust_prob(comps, g)
        tot += p
        if p == 0: continue
        if p < 1e-4: raise Skip()
        out += [Comp(p * x.w, x.bases, x.defs, x.given) for x in f(conditioned(comps, g))]
    if abs(tot - 1) > 1e-6:
        if abs(tot - 1) < 1e-4: raise Skip()
        raise NotExhaustive()
    return out

# -- as commands

def to_command(cmds, env={}):
    from sppl.compilers.ast_to_spe import Sequence
    cs = [command(c, env) for c in cmds]
    return cs[0] if len(cs) == 1 else Sequence(*cs)

def dist_obj(d, env):
    if d[0] == 'mix':
        r = None
        for w, x in d[1]:
            p = num(w) * dist_obj(x, env)
            r = p if r is None else r | p
        return r
    return lib_dist(res_dist(d, env))

def command(c, env):
    from sppl.compilers import ast_to_spe as A
    from sppl.transforms import Id
    k = c[0]
    if k == 'skip': return A.Skip()
    if k == 'sample': return A.Sample(Id(res_name(c[1], env)), dist_obj(c[2], env))
    if k == 'def': return A.Transform(Id(res_name(c[1], env)), make(res(c[2], env)))
    if k == 'cond': return A.Condition(make_event(res(c[1], env)))
    if k == 'if': return A.IfElse(*[y for e, b in c[1] for y in (make_event(res(e, env)) if e else True, to_command(b, env))])
    if k == 'ifexp':
        return A.IfElse(*[y for e, x in c[2] for y in (make_event(res(e, env)) if e else True,
            command(['sample' if is_dist(x) else 'def', c[1], x], env))])
    if k == 'for': return A.For(ev(c[2], env), ev(c[3], env), lambda i: to_command(c[4], dict(env, **{c[1]: i})))
    if k == 'switch':
        vals = [build(x) if isinstance(x, list) else x if isinstance(x, str) and not plain(x) else num(str(x)) for x in c[3]]
        f = lambda *a: to_command(c[4], dict(env, **dict(zip(c[2], a))))
        return A.Switch(Id(res_name(c[1], env)), enumerate(vals) if len(c[2]) == 2 else vals, f)
    raise ValueError(k)

# -- as text

class Printer:
    def __init__(self, style=0):
        self.lines, self.style, self.n = [], style, 0
    def alt(self, k):
        """A choice among k renderings, fixed by the style."""
        self.n += 1
        return (self.style // 7 + self.n * 5 + self.style * self.n) % k
    def num(self, s):
        if s in ('inf', '-inf'): return 'inf' if s == 'inf' else '-inf'
        x = num(s)
        return '(%s)' % x if str(x).startswith('-') else str(x)
    def par(self, x):
        return repr(x) if not isinstance(x, str) or plain(x) and not x.lstrip('-').isdigit() and False else str(x) if not plain(x) else self.num(x)
    def dist(self, d):
        n = d[0]
        if n == 'mix': return ' | '.join('%s*%s' % (self.num(w), self.dist(x)) for w, x in d[1])
        P = lambda i: self.par(d[i])
        if n == 'norm': return '%s(loc=%s, scale=%s)' % (['norm', 'normal'][self.alt(2)] if False else 'norm', P(1), P(2))
        if n == 'laplace': return 'laplace(loc=%s, scale=%s)' % (P(1), P(2))
        if n == 'unif': return 'uniform(loc=%s, scale=%s)' % (P(1), P(2))
        if n == 'expon': return 'expon(loc=%s, scale=%s)' % (P(1), P(2))
        if n == 'gamma': return 'gamma(a=%s, scale=%s)' % (P(1), P(2))
        if n == 'beta': return 'beta(a=%s, b=%s)' % (P(1), P(2))
        if n == 'randint': return 'randint(low=%s, high=%s)' % (P(1), P(2))
        if n == 'bern': return 'bernoulli(p=%s)' % P(1)
        if n == 'binom': return 'binom(n=%s, p=%s)' % (P(1), P(2))
        if n == 'pois': return 'poisson(mu=%s, loc=%s)' % (P(1), P(2))
        if n == 'geom': return 'geom(p=%s)' % P(1)
        if n == 'atom': return 'atomic(loc=%s)' % P(1)
        if n == 'nom': return 'choice({%s})' % ', '.join('%r: %s' % (k, self.num(w) if plain(w) else w) for k, w in d[1].items())
        if n == 'disc': return 'discrete({%s})' % ', '.join('%s: %s' % (k, self.num(w)) for k, w in d[1].items())
        raise ValueError(n)
    def trans(self, t):
        k = t[0]
        if k == 'var': return t[1]
        if k == 'num': return self.num(t[1])
        if k in ('add', 'sub', 'mul', 'div'): return '(%s %s %s)' % (self.trans(t[1]), dict(add='+', sub='-', mul='*', div='/')[k], self.trans(t[2]))
        if k == 'neg': return '(-%s)' % self.trans(t[1])
        if k == 'abs': return 'abs(%s)' % self.trans(t[1])
        if k == 'pow': return '(%s**%d)' % (self.trans(t[1]), t[2])
        if k == 'root': return 'Sqrt(%s)' % self.trans(t[1]) if t[2] == 2 else '(%s**(1, %d))' % (self.trans(t[1]), t[2])
        if k == 'expb': return 'Exp(%s)' % self.trans(t[2]) if t[1] == 'e' else '(%s**%s)' % (self.num(t[1]), self.trans(t[2]))
        if k == 'logb': return 'Log(%s)' % self.trans(t[1])
        raise ValueError(k)
    def set_(self, d):
        if d[0] == 'IV': return 'Interval(%s, %s, left_open=%s, right_open=%s)' % (self.num(d[1]), self.num(d[2]), d[3], d[4])
        if d[0] == 'FR': return 'FiniteReal(%s)' % ', '.join(map(self.num, d[1]))
        if d[0] == 'FN': return 'FiniteNominal(%s)' % ', '.join([repr(x) for x in d[1]] + ['b=%s' % d[2]])
        if d[0] == 'UN': return 'Union(%s)' % ', '.join(map(self.set_, d[1]))
        raise ValueError(d[0])
    def lit_val(self, s): return repr(s[1:]) if s.startswith("'") else self.num(s)
    def event(self, e):
        k = e[0]
        if k == 'cmp': return '(%s %s %s)' % (self.trans(e[2]), e[1], self.num(e[3]))
        if k == 'rcmp': return '(%s %s %s)' % (self.num(e[1]), e[2], self.trans(e[3]))
        if k == 'chain':
            if self.alt(2): return '(%s %s %s %s %s)' % (self.num(e[1]), e[2], self.trans(e[3]), e[4], self.num(e[5]))
            return '((%s %s %s) %s %s)' % (self.num(e[1]), e[2], self.trans(e[3]), e[4], self.num(e[5]))
        if k == 'in':
            if self.alt(2): return '(%s << %s)' % (self.trans(e[1]), self.set_(e[2]))
            return '(%s in %s)' % (self.trans(e[1]), self.set_(e[2]))
        if k == 'inl':
            vs = [self.lit_val(s) for s in e[2]]
            if len(vs) == 1 and self.alt(2): return '(%s == %s)' % (self.trans(e[1]), vs[0])
            a = self.alt(3)
            if a == 0: return '(%s in {%s})' % (self.trans(e[1]), ', '.join(vs))
            if a == 1: return '(%s in [%s])' % (self.trans(e[1]), ', '.join(vs))
            return '(%s << {%s})' % (self.trans(e[1]), ', '.join(vs))
        if k == 'not':
            x = e[1]
            if x[0] == 'inl' and self.alt(3):
                vs = [self.lit_val(s) for s in x[2]]
                if len(vs) == 1: return '(%s != %s)' % (self.trans(x[1]), vs[0])
                return '(%s not in {%s})' % (self.trans(x[1]), ', '.join(vs))
            return '(not %s)' % self.event(x) if self.alt(2) else '(~%s)' % self.event(x)
        a, b = self.event(e[1]), self.event(e[2])
        if k == 'xor': return '(%s ^ %s)' % (a, b)
        s = self.alt(2)
        return '(%s %s %s)' % (a, dict(**{'and': ['and', '&'][s], 'or': ['or', '|'][s]})[k], b)
    def out(self, ind, s): self.lines.append('    ' * ind + s)
    def block(self, cmds, ind):
        if not cmds: self.out(ind, 'pass')
        for c in cmds: self.cmd(c, ind)
    def cmd(self, c, ind):
        k = c[0]
        if self.alt(9) == 0: self.out(ind, '# a comment')
        if self.alt(11) == 0: self.lines.append('')
        if k == 'skip': self.out(ind, 'pass')
        elif k == 'sample': self.out(ind, '%s ~= %s' % (c[1], self.dist(c[2])))
        elif k == 'def': self.out(ind, '%s %s %s' % (c[1], ['~=', '='][self.alt(2)], self.trans(c[2])))
        elif k == 'cond': self.out(ind, 'condition(%s)' % self.event(c[1]))
        elif k == 'if':
            for j, (e, b) in enumerate(c[1]):
                if e is None: self.out(ind, 'else:')
                else: self.out(ind, '%s %s:' % ('if' if j == 0 else 'elif', self.event(e)))
                self.block(b, ind + 1)
        elif k == 'ifexp':
            s = ''
            for e, x in c[2]:
                y = self.dist(x) if is_dist(x) else self.trans(x)
                s += '(%s)' % y if e is None else '(%s) if %s else ' % (y, self.event(e))
            self.out(ind, '%s ~= %s' % (c[1], s))
        elif k == 'for':
            r = '%s' % (c[3],) if c[2] == 0 and self.alt(2) else '%s, %s' % (c[2], c[3])
            self.out(ind, 'for %s in range(%s):' % (c[1], r))
            self.block(c[4], ind + 1)
        elif k == 'switch':
            vs = '[%s]' % ', '.join(self.set_(x) if isinstance(x, list) else repr(x) if isinstance(x, str) and not plain(x) else self.num(str(x)) for x in c[3])
            if len(c[2]) == 2: vs = 'enumerate(%s)' % vs
            self.out(ind, 'switch (%s) cases (%s in %s):' % (c[1], ', '.join(c[2]), vs))
            self.block(c[4], ind + 1)
        else: raise ValueError(k)

def to_text(cmds, arrays, style):
    p = Printer(style)
    p.lines.append('from sppl.transforms import Exp, Log, Sqrt')
    p.lines.append('from sppl.sets import Interval, FiniteReal, FiniteNominal, Union')
    p.lines.append("inf = float('inf')")
    for a, n in arrays.items():
        if p.alt(2):
            p.lines.append('n_%s = %d' % (a, n)); p.lines.append('%s = array(n_%s)' % (a, a))
        else: p.lines.append('%s = array(%d)' % (a, n))
    p.block(cmds, 0)
    return '\n'.join(p.lines) + '\n'

# -- random programs

def dyadic(x):
    """The same data with every fraction replaced by a float."""
    if isinstance(x, list): return [dyadic(y) for y in x]
    if isinstance(x, dict): return {k: dyadic(y) for k, y in x.items()}
    if isinstance(x, str) and '/' in x and plain(x): return 'f%r' % (round(float(Fraction(x)) * 8) / 8,)
    return x

def weights_text(ws): return [('f%r' % float(Fraction(w)) if '/' in w else w) for w in ws]

class Gen:
    def __init__(self, rng, text):
        self.rng, self.text = rng, text
        self.fresh = 0
        self.arrays = {}
        self.conds = 0
        self.splits = 0
    def name(self):
        self.fresh += 1
        return 'V%d' % self.fresh
    def dist(self, kind, loop=None):
        rng = self.rng
        if loop and kind == 'num' and rng.random() < .7:
            return rng.choice([['bern', loop[0]], ['norm', loop[1], 1], ['atom', loop[2]], ['unif', loop[1], 2], ['binom', 3, loop[0]]])
        if loop and kind == 'nom' and rng.random() < .6:
            return ['nom', {'a': loop[0], 'b': '1 - (%s)' % loop[0]}]
        while True:
            d = rnd_dist(rng)
            if d[0] == 'atom': d = ['atom', rng.randint(-1, 3)]
            if is_nom(d) == (kind == 'nom'): break
        if d[0] == 'nom': d = ['nom', dict(zip(d[1], weights_text(d[1].values())))]
        if d[0] == 'disc': d = ['disc', dict(zip(d[1], weights_text(d[1].values())))]
        if d[0] != 'atom' and rng.random() < .15:
            e = self.dist(kind)
            if e[0] not in ('mix', 'atom'): return ['mix', [['f0.25', d], ['f0.75', e]]]
        return d
    def trans(self, vs, loop=None):
        rng = self.rng
        v = rng.choice([n for n, k in vs.items() if k == 'num'])
        t, _ = safe_step(rng, ['var', v], False)
        return dyadic(t)
    def event(self, vs, depth=None):
        rng = self.rng
        ns = [(n, k) for n, k in vs.items()]
        while True:
            e = dyadic(rnd_event(rng, lambda: var_lit(rng, *rng.choice(ns), wrap=False), rng.choice([0, 0, 1]) if depth is None else depth))
            if not empty_lit(e): return e
    def assign(self, v, kind, vs, loop=None):
        """A command giving v a value of the given kind."""
        if kind == 'num' and any(k == 'num' for k in vs.values()) and self.rng.random() < .4: return ['def', v, self.trans(vs)]
        return ['sample', v, self.dist(kind, loop)]
    def block(self, sig, vs, depth, loop=None):
        """Commands assigning exactly the names in sig, given those in vs."""
        rng = self.rng
        vs = dict(vs)
        todo = list(sig.items())
        rng.shuffle(todo)
        out = []
        while todo:
            if len(todo) >= 1 and depth > 0 and vs and rng.random() < .3 and self.splits < 2:
                k = rng.randint(1, len(todo))
                part, todo = todo[:k], todo[k:]
                out.append(self.split(dict(part), vs, depth - 1, loop))
            else:
                part, todo = todo[:1], todo[1:]
                out.append(self.assign(*part[0], vs, loop))
            vs.update(part)
            if rng.random() < .1 and self.conds < 2:
                self.conds += 1
                out.append(['cond', self.event(vs)])
            if rng.random() < .05: out.append(['skip'])
        return out
    def split(self, sig, vs, depth, loop=None):
        rng = self.rng
        self.splits += 1
        noms = [n for n, k in vs.items() if k == 'nom']
        nums = [n for n, k in vs.items() if k == 'num']
        if rng.random() < .4:
            v = rng.choice(list(vs))
            if vs[v] == 'nom':
                values = rng.sample(STRINGS, 3) if rng.random() < .8 else rng.sample(STRINGS, 2)
                i = rng.choice(['s', 'v'])
                lp = ["(ord(%s) - 96)/4" % i, "ord(%s) - 97" % i, "ord(%s) - 97" % i]
            elif rng.random() < .6:
                a = rng.randint(-2, 0)
                values = [['IV', '-inf', str(a), True, rng.random() < .5], ['IV', str(a - rng.choice([0, 1])), str(a + 2), rng.random() < .5, rng.random() < .5], ['IV', str(a + 1), 'inf', True, True]]
                if rng.random() < .85 : values[1][3] = values[1][4] = False
                i, lp = 'v', ["1/(2 + (0 if v.left < -5 else v.left + 4))", "0 if v.left < -5 else v.left", "0 if v.left < -5 else int(v.left)"]
            else:
                values = [str(x) for x in rng.sample(range(-3, 6), rng.randint(4, 9))]
                i, lp = 'v', ["1/(2 + abs(v))", "v", "v"]
            if rng.random() < .25:
                names = ['k', i]
                lp = ['1/(2 + k)', 'k', 'k + 1']
            else: names = [i]
            return ['switch', v, names, values, self.block(sig, vs, depth, lp)]
        n = rng.choice([1, 1, 2])
        es = [self.event(vs) for _ in range(n)]
        r = rng.random()
        if n == 1 and r < .12: es = es + [['not', es[0]]]
        elif r > .05 or n > 1: es = es + [None]
        if len(es) == 1: es.append(None)
        if len(sig) == 1 and rng.random() < .3 and self.text:
            (v, k), = sig.items()
            xs = [self.assign(v, k, vs)[2] for _ in es]
            xs = [x if x[0] != 'mix' else x[1][0][1] for x in xs]
            if es[-1] is None: return ['ifexp', v, [[e, x] for e, x in zip(es, xs)]]
        return ['if', [[e, self.block(sig, vs, depth, loop)] for e in es]]
    def program(self):
        rng = self.rng
        vs, out = {}, []
        for _ in range(rng.choice([2, 3, 3, 4])):
            r = rng.random()
            if r < .18 and len(self.arrays) < 1:
                a, n = rng.choice(['A', 'B']), rng.randint(2, 3)
                self.arrays[a] = n
                kind = rng.choice(['num', 'num', 'nom'])
                if rng.random() < .5:
                    out.append(['sample', a + '[0]', self.dist(kind)])
                    vs[a + '[0]'] = kind
                    body = self.array_body(a, kind, dict(vs), 'i')
                    out.append(['for', 'i', 1, n, body])
                else:
                    out.append(['for', 'i', 0, n, [['sample', a + '[i]', self.dist(kind, ['1/(i + 2)', 'i', 'i + 1'])]]])
                for i in range(n): vs['%s[%d]' % (a, i)] = kind
                continue
            sig = {self.name(): rng.choice(['num', 'num', 'nom']) for _ in range(rng.choice([1, 1, 2]))}
            out += self.block(sig, vs, 2)
            vs.update(sig)
        if rng.random() < .2: out.append(['cond', self.event(vs)])
        return out, vs
    def array_body(self, a, kind, vs, i):
        rng = self.rng
        prev = {a + '[i-1]': kind}
        r = rng.random()
        if r < .3 and kind == 'num': return [['def', a + '[i]', self.trans(prev)]]
        if r < .7:
            self.splits += 1
            e = self.event(prev, 0)
            return [['if', [[e, [['sample', a + '[i]', self.dist(kind, ['1/(i + 2)', 'i', 'i + 1'])]]], [None, [['sample', a + '[i]', self.dist(kind)]]]]]]
        return [['sample', a + '[i]', self.dist(kind, ['1/(i + 2)', 'i', 'i + 1'])]]

def program_events(rng, vs, n):
    out = []
    while len(out) < n:
        e = dyadic(rnd_event(rng, lambda: var_lit(rng, *rng.choice(list(vs.items())), wrap=False), rng.choice([0, 1, 1, 2])))
        if not empty_lit(e): out.append(e)
    return out
