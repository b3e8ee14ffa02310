"""Contracts of the compiler of program text (compilers/sppl_to_python.py): C14.

The source text of a program scheme is compiled by the compiler itself, the
text it renders is run, and the tree of commands that this builds is compared
with what the program means.  A scheme mentions arbitrary statements (visiting
one of them appends the text of a command) and arbitrary expressions, so that
each construct is decided for every nesting (induction over the program)."""
import ast, re, itertools
from .registry import Task
from .modelspec import F_
from .p_text import init_args, same
from .spespec import *
from pyvc import texts, builtins_
from pyvc.texts import Text, mk

K = 'sppl.compilers.sppl_to_python'
A = 'sppl.compilers.ast_to_spe'
MODS = ('sppl.sets', 'sppl.transforms', 'sppl.dnf', 'sppl.spe', 'sppl.distributions', A, K)

# ---------------------------------------------------------------------------
# library functions

class Record:
    """A named tuple."""
    def __init__(self, fields, vals): self.fields, self.vals = fields, vals
    def vc_truth(self, I): return bool(self.fields)
    def vc_attr(self, I, name): return self.vals[self.fields.index(name)] if name in self.fields else MISSING
    def vc_iter(self, I): return list(self.vals)
    def vc_list(self, I): return list(self.vals)
    def vc_getitem(self, I, k): return self.vals[k]
    def vc_len(self, I): return len(self.vals)

def namedtuple(I, a, k):
    fields = a[1].replace(',', ' ').split() if isinstance(a[1], str) else list(I.tolist(a[1]))
    def make(I, a, k):
        v = dict(zip(fields, a), **k)
        if set(v) != set(fields): I.throw(TypeError, 'fields of a named tuple')
        return Record(fields, [v[f] for f in fields])
    return TypeV(a[0], lambda v: isinstance(v, Record) and v.fields == fields, make)
builtins_.EXTERNAL['collections.namedtuple'] = NativeF('namedtuple', namedtuple)

class Match:
    def __init__(self, m): self.m = m
    def vc_truth(self, I): return True
    def vc_attr(self, I, name):
        if name in ('group', 'groups', 'start', 'end', 'span'):
            return NativeF(name, lambda I, a, k: getattr(self.m, name)(*a))
        if name == 'string': return self.m.string
        return MISSING

def install(I):
    T = texts.install(I)
    E = I.externals
    E['fractions.Fraction'] = NativeF('Fraction', lambda I, a, k: Term('fraction', a))
    flags = lambda v: 0 if v is None else I.constant(v)
    for n in ('MULTILINE', 'DOTALL', 'VERBOSE', 'M', 'S', 'X', 'I', 'IGNORECASE'): E['re.' + n] = int(getattr(re, n))
    def repl(r):
        if isinstance(r, str): return r
        return lambda m: I.call(r, [Match(m)], {})
    class Pattern:
        def __init__(self, p, f): self.p = re.compile(p, f)
        def vc_attr(self, I, name):
            if name == 'sub': return NativeF(name, lambda I, a, k: self.p.sub(repl(a[0]), a[1]))
            if name in ('match', 'search', 'fullmatch'):
                def f(I, a, k):
                    m = getattr(self.p, name)(a[0])
                    return Match(m) if m else None
                return NativeF(name, f)
            return MISSING
    def fl(a, k, i): return flags(a[i] if len(a) > i else k.get('flags'))
    E['re.sub'] = NativeF('sub', lambda I, a, k: re.sub(a[0], repl(a[1]), a[2], flags=fl(a, k, 4)))
    E['re.compile'] = NativeF('compile', lambda I, a, k: Pattern(a[0], fl(a, k, 1)))
    for n in ('match', 'search', 'fullmatch'):
        def f(I, a, k, n=n):
            m = getattr(re, n)(a[0], a[1], fl(a, k, 2))
            return Match(m) if m else None
        E['re.' + n] = NativeF(n, f)
    E['ast.walk'] = NativeF('walk', lambda I, a, k: PList(list(ast.walk(a[0])), I.ctx.depth))
    E['ast.iter_child_nodes'] = NativeF('children', lambda I, a, k: PList(list(ast.iter_child_nodes(a[0])), I.ctx.depth))
    E['ast.unparse'] = NativeF('unparse', lambda I, a, k: T.unsource(ast.unparse(ast.fix_missing_locations(a[0]))))
    E['types.SimpleNamespace'] = NativeF('SimpleNamespace', lambda I, a, k: Record(list(k), list(k.values())))
    def exec_(I, a, k):
        if len(a) != 2 or not isinstance(a[1], PDict): raise Unsupported('exec')
        g = {kk: v for kk, v in a[1].pairs}
        g.setdefault('__name__', 'rendered')
        g.update(getattr(I, 'given', {}))
        tree = a[0].tree if isinstance(a[0], texts.Code) else T.parse(a[0])
        T.run(tree, g)
        a[1].pairs[:] = list(g.items())
    I.builtins['exec'] = NativeF('exec', exec_)
    return T

# ---------------------------------------------------------------------------
# what expressions mean

def ident(a, b):
    """The same value, decided by its form."""
    if a is b: return True
    if isinstance(a, Term) and isinstance(b, Term):
        return a.op == b.op and len(a.args) == len(b.args) and all(ident(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, Ev) and isinstance(b, Ev):
        s = z3.Solver(); s.set('timeout', 2000)
        s.add(z3.Xor(z3_(a.f), z3_(b.f)))
        return s.check() == z3.unsat
    if isinstance(a, Sc) and isinstance(b, Sc):
        return str(a.tag) == str(b.tag) and z3.is_true(z3.simplify(a.val == b.val))
    if is_sym(a) and is_sym(b): return a.eq(b)
    if isinstance(a, SStr) or isinstance(b, SStr): return False
    if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
        if isinstance(a, tuple) != isinstance(b, tuple): return False
        x, y = (v.items if isinstance(v, PList) else v for v in (a, b))
        return len(x) == len(y) and all(ident(p, q) for p, q in zip(x, y))
    if isinstance(a, PSet) and isinstance(b, PSet):
        return all(any(ident(x, y) for y in b.items) for x in a.items) and all(any(ident(x, y) for x in a.items) for y in b.items)
    if isinstance(a, PDict) and isinstance(b, PDict):
        return len(a.pairs) == len(b.pairs) and all(any(ident(k, l) and ident(v, w) for l, w in b.pairs) for k, v in a.pairs)
    if isinstance(a, (bool, int, float, str, type(None))) and isinstance(b, (bool, int, float, str, type(None))):
        return type(a) is type(b) and a == b
    return False
def z3_(f): return z3.BoolVal(f) if isinstance(f, bool) else f

def ordered(v, I): return [(k, x) for k, x in v.pairs]

def truth(I, x):
    if isinstance(x, Ev): return x.f
    if isinstance(x, Term): return atom(I, 'truth', x)
    raise Unsupported('truth value %r' % (x,))

class Ev:
    """An event: a combination of atoms."""
    def __init__(self, f): self.f = f
    def __repr__(self): return 'Ev(%s)' % (self.f,)
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_hash(self, I): return id(self)
    def vc_eq(self, I, o): return isinstance(o, Ev) and ident(self, o)
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') in ('Event', 'Transform', 'object')
    def vc_binop(self, I, op, o, r):
        if op in (ast.BitAnd, ast.BitOr):
            if not isinstance(o, (Ev, Term)): I.throw(TypeError, 'operand of an event')
            return Ev((And if op is ast.BitAnd else Or)(truth(I, self), truth(I, o)))
        return Term.vc_binop(self, I, op, o, r)
    def vc_unary(self, I, op):
        if op is ast.Invert: return Ev(Not(self.f))
        return Term(op.__name__, (self,))
    def vc_cmp(self, I, op, o): return Term.vc_cmp(self, I, op, o)

class Term:
    """An operation on values."""
    def __init__(self, op, args): self.op, self.args = op, tuple(args)
    def __repr__(self): return '%s%r' % (self.op, self.args)
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_hash(self, I): return hash(self.op)
    def vc_eq(self, I, o): return isinstance(o, Term) and ident(self, o)
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') in ('Transform', 'Identity', 'object')
    def vc_binop(self, I, op, o, r):
        a, b = (o, self) if r else (self, o)
        if op is ast.LShift: return member(I, a, b)
        if op in (ast.BitAnd, ast.BitOr): return Ev.vc_binop(self, I, op, o, r)
        return Term(op.__name__, (a, b))
    def vc_unary(self, I, op):
        if op is ast.Invert: return Ev(Not(truth(I, self)))
        return Term(op.__name__, (self,))
    def vc_cmp(self, I, op, o):
        flip = {ast.Gt: ast.Lt, ast.GtE: ast.LtE}
        if op in flip: return Ev(atom(I, flip[op].__name__, o, self))
        return Ev(atom(I, op.__name__, self, o))
    def vc_call(self, I, a, k): return Term('call', (self,) + tuple(a) + tuple(Term('=', (n, v)) for n, v in sorted(k.items())))
    def vc_getitem(self, I, k): return Term('item', (self, k))
    def vc_attr(self, I, name): return Term('attr', (self, name)) if not name.startswith('__') else MISSING

def atom(I, op, *args):
    t = Term(op, args)
    for u, b in I.atoms:
        if ident(t, u): return b
    b = I.ctx.bool_('%s%d' % (op, len(I.atoms)))
    I.atoms.append((t, b))
    return b

def member(I, x, s):
    if isinstance(s, PSet): return Ev(Or(*[atom(I, 'Eq', x, y) for y in s.items]))
    return Ev(atom(I, 'In', x, s))

class Logic(ast.NodeTransformer):
    """Comparisons and Boolean operators of Python as operations on truth values."""
    def call(self, f, *a): return ast.Call(ast.Name('_%s_' % f, ast.Load()), list(a), [])
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return self.call('and' if isinstance(n.op, ast.And) else 'or', *n.values)
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        return self.call('not', n.operand) if isinstance(n.op, ast.Not) else n
    def visit_Compare(self, n):
        self.generic_visit(n)
        xs = [n.left] + n.comparators
        out = []
        for x, op, y in zip(xs, n.ops, xs[1:]):
            c = {ast.Eq: 'eq', ast.NotEq: 'eq', ast.In: 'in', ast.NotIn: 'in'}.get(type(op))
            e = self.call(c, x, y) if c else ast.Compare(x, [op], [y])
            out.append(self.call('not', e) if isinstance(op, (ast.NotEq, ast.NotIn)) else e)
        return out[0] if len(out) == 1 else self.call('and', *out)

def truth_functions(I):
    def f(name, g): return NativeF(name, lambda I, a, k: g(*a))
    def e(x):
        return truth(I, x)
    return {'_and_': f('and', lambda *a: Ev(And(*[e(x) for x in a]))), '_or_': f('or', lambda *a: Ev(Or(*[e(x) for x in a]))),
        '_not_': f('not', lambda x: Ev(Not(e(x)))), '_eq_': f('eq', lambda x, y: Ev(atom(I, 'Eq', x, y))),
        '_in_': f('in', lambda x, s: member(I, x, s))}

def copy_(node):
    import copy
    return copy.deepcopy(node)
def logical(node): return ast.fix_missing_locations(Logic().visit(copy_(node)))

# ---------------------------------------------------------------------------
# expressions (the transformer)

class Visits:
    """visit(e) for arbitrary expressions e: an expression with the same meaning."""
    def __init__(self): self.done = {}
    def __call__(self, node):
        if isinstance(node, ast.Name) and re.match(r'_e\d+(v*)_$', node.id):
            n = node.id[:-1] + 'v_'
            self.done[n] = node.id
            return ast.Name(n, ast.Load())

def interp(ctx, mods=MODS):
    I = Interp(ctx, ctx.run.modules(ctx, mods))
    install(I)
    install_log(I.externals)
    I.atoms, I.given = [], {}
    return I

def with_hook(I, hook):
    """visit of any visitor gives what the hook says, if it says something."""
    def at(I, f, a, k):
        return MISSING
    I.texts.visit_hook = hook

NORMAL = (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.And, ast.Or, ast.Not)

def expression(src, kinds):
    """The event that the compiler makes of an expression is its meaning."""
    def h(ctx):
        I = interp(ctx, ('sppl.sets', 'sppl.transforms', 'sppl.dnf', 'sppl.spe', 'sppl.distributions', K))
        hook = Visits()
        I.texts.visit_hook = lambda self, node: hook(node)
        node = ast.parse(src, mode='eval').body
        env = {}
        for i, k in enumerate(kinds):
            env['_e%d_' % i] = Term('e%d' % i, ()) if k == 't' else Ev(ctx.bool_('e%d' % i))
        want = I.texts.eval(logical(node), dict(I.modules[K].ns), dict(truth_functions(I), **env))
        C = I.modules[K].ns['SPPL_Transformer_Compare']
        r = guard(ctx, 'rewriting', lambda: I.call(I.getattr(I.call(C, [], {}), 'visit'), [copy_(node)], {}))
        ctx.prove('no operator of Python on truth values remains', not any(isinstance(n, NORMAL) or isinstance(n, ast.Compare) and len(n.ops) > 1 for n in ast.walk(r)))
        # its text is what is run
        s = guard(ctx, 'text', lambda: I.texts.source(texts.unparse(I.texts, r)).strip())
        seen = {}
        for n, m in hook.done.items():
            while m in hook.done: m = hook.done[m]
            seen[n] = env[m]
        names = {n.id for n in ast.walk(ast.parse(s)) if isinstance(n, ast.Name)}
        ctx.prove('every operand is rewritten', not names & set(env))
        got = guard(ctx, 'the value', lambda: I.texts.eval(ast.parse(s, mode='eval').body, dict(I.modules[K].ns), seen))
        agree(ctx, 'the event is the meaning', got, want)
    return h

def agree(ctx, name, got, want):
    if not isinstance(got, Ev) and not ident(got, want): ctx.fail(name, 'got %r, want %r' % (got, want)); return
    if isinstance(got, Ev) and isinstance(want, Ev): ctx.prove(name, Iff(got.f, want.f))
    else: ctx.prove(name, bool(ident(got, want)))

def expressions():
    ops = ['<', '<=', '>', '>=', '==', '!=', 'in', 'not in']
    e = lambda i: '_e%d_' % i
    for o in ops: yield '%s %s %s' % (e(0), o, e(1)), 'tt'
    for o in ops[:6]: yield '%s %s %s' % (e(0), o, e(1)), 'et'
    for o in ('in', 'not in'):
        for n in (1, 2, 3): yield '%s %s {%s}' % (e(0), o, ', '.join(e(1 + i) for i in range(n))), 'tttt'
    for o, p in itertools.product(ops, ops): yield '%s %s %s %s %s' % (e(0), o, e(1), p, e(2)), 'ttt'
    for o, p, q in [('<', '<=', '<'), ('==', '!=', 'in'), ('not in', '==', '<')]:
        yield '%s %s %s %s %s %s %s' % (e(0), o, e(1), p, e(2), q, e(3)), 'tttt'
    for o in ('and', 'or'):
        for n in (2, 3, 4): yield (' %s ' % o).join(e(i) for i in range(n)), 'eeee'
    yield 'not ' + e(0), 'e'
    for s in ('_e0_ and _e1_ or _e2_', '_e0_ and (_e1_ or _e2_)', 'not (_e0_ or _e1_) and _e2_', 'not _e0_ and not _e1_', '(_e0_ or _e1_) and not (_e2_ and _e0_)'): yield s, 'eee'
    for s in ('_e0_ & _e1_ | ~_e2_', '~(_e0_ | _e1_) & _e2_', '_e0_ & _e1_ and ~_e2_'): yield s, 'eee'
    for s in ('not _e0_ == _e1_', 'not _e0_ < _e1_', '_e0_ == _e1_ and _e2_ in _e1_', '_e0_ < _e1_ or _e2_ != _e0_', 'not (_e0_ in _e1_ or _e1_ < _e2_ <= _e0_)',
            '(_e0_ < _e1_) & (_e1_ == _e2_)', '~(_e0_ == _e1_)', '2*(_e0_ == _e1_) < _e2_', '(_e0_ in _e1_) == 1', '1 < (_e0_ != _e1_) + _e2_ <= 2'): yield s, 'ttt'
    for s in ('not _e0_(_e1_)', '_e0_(_e1_) and not _e2_[_e0_]', 'not (-_e0_ or _e1_.a)', '_e0_((_e1_ == 1) or not _e2_(3))', 'not (_e0_ if True else _e1_)', '_e0_(_e1_ in _e2_, k=not _e0_ != 1)'): yield s, 'ttt'
    for o in ('+', '-', '*', '/', '**', '%', '//', '@'): yield '_e0_ %s _e1_' % o, 'tt'
    for s in ('-_e0_', '+_e0_', 'abs_(_e0_)', '_e0_(_e1_, k=_e2_)', '_e0_[_e1_]', '_e0_.attr', '(_e0_, _e1_)', '[_e0_, _e1_]', '{_e0_: _e1_}', '_e0_ << _e1_', '_e0_ << {_e1_, _e2_}',
            '_e0_*(_e1_ == _e2_) + 2', '_e0_*(_e1_ < 2 < _e2_)', '_e0_(_e1_ and_ _e2_)'.replace('and_', '+'), '_e0_**2 + _e1_*(not _e2_ > 1)', '(_e0_ if True else _e1_)'): yield s.replace('abs_', '_e2_'), 'ttt'

# ---------------------------------------------------------------------------
# programs

class Node:
    """A command of the rendered program with its arguments."""
    def __init__(self, kind, args): self.kind, self.args = kind, args
    def __repr__(self): return '%s%r' % (self.kind, self.args)
    def vc_truth(self, I): return True
    def vc_is(self, I, o): return self is o
    def vc_isinstance(self, I, t): return getattr(t, 'name', '') == 'Command'
    def vc_attr(self, I, name):
        if name == 'interpret': return NativeF(name, lambda I, a, k: Run(self, a, k))
        return MISSING
class Run:
    def __init__(self, node, a, k): self.node, self.given = node, (tuple(a), dict(k))

COMMANDS = ('Skip', 'Sample', 'Transform', 'Condition', 'Constrain', 'IfElse', 'For', 'Switch', 'Sequence')

class Array:
    def __init__(self, name, n): self.name, self.n = name, n
    def __repr__(self): return '%s[%r]' % (self.name, self.n)
    def vc_truth(self, I): return True
    def vc_getitem(self, I, k): return Term('element', (self.name, self.n, k))

def env_of(I):
    """Identifiers, arrays, commands and distributions, by name."""
    S = I.modules[A].ns
    def params(c, a, k):
        v = init_args(I, c, a, k)
        return tuple(list(v.values())[1:])
    I.contracts['sppl.transforms.Identity'] = lambda I, f, a, k: Term('variable', (a[0],))
    I.contracts[A + '.IdArray'] = lambda I, f, a, k: Array(a[0], a[1])
    for c in COMMANDS:
        I.contracts['%s.%s' % (A, c)] = lambda I, f, a, k, c=c: Node(c, params(S[c], a, k))
    D = I.modules['sppl.distributions'].ns
    dists = {}
    for n, v in D.items():
        if isinstance(v, ClassV) and n[0].islower():
            dists[n] = v
            I.contracts['sppl.distributions.' + v.name] = lambda I, f, a, k, v=v: Term('distribution', (v.name,) + tuple(a) + tuple(Term('=', (x, y)) for x, y in sorted(k.items())))
    return dists

def tree(I, c):
    """The commands of a rendered program, without nested sequences."""
    if not isinstance(c, Node): I.ctx.fail('a command', repr(c)); raise Infeasible()
    a = c.args
    if c.kind == 'Sequence': return [x for y in I.tolist(a[0]) for x in tree(I, y)]
    if c.kind == 'Skip': return []
    if c.kind == 'IfElse':
        b = I.tolist(a[0])
        if len(b) % 2: I.ctx.fail('guards and branches in pairs', repr(b)); raise Infeasible()
        return [('if', [(g, tree(I, x)) for g, x in zip(b[::2], b[1::2])])]
    if c.kind == 'For': return [('for', a[0], a[1], lambda v: tree(I, guard(I.ctx, 'the body of a loop', lambda: I.call(a[2], list(v), {}))))]
    if c.kind == 'Switch': return [('switch', a[0], a[1], lambda v: tree(I, guard(I.ctx, 'the body of a switch', lambda: I.call(a[2], list(v), {}))))]
    if c.kind == 'Stmt': return [('stmt',) + tuple(a)]
    return [(c.kind.lower(),) + tuple(a)]

class Meaning:
    """What a program means: a list of commands."""
    def __init__(self, I, dists, env):
        self.I, self.dists = I, dists
        self.env = dict(truth_functions(I), **dists)
        self.env.update(env)
        self.vars = set()
    def eval(self, e, env): return self.I.texts.eval(logical(e), {'__name__': 'meaning'}, env)
    def names(self, e): return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
    def declare(self, t):
        """Variables are declared wherever the program assigns them."""
        for s in 4 * list(ast.walk(t)):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                n = s.targets[0].id
                if isinstance(s.value, ast.Call) and getattr(s.value.func, 'id', None) == 'array': self.vars.add(n)
                elif self.names(s.value) & self.vars or any(isinstance(c, ast.Call) and getattr(c.func, 'id', None) in self.dists for c in ast.walk(s.value)):
                    self.vars.add(n)
                    self.env[n] = Term('variable', (n,))
    def block(self, stmts, env):
        return [c for s in stmts for c in self.stmt(s, env)]
    def stmt(self, s, env):
        I = self.I
        if isinstance(s, ast.Pass): return []
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            from pyvc.interp import Scope
            sc = Scope(None, globals_={'__name__': 'meaning'})
            I.exec_block([s], sc)
            self.env.update(sc.vars); env.update(sc.vars)
            return []
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Name):
            return [('stmt', s.value.id) + tuple((n, env[n]) for n in sorted(env) if n.startswith('i_'))]
        if isinstance(s, ast.Expr):
            return [(s.value.func.id, self.eval(s.value.args[0], env))]
        if isinstance(s, ast.Assign):
            t, v = s.targets[0], s.value
            if isinstance(v, ast.Call) and getattr(v.func, 'id', None) == 'array':
                env[t.id] = self.env[t.id] = Array(t.id, self.eval(v.args[0], env))
                return []
            if isinstance(v, ast.IfExp):
                out, e = [], v
                while isinstance(e, ast.IfExp):
                    out.append((self.eval(e.test, env), self.stmt(ast.Assign([t], e.body), env)))
                    e = e.orelse
                return [('if', out + [(True, self.stmt(ast.Assign([t], e), env))])]
            if any(env.get(n) is self.dists[n] for n in self.names(v) & set(self.dists)): return [('sample', self.eval(t_load(t), env), self.eval(v, env))]
            if self.names(v) & self.vars: return [('transform', self.eval(t_load(t), env), self.eval(v, env))]
            env[t.id] = self.env[t.id] = self.eval(v, env)
            return []
        if isinstance(s, ast.If):
            out = []
            while True:
                out.append((self.eval(s.test, env), self.block(s.body, env)))
                if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If): s = s.orelse[0]
                else: break
            return [('if', out + ([(True, self.block(s.orelse, env))] if s.orelse else []))]
        if isinstance(s, ast.For):
            a = s.iter.args
            ts = [s.target] if isinstance(s.target, ast.Name) else s.target.elts
            body = lambda v: self.block(s.body, dict(env, **{t.id: x for t, x in zip(ts, v)}))
            if s.iter.func.id == 'range':
                lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
                return [('for', self.eval(lo, env), self.eval(hi, env), body)]
            return [('switch', self.eval(a[0], env), self.eval(a[1], env), body)]
        raise Unsupported('meaning of %s' % type(s).__name__)
def t_load(t): return ast.parse(ast.unparse(t), mode='eval').body

def compare(ctx, I, got, want, at=''):
    name = lambda s: '%s%s' % (at, s)
    if len(got) != len(want) or [c[0] for c in got] != [c[0] for c in want]:
        ctx.fail(name('the commands are those of the program'), 'got %s, want %s' % ([c[0] for c in got], [c[0] for c in want])); return
    for n, (g, w) in enumerate(zip(got, want)):
        k = w[0]
        p = '%s%s %d: ' % (at, k, n)
        if k == 'if':
            ctx.prove(p + 'as many branches', len(g[1]) == len(w[1]))
            for i, ((t, b), (u, c)) in enumerate(zip(g[1], w[1])):
                if u is True or t is True: ctx.prove(p + 'otherwise comes last', t is True and u is True)
                else: agree(ctx, p + 'guard %d' % i, t, u)
                compare(ctx, I, b, c, p + 'branch %d: ' % i)
        elif k == 'for':
            for i in (1, 2): ctx.prove(p + 'range', And(*[eq_num(I, g[i], w[i])]))
            i = Sc(0, ctx.real('index'), 'int')
            compare(ctx, I, g[3]([i]), w[3]([i]), p)
        elif k == 'switch':
            agree(ctx, p + 'variable', g[1], w[1])
            x, y = I.tolist(g[2]), I.tolist(w[2])
            ctx.prove(p + 'cases', len(x) == len(y) and all(ident(a, b) for a, b in zip(x, y)))
            for a in y:
                v = a if isinstance(a, tuple) else [a]
                compare(ctx, I, g[3](v), w[3](v), p)
        else:
            ctx.prove(p + 'arguments', len(g) == len(w))
            for x, y in zip(g[1:], w[1:]): agree(ctx, p + 'argument', x, y)

def eq_num(I, a, b):
    if isinstance(a, (str, Term)) or isinstance(b, (str, Term)): return ident(a, b)
    return I.eq(a, b)

def statement_hook(I, stmts):
    """visit of an arbitrary statement: the text of a command of the names in scope."""
    def hook(self, node):
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Name) and node.value.id in stmts:
            k = node.value.id
            I.visited.append(k)
            idt = ' ' * I.getattr(self, 'indentation')
            I.call(I.getattr(I.getattr(self, 'command'), 'write'), ['%s_cmd_(%r, %s),\n' % (idt, k, ', '.join('%s=%s' % (n, n) for n in stmts[k]))], {})
            return True
    return hook

def program(src, plain=None, tokens=(), rejected=False):
    """plain: the program without switch and ~=, if it differs from src."""
    def h(ctx):
        I = interp(ctx)
        I.visited = []
        dists = env_of(I)
        given = {}
        for t in tokens: given[t] = Sc(0, ctx.real(t), 'int' if t.startswith('n') else 'float')
        p = plain or src
        t = ast.parse('') if rejected else ast.parse(p)
        # the loop variables in scope of each arbitrary statement
        stmts = {}
        def scopes(body, names):
            for s in body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Name): stmts[s.value.id] = names
                for f in ('body', 'orelse'):
                    ts = [] if not isinstance(s, ast.For) else [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)]
                    if isinstance(getattr(s, f, None), list): scopes(getattr(s, f), names + [n for n in ts if n.startswith('i_')])
        scopes(t.body, [])
        if rejected: stmts = {x: [] for x in re.findall(r'\bs\d\b', src)}
        I.texts.visit_hook = statement_hook(I, stmts)
        I.given = dict(given, _cmd_=NativeF('cmd', lambda I, a, k: Node('Stmt', tuple(a) + tuple(sorted(k.items())))))
        C = I.modules[K].ns['SPPL_Compiler']
        def run():
            c = I.call(C, [src], {})
            return I.call(I.getattr(c, 'execute_module'), [], {})
        if rejected:
            try: run()
            except PyExc: ctx.prove('the program is rejected', True)
            else: ctx.fail('the program is rejected', src)
            return
        ns = guard(ctx, 'compiling', run)
        m = I.getattr(ns, 'model')
        ctx.prove('the model is the result of the commands', isinstance(m, Run) and m.given == ((), {}))
        M = Meaning(I, dists, given)
        M.declare(t)
        want = M.block(t.body, M.env)
        compare(ctx, I, tree(I, m.node), want)
        for v in sorted(M.vars): ctx.prove('variable %s of the program can be used in queries' % v, bool(ident(I.getattr(ns, v), M.env[v]) or isinstance(M.env[v], Array) and isinstance(I.getattr(ns, v), Array) and I.getattr(ns, v).name == v))
    return h

# Arbitrary statements are the names s1, s2, ...; arbitrary numbers n1, x1, ...
H = 'X ~= norm()\nN ~= poisson(mu=3)\n'
PROGRAMS = [
    # sequences of arbitrary statements
    'one', 'X ~= norm()\n',
    'constants', 'a = x1\nb = a + 2\nX ~= norm(loc=a, scale=b)\n',
    'constant texts and lists', "a = ['u', 'v']\nd = {'u': x1, 'v': x2}\nX ~= choice({a[0]: d['u'], a[1]: d['v']})\n",
    'imports', 'from math import sqrt\nimport os\nfrom fractions import Fraction as F\nX ~= norm()\nY = X + F(1, 2)\n',
    'constant by attribute', 'import fractions\na = fractions.Fraction(1, 2)\nX ~= norm(loc=a)\n',
    'statements 1', 's1\n', 'statements 2', 's1\ns2\n', 'statements 3', 's1\ns2\ns3\n', 'statements 4', 's1\ns2\ns3\ns4\n',
    'statements 8', ''.join('s%d\n' % i for i in range(1, 9)),
    'imports of one name', 'from math import ceil as g_\nfrom fractions import Fraction as g_\nX ~= norm(loc=g_(1, 2))\n',
    'modules of one name', 'from math import ceil as g_\nimport fractions as g_\nX ~= norm(loc=g_.Fraction(1, 2))\n',
    'constants of one name', 'a = x1\nb = a + 1\na = b + 1\nX ~= norm(loc=a)\n',
    'repeated constants', 'a = x1\na = a + 1\na = a + 1\nX ~= norm(loc=a)\n',
    'constants assigned back', 'a = x1\nb = a\na = x2\nc = a\na = x1\nX ~= norm(loc=a, scale=c)\n',
    'size of an array by a constant', 'n = 2\nA = array(n)\nn = 4\nB = array(n)\nA[1] ~= norm()\nB[3] ~= norm(loc=n)\n',
    'import after a constant', 'g_ = x1\nh_ = g_\nfrom fractions import Fraction as g_\nX ~= norm(loc=g_(1, 2), scale=h_)\n',
    'many variables', 'a = 1\nA = array(a)\nB = array(2)\nC = array(3)\nD = array(4)\n' + ''.join('V%d ~= norm(loc=x1)\n' % i for i in range(6)) + ''.join('%s[0] ~= norm()\n' % i for i in 'ABCD') + 'W = V5 + D[0]\n',
    'many distributions', 'A ~= norm()\nB ~= gamma(a=1)\nC ~= poisson(mu=2)\nD ~= uniform()\nE ~= expon()\nF ~= x1*atomic(loc=1) | x2*beta(a=1, b=2)\nG ~= zipf(a=2)\n',
    'constant named as a distribution', 't = x1\nX ~= norm(loc=t)\nY = 2*X + t\n', 'variable named as a distribution', 'X ~= gamma(a=x1)\nbeta ~= norm()\nY = 2*beta + X\nif beta > 1:\n    s1\nelse:\n    s2\nZ = beta if X > 1 else -beta\n',
    'index named as a distribution', 'X = array(3)\nY = array(3)\nfor t in range(3):\n    X[t] ~= norm(loc=t)\n    Y[t] = 2*X[t] + t\nZ ~= t(df=x1)\n',
    'array after if', H + 'if X > x1:\n    s1\nelse:\n    s2\nA = array(2)\nA[0] ~= norm()\n',
    'array after elif', H + 'if X > x1:\n    s1\nelif X < x2:\n    s2\nelse:\n    s3\nA = array(2)\nA[0] ~= norm()\nB ~= norm()\n',
    'array after loop', 'for i_ in range(n1):\n    s1\nA = array(2)\nA[0] ~= norm()\nB ~= norm()\n',
    'array after conditional', H + 'Y = X if X > 0 else -X\nA = array(2)\nA[0] ~= norm()\nB ~= norm()\n',
    'pass', 'X ~= norm()\npass\nY ~= gamma(a=x1)\npass\n',
    'blank lines', '\n\nX ~= norm()\n   \n\nY ~= norm()\n\n',
    'comments', '# first\nX ~= norm() # X ~= gamma()\n# Y ~= norm()\nZ ~= norm()\n',
    # sampling and transforming
    'mixture', 'X ~= x1*norm(loc=x2) | x3*gamma(a=x4, scale=x5)\n',
    'mixture of three', "X ~= x1*choice({'a': 1}) | x2*choice({'b': 1}) | x3*choice({'c': x4, 'd': x5})\n",
    'transforms', H + 'Y = x1*X**2 + x2\nZ = -Y\nW = abs(X) + 1/N\n'.replace('abs(X)', 'X'),
    'transforms by the other operator', H + 'Y ~= x1*X + x2\nV ~= Y/2\n',
    'truth values', H + 'Y = 2*(X < 1) + 3*(X >= 1 and not N == 2) - (0 < X <= 2)\n',
    'nested comparison', H + 'Y = 2*((X == 1) + (N in {1, 2}) < 2)\n',
    'distribution of a table', 'X ~= discrete({x1: x2, x3: x4})\n',
    'text with the operator', "X ~= choice({'a~=b': x1, \"c ~= 'd'\": x2, 'e\\'~=': x3})\nY ~= choice({'': x1, \"\": x2, 'it': x3})\n",
    # conditions
    'condition', H + 'condition(X > x1)\ncondition(0 < X < x2 or not N in {1, 2} and X != 3)\n',
    'condition on constants', "a = [1, 2]\n" + H + 'condition(X in a)\ncondition(not (N in {x1}))\n',
    'constrain', H + 'constrain({X: x1})\nconstrain({X: x1, N: n1})\n',
    # arrays
    'array', 'X = array(4)\nX[0] ~= norm()\nX[1] ~= gamma(a=x1)\nX[2] = 2*X[0] + 1\nX[1 + 2] ~= norm()\n',
    'two arrays', 'a = 3\nX = array(a)\nY = array(a + 1)\nX[0] ~= norm()\nY[0] = X[0]\ncondition(Y[0] > 1)\n',
    'loop', 'X = array(5)\nfor i_ in range(5):\n    X[i_] ~= norm(loc=i_)\n',
    'loop of two', 'X = array(5)\nY = array(5)\nfor i_ in range(1, 5):\n    X[i_] ~= norm(loc=i_)\n    Y[i_] = x1*X[i_] + i_\n',
    'loop by constants', 'a = 2\nX = array(a)\nfor i_ in range(a - 1, a + 3):\n    X[i_] ~= norm()\n    condition(X[i_] < i_)\n',
    'chain', 'X = array(5)\nX[0] ~= norm()\nfor i_ in range(1, 5):\n    if X[i_ - 1] > x1:\n        X[i_] ~= norm(loc=i_)\n    else:\n        X[i_] ~= gamma(a=i_ + 1)\n',
    'loops of loops', 'X = array(9)\nfor i_ in range(3):\n    for i_2 in range(i_, 3):\n        X[3*i_ + i_2] ~= norm(loc=i_, scale=i_2)\n',
    'loop of statements', 'for i_ in range(n1):\n    s1\n', 'loop of two statements', 'for i_ in range(n1, n2 + 1):\n    s1\n    s2\ns3\n',
    'loop of three statements', 's1\nfor i_ in range(n1, n2 + 1):\n    s2\n    s3\n    s4\n',
    'loops of statements', 'for i_ in range(n1):\n    s1\n    for i_2 in range(i_, n2):\n        s2\n    s3\ns4\n',
    'loop then variable', 'X = array(3)\nfor i_ in range(3):\n    X[i_] ~= norm()\nY ~= norm()\n',
    # conditionals
    'if', H + 'if X > x1:\n    s1\nelse:\n    s2\n',
    'elif', H + 'if X > x1:\n    s1\nelif N == 2:\n    s2\nelse:\n    s3\n',
    'elif without else', H + 'if X > x1:\n    s1\nelif X <= x1:\n    s2\n',
    'elif elif', H + 'if X > x1:\n    s1\n    s2\nelif N == 2 or N == 3:\n    s3\nelif not N == 4:\n    s4\n    s5\nelse:\n    s6\n    s7\ns8\n',
    'if with pass', H + 'if X > x1:\n    pass\nelse:\n    s2\n',
    'else with pass', H + 'if X > x1:\n    s1\nelse:\n    pass\n',
    'if in if', H + 'if X > x1:\n    if N in {1, 2}:\n        s1\n    else:\n        s2\nelse:\n    if X < x2:\n        s3\n        s4\n    else:\n        s5\n    s6\ns7\n',
    'if in else alone', H + 'if X > x1:\n    s1\nelse:\n    if X < x2:\n        s3\n    else:\n        s5\n',
    'loop in if', H + 'if X > x1:\n    for i_ in range(n1):\n        s1\nelse:\n    s2\n    for i_ in range(n2):\n        s3\n',
    'if in loop', H + 'for i_ in range(n1):\n    if X > i_:\n        s1\n    else:\n        s2\n',
    'variables of branches', H + 'if X > x1:\n    Y ~= norm()\n    Z = 2*Y\nelif N == 1:\n    Y ~= gamma(a=x2)\n    Z = 3*Y\nelse:\n    Y ~= norm(loc=x3)\n    Z = Y + x3\nW = Z + 1\nV ~= norm()\n',
    'nested variables of branches', H + 'if X > x1:\n    Y ~= norm()\n    if Y > 0:\n        Z ~= norm()\n    else:\n        Z ~= gamma(a=1)\nelse:\n    Y ~= gamma(a=x2)\n    Z ~= poisson(mu=x3)\n',
    'condition in branches', H + 'if X > x1:\n    condition(N > 2)\nelse:\n    condition(N == 1)\n    constrain({X: x2})\n',
    'conditional sample', H + 'Y ~= norm(loc=x1) if X > 0 else gamma(a=x2)\nZ = Y\n',
    'conditional transform', H + 'Y = 2*X if X > 0 else -X if N == 1 else X**2\n',
    'conditional in loop', 'X = array(5)\nX[0] ~= norm()\nfor i_ in range(1, 5):\n    X[i_] ~= norm() if X[i_ - 1] > 0 else gamma(a=i_)\n',
    'conditional constant', 'a = 3\n' + H + 'Y = (2 if a else 3)*X\n',
]
SWITCHES = [
    'switch', H + 'switch (N) cases (i_ in [n1, n2]):\n    s1\n', H + 'for i_ in switch(N, [n1, n2]):\n    s1\n',
    'switch of two statements', H + 'switch (N) cases (i_ in [n1, n2, n3]):\n    s1\n    s2\ns3\n', H + 'for i_ in switch(N, [n1, n2, n3]):\n    s1\n    s2\ns3\n',
    'switch without blanks', H + 'switch(N) cases(i_ in [n1, n2]):\n    s1\n', H + 'for i_ in switch(N, [n1, n2]):\n    s1\n',
    'switch by range', H + 'switch (N) cases (i_ in range(3)):\n    Y ~= norm(loc=i_)\n', H + 'for i_ in switch(N, range(3)):\n    Y ~= norm(loc=i_)\n',
    'switch by constant', "v = ['a', 'b']\nX ~= choice({'a': x1, 'b': x2})\nswitch (X) cases (i_ in v):\n    s1\n", "v = ['a', 'b']\nX ~= choice({'a': x1, 'b': x2})\nfor i_ in switch(X, v):\n    s1\n",
    'switch with indices', H + 'switch (N) cases (i_, i_2 in enumerate([n1, n2])):\n    s1\n', H + 'for i_, i_2 in switch(N, enumerate([n1, n2])):\n    s1\n',
    'switch on an element', 'X = array(2)\nX[0] ~= poisson(mu=x1)\nswitch (X[0]) cases (i_ in range(2)):\n    X[1] ~= norm(loc=i_)\n', 'X = array(2)\nX[0] ~= poisson(mu=x1)\nfor i_ in switch(X[0], range(2)):\n    X[1] ~= norm(loc=i_)\n',
    'switch index named as a distribution', H + 'switch (N) cases (t in range(2)):\n    Y = X + t\n', H + 'for t in switch(N, range(2)):\n    Y = X + t\n',
    'switch by comprehension', H + 'switch (N) cases (i_ in [i for i in range(3)]):\n    s1\n', H + 'for i_ in switch(N, [i for i in range(3)]):\n    s1\n',
    'switch by a domain', 'domain = [n1, n2]\n' + H + 'switch (N) cases (i_ in [domain , [n3]][0]):\n    s1\n', 'domain = [n1, n2]\n' + H + 'for i_ in switch(N, [domain, [n3]][0]):\n    s1\n',
    'array after switch', H + 'switch (N) cases (i_ in [n1, n2]):\n    s1\nA = array(2)\nA[0] ~= norm()\nB ~= norm()\n', H + 'for i_ in switch(N, [n1, n2]):\n    s1\nA = array(2)\nA[0] ~= norm()\nB ~= norm()\n',
    'switch in if in switch', H + 'switch (N) cases (i_ in [n1, n2]):\n    if X > i_:\n        switch (X) cases (i_2 in [n3]):\n            s1\n    else:\n        s2\n',
        H + 'for i_ in switch(N, [n1, n2]):\n    if X > i_:\n        for i_2 in switch(X, [n3]):\n            s1\n    else:\n        s2\n',
    'switch in loop', H + 'for i_ in range(n1):\n    switch (N) cases (i_2 in [n2, n3]):\n        s1\n    s2\n', H + 'for i_ in range(n1):\n    for i_2 in switch(N, [n2, n3]):\n        s1\n    s2\n',
]
REJECTED = [
    'variable twice', 'X ~= norm()\nX ~= gamma(a=1)\n', 'defined twice', 'X ~= norm()\nY = X\nY = 2*X\n', 'defined by itself', 'X ~= norm()\nX = 2*X\n',
    'if alone', H + 'if X > 1:\n    s1\n', 'other variable in a branch', H + 'if X > 1:\n    Y ~= norm()\nelse:\n    Z ~= norm()\n',
    'scalar in a loop', 'for i_ in range(2):\n    X ~= norm()\n', 'array in a branch', H + 'if X > 1:\n    Y = array(2)\nelse:\n    Y = array(2)\n',
    'array in a loop', 'for i_ in range(2):\n    Y = array(2)\n', 'array twice', 'Y = array(2)\nY = array(3)\n', 'array and variable', 'Y ~= norm()\nY = array(2)\n',
    'variable and array', 'Y = array(2)\nY ~= norm()\n', 'array of two', 'Y = array(2, 3)\n', 'element of no array', 'Y[0] ~= norm()\n', 'element of a variable', 'Y ~= norm()\nY[0] ~= norm()\n',
    'constant after sampling', 'X ~= norm()\na = 3\nY ~= norm(loc=a)\n', 'constant in a branch', H + 'if X > 1:\n    a = 2\nelse:\n    a = 3\n', 'constant in a loop', 'for i_ in range(2):\n    a = i_\n',
    'step of a range', 'X = array(4)\nfor i_ in range(0, 4, 2):\n    X[i_] ~= norm()\n', 'loop over a list', 'X = array(2)\nfor i_ in [0, 1]:\n    X[i_] ~= norm()\n', 'loop over a call', 'for i_ in enumerate([1]):\n    s1\n',
    'two targets', 'X = Y = 3\nZ ~= norm()\n', 'target of two names', '(X, Y) ~= norm()\n', 'target of two names in a range', 'for i_, i_2 in range(2):\n    s1\n',
    'list as target', '[X] ~= norm()\n', 'attribute as target', 'X.a ~= norm()\n',
    'sum of distributions', 'X ~= norm() + gamma(a=1)\n', 'distribution in a transform', H + 'Y = X + norm()\n',
    'product with a distribution', 'X ~= 2*norm()\n', 'random parameter', H + 'Y ~= norm(loc=X)\n', 'random weight', H + 'Y ~= X*norm() | x1*gamma(a=1)\n', 'random outcome', H + "Y ~= choice({'a': X, 'b': 1 - x1})\n",
    'random element as parameter', 'X = array(2)\nX[0] ~= norm()\nX[1] ~= norm(loc=X[0])\n',
    'condition on nothing', H + 'condition()\n', 'condition on two', H + 'condition(X > 1, N == 2)\n', 'constrain two', H + 'constrain({X: 1}, {N: 2})\n', 'constrain nothing', H + 'constrain()\n',
    'switch on an expression', H + 'switch (N + 1) cases (i_ in [n1]):\n    s1\n', 'switch without cases', H + 'for i_ in switch(N):\n    s1\n',
    'while', H + 'while X > 1:\n    s1\n', 'def', H + 'def f():\n    s1\n', 'with', H + 'with X as y:\n    s1\n', 'assert', H + 'assert X > 1\n', 'del', H + 'del X\n', 'return', H + 'return\n', 'class', H + 'class C:\n    s1\n',
    'augmented', H + 'X += 1\n', 'annotated', H + 'Y: int = 2*X\n', 'try', H + 'try:\n    s1\nfinally:\n    s2\n', 'raise', H + 'raise X\n', 'global', H + 'global X\n',
    'loop with else', 'for i_ in range(2):\n    s1\nelse:\n    s2\n', 'switch with else', H + 'switch (N) cases (i_ in [n1]):\n    s1\nelse:\n    s2\n',
    'misspelled call', H + 'conditon(X > 1)\n', 'call in a branch', H + 'if X > 1:\n    observe(N == 1)\nelse:\n    pass\n', 'while in a branch', H + 'if X > 1:\n    while True:\n        s1\nelse:\n    pass\n',
    'event as truth value', H + 'Y = 1 + (X if X > 0 else -X)\n', 'event as truth value of a condition', H + 'condition((X if X > 0 else -X) < 1)\n', 'event as truth value of a guard', H + 'if (X if N == 1 else -X) < 1:\n    s1\nelse:\n    s2\n',
    'event as truth value of a comprehension', H + 'Y = [X for i in [1, 2] if X > i][0]\n', 'unknown distribution', 'X ~= nodist(a=1)\n', 'unknown variable', H + 'Y = 2*Z\n', 'used before', 'Y = 2*X\nX ~= norm()\n',
    'syntax', 'X ~= \n', 'indentation', 'if X > 1:\nX ~= norm()\n',
]

def tasks(prop, tier):
    out = []
    if prop == 'C14':
        for s, k in expressions():
            out.append(Task('the event of ' + s, expression(s, k), bound='at most 4 operands' if s.count('_e') > 2 else None, **F_))
        tok = lambda s: sorted(set(re.findall(r'\b[xn]\d\b', s)))
        it = iter(PROGRAMS)
        for n, s in zip(it, it): out.append(Task('program: ' + n, program(s, s.replace('~=', '=') if 'text with' not in n else unoperator(s), tok(s)), bound='a program scheme: arbitrary statements, parameters and nesting within; at most 8 statements per block', **F_))
        it = iter(SWITCHES)
        for n, s, p in zip(it, it, it): out.append(Task('program: ' + n, program(s, p.replace('~=', '='), tok(s)), bound='a program scheme', **F_))
        it = iter(REJECTED)
        for n, s in zip(it, it): out.append(Task('rejected: ' + n, program(s, None, tok(s), True), bound='one ill-formed program', **F_))
    return out

def unoperator(s):
    import tokenize, io
    return s.replace('X ~=', 'X =').replace('Y ~=', 'Y =')

ASSUMPTIONS = {'C14': [
    'ast.parse and astunparse.unparse are inverse; exec runs the text it is given (the text the compiler renders is parsed and run by the verifier)',
    'a program of the language is a composition of the constructs in the schemes; statements within a construct are arbitrary (induction)',
    're.sub is that of Python, run on the concrete text of the scheme']}
