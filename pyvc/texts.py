"""Text that mentions symbolic values, and program text.

A text is a list of literal strings and tokens.  A token stands for the text
of one value: reading it back gives the value.  The text of an arbitrary
object is an expression that no neighbouring operator can take apart (a name
or a call); that of a number is what Python and sympy print: a literal, a
literal after a minus sign, an infinity, or (for exact numbers of sympy) a sum.

Trees of the standard library module ast are handled as they are.
"""
import ast, io, re
from .core import *
from . import builtins_
from .interp import (ClassV, Obj, FuncV, NativeF, TypeV, PList, PSet, PDict, PIter, Scope,
    PyExc, Return, MISSING)

class Tok:
    def __init__(self, value): self.value = value
    def __repr__(self): return '<%r>' % (self.value,)

class Text(OpaqueStr):
    def __init__(self, parts): self.parts = parts
    def __repr__(self): return 'Text(%r)' % (self.parts,)
    def vc_truth(self, I):
        if any(isinstance(p, Tok) or p for p in self.parts): return True
        return False
    def vc_len(self, I):
        """At least one character for each token."""
        n = I.ctx.int_('length of a text')
        I.ctx.assume(n >= sum(1 if isinstance(p, Tok) else len(p) for p in self.parts))
        return Sc(0, z3.ToReal(n), 'int')
    def vc_eq(self, I, o):
        """Texts with a token differ from texts that are no expressions only."""
        if self is o: return True
        if isinstance(o, Text) and len(o.parts) == len(self.parts) and all(
                a.value is b.value if isinstance(a, Tok) and isinstance(b, Tok) else a == b
                for a, b in zip(self.parts, o.parts)): return True
        raise Unsupported('comparison of texts')

def mk(parts):
    out = []
    for p in parts:
        if isinstance(p, Text): ps = p.parts
        else: ps = [p]
        for q in ps:
            if isinstance(q, str) and out and isinstance(out[-1], str): out[-1] += q
            elif q != '' or isinstance(q, Tok): out.append(q)
    if not out: return ''
    if len(out) == 1 and isinstance(out[0], str): return out[0]
    return Text(out)

class Texts:
    def __init__(self, I):
        self.I = I
        self.names = {}            # placeholder -> value
        self.visit_hook = None

    # -- writing
    def number(self, v):
        I, ctx = self.I, self.I.ctx
        v = I.lift(v)
        sym = v.cls not in ('int', 'float', 'symint')
        oo = 'oo' if sym else 'inf'
        if not isinstance(v.tag, int) or v.tag:
            if ctx.branch(tag_eq(v.tag, 1)): return oo
            if ctx.branch(tag_eq(v.tag, -1)): return '-' + oo
        if sym:
            b = ctx.real('term')
            ctx.assume(b > 0)
            return mk([Tok(Sc(0, v.val - b, v.cls)), ' + ', Tok(Sc(0, b, v.cls))])
        if ctx.branch(simp(v.val >= 0)): return mk([Tok(Sc(0, v.val, v.cls))])
        return mk(['-', Tok(Sc(0, -v.val, v.cls))])
    def text(self, v, how):
        I = self.I
        if isinstance(v, Text):
            if how == 'str': return v
            return mk([Tok(v)])
        if isinstance(v, str): return repr(v) if how == 'repr' else v
        if isinstance(v, (bool, int, float)) or v is None: return repr(v)
        if isinstance(v, SStr): return mk([Tok(v)]) if how == 'repr' else v
        if is_sym(v) and z3.is_bool(v): return mk([Tok(v)])
        if I.isnum(v): return self.number(v)
        if isinstance(v, tuple):
            if len(v) == 1: return mk(['(', self.text(v[0], 'repr'), ',)'])
            return self.seq('(', v, ')')
        if isinstance(v, PList): return self.seq('[', v.items, ']')
        if isinstance(v, PSet):
            if v.frozen: raise Unsupported('text of a frozenset')
            return self.seq('{', v.items, '}')
        if hasattr(v, 'vc_text'): return v.vc_text(I, how)
        if isinstance(v, Obj):
            f = v.cls.lookup('__str__') if how == 'str' else MISSING
            if f is MISSING: f = v.cls.lookup('__repr__')
            if f is MISSING: raise Unsupported('text of %s' % v.cls.name)
            return I.call(f, [v], {})
        if how == 'repr': return mk([Tok(v)])
        raise Unsupported('text of %r' % (v,))
    def seq(self, l, xs, r):
        out = [l]
        for i, x in enumerate(xs):
            if i: out.append(', ')
            out.append(self.text(x, 'repr'))
        return mk(out + [r])
    def percent(self, fmt, args):
        I = self.I
        if not isinstance(fmt, str): raise Unsupported('format of a text')
        xs = list(args) if isinstance(args, tuple) else [args]
        out = []
        for m in re.finditer(r'%(%|[-+ 0#]*[\d.*]*([srdif]))|[^%]+', fmt):
            s = m.group(0)
            if s == '%%': out.append('%'); continue
            if not s.startswith('%'): out.append(s); continue
            if not xs: I.throw(TypeError, 'not enough arguments for format string')
            if '*' in s: raise Unsupported('format %s' % s)
            v = xs.pop(0)
            if s == '%s': out.append(self.text(v, 'str'))
            elif s == '%r': out.append(self.text(v, 'repr'))
            elif s == '%d':
                if isinstance(v, (str, OpaqueStr, SStr)): I.throw(TypeError, '%d format')
                if isinstance(v, (int, float)): out.append('%d' % v)
                elif isinstance(v, Sc) and v.cls == 'int': out.append(self.number(v))
                else: raise Unsupported('%d of a number')
            elif isinstance(v, (int, float, str)): out.append(s % v)
            else: raise Unsupported('format %s' % s)
        if xs: I.throw(TypeError, 'not all arguments converted')
        return mk(out)
    def join(self, sep, items):
        out = []
        for i, x in enumerate(items):
            if i: out.append(sep)
            if isinstance(x, SStr): raise Unsupported('join of names')
            if not isinstance(x, (str, Text)): self.I.throw(TypeError, 'join of %r' % (x,))
            out.append(x)
        return mk(out)

    def method(self, v, name, a):
        if name == 'replace' and all(isinstance(x, str) for x in a):
            return mk([p.replace(*a) if isinstance(p, str) else p for p in v.parts])
        if name == 'translate': return mk([p.translate(a[0]) if isinstance(p, str) else p for p in v.parts])
        if name == 'strip' and not a:
            ps = list(v.parts)
            if isinstance(ps[0], str): ps[0] = ps[0].lstrip()
            if isinstance(ps[-1], str): ps[-1] = ps[-1].rstrip()
            return mk(ps)
        raise Unsupported('%s of a text' % name)

    # -- reading
    def source(self, t):
        """Program text, with a placeholder for each token."""
        if isinstance(t, str): return t
        if not isinstance(t, Text): raise Unsupported('source %r' % (t,))
        out = []
        for p in t.parts:
            if isinstance(p, str): out.append(p); continue
            n = None
            for k, v in self.names.items():
                if v is p.value: n = k
            if n is None:
                n = '_tok%d_' % len(self.names)
                self.names[n] = p.value
            out.append(n)
        return ''.join(out)
    def unsource(self, s):
        """The text of a string with placeholders."""
        parts = re.split(r'(_tok\d+_)', s)
        return mk([Tok(self.names[p]) if p in self.names else p for p in parts])
    def parse(self, t, mode='exec'):
        src = self.source(t)
        try: return ast.parse(src, mode=mode)
        except SyntaxError as e: self.I.throw(SyntaxError, '%s: %s' % (e.msg, src))
    def eval(self, e, glob, names=()):
        scope = Scope(None, globals_=glob)
        scope.vars.update(self.names)
        scope.vars.update(dict(names))
        return self.I.eval(e, scope)
    def run(self, tree, glob):
        scope = Scope(None, globals_=glob)
        scope.vars = glob
        for k, v in self.names.items(): glob[k] = v
        self.I.exec_block(tree.body, scope)

def to_host(v):
    if isinstance(v, PList): return [to_host(x) for x in v.items]
    return v
def from_host(I, v):
    if isinstance(v, list):
        r = PList([], I.ctx.depth)
        r.items = v                  # changes of the list are changes of the tree
        return r
    return v

def node_type(c):
    def call(I, a, k):
        return c(*[to_host(x) for x in a], **{n: to_host(x) for n, x in k.items()})
    return TypeV('ast.' + c.__name__, lambda v: isinstance(v, c), call)

def visit(I, a, k):
    self, node = a
    if I.texts.visit_hook:
        r = I.texts.visit_hook(self, node)
        if r is not None: return r
    f = self.cls.lookup('visit_' + type(node).__name__)
    if f is not MISSING: return I.call(f, [self, node], {})
    return I.call(I.getattr(self, 'generic_visit'), [node], {})
def transform_fields(I, a, k):
    self, node = a
    m = I.getattr(self, 'visit')
    for name, old in ast.iter_fields(node):
        if isinstance(old, list):
            new = []
            for v in old:
                if isinstance(v, ast.AST):
                    v = to_host(I.call(m, [v], {}))
                    if v is None: continue
                    if isinstance(v, list): new.extend(v); continue
                new.append(v)
            old[:] = new
        elif isinstance(old, ast.AST):
            v = to_host(I.call(m, [old], {}))
            if v is None: delattr(node, name)
            else: setattr(node, name, v)
    return node
def visit_fields(I, a, k):
    self, node = a
    m = I.getattr(self, 'visit')
    for name, old in ast.iter_fields(node):
        for v in (old if isinstance(old, list) else [old]):
            if isinstance(v, ast.AST): I.call(m, [v], {})

VISITOR = ClassV('NodeVisitor', [], {'visit': NativeF('visit', visit), 'generic_visit': NativeF('generic_visit', visit_fields)}, 'ast')
TRANSFORMER = ClassV('NodeTransformer', [VISITOR], {'generic_visit': NativeF('generic_visit', transform_fields)}, 'ast')

builtins_.EXTERNAL['ast.NodeVisitor'], builtins_.EXTERNAL['ast.NodeTransformer'] = VISITOR, TRANSFORMER

class Code:
    def __init__(self, tree): self.tree = tree

class Stream:
    def __init__(self, I): self.text = ''
    def vc_truth(self, I): return True
    def vc_attr(self, I, name):
        if name == 'write':
            def write(I, a, k):
                if not isinstance(a[0], (str, Text)): raise Unsupported('write of %r' % (a[0],))
                self.text = mk([self.text, a[0]])
            return NativeF('write', write)
        if name == 'getvalue': return NativeF('getvalue', lambda I, a, k: self.text)
        return MISSING

class Generator:
    """A function decorated by contextmanager, with one yield."""
    def __init__(self, I, f, a, k):
        self.f, self.a, self.k = f, a, k
    def vc_with(self, I, body):
        f = self.f
        scope = Scope(f.scope, globals_=f.scope.globals if f.scope else None, func=f)
        I.bind_args(f, scope, self.a, self.k)
        at = [i for i, s in enumerate(f.node.body) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield)]
        if len(at) != 1 or sum(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)) != 1:
            raise Unsupported('context manager %s' % f.qual)
        I.ctx.run.functions.add(f.qual)
        I.exec_block(f.node.body[:at[0]], scope)
        body()
        try: I.exec_block(f.node.body[at[0] + 1:], scope)
        except Return: pass

def c_contextmanager(I, a, k):
    f = a[0]
    return NativeF('contextmanager', lambda I, b, kk: Generator(I, f, b, kk))

builtins_.EXTERNAL['contextlib.contextmanager'] = NativeF('contextmanager', c_contextmanager)

def unparse(T, v):
    v = to_host(v)
    if isinstance(v, list): return mk([unparse(T, x) for x in v])
    s = T.unsource(ast.unparse(ast.fix_missing_locations(v)))
    return mk(['\n', s, '\n']) if isinstance(v, (ast.stmt, ast.mod)) else mk([s, '\n'])

def install(I):
    """Before the modules are loaded."""
    T = I.texts = Texts(I)
    E = I.externals
    N = NativeF
    I.builtins['repr'] = N('repr', lambda I, a, k: T.text(a[0], 'repr'))
    attrs = I.builtins['str'].attrs
    I.builtins['str'] = TypeV('str', lambda v: isinstance(v, (str, SStr, OpaqueStr)),
        lambda I, a, k: T.text(a[0], 'str') if a else '')
    I.builtins['str'].attrs = dict(attrs, maketrans=N('maketrans', lambda I, a, k:
        str.maketrans(dict(a[0].pairs) if isinstance(a[0], PDict) else a[0], *a[1:])))
    I.builtins['compile'] = N('compile', lambda I, a, k: Code(a[0] if isinstance(a[0], ast.AST) else T.parse(a[0], a[2])))
    I.builtins['SyntaxError'] = SyntaxError
    def eval_(I, a, k):
        c = a[0] if isinstance(a[0], Code) else Code(T.parse(a[0], 'eval'))
        g = a[1] if len(a) > 1 else {}
        names = {kk: v for kk, v in a[2].pairs} if len(a) > 2 else {}
        if isinstance(g, PDict): g = {kk: v for kk, v in g.pairs}
        return T.eval(c.tree.body, g, names)
    I.builtins['eval'] = N('eval', eval_)
    for n in dir(ast):
        c = getattr(ast, n)
        if isinstance(c, type) and issubclass(c, ast.AST): E['ast.' + n] = node_type(c)
    E['ast.parse'] = N('ast.parse', lambda I, a, k: T.parse(a[0], k.get('mode', 'exec')))
    E['ast.fix_missing_locations'] = N('fix', lambda I, a, k: ast.fix_missing_locations(a[0]))
    E['ast.iter_fields'] = N('iter_fields', lambda I, a, k: PList([(n, from_host(I, v)) for n, v in ast.iter_fields(a[0])], I.ctx.depth))
    E['astunparse.unparse'] = N('unparse', lambda I, a, k: unparse(T, a[0]))
    import copy
    E['copy.deepcopy'] = N('deepcopy', lambda I, a, k: copy.deepcopy(a[0]) if isinstance(a[0], ast.AST) else I.throw(TypeError, 'deepcopy'))
    E['io.StringIO'] = N('StringIO', lambda I, a, k: Stream(I))
    E['os.linesep'] = '\n'
    def hook(I, what, *a):
        if what == 'attr' and isinstance(a[0], ast.AST):
            return from_host(I, getattr(a[0], a[1])) if hasattr(a[0], a[1]) else MISSING
        return MISSING
    I.hooks.append(hook)
    return T
