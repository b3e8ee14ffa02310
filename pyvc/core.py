"""Paths, solver and symbolic values of the verifier.

A harness is executed symbolically, path by path, by deterministic
re-execution with a list of decisions.  Every `prove` on a path is one proof
obligation: path condition and not goal, discharged by z3.
"""
import time
from fractions import Fraction
import z3

INF = float('inf')


MAXGEN = 4                    # generations of instantiation terms

class Unsupported(Exception):
    """The code is outside the verified subset: undecided, never a violation."""

class Infeasible(Exception):
    """The current path condition is unsatisfiable."""

class OutOfBudget(Exception):
    pass

class CannotMerge(Exception):
    pass

class PyExc(Exception):
    """An exception raised by the interpreted program."""
    def __init__(self, cls, args=(), where=None):
        self.cls, self.eargs, self.where = cls, args, where
        super().__init__('%s at %s' % (getattr(cls, '__name__', cls), where))


# ---------------------------------------------------------------------------
# Formulas.  Python bools are used wherever possible.

def is_sym(b):
    return isinstance(b, z3.ExprRef)

def Not(a):
    if a is True: return False
    if a is False: return True
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)

def And(*xs):
    out = []
    for x in xs:
        if x is False: return False
        if x is True: continue
        if z3.is_true(x): continue
        if z3.is_false(x): return False
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)

def Or(*xs):
    out = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        if z3.is_true(x): return True
        if z3.is_false(x): continue
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def Implies(a, b):
    return Or(Not(a), b)

def Iff(a, b):
    if a is True: return b
    if b is True: return a
    if a is False: return Not(b)
    if b is False: return Not(a)
    if a.eq(b): return True
    return a == b

def IteB(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    return Or(And(c, a), And(Not(c), b))

def zb(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a

# ---------------------------------------------------------------------------
# Scalars: extended reals as a pair of a sign tag (-1: -inf, 0: finite,
# 1: +inf) and a real.

def real_of(v):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return z3.RealVal(v)
    if isinstance(v, Fraction): return z3.RealVal(v)
    if isinstance(v, float):
        f = Fraction(v)
        return z3.RealVal(f)
    return v

class Sc:
    """Symbolic extended real number."""
    __slots__ = ('tag', 'val', 'cls')
    def __init__(self, tag, val, cls=None):
        self.tag = tag
        self.val = val
        self.cls = cls      # optional: 'int' if known to be integral
    def __repr__(self):
        return 'Sc(%s, %s)' % (self.tag, self.val)

class SStr:
    """Symbolic string: an element of an infinite uninterpreted domain."""
    __slots__ = ('term',)
    def __init__(self, term):
        self.term = term
    def __repr__(self):
        return 'SStr(%s)' % (self.term,)

class OpaqueStr:
    """Text whose content the verifier does not track."""
    def __repr__(self):
        return 'OpaqueStr'

class Opaque:
    """A value the verifier carries around without looking inside."""
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Opaque(%s)' % (self.name,)

STRS = {}
def str_term(s):
    if isinstance(s, SStr): return s.term
    if s not in STRS: STRS[s] = -(len(STRS) + 1)
    return z3.IntVal(STRS[s])

def is_num(v):
    return isinstance(v, (int, float, Fraction, Sc)) or (is_sym(v) and z3.is_arith(v))

def lift(v):
    if isinstance(v, Sc): return v
    if isinstance(v, bool): return Sc(0, z3.RealVal(int(v)), 'int')
    if isinstance(v, int): return Sc(0, z3.RealVal(v), 'int')
    if isinstance(v, float):
        if v == INF: return Sc(1, z3.RealVal(0))
        if v == -INF: return Sc(-1, z3.RealVal(0))
        if v != v: raise Unsupported('nan')
        return Sc(0, real_of(v))
    if isinstance(v, Fraction): return Sc(0, real_of(v))
    if is_sym(v) and z3.is_int(v): return Sc(0, z3.ToReal(v), 'int')
    if is_sym(v) and z3.is_real(v): return Sc(0, v)
    raise Unsupported('not a number: %r' % (v,))

def tag_eq(a, k):
    return a == k if isinstance(a, int) else a == k

def sc_eq(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a.tag, int) and isinstance(b.tag, int):
        if a.tag != b.tag: return False
        if a.tag != 0: return True
        return simp(a.val == b.val)
    if a.tag is b.tag or (not isinstance(a.tag, int) and not isinstance(b.tag, int) and a.tag.eq(b.tag)):
        te = True
    else:
        te = a.tag == b.tag
    anyt = a.tag if not isinstance(a.tag, int) else b.tag
    if isinstance(a.tag, int) and a.tag != 0: return te
    if isinstance(b.tag, int) and b.tag != 0: return te
    return And(te, Or(anyt != 0, simp(a.val == b.val)))

def sc_lt(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a.tag, int) and isinstance(b.tag, int):
        if a.tag != b.tag: return a.tag < b.tag
        if a.tag != 0: return False
        return simp(a.val < b.val)
    tl = a.tag < b.tag
    return Or(tl, And(tag_eq(a.tag, 0), tag_eq(b.tag, 0), simp(a.val < b.val)))

def sc_le(a, b):
    return Not(sc_lt(b, a))

def simp(e):
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e

def sc_neg(a):
    a = lift(a)
    return Sc(-a.tag if isinstance(a.tag, int) else -a.tag, z3.simplify(-a.val), a.cls)

def sc_ite(c, a, b):
    if c is True: return a
    if c is False: return b
    a, b = lift(a), lift(b)
    if isinstance(a.tag, int) and isinstance(b.tag, int) and a.tag == b.tag:
        t = a.tag
    else:
        t = z3.If(c, z3.IntVal(a.tag) if isinstance(a.tag, int) else a.tag,
                  z3.IntVal(b.tag) if isinstance(b.tag, int) else b.tag)
    return Sc(t, z3.If(c, a.val, b.val), a.cls if a.cls == b.cls else None)


# ---------------------------------------------------------------------------

class Frame:
    __slots__ = ('prefix', 'pos', 'pending', 'conds', 'taken')
    def __init__(self, prefix):
        self.prefix = prefix     # decisions to replay
        self.pos = 0
        self.pending = []        # alternative prefixes found
        self.conds = []          # literals asserted by decisions on this path
        self.taken = []


class Obligation:
    __slots__ = ('name', 'status', 'detail', 'model', 'time', 'backend')
    def __init__(self, name, status, detail=None, model=None, time=0.0, backend='z3'):
        self.name, self.status, self.detail = name, status, detail
        self.model, self.time, self.backend = model, time, backend


class Ctx:
    """One path of one harness."""

    cur = None
    def __init__(self, run, prefix):
        Ctx.cur = self
        self.run = run
        self.frame = Frame(prefix)
        self.depth = 0
        self.solver = z3.Solver()
        # a short attempt with the incremental solver, then a fresh one
        self.fast = run.fast_ms is not None
        self.solver.set('timeout', run.fast_ms or run.check_ms)
        self.last = self.solver
        # branches are decided by the linear facts alone if asked: a path that
        # only the nonlinear facts exclude is explored for nothing
        self.lin = None
        if run.linear:
            self.lin = z3.Solver()
            self.lin.set('timeout', 500)
        self.asserted = {}
        self.assertions = []
        self.counter = {}
        self.foralls = []         # (sort, fn, guard, seen)
        self.pool = {'R': [], 'S': []}        # ground terms by sort; index sorts are added as needed
        self.poolids = {'R': set(), 'S': set()}
        self.gen = 0
        self.termgen = {}
        self.effects = 0          # counts actions on the context
        self.instances = {}
        self.bases = {}           # length term id -> Base
        self.sums = []            # (base, term function, value)
        self.sub_facts = None     # collects facts assumed in a nested exploration
        self.inputs = []          # (label, builder) for counterexamples
        self.trusted = run.trusted

    # -- fresh symbols
    def fresh(self, base):
        self.effects += 1
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n)
    def real(self, base='r'):
        t = z3.Real(self.fresh(base))
        self.add_term('R', t)
        return t
    def int_(self, base='i'):
        return z3.Int(self.fresh(base))
    def bool_(self, base='b'):
        return z3.Bool(self.fresh(base))
    def num(self, base='x', finite=False):
        """A symbolic number; extended unless finite."""
        v = self.real(base)
        if finite: return Sc(0, v)
        t = z3.Int(self.fresh(base + '_tag'))
        self.assume(z3.And(t >= -1, t <= 1))
        return Sc(t, v)
    def string(self, base='s'):
        t = z3.Int(self.fresh(base))
        self.add_term('S', t)
        return SStr(t)

    # -- quantified facts, instantiated over the pool of ground terms
    def add_term(self, sort, t):
        self.effects += 1
        if isinstance(t, (int, float, Fraction)): t = real_of(t) if sort == 'R' else z3.IntVal(t)
        i = t.get_id()
        if sort not in self.pool: self.pool[sort], self.poolids[sort] = [], set()
        if i in self.poolids[sort]:
            if self.gen < self.termgen.get(i, 0): self.termgen[i] = self.gen
            return
        # terms made from terms made from terms ... are not pursued for ever
        if self.gen > self.run.gen: return
        self.termgen[i] = self.gen
        self.poolids[sort].add(i)
        self.pool[sort].append(t)
        for fa in list(self.foralls):
            if fa[0] == sort: self._inst(fa, t)
    def forall(self, sort, fn, guard=True):
        """Assume: for all t of sort, guard implies fn(t)."""
        fa = (sort, fn, guard)
        self.foralls.append(fa)
        for t in list(self.pool.get(sort, ())): self._inst(fa, t)
    def _inst(self, fa, t):
        # an instantiation that did nothing but compute its formula is not repeated
        k = (id(fa[1]), t.get_id())
        hit = self.instances.get(k)
        if hit is not None: f = hit[2]
        else:
            old = self.gen
            self.gen = max(old, self.termgen.get(t.get_id(), 0) + 1)
            before = self.effects
            try: f = fa[1](t)
            finally: self.gen = old
            if self.effects == before: self.instances[k] = (fa[1], t, f)
        self._assert(Implies(fa[2], f))
    def see(self, v):
        """Register the real term of a scalar for instantiation."""
        if isinstance(v, SStr): self.add_term('S', v.term)
        elif isinstance(v, str): self.add_term('S', str_term(v))
        elif is_num(v): self.add_term('R', lift(v).val)
        return v

    # -- assertions
    def _assert(self, f):
        if f is True: return
        if f is False:
            self.solver.add(z3.BoolVal(False)); self.assertions.append(z3.BoolVal(False)); return
        if f.get_id() in self.asserted: return
        self.asserted[f.get_id()] = f
        self.assertions.append(f)
        self.solver.add(f)
        if self.lin is not None and not nonlinear(f): self.lin.add(f)
    def check_branch(self, f):
        if self.lin is None: return self.check(f)
        self.run.tick()
        t = time.time()
        r = z3.unknown if nonlinear(f) else self.lin.check(zb(f))
        if r != z3.unsat: r = self.solver.check(zb(f))
        self.run.solver_time += time.time() - t
        self.run.queries += 1
        return r
    def known(self, f):
        if f.get_id() in self.asserted: return True
        if z3.is_and(f): return all(self.known(x) for x in f.children())
        if z3.is_or(f): return any(self.known(x) for x in f.children())
        return False
    def assume(self, f):
        self.effects += 1
        if self.sub_facts is not None and f is not True:
            self.sub_facts.append(('fact', f))
        self._assert(f)
    def assume_forall(self, sort, fn, guard=True):
        self.effects += 1
        if self.sub_facts is not None:
            self.sub_facts.append(('forall', sort, fn, guard))
        self.forall(sort, fn, guard)
    def witness(self, base, sort='R'):
        """A fresh constant for an existential fact."""
        t = z3.Real(self.fresh(base)) if sort == 'R' else z3.Int(self.fresh(base))
        self.add_term(sort, t)
        return t

    def check(self, *extra):
        self.run.tick()
        t = time.time()
        extra = [zb(e) for e in extra]
        r = self.solver.check(*extra)
        if r == z3.unknown and self.fast:
            s = z3.Solver()
            s.set('timeout', self.run.check_ms)
            s.add(*self.assertions)
            s.add(*extra)
            r = s.check()
            self.last = s
        else: self.last = self.solver
        self.run.solver_time += time.time() - t
        self.run.queries += 1
        return r
    def given(self, f):
        """Restrict the current (nested) path to f."""
        if f is True: return
        if f is False: raise Infeasible()
        if f.get_id() in self.asserted: return
        self.frame.conds.append(f)
        self._split(f)
    def _split(self, f):
        if z3.is_and(f):
            for x in f.children(): self._split(x)
        self._assert(f)
        g = simp(f)
        if isinstance(g, bool): return
        if z3.is_and(g):
            for x in g.children(): self._assert(x)
        self._assert(g)

    def feasible(self):
        return self.check() != z3.unsat

    # -- branching
    def branch(self, cond):
        self.effects += 1
        if cond is True or cond is False: return cond
        if isinstance(cond, bool): return cond
        s = simp(cond)
        if isinstance(s, bool): return s
        cond = s
        if self.known(cond): return True
        n = Not(cond)
        if n.get_id() in self.asserted: return False
        if z3.is_and(cond) and any(self.known(simp_not(x)) for x in cond.children()): return False
        fr = self.frame
        if fr.pos < len(fr.prefix):
            val, forced = fr.prefix[fr.pos]
            fr.pos += 1
        else:
            rt = self.check_branch(cond)
            if rt == z3.unsat:
                val, forced = False, True
            else:
                rf = self.check_branch(n)
                if rf == z3.unsat:
                    val, forced = True, True
                else:
                    val, forced = True, False
                    fr.pending.append(list(fr.taken) + [(False, False)])
            fr.pos += 1
        fr.taken.append((val, forced))
        lit = cond if val else n
        fr.conds.append(lit)
        self._assert(lit)
        return val

    def choose(self, n, why=''):
        """Nondeterministic choice among n alternatives."""
        for i in range(n - 1):
            b = z3.Bool(self.fresh('choice'))
            if self.branch(b): return i
        return n - 1

    # -- nested exploration
    def explore(self, thunk, max_paths=200):
        """All outcomes of thunk: list of (condition, 'ret'|'exc', value).
        Facts assumed inside are kept, guarded by the path they belong to."""
        self.effects += 1
        outer, outer_sub = self.frame, self.sub_facts
        todo, out = [[]], []
        self.depth += 1
        try:
            while todo:
                if len(out) > max_paths: raise CannotMerge('too many paths')
                self.frame = Frame(todo.pop())
                self.sub_facts = []
                nfa, nas = len(self.foralls), len(self.assertions)
                npool = {k: len(v) for k, v in self.pool.items()}
                self.solver.push()
                if self.lin is not None: self.lin.push()
                try:
                    try:
                        res = ('ret', thunk())
                    except PyExc as e:
                        res = ('exc', e)
                    except Infeasible:
                        res = None
                    except Unsupported:
                        if self.check() != z3.unsat: raise
                        res = None
                finally:
                    fr, facts = self.frame, self.sub_facts
                    self.solver.pop()
                    if self.lin is not None: self.lin.pop()
                    for f in self.assertions[nas:]:
                        self.asserted.pop(f.get_id(), None)
                    del self.assertions[nas:]
                    del self.foralls[nfa:]
                    late = []
                    for k in self.pool:
                        n = npool.get(k, 0)
                        for t in self.pool[k][n:]:
                            late.append((k, t))
                            self.poolids[k].discard(t.get_id())
                        del self.pool[k][n:]
                    self.frame, self.sub_facts = outer, outer_sub
                todo.extend(fr.pending)
                cond = And(*fr.conds)
                if res is None:
                    # the branch is dead: its facts are not needed
                    continue
                for k, t in late: self.add_term(k, t)
                for f in facts:
                    if f[0] == 'fact': self.assume(Implies(cond, f[1]))
                    else: self.assume_forall(f[1], f[2], And(cond, f[3]))
                out.append((cond, res[0], res[1]))
        finally:
            self.depth -= 1
        return out

    def merged(self, thunk):
        """Evaluate thunk; join its paths into one value if possible,
        otherwise let them fork the current path."""
        try:
            outs = self.explore(thunk)
            if not outs: raise Infeasible()
            if any(o[1] == 'exc' for o in outs): raise CannotMerge('exception')
            return merge_values([(c, v) for c, _, v in outs])
        except CannotMerge:
            return thunk()

    # -- proof obligations
    def prove(self, name, goal, detail=None):
        run = self.run
        run.tick()
        t0 = time.time()
        if goal is True:
            run.obligation(name, 'discharged', 'simplified', t0); return True
        ng = Not(goal)
        r = self.check(ng)
        backend = 'z3'
        if r == z3.unknown:
            r, backend = self.second_opinion(ng)
        if r == z3.unsat:
            if run.cross: run.cross_check(self.assertions + [zb(ng)], name)
            run.obligation(name, 'discharged', None, t0, backend=backend)
            return True
        if r == z3.sat:
            m = None
            if backend == 'z3':
                m = self.last.model()
            run.obligation(name, 'refuted', detail, t0, model=self.concretise(m, ng), backend=backend)
            return False
        run.obligation(name, 'unknown', 'solver returned unknown', t0)
        return None

    def second_opinion(self, ng):
        s = z3.Solver()
        s.set('timeout', self.run.prove_ms)
        s.add(*self.assertions); s.add(zb(ng))
        t = time.time()
        r = s.check()
        self.run.solver_time += time.time() - t
        if r != z3.unknown:
            if r == z3.sat: self._model = s.model()
            return r, 'z3-noninc'
        from . import backends
        r = backends.cvc5_check(self.assertions + [zb(ng)], self.run.prove_ms)
        return r, 'cvc5'

    def fail(self, name, detail):
        """An obligation that is false on this (feasible) path."""
        t0 = time.time()
        r = self.check()
        if r == z3.unsat: raise Infeasible()
        if r == z3.unknown:
            self.run.obligation(name, 'unknown', detail, t0); return
        self.run.obligation(name, 'refuted', detail, t0, model=self.concretise(self.last.model(), None))

    def concretise(self, m, ng):
        if m is None: return None
        out = {}
        for label, fn in self.inputs:
            try:
                out[label] = fn(m)
            except Exception as e:       # pragma: no cover
                out[label] = 'unavailable: %s' % (e,)
        return out


_nonlin = {}
def nonlinear(f):
    """Does the formula multiply or divide by a non-constant?"""
    if isinstance(f, bool): return False
    k = f.get_id()
    if k in _nonlin: return _nonlin[k][1]
    r = False
    if z3.is_mul(f): r = sum(not z3.is_rational_value(x) and not z3.is_int_value(x) for x in f.children()) > 1
    elif z3.is_div(f): r = not z3.is_rational_value(f.arg(1))
    elif f.decl().kind() == z3.Z3_OP_POWER: r = True
    if not r: r = any(nonlinear(x) for x in f.children())
    _nonlin[k] = (f, r)
    return r

def simp_not(f):
    g = simp(Not(f))
    return z3.BoolVal(g) if isinstance(g, bool) else g

def merge_values(pairs):
    vals = [v for _, v in pairs]
    v0 = vals[0]
    if all(v is v0 for v in vals): return v0
    for v in vals:
        if hasattr(v, 'vc_merge'): return v.vc_merge(pairs)
    if all(isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)) for v in vals):
        return Or(*[And(c, v) for c, v in pairs])
    if all(type(v) in (int, float, str) and type(v) is type(v0) and v == v0 for v in vals): return v0
    if all(is_num(v) and not isinstance(v, bool) for v in vals):
        r = vals[-1]
        for c, v in reversed(pairs[:-1]): r = sc_ite(c, v, r)
        return r
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
        return tuple(merge_values([(c, v[i]) for c, v in pairs]) for i in range(len(v0)))
    raise CannotMerge('values %s' % ([type(v).__name__ for v in vals],))


# ---------------------------------------------------------------------------

class Run:
    """All paths of one harness."""
    def __init__(self, name, budget_s=60, check_ms=2000, prove_ms=10000, max_paths=20000, cross=False, fast_ms=None, linear=False, gen=MAXGEN):
        self.gen = gen
        self.fast_ms = fast_ms
        self.linear = linear
        self.name = name
        self.deadline = time.time() + budget_s
        self.check_ms, self.prove_ms = check_ms, prove_ms
        self.max_paths = max_paths
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.completed = 0
        self.obligations = []
        self.trusted = set()
        self.functions = set()
        self.undecided = []
        self.cross = cross
        self.crossed = 0
        self.stop_on_refuted = 3
        self.t0 = time.time()
    def tick(self):
        if time.time() > self.deadline: raise OutOfBudget()
    def obligation(self, name, status, detail, t0, model=None, backend='z3'):
        self.obligations.append(Obligation(name, status, detail, model, time.time() - t0, backend))
    def cross_check(self, assertions, name):
        from . import backends
        r = backends.cvc5_check(assertions, 5000)
        self.crossed += 1
        if r == z3.sat:
            self.undecided.append('cvc5 disagrees with z3 on %s' % (name,))

    def run(self, harness):
        todo = [[]]
        try:
            while todo:
                prefix = todo.pop()
                self.paths += 1
                if self.paths > self.max_paths: raise OutOfBudget()
                ctx = Ctx(self, prefix)
                try:
                    harness(ctx)
                    self.completed += 1
                except Infeasible:
                    pass
                except Unsupported as e:
                    if ctx.check() == z3.unsat: pass
                    else: self.undecided.append('unsupported: %s' % (e,))
                except CannotMerge as e:
                    self.undecided.append('merge: %s' % (e,))
                except RecursionError:
                    self.undecided.append('recursion limit')
                todo.extend(ctx.frame.pending)
                if sum(o.status == 'refuted' for o in self.obligations) >= self.stop_on_refuted: break
                if len(self.undecided) > 20: break
        except OutOfBudget:
            self.undecided.append('budget exhausted after %d paths' % (self.paths,))
        except z3.Z3Exception as e:
            self.undecided.append('z3: %s' % (e,))
        self.wall = time.time() - self.t0
        return self

    def drop_refuted(self):
        for o in self.obligations:
            if o.status == 'refuted': o.status = 'unknown'

    @property
    def status(self):
        st = [o.status for o in self.obligations]
        if 'refuted' in st: return 'refuted'
        if self.undecided or 'unknown' in st: return 'undecided'
        if not st or not self.completed: return 'vacuous'
        return 'proved'

def _modules(self, ctx, names=('sppl.sets',)):
    """The modules of /repo, executed once per process."""
    key = tuple(names)
    if key not in Run._mods:
        from .interp import Interp, load_module
        boot = Run('boot', budget_s=120)
        cell = {}
        def h(c):
            I = Interp(c)
            for n in names: load_module(I, n)
            cell['m'] = I.modules
        boot.run(h)
        if 'm' not in cell: raise Unsupported('loading modules: %s' % (boot.undecided,))
        Run._mods[key] = cell['m']
        Ctx.cur = ctx
    return Run._mods[key]
Run._mods = {}
Run.modules = _modules
