"""C13, C14, C18: programs and their texts."""
from programs import *
from s_spe import guard, compare, usable, gen_model_events, has_tiny_cond, denote

def outcome(cmds):
    """('model', comps) or ('error', why) of a program."""
    try:
        return 'model', denote_program(cmds)
    except (NotExhaustive, NullCondition) as e:
        return 'error', type(e).__name__

def same_model(lib, comps, vs, es):
    got, want = sorted(str(s) for s in lib.get_symbols()), sorted(vs)
    if got != want: return 'the model has variables %s instead of %s' % (got, want)
    for e in es:
        r = compare(lib, comps, e, 'probability')
        if r: return r
    return None

def attempt(f):
    try:
        return f(), None
    except (RecursionError, MemoryError): raise
    except Exception as e:
        if type(e).__name__ == 'TooLong': raise
        return None, e

@suite('C13')
class Commands:
    """programs of at most about 8 assignments, nesting 3, 2 conditions; loops of at most 3 rounds"""
    name = 'program.commands'
    @staticmethod
    def gen(rng, tier):
        while True:
            g = Gen(rng, False)
            p, vs = g.program()
            yield [p, program_events(rng, vs, 4), sorted(vs)]
    @staticmethod
    @guard
    def check(case):
        p, es, vs = case
        kind, comps = outcome(p)
        c = to_command(p)
        lib, err = attempt(lambda: c.interpret())
        if kind == 'error':
            return 'a program with a %s is accepted' % comps if err is None else None
        if err is not None: return 'the program is rejected: %s: %s' % (type(err).__name__, err)
        r = same_model(lib, comps, vs, es)
        if r: return r
        again, err = attempt(lambda: c.interpret())
        if err is not None: return 'the program is rejected when interpreted again: %s: %s' % (type(err).__name__, err)
        r = same_model(again, comps, vs, es[:1])
        return r and 'interpreted again: ' + r

@suite('C14')
class Texts:
    """texts of programs of at most about 8 assignments, nesting 3; one of the printed forms of each construct"""
    name = 'program.text'
    @staticmethod
    def gen(rng, tier):
        while True:
            g = Gen(rng, True)
            p, vs = g.program()
            yield [p, program_events(rng, vs, 3), sorted(vs), g.arrays, rng.randrange(10000)]
    @staticmethod
    @guard
    def check(case):
        from sppl.compilers.sppl_to_python import SPPL_Compiler
        p, es, vs, arrays, style = case
        kind, comps = outcome(p)
        text = to_text(p, arrays, style)
        lib, err = attempt(lambda: SPPL_Compiler(text).execute_module().model)
        if kind == 'error':
            return 'a program with a %s is accepted: %s' % (comps, text) if err is None else None
        if err is not None: return 'the program is rejected: %s: %s: %s' % (type(err).__name__, err, text)
        r = same_model(lib, comps, vs, es)
        return r and r + ': ' + text

# -- ill-formed programs

FAULTS = ['redeclare', 'no else', 'scalar in for', 'unknown operand', 'late constant', 'array again', 'range step', 'other name',
    'tuple target', 'positional', 'weights', 'unknown distribution', 'undeclared array', 'out of range', 'element twice',
    'null condition', 'not exhaustive', 'unknown guard', 'array in branch', 'self definition', 'nominal operand', 'two variables', 'starred call',
    'while', 'def', 'augmented', 'annotated', 'misspelled', 'for else', 'event as truth value', 'random parameter', 'condition on two']

def faulty(text, vs, fault, k):
    """The text with one fault added at the end."""
    v = sorted(vs)[k % len(vs)]
    num_ = sorted(n for n, t in vs.items() if t == 'num')
    t = num_[k % len(num_)] if num_ else None
    name = sorted(n for n in vs if '[' not in n)
    D = ['norm(loc=0, scale=1)', 'bernoulli(p=0.5)', "choice({'a': 1})"][k % 3]
    if fault == 'redeclare': return text + '%s ~= %s\n' % (name[0], D) if name else None
    if fault == 'no else': return text + 'if (%s > 0):\n    NEW ~= %s\n' % (t, D) if t else None
    if fault == 'scalar in for': return text + 'for i in range(%d):\n    NEW ~= %s\n' % (1 + k % 3, D)
    if fault == 'unknown operand': return text + 'NEW ~= 2*UNKNOWN + 1\n'
    if fault == 'late constant': return text + 'NEW = %s\n' % ['3', '"a"', '[1, 2]'][k % 3]
    if fault == 'array again': return text.replace("inf = float('inf')\n", "inf = float('inf')\nQ = array(2)\nQ = array(3)\n")
    if fault == 'range step': return text.replace("inf = float('inf')\n", "inf = float('inf')\nQ = array(4)\n") + 'for i in range(0, 4, 2):\n    Q[i] ~= %s\n' % D
    if fault == 'other name': return text + 'if (%s > 0):\n    NEW ~= %s\nelse:\n    OTHER ~= %s\n' % (t, D, D) if t else None
    if fault == 'tuple target': return text + '%s ~= %s\n' % (['(NEW, OTHER)', '[NEW]'][k % 2], D)
    if fault == 'positional': return text + 'NEW ~= %s\n' % ['norm(0, 1)', 'bernoulli(0.5)', 'uniform(0, 1)'][k % 3]
    if fault == 'weights': return text + 'NEW ~= %s\n' % ['0.5*norm(loc=0, scale=1) | 0.4*norm(loc=1, scale=1)', '0.5*norm(loc=0, scale=1) | 0.6*norm(loc=1, scale=1)', "choice({'a': 0.5})"][k % 3]
    if fault == 'unknown distribution': return text + 'NEW ~= nodist(loc=0)\n'
    if fault == 'undeclared array': return text + 'Q[0] ~= %s\n' % D
    if fault == 'out of range': return text.replace("inf = float('inf')\n", "inf = float('inf')\nQ = array(2)\n") + 'for i in range(3):\n    Q[i] ~= %s\n' % D
    if fault == 'element twice': return text.replace("inf = float('inf')\n", "inf = float('inf')\nQ = array(2)\n") + 'Q[0] ~= %s\nQ[0] ~= %s\n' % (D, D)
    if fault == 'null condition': return text + 'condition((%s > 1) and (%s < 0))\n' % (t, t) if t else None
    if fault == 'not exhaustive': return text + "NEW ~= choice({'x': 0.5, 'y': 0.5})\nswitch (NEW) cases (s in ['x']):\n    OTHER ~= %s\n" % D
    if fault == 'unknown guard': return text + 'if (UNKNOWN > 0):\n    NEW ~= %s\nelse:\n    NEW ~= %s\n' % (D, D)
    if fault == 'array in branch': return text + 'if (%s > 0):\n    Q = array(2)\nelse:\n    Q = array(2)\n' % t if t else None
    if fault == 'self definition': return text + 'NEW ~= 2*NEW\n'
    if fault == 'nominal operand': return text + "NEW ~= choice({'x': 0.5, 'y': 0.5})\nOTHER ~= 2*NEW\n"
    if fault == 'two variables': return text + 'NEW ~= norm(loc=0, scale=1)\nOTHER ~= norm(loc=0, scale=1)\nTHIRD ~= NEW + OTHER\n'
    if fault == 'starred call': return text + 'NEW ~= 2*norm(loc=0, scale=1)\n'
    if fault == 'while': return text + 'while False:\n    NEW ~= %s\n' % D
    if fault == 'def': return text + 'def f():\n    NEW ~= %s\n' % D
    if fault == 'augmented': return text + '%s += 1\n' % t if t in name else None
    if fault == 'annotated': return text + 'NEW: int = 2*%s\n' % t if t else None
    if fault == 'misspelled': return text + '%s(%s > -10000)\n' % (['conditon', 'observe', 'Condition'][k % 3], t) if t else None
    if fault == 'for else': return text.replace("inf = float('inf')\n", "inf = float('inf')\nQ = array(2)\n") + 'for i in range(1):\n    Q[i] ~= %s\nelse:\n    pass\n' % D
    if fault == 'event as truth value': return text + 'NEW = 1 + (%s if %s > 0 else -%s)\n' % (t, t, t) if t else None
    if fault == 'random parameter': return text + 'NEW ~= norm(loc=%s)\n' % t if t else None
    if fault == 'condition on two': return text + 'condition(%s > -10000, %s > -10000)\n' % (t, t) if t else None
    raise ValueError(fault)

@suite('C14')
class Rejected:
    """well-formed program texts with one of 32 kinds of fault"""
    name = 'program.rejected'
    weight = .4
    @staticmethod
    def gen(rng, tier):
        while True:
            g = Gen(rng, True)
            p, vs = g.program()
            yield [p, vs, g.arrays, rng.randrange(10000), rng.choice(FAULTS), rng.randrange(12)]
    @staticmethod
    @guard
    def check(case):
        from sppl.compilers.sppl_to_python import SPPL_Compiler
        p, vs, arrays, style, fault, k = case
        text = to_text(p, arrays, style)
        bad = faulty(text, vs, fault, k)
        if bad is None: return None
        lib, err = attempt(lambda: SPPL_Compiler(bad).execute_module().model)
        if err is None: return 'a program with a fault (%s) is accepted: %s' % (fault, bad)
        return None

# -- rendering

def renderable(m):
    if m[0] == 'leaf': return True
    if m[0] == 'sum': return all(renderable(x) for _, x in m[1])
    if m[0] == 'prod': return all(renderable(x) for x in m[1])
    if m[0] == 'cond': return renderable(m[1])

def renamed(rng, case):
    """Other names of variables: elements of arrays, and those the renderer chooses."""
    if rng.random() < .6: return case
    new = rng.sample(['branch_var_0', 'branch_var_1', 'branch_var_2', 'A[0]', 'A[7]', 'A[11]', 'B[3]', 'branch_var'], 3)
    sub = dict(zip('XYZ', new))
    def f(x):
        if isinstance(x, list):
            if x[:1] == ['var'] : return ['var', sub.get(x[1], x[1])]
            if x[:1] == ['leaf']: return ['leaf', sub.get(x[1], x[1])] + [f(y) for y in x[2:]]
            return [f(y) for y in x]
        return x
    return f(case)

@suite('C18')
class Rendering:
    """models with at most 3 base variables and nesting 2, also conditioned; 11 names of variables"""
    name = 'render.program'
    @staticmethod
    def gen(rng, tier):
        for m, es in gen_model_events(rng, 3):
            if renderable(m): yield renamed(rng, [m, es])
    @staticmethod
    @guard
    def check(case):
        from sppl.compilers.spe_to_sppl import render_sppl
        from sppl.compilers.sppl_to_python import SPPL_Compiler
        m, es = case
        if has_tiny_cond(m): return None
        comps = denote(m)
        lib = lib_model(m)
        text = render_sppl(lib).getvalue()
        model = SPPL_Compiler(text).execute_module().model
        missing = [str(s) for s in lib.get_symbols() if s not in model.get_symbols()]
        if missing: return 'the program lacks %s: %s' % (missing, text)
        for e in es:
            r = compare(model, comps, e, 'probability')
            if r: return r + ' in ' + text
        return None

# -- dictionary form

def same_up_to_printing(a, b):
    """Equality of models with numbers agreeing to the printed precision."""
    from sppl.spe import SumSPE, ProductSPE, NominalLeaf, AtomicLeaf
    if type(a) is not type(b): return False
    if isinstance(a, (SumSPE, ProductSPE)):
        return len(a.children) == len(b.children) and all(same_up_to_printing(x, y) for x, y in zip(a.children, b.children)) \
            and (isinstance(a, ProductSPE) or all(abs(x - y) < 1e-9 for x, y in zip(a.weights, b.weights)))
    if [str(s) for s in a.env] != [str(s) for s in b.env]: return False
    return a.symbol == b.symbol and (not isinstance(a, NominalLeaf) or a == b)

@suite('C15')
class Dictionary:
    """models with at most 3 base variables and nesting 2, also conditioned, constrained and with piecewise definitions"""
    name = 'dict.roundtrip'
    @staticmethod
    def gen(rng, tier):
        for m, es in gen_model_events(rng, 3):
            yield [m, es, rng.random() < .5]
    @staticmethod
    @guard
    def check(case):
        import json
        from sppl.compilers.spe_to_dict import spe_to_dict, spe_from_dict
        m, es, through_json = case
        if has_tiny_cond(m): return None
        comps = denote(m)
        lib = lib_model(m)
        d = spe_to_dict(lib)
        if through_json: d = json.loads(json.dumps(d))
        back = spe_from_dict(d)
        if not (back == lib or same_up_to_printing(back, lib)): return 'read back a different model: %s' % (d,)
        if back.get_symbols() != lib.get_symbols(): return 'read back other variables'
        for e in es:
            r = compare(back, comps, e, 'probability')
            if r: return r + ' in the model read back from %s' % (d,)
        return None
