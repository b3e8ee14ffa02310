"""Second solver: cvc5 through SMT-LIB text."""
import subprocess, tempfile, os
import z3

def cvc5_check(assertions, ms):
    s = z3.Solver()
    s.add(*assertions)
    text = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, f.name], capture_output=True, text=True, timeout=ms/1000 + 5)
        out = p.stdout.strip().splitlines()
        last = out[0] if out else ''
    except Exception:
        last = ''
    finally:
        os.unlink(f.name)
    return {'sat': z3.sat, 'unsat': z3.unsat}.get(last, z3.unknown)
