#!/usr/bin/env python3
"""Writes CONTRACTS.md: every proof task with its bound."""
import os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '.')
sys.setrecursionlimit(100000)
from proofs import registry

out = ['# Proof tasks', '', 'Written by `mkcontracts.py`. Each task is one harness over the real functions;',
    'the functions a run has executed, and its obligations, are in `evidence/<id>.json`.', '']
for p in sorted(registry.MODULES):
    q = {t.name for t in registry.tasks(p, 'quick')}
    ts = registry.tasks(p, 'thorough')
    out += ['## %s (%s)' % (p, ', '.join(registry.MODULES[p])), '',
        '%d tasks, %d of them without a bound; %d in the thorough tier only.' % (len(ts), sum(t.bound is None for t in ts), sum(t.name not in q for t in ts)), '']
    groups = {}
    for t in ts: groups.setdefault(t.bound, []).append(t.name)
    for b in sorted(groups, key=lambda b: (b is not None, str(b))):
        out += ['* %s: %s' % ('**all inputs**' if b is None else 'bounded, ' + b, '; '.join('`%s`' % n.replace('`', "'").replace('|', '\\|') for n in sorted(groups[b])))]
    out.append('')
open('CONTRACTS.md', 'w').write('\n'.join(out))
