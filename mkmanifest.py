"""Writes MANIFEST.json from the list of claimed properties."""
import json, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from claims import CLAIMS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5; print(z3.get_version_string())"', checks=[], not_applicable=[])
for p in props:
    if p in CLAIMS:
        m['checks'].append(dict(property=p, quick_cmd='python3-vt check.py %s quick' % p,
            thorough_cmd='python3-vt check.py %s thorough' % p,
            technique=CLAIMS[p][0], level=CLAIMS[p][1], level_note=CLAIMS[p][2]))
    else:
        m['not_applicable'].append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'no check built yet')))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
