"""Writes properties.jsonl and MANIFEST.json from the property table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props_table import PROPS, NA
seen = set()
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert p['id'] not in seen and len(p['title']) <= 80, p['id']
        seen.add(p['id'])
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NA:
        continue
    checks.append(dict(property=p['id'], quick_cmd='bash run.sh %s' % p['id'], thorough_cmd='bash run.sh %s --thorough' % p['id'],
                       technique='contract-based deductive verification: contracts on the functions in /repo, obligations generated from their current source by pv and discharged by z3 (cvc5 fallback); counterexamples and seeded histories replayed on the real code',
                       level=p.get('level', 'proof'), level_note=p['note']))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='Every check parses /repo/src/skmultiflow on each run; nothing is cached. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
