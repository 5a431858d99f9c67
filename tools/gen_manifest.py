"""Writes MANIFEST.json from the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.checks import REG
TECH = {
 'C16': 'name-resolution, attribute and call-arity analysis of the syntax trees, plus abstract interpretation for escaping exceptions',
 'C08': 'constant propagation by abstract interpretation, truth-table comparison',
 'C19': 'abstract interpretation to algebraic normal forms',
}
NA = {
 'C25': 'quantifies over the distribution of a random chain in the limit of many iterations; no static argument bounds it (its '
        'one-step ingredients are claimed as C03, C04, C05, C10)',
}
PEND = {}
ps = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
na = []
for p in ps:
    c = p['id']
    if c in REG:
        r = REG[c]
        checks.append({'property': c, 'quick_cmd': 'python3 run.py %s' % c, 'thorough_cmd': 'python3 run.py %s --thorough' % c,
                       'technique': TECH.get(c, r.get('technique', 'abstract interpretation of the source (trace partitioning, counting '
                       'abstraction of the latent dimension, algebraic normal forms)')),
                       'level': r['level'], 'level_note': r['explain'] + ' Rule: ' + r['rule'] + '. Assumptions: '
                       + '; '.join(r.get('assume', [])) + '.'})
    else:
        na.append({'property': c, 'reason': NA.get(c, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
