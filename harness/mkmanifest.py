"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    pid = p['id']
    f = os.path.join(V, 'harness', 'checks', pid.lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=pid, reason=NA.get(pid, 'No check built yet.')))
        continue
    src = open(f).read()
    m = re.search(r"^TECHNIQUE = \(?((?:\s*'[^'\n]*')+)\)?", src, re.M)
    tech = ''.join(re.findall(r"'([^'\n]*)'", m.group(1))) if m else (
        'property-based testing (Hypothesis) against an explicit oracle')
    checks.append(dict(
        property=pid,
        quick_cmd='python3 /verif/harness/run.py %s' % pid,
        thorough_cmd='python3 /verif/harness/run.py %s --tier thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique=tech, level='exploration',
        level_note='Generated cases only; bounds and tolerances are in DESIGN.md '
                   'and in the evidence file.'))
doc = dict(version=1, setup_cmd='python3 /verif/harness/setup.py',
           checks=checks, not_applicable=na,
           notes='Checks import the package from /repo (SDVERIF_REPO overrides '
                 'the path) and work in a scratch directory they remove.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(doc, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
