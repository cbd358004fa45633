"""Writes MANIFEST.json from the harness modules present and the list of properties."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = {f[:3].upper(): f for f in os.listdir(os.path.join(V, 'harness')) if f[0] == 'c' and f[1:3].isdigit()}
NA = {}
p = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for pr in props:
    i = pr['id']
    if i in NA or i not in have:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
        continue
    checks.append(dict(
        property=i,
        quick_cmd='python3-vt -W ignore -m symx.run %s --tier quick' % i,
        thorough_cmd='python3-vt -W ignore -m symx.run %s --tier thorough' % i,
        technique='symbolic execution of the real Python source with z3 deciding every branch and '
                  'assertion; counterexamples replayed on the unmodified code',
        level='model_checking',
        level_note='Bounded: every input within the bounds stated in the evidence file and in '
                   'harness/%s is decided by z3; outside them nothing is claimed. Trusts the '
                   'instrumentation and the value models in symx/ (cross-checked by replaying path '
                   'models on the unmodified code under PyPy).' % have[i]))
m = dict(version=1, setup_cmd='python3-vt -m compileall -q symx harness', checks=checks, not_applicable=na,
         notes='The checks instrument /repo/nxt in memory on every run; nothing is built or '
               'written in /repo. Known findings: known_findings.txt.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
