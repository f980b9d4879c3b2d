#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'checks'))
import specs
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, level_note='', na=None, technique=''):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=['dune/istl/' + f for f in files], mechanism=[dict(name=n, where='dune/istl/' + w) for n, w in mech], observe_at=observe, hook_needed='none'),
                  _ln=level_note, _na=na, _t=technique))
exec(open(os.path.join(HERE, 'tools', 'props.py')).read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
checks, na = [], []
for p in P:
    i = p['id']
    if i in specs.CHECKS and not p['_na']:
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=p['_t'] or 'bounded exhaustive exploration of the real code against a reference model',
                           level='model_checking', level_note=p['_ln'] or 'Every execution within the stated bounds is run on the real headers under AddressSanitizer/UBSan and compared with the reference model; nothing is claimed beyond the bounds.'))
    else:
        na.append(dict(property=i, reason=p['_na'] or 'no check built yet'))
m = dict(version=1, setup_cmd='python3 -m py_compile run.py checks/specs.py', checks=checks, not_applicable=na,
         hooks=dict(guard='none', enable='no hooks are needed: the harnesses include the headers of /repo as they are', source_commits=[]),
         notes='run.py <ID> compiles the harnesses under checks/<ID> against /repo and explores them; see DESIGN.md')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(na), 'not claimed')
# the section "Properties" of DESIGN.md
exec(open(os.path.join(HERE, 'tools', 'oracles.py')).read())
d = open(os.path.join(HERE, 'DESIGN.md')).read()
a, b = d.index('## Properties\n'), d.index('## Genuine defects repaired')
t = '## Properties\n'
for p in sorted(P, key=lambda p: p['id']):
    i = p['id']
    t += '### %s %s\n%s\n\n*Enumerated:* %s. *Bounds (quick):* %s. *Observed through:* %s. *Why tests cannot:* %s\n\n' % (
        i, p['title'], O[i], p['quantifier']['text'], specs.CHECKS[i]['bounds'], p['anchors']['observe_at'], p['why_tests_cant'])
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d[:a] + t + d[b:])
