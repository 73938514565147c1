"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None), note=note, na=na))


exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('note', 'na')}) + '\n')

GENERIC = ('Deductive proof over the SSA of the current source: every obligation generated from the code is discharged by z3 for all '
           'inputs and all loop iterations. Trusts the VC generator in vc/, go/ssa, z3 and the contracts assumed on library functions '
           '(listed in the evidence); integers are mathematical, paths that panic are excluded unless the property says otherwise. '
           'A bounded run of the same contracts on the compiled code cross-checks the generator and finds failing inputs; it is not counted as proof.')
m = dict(version=1, setup_cmd='sh ./setup.sh', checks=[], not_applicable=[], notes='See DESIGN.md. hooks: none; contracts are added through a build overlay, /repo carries no annotations.')
for p in P:
    if p['na']:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='./check %s --thorough' % p['id'],
                            evidence_file='evidence/%s.json' % p['id'],
                            technique='contract-based deductive verification: Go SSA verification conditions discharged by z3',
                            level='proof', level_note=(p['note'] + ' ' if p['note'] else '') + GENERIC))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'claimed')
