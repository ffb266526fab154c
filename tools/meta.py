"""Generates properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, level='proof', note='', state=(), observe=(), tech=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                                hook_needed=None)), level, note, tech))


def na(id, *a, reason, **k):
    prop(id, *a, **k)
    P[-1] = P[-1] + (reason,)


SUITE = ('The stable tests only run a few fixed models and assert nothing about this; ')
PROOF = ('Every obligation generated from the current source of the listed functions is discharged for all inputs, sizes and '
         'iterations over the reals (canonical algebra, z3, cvc5); float rounding, numba compilation and the engine itself are trusted. '
         'An obligation the engine cannot decide after an edit falls back to a bounded contract check on real calls and is reported as such.')
exec(open(os.path.join(H, 'tools', 'props.py')).read())

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p[0]) + '\n')
checks, nas = [], []
for p in P:
    if len(p) > 4:
        nas.append(dict(property=p[0]['id'], reason=p[4]))
        continue
    i = p[0]['id']
    checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=p[3] or 'contract-based deductive verification of the Python source (symbolic interpretation + algebra/z3/cvc5)',
                       level=p[1], level_note=p[2] or PROOF))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=nas,
         notes='See DESIGN.md. No hooks are needed in /repo: contracts are read beside the code, the verifier interprets the source of /repo on every run.')
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(checks), 'claimed', len(nas), 'n/a')
