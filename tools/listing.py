"""writes CONTRACTS.md: every contract, its target, its scenarios and how it is decided"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from contracts.base import REGISTRY   # noqa
from contracts import load            # noqa

load()
out = ['# Contracts', '', 'Generated by tools/listing.py from contracts/.  "proof": every obligation is generated from the current source of the target',
       '(and of the functions it inlines) and discharged for all inputs; "bounded": the contract is evaluated on real calls only; proved contracts',
       'are evaluated on real calls as well, unless marked.', '', '| property | contract | function under contract | scenarios | decided by | callees by contract |', '|---|---|---|---|---|---|']
for c in sorted(REGISTRY.values(), key=lambda c: (c.prop, c.name)):
    how = 'proof' if c.prove else 'bounded'
    if c.rac == 'none':
        how += ' (no real calls)'
    by = sorted(c.summaries) + (sorted(c.stages['stages']) if c.stages else [])
    by = ', '.join(x.split('.')[-1] for x in by[:4]) + (' and %d more' % (len(by) - 4) if len(by) > 4 else '')
    out.append('| %s | %s | %s | %d | %s | %s |' % (c.prop, c.name, c.target, len(c.scenarios), how, by))
open(os.path.join(HERE, '..', 'CONTRACTS.md'), 'w').write('\n'.join(out) + '\n')
print(len(REGISTRY), 'contracts')
