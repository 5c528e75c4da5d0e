#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.dont_write_bytecode = True
import checks  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
man = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[])
for p in props:
    c = checks.CHECKS.get(p['id'])
    if not c:
        man['not_applicable'].append(dict(property=p['id'], reason='check not built yet'))
        continue
    mods = sorted({m[0] for m in c['models']} | {x['trace'] for x in c['parts']}
                  | {x['generate']['module'] for x in c['parts'] if 'generate' in x})
    man['checks'].append(dict(
        property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'],
        thorough_cmd='python3 run.py %s thorough' % p['id'],
        technique='TLA+ specification (%s): TLC model checking of the design, and TLC validation of traces recorded from the code' % ', '.join(mods),
        level='model_checking',
        level_note=c.get('note') or (
            'Design explored exhaustively by TLC within the constants of its configuration; the code is bound to it by '
            'replaying scenarios on the code in /repo and having TLC judge every recorded event with the specification. '
            'Assurance on the code covers the executions recorded (counts in the evidence file), not all inputs. '
            'Trusts the Java arithmetic kernel, which setup checks against its TLA+ definitions.')))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
