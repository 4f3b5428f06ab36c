#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and the notes below."""
import json
import os
import sys

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, ROOT)
from harness import registry  # noqa

checks = []
for pid in sorted(registry.CHECKS):
    tech, note = registry.NOTES[pid]
    checks.append(dict(
        property=pid,
        quick_cmd='/opt/venv/bin/python check.py %s' % pid,
        thorough_cmd='/opt/venv/bin/python check.py %s' % pid,
        technique=tech, level=registry.level(pid), level_note=note))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
missing = [i for i in ids if i not in registry.CHECKS]
out = dict(version=1,
           setup_cmd='/opt/venv/bin/python tools/setup_check.py',
           checks=checks,
           not_applicable=[dict(property=i, reason=registry.NOT_APPLICABLE.get(
               i, 'check not built yet')) for i in missing],
           notes='One explicit TLA+ specification (spec/), checked with TLC '
                 'and bound to the code by replaying enumerated behaviours '
                 'and validating recorded executions; see DESIGN.md.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'not claimed')
