#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import models
checks = []
for i in range(1, 24):
    p = 'C%02d' % i
    checks.append(dict(
        property=p,
        quick_cmd='python3 tools/run.py ' + p,
        thorough_cmd='VERIF_TIER=thorough python3 tools/run.py ' + p,
        technique='TLA+ specification checked with TLC; trace validation of the real virtual machine against it'
                  + (' and replay of model behaviours (%s)' % models.MODEL_NAMES[p] if models.MODEL_NAMES.get(p) else ''),
        level='model_checking',
        level_note=models.NOTES.get(p, 'Every execution of the explored scripts is compared with the specification event by event; '
                                       'sampling beyond the exhaustive bounds. Trusts the harness and TLC.')))
m = dict(version=1,
         setup_cmd='python3 tools/setup.py',
         checks=checks,
         not_applicable=[],
         notes='No hooks: the harness uses only public interfaces of the crate.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
