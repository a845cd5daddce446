#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
from vf import registry  # noqa: E402

HERE = pathlib.Path(__file__).resolve().parent
props = [json.loads(x) for x in (HERE / 'properties.jsonl').open()]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in registry.MODULE:
        note = registry.NOTE.get(pid, '')
        checks.append({
            'property': pid,
            'quick_cmd': f'python3-vt check.py {pid} quick',
            'thorough_cmd': f'python3-vt check.py {pid} thorough',
            'technique': 'TLA+ specification model-checked with TLC and '
                         'bound to the code by trace validation '
                         '(recorded and TLC-generated behaviours)',
            'level': 'model_checking',
            'level_note': note or 'TLC checks the specification exhaustively '
            'within small constants; every behaviour recorded from the '
            'rebuilt library must be a behaviour of the specification. '
            'Bounded by the inputs and histories driven; numeric results '
            'are compared within the rounding stated in the specification.'})
    else:
        na.append({'property': pid,
                   'reason': registry.NOT_APPLICABLE.get(
                       pid, 'check not built yet')})
(HERE / 'MANIFEST.json').write_text(json.dumps({
    'version': 1,
    'setup_cmd': 'python3-vt -m vf.build --setup',
    'checks': checks, 'not_applicable': na}, indent=1) + '\n')
