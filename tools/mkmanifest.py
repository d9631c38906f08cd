#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{here}/properties.jsonl')]
NA = {
}
NOTES = json.load(open(f'{here}/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(f'{here}/sim/harness/{i.lower()}.cpp'):
        checks.append({
            'property': i, 'quick_cmd': f'bin/check {i}',
            'thorough_cmd': f'bin/check {i} --tier thorough',
            'technique': 'deterministic simulation with fault injection: ' + NOTES[i][0],
            'level': 'exploration', 'level_note': NOTES[i][1]})
    else:
        na.append({'property': i, 'reason': 'harness not built yet'})
m = {'version': 1, 'setup_cmd': 'bin/check --build-all',
     'checks': checks, 'not_applicable': na}
open(f'{here}/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print([c['property'] for c in checks], [n['property'] for n in na])
