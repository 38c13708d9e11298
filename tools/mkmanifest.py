#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODEC = ('TLA+ wire-format specification (TLC): generated vectors run through the real codec, every call history judged by TLC',
         'Exhaustive over all flag bytes and small frames in the model; the code is judged on every generated call history. '
         'Trusts TLC, the Go driver\'s field mapping, and covers the inputs generated, not all inputs.')
NOTES = {
    'C17': CODEC, 'C18': CODEC, 'C19': CODEC, 'C20': CODEC,
}
exec(open(os.path.join(V, 'tools', 'more_notes.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more_notes.py')) else None
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in NOTES:
        t, n = NOTES[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                            'thorough_cmd': 'python3 check.py %s thorough' % i,
                            'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check under construction'})
m['notes'] = 'Specification language: TLA+ (TLC). See DESIGN.md. No hooks in /repo; only fix: commits.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
