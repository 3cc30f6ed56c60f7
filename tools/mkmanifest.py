"""Regenerates MANIFEST.json from properties.jsonl and contracts/cNN.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    pid = d['id']
    if os.path.exists(os.path.join(V, 'contracts', 'c%s.py' % pid[1:])):
        cmd = '/opt/venv/bin/python -B vc/run.py %s' % pid
        n = NOTES.get(pid, {})
        checks.append({
            'property': pid, 'quick_cmd': cmd, 'thorough_cmd': cmd + ' --thorough',
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': n.get('technique', NOTES['default']['technique']),
            'level': n.get('level', 'proof'),
            'level_note': n.get('level_note', NOTES['default']['level_note'])})
    else:
        na.append({'property': pid, 'reason': NOTES.get(pid, {}).get(
            'na', 'contracts for this property are not built yet')})
json.dump({'version': 1,
           'setup_cmd': '/opt/venv/bin/python -B tools/selftest.py',
           'checks': checks, 'not_applicable': na,
           'notes': 'All checks read the Python/pyx sources under /repo afresh on every run; '
                    'nothing is built and nothing is cached between runs.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
