"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(V, 'checks', p + '.py')) and p in NOTE:
        t, lev, n = NOTE[p]
        checks.append({'property': p, 'quick_cmd': 'python3 checks/%s.py' % p, 'thorough_cmd': 'python3 checks/%s.py' % p,
                       'technique': t, 'level': lev, 'level_note': n})
    else: na.append({'property': p, 'reason': NA.get(p, 'check under construction')})
json.dump({'version': 1, 'setup_cmd': 'sh bin/setup', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks: every observation goes through public interfaces (plugin stdin/stdout, generated code, Java classes).'},
  open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
