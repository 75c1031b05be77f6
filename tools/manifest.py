"""Source of MANIFEST.json (python3 tools/manifest.py writes it)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
LEVEL_NOTE = {}
TECH = {}
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  i = p['id']
  if i in CLAIMS:
    tech, level, note = CLAIMS[i]
    checks.append({'property': i, 'quick_cmd': './check.sh ' + i,
                   'thorough_cmd': './check.sh ' + i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': tech, 'level': level, 'level_note': note})
  else:
    na.append({'property': i, 'reason': NOT_CLAIMED.get(
        i, 'machinery not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC; conformance '
              'drivers in harness/. No hooks in /repo are needed.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
