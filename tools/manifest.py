"""writes MANIFEST.json from the table of claimed properties below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lpa import registry
rules = registry.load()
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = {}
exec(open(V + '/tools/techniques.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in rules:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i + ' thorough',
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i][0], 'level': 'other', 'level_note': TECH[i][1] + ' ' + COMMON})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash extract/build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check parses /repo with the clang front end on each run (extract/, built by setup_cmd), abstractly interprets the functions concerned into canonical effect summaries (lpa/interp.py) and compares them with the rule of the property. Nothing of /repo is executed.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
