"""Writes MANIFEST.json from the registered analyses and properties.jsonl."""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/engine']
import jobs; jobs.load()
from claims import CLAIMS, NOTAPPL
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in CLAIMS and any(i in j.props for j in jobs.JOBS.values()):
        t, n = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i, technique=t, level='other', level_note=n))
    else: na.append(dict(property=i, reason=NOTAPPL.get(i, 'no static check of this property has been built yet')))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0,\'engine\'); import prog; prog.exporter()"', checks=checks, not_applicable=na), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
