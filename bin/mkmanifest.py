"""writes MANIFEST.json from the registered checks"""
import json, sys
sys.path.insert(0, '/verif/bin')
from checks import CHECKS
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
TECH = "TLA+ specification checked with TLC: cases generated from the specification, run through the real code, and the recorded traces checked against the specification"
NOTE = json.load(open('/verif/bin/level_notes.json'))
m = dict(version=1, setup_cmd="bash bin/setup.sh", hooks=dict(guard="verif", enable="no hooks are needed: the checks use the public API only", source_commits=[]),
         checks=[dict(property=p['id'], quick_cmd="python3 bin/check.py " + p['id'], thorough_cmd="python3 bin/check.py " + p['id'],
                      technique=NOTE[p['id']].get("technique", TECH), level="model_checking", level_note=NOTE[p['id']]["note"])
                 for p in props if p['id'] in CHECKS],
         not_applicable=[dict(property=p['id'], reason=NOTE.get(p['id'], {}).get("na", "the check is not built yet")) for p in props if p['id'] not in CHECKS])
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), len(m['not_applicable']))
