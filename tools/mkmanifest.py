"""Regenerates MANIFEST.json from the checks that exist."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
notes = json.load(open(here + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if glob.glob('%s/checks/%s_*.py' % (here, i.lower())) and i in notes and 'na' not in notes[i]:
        n = notes[i]
        checks.append(dict(
            property=i, quick_cmd='python3 run.py %s' % i,
            thorough_cmd='python3 run.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=n['technique'], level='model_checking',
            level_note=n['note']))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get('na', 'check not built yet')))
m = dict(version=1, setup_cmd='python3 run.py --help > /dev/null', checks=checks, not_applicable=na)
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1, sort_keys=True)
open(here + '/MANIFEST.json', 'a').write('\n')
