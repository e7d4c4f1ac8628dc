"""Writes MANIFEST.json from properties.jsonl and proofs.json (run by hand after editing)."""
import json, pathlib
H = pathlib.Path(__file__).parent.parent
props = [json.loads(l) for l in open(H / 'properties.jsonl')]
meta = json.load(open(H / 'proofs.json'))['properties']
checks = []
for p in props:
    i = p['id']
    m = meta.get(i, {})
    checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique=m.get('technique', 'contracts on the real functions, checked at run time (bounded stand-in)'),
        level=m.get('level', 'exploration') if m.get('units') else 'exploration',
        level_note=m.get('level_note', 'Bounded: the contracts of the functions the property depends on are evaluated on generated inputs on the real, freshly built package; nothing is proved.')))
    if m.get('theorems'):
        checks[-1]['theorems'] = m['theorems']
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
    notes='No hooks in /repo are needed: every check reads the sources in /repo and builds them in a scratch folder.'), open(H / 'MANIFEST.json', 'w'), indent=1)
