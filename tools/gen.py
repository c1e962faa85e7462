"""Writes properties.jsonl and MANIFEST.json from props.py, so that the two stay in step."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, NOTES

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps({
            'id': p['id'],
            'title': p['title'],
            'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quantifier']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                **({'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]} if p.get('state') else {}),
                'observe_at': p['observe'],
            },
        }) + '\n')

manifest = {
    'version': 1,
    'setup_cmd': './check.sh setup',
    'checks': [
        {
            'property': p['id'],
            'quick_cmd': f'./check.sh {p["id"]} quick',
            'thorough_cmd': f'./check.sh {p["id"]} thorough',
            'technique': p['technique'],
            'level': p['level'],
            'level_note': p['level_note'],
        }
        for p in PROPS if p['id'] not in dict(NOT_APPLICABLE)
    ],
    'not_applicable': [{'property': i, 'reason': r} for i, r in NOT_APPLICABLE],
    'notes': NOTES,
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
for p in PROPS:
    for path in p['files']:
        assert os.path.exists(os.path.join('/repo', path)), (p['id'], path)
