"""Writes properties.jsonl and MANIFEST.json from tools/props.py (only properties that have a module in fsv/props)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
have = {f[:-3] for f in os.listdir(os.path.join(HERE, 'fsv', 'props'))}
PROPS.sort(key=lambda p: p['id'])
missing = have - {p['id'] for p in PROPS} - {'__init__', '__pycach'}
assert not [m for m in missing if m.startswith('P')], missing
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        if p['id'] not in have:
            continue
        assert len(p['title']) <= 80, p['title']
        n = p['statement'].rstrip('.').count('. ') + 1
        assert n <= 3, (p['id'], n)
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                                                      observe_at=['public API of the package fock_state_circuit'], hook_needed=None))) + '\n')
checks = [dict(property=p['id'], quick_cmd='bash run.sh %s quick' % p['id'], thorough_cmd='bash run.sh %s thorough' % p['id'],
               evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note'])
          for p in PROPS if p['id'] in have]
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[],
                   notes='All checks import the code from /repo/src at run time; Hypothesis comes from the preinstalled Python tooling. See DESIGN.md.'), f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
