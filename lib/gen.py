#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and the harness headers"""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P
import run
hs = run.all_harnesses()
checks, na = [], []
with open(run.VERIF + '/properties.jsonl', 'w') as f:
    for x in sorted(P, key=lambda x: x['id']):
        f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['qtext']), why_tests_cant=x['why'],
                                anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']]))) + '\n')
        assert len(x['title']) <= 80, x['title']
        mine = [h for h in hs if x['id'] in h.list('prop')]
        if mine and not x['na']:
            bounds = '; '.join('%s (outside: %s)' % (h.name, h.one('outside', '')) for h in mine)
            checks.append(dict(property=x['id'], quick_cmd='python3 lib/run.py ' + x['id'], thorough_cmd='VERIF_TIER=thorough python3 lib/run.py ' + x['id'],
                               technique=x['technique'] or 'CBMC: bounded symbolic execution of the real C code, SAT-decided assertions with unwinding assertions, counterexamples replayed on the native build',
                               level='model_checking', level_note=('Holds for every input within the bounds, not beyond. ' + bounds + '. glib/libc/kernel calls are models (see DESIGN.md). ' + x['note']).strip()))
        else:
            assert x['na'], 'no harness and no reason: ' + x['id']
            na.append(dict(property=x['id'], reason=x['na']))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(run.VERIF + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'na')
