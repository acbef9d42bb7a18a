#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (run it after editing; both files are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, D = 'ebu_tt_live/bindings/', 'ebu_tt_live/documents/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe),
                               hook_needed=None), technique=technique, note=note))


exec(open(os.path.join(V, 'tools', 'properties.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}, ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='python3-vt check.py --setup',
         checks=[dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'],
                      thorough_cmd='python3-vt check.py %s thorough' % p['id'], technique=p['technique'],
                      level='exploration', level_note=p['note']) for p in P
                 if os.path.exists(os.path.join(V, 'props', p['id'] + '.py'))],
         not_applicable=[dict(property=p['id'], reason='the check for this property is not built yet') for p in P
                         if not os.path.exists(os.path.join(V, 'props', p['id'] + '.py'))])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'checks')
