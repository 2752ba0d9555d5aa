#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V/'tools'))
import props  # noqa: E402

checks, lines, na = [], [], []
for p in props.PROPS:
    d = dict(id=p['id'], title=p['title'], statement=p['statement'],
             quantifier=dict(over=p['over'], text=p['quant']),
             why_tests_cant=p['why'],
             anchors=dict(files=p['files'],
                          mechanism=[dict(name=a, where=b)
                                     for a, b in p['mech']],
                          observe_at=p['observe'], hook_needed=None))
    assert len(p['title']) <= 80, p['id']
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
        lines.append(json.dumps(d))
        continue
    if not (V/'checks'/f"{p['id'].lower()}.py").exists():
        print('no check yet:', p['id'])
        continue
    lines.append(json.dumps(d))
    checks.append(dict(
        property=p['id'], quick_cmd=f"./check {p['id']} quick",
        thorough_cmd=f"./check {p['id']} thorough",
        technique=p['tech'], level='model_checking', level_note=p['note']))
(V/'properties.jsonl').write_text('\n'.join(lines) + '\n')
man = dict(version=1, setup_cmd='./check setup quick', hooks=dict(
    guard='none (no hooks in /repo)',
    enable='checks compile /repo/src/triumvirate themselves (vt/build.py)',
    source_commits=[]), checks=checks, not_applicable=na)
(V/'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')
print(len(lines), 'properties', len(checks), 'checks')
