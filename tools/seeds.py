#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the definitions below.

Patches are regenerated against /repo's HEAD: python3 tools/seeds.py [ID...]
"""
import difflib
import json
import subprocess
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
S = 'src/triumvirate/'
SS = S + 'src/'
SEEDS = {}


def seed(id, prop, edits, needs, breaks, demo, pre=''):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks,
                     demo=demo, pre=pre)


def head(f):
    return subprocess.run(['git', '-C', '/repo', 'show', f'HEAD:{f}'],
                          capture_output=True, text=True, check=True).stdout


SH = '''#!/bin/bash
export OMP_NUM_THREADS=2
cd "$(mktemp -d)" || exit 2
d=$PWD
trap 'rm -rf "$d"' EXIT
/opt/venv/bin/python -W ignore "$D/demo.py"
'''


def write(id):
    s = SEEDS[id]
    out = ''
    for f, subs in s['edits'].items():
        a = b = head(f)
        for old, new, *n in subs:
            # (old, new[, occurrence]); occurrence counts from 0
            c = b.count(old)
            if n:
                assert c > n[0], (id, f, old, c)
                i = -1
                for _ in range(n[0] + 1):
                    i = b.index(old, i + 1)
            else:
                assert c == 1, (id, f, old, c)
                i = b.index(old)
            b = b[:i] + new + b[i+len(old):]
        out += f'diff --git a/{f} b/{f}\n' + ''.join(difflib.unified_diff(
            a.splitlines(1), b.splitlines(1), 'a/' + f, 'b/' + f))
    d = V/'seeded'/id
    d.mkdir(parents=True, exist_ok=True)
    (d/'patch.diff').write_text(out)
    (d/'demo.sh').write_text(SH.replace(
        'export', 'D=$(cd "$(dirname "$0")" && pwd)\nexport', 1).replace(
            'THREADS=2', f'THREADS={s.get("threads", 2)}'))
    (d/'demo.sh').chmod(0o755)
    (d/'demo.py').write_text(s['demo'].lstrip('\n'))
    (d/'meta.json').write_text(json.dumps(dict(
        property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']),
        indent=1) + '\n')


if __name__ == '__main__':
    sys.path.insert(0, str(V/'tools'))
    import seeds_defs
    for i in sys.argv[1:] or seeds_defs.SEEDS:
        seeds_defs.write(i)
        print(i)
    rows = ''.join(
        f'| {i} | {s["breaks"]} | {s["needs"]} | {s["prop"]} |\n'
        for i, s in sorted(seeds_defs.SEEDS.items(),
                           key=lambda x: (x[1]['prop'], x[0])))
    head = '| id | breaks | needs | caught by |\n|---|---|---|---|\n'
    md = (V/'DESIGN.md').read_text()
    a, b = md.index(head) + len(head), md.index("\n<!-- end -->")
    (V/'DESIGN.md').write_text(md[:a] + rows + md[b:])
