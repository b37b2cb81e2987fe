#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the hand-written parts live in tools/design/*.md,
the per-property section is assembled from properties.jsonl, the ORACLE/WHY
table below and the BOUNDS / ASSUMPTIONS of each check module."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get('MC_REPO_SRC', '/repo/src'))

# id: (kind of exploration, oracle, why tests cannot settle it)
T = json.load(open(os.path.join(HERE, 'design', 'table.json')))


def seeded():
    """The committed result of tools/seeded.py --all, as a table."""
    rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
    res = {}
    f = os.path.join(HERE, 'design', 'seeded.txt')
    if os.path.exists(f):
        for line in open(f):
            w = line.split()
            if len(w) >= 3:
                res[w[0]] = ' '.join(w[3:]) if w[2] == 'caught' else 'MISSED by its own check; ' + ' '.join(w[3:])
    d = os.path.join(ROOT, 'seeded')
    for b in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, b, 'meta.json')))
        rows.append(f"| {b} | {m['property']} | {m['needs']} | {res.get(b, '(not run)')} |")
    return '\n'.join(rows)


def part(name):
    return open(os.path.join(HERE, 'design', name)).read().rstrip().replace('@SEEDED@', seeded()) + '\n'


out = [part('head.md')]
out.append('## 4. The properties, one by one\n')
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    m = importlib.import_module('mc.props.' + p['id'].lower())
    t = T[p['id']]
    out.append(f"### {p['id']} - {p['title']}\n")
    out.append(f"* **Explored:** {t['how']}")
    out.append(f"* **Bounds:** {m.BOUNDS}.")
    out.append(f"* **Oracle:** {t['oracle']}")
    out.append(f"* **Not decided:** {'; '.join(m.ASSUMPTIONS)}.")
    out.append(f"* **Cost:** quick {t['quick']} s, thorough {t['thorough']} s on 8 cores.")
    out.append(f"* **Why tests cannot settle it:** {t['why']}\n")
out.append(part('tail.md'))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
