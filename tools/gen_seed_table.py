#!/usr/bin/env python3
"""Rewrite the table of planted changes at the end of DESIGN.md (development
only; no check reads it)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '### Planted changes\n'
# changes that the check of their property did not catch when they were
# written: the check was strengthened because of them
MISSED = {'c30-vector-first', 'c15-copy-protection', 'c29-dimensions',
          'c06-retrograde', 'c33-index-order', 'c33-period-setter',
          'c35-longitude-turn', 'c35-node-turn'}
extra = os.path.join(HERE, 'tools', 'missed.txt')
if os.path.exists(extra):
    MISSED |= set(open(extra).read().split())


def main():
    rows = []
    for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
        m = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        rows.append((m['property'], i, m['needs'], m['what_it_breaks']))
    rows.sort()
    text = open(HERE + '/DESIGN.md').read().split(MARK)[0].rstrip() + '\n\n'
    text += MARK + '''
Each is caught by the quick check of the property in the first column (`*`: not when
it was written; that check was strengthened because of it).

| check | change | needs |
|---|---|---|
'''
    for p, i, n, b in rows:
        star = '*' if i in MISSED else ''
        text += f'| {p} | {i}{star} | {n} |\n'
    open(HERE + '/DESIGN.md', 'w').write(text)
    print(len(rows), 'planted changes')


if __name__ == '__main__':
    main()
