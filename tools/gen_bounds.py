"""Write BOUNDS.md: what every check enumerates, from the check modules."""
import json
import os
import runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
consts = runpy.run_path(HERE + '/tools/gen_manifest.py')['consts']
out = ['# What every check enumerates (generated by tools/gen_bounds.py)', '']
for line in open(HERE + '/properties.jsonl'):
    p = json.loads(line)
    c = consts(f'{HERE}/mc/checks/{p["id"].lower()}.py')
    out += [f'## {p["id"]} {p["title"]}', '',
            f'*Enumerated* ({c["LEVEL"]}): {c["RULE"]}.', '']
    out += [f'- {a}' for a in c['ASSUMPTIONS']]
    out += ['']
open(HERE + '/BOUNDS.md', 'w').write('\n'.join(out))
