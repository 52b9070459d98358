"""Write MANIFEST.json from the check modules."""
import ast
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'H': 'explicit-state / bounded-depth exploration of operation histories '
         'on the real objects against a reference model',
    'L': 'exhaustive enumeration of an input lattice on the real code '
         'against an independent extended-precision reference model',
    'LH': 'exhaustive enumeration of an input lattice and of operation '
          'histories on the real code against a reference model',
    'S': 'stateless model checking of thread schedules (preemption bounded) '
         'on the real code under a controlled scheduler',
    'HS': 'bounded-depth exploration of operation histories and of all '
          'iterator interleavings against a reference model',
    'F': 'exhaustive fault-point enumeration on the real code combined with '
         'operation histories',
}
KIND = dict(C01='L', C02='L', C03='L', C04='L', C05='L', C06='LH', C07='LH',
            C08='L', C09='LH', C10='H', C11='H', C12='H', C13='H', C14='H',
            C15='HS', C16='H', C17='LH', C18='LH', C19='L', C20='H', C21='L',
            C22='F', C23='S', C24='L', C25='L', C26='L', C27='L', C28='LH',
            C29='H', C30='H', C31='LH', C32='LH', C33='LH',
            C34='LH', C35='L', C36='LH', C37='H')


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except (ValueError, AttributeError):
                pass
    return out


def main():
    props = [json.loads(x) for x in open(HERE + '/properties.jsonl')]
    checks = []
    for p in props:
        pid = p['id']
        c = consts(f'{HERE}/mc/checks/{pid.lower()}.py')
        note = 'Enumerated in full: ' + c['RULE'] + '.'
        if c['ASSUMPTIONS']:
            note += ' Not covered / assumed: ' + '; '.join(c['ASSUMPTIONS'])
        checks.append(dict(
            property=pid, quick_cmd=f'./check {pid} quick',
            thorough_cmd=f'./check {pid} thorough',
            technique=TECH[KIND[pid]], level=c['LEVEL'], level_note=note))
    json.dump(dict(version=1, setup_cmd='mkdir -p evidence replays', checks=checks,
                   not_applicable=[]),
              open(HERE + '/MANIFEST.json', 'w'), indent=1)


main()
