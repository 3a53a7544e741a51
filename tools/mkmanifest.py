"""Regenerates MANIFEST.json from the check modules present."""
import ast, json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for line in open(os.path.join(root, 'properties.jsonl')):
    d = json.loads(line)
    props[d['id']] = d
TECH = {
    'model_checking': 'explicit-state model checking: exhaustive bounded enumeration of operation sequences of a reference model, each replayed on the real code',
    'exploration': 'stateless bounded model checking: exhaustive enumeration of executions of the real code against a reference model',
    'fault_enumeration': 'exhaustive enumeration of crash / damage points on the real code',
}
checks = []
for path in sorted(glob.glob(os.path.join(root, 'checks', 'c[0-9][0-9].py'))):
    tree = ast.parse(open(path).read())
    consts = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    pid = consts['ID']
    checks.append(dict(
        property=pid,
        quick_cmd='./check %s quick' % pid,
        thorough_cmd='./check %s thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique=consts.get('TECHNIQUE', TECH[consts['LEVEL']]),
        level=consts['LEVEL'],
        level_note=(consts.get('NOTE') or consts['RULE']) + ' Assumes: ' + ' '.join(consts['ASSUMPTIONS'])))
na = [dict(property=p, reason='no check yet (machinery under construction)') for p in sorted(props) if p not in {c['property'] for c in checks}]
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='All checks import warcio from the working tree of /repo and explore it exhaustively within the bounds written to the evidence. No hooks in /repo are needed.'),
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', 'missing:', [n['property'] for n in na])
