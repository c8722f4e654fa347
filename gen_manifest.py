"""Regenerates MANIFEST.json from the check modules present (checks/cXX.py); every other property is not_applicable."""
import ast, json, os
here = os.path.dirname(os.path.abspath(__file__))
NA = {}          # id -> reason, for the properties that are not claimed on purpose
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(here, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')))
        continue
    consts = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign):
            try:
                v = ast.literal_eval(node.value)
            except ValueError:
                continue
            t = node.targets[0]
            if isinstance(t, ast.Tuple):
                consts.update({e.id: x for e, x in zip(t.elts, v)})
            else:
                consts[t.id] = v
    checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
                       thorough_cmd='./check.sh %s thorough' % p['id'],
                       technique=consts['TECHNIQUE'], level=consts['LEVEL'], level_note=consts['NOTE']))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
