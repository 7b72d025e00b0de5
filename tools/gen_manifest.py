#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: one entry per checks/cNN.py."""
import ast, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NA = {}
exec(open(os.path.join(V, 'tools', 'not_applicable.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    fn = os.path.join(V, 'checks', pid.lower() + '.py')
    if pid in NA or not os.path.exists(fn):
        na.append(dict(property=pid, reason=NA.get(
            pid, 'check not built yet (work in progress)')))
        continue
    info = {}
    for n in ast.parse(open(fn).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'INFO':
            info = {k.arg: ast.literal_eval(k.value) for k in n.value.keywords}
    py = '/opt/venv/bin/python run.py ' + pid
    checks.append(dict(
        property=pid, quick_cmd=py + ' --tier quick',
        thorough_cmd=py + ' --tier thorough',
        evidence_file=f'evidence/{pid}.json',
        technique=info.get('technique', 'symbolic execution of the real Python '
                           'code, z3 decides each claim on every path'),
        level='other',
        level_note='Bounded symbolic verification: holds for every value within '
        'the bounds: ' + info.get('bounds', '') + '. Outside: ' +
        info.get('outside', '') + '. Trusts the operator semantics of symx '
        '(validated by replaying counterexamples and by differential tests), '
        'reals for floats' + ''.join('; ' + a for a in
                                     info.get('assumptions', [])) + '.'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: the code is executed symbolically as is.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except (ImportError, FileNotFoundError):
    pass
print(len(checks), 'checks', len(na), 'not applicable')
