"""Writes MANIFEST.json from properties.jsonl and the harness modules present (run: /opt/venv/bin/python tools/make_manifest.py)."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {
}


def const(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            return ast.literal_eval(n.value)


checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    f = os.path.join(ROOT, 'harness', i.lower() + '.py')
    if os.path.exists(f) and i not in NOT_APPLICABLE:
        t = ast.parse(open(f).read())
        b, a = const(t, 'BOUNDS'), const(t, 'ASSUMPTIONS') or []
        checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'./check {i} --tier thorough',
                           technique='symbolic execution of the real Python code (symx), assertions decided by Z3 (QF_NRA) on every path',
                           level='model_checking',
                           level_note=f'Within the bounds, for every value: {b}. Assumes: {"; ".join(a) or "nothing more"}. Trusted: real '
                           'arithmetic stands for floating point, the stand-ins for numpy/pydantic-core described in DESIGN.md, and Z3; '
                           'every counterexample is replayed on the unmodified code before it is reported.'))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check has been built for this property yet')))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -m symx.env', checks=checks, not_applicable=na,
               notes='See DESIGN.md. Known and fixed findings: KNOWN_FINDINGS.txt.'), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
