"""Fills the tables of DESIGN.md: defects from KNOWN_FINDINGS.txt, planted changes from seeded/."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed, findings = [], []
for l in open(f'{HERE}/KNOWN_FINDINGS.txt'):
    l = l.strip()
    if l.startswith('fixed:'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        fixed.append(f'* {m[1]} ({m[2]}): {m[3]}')
    elif l.startswith('finding:'):
        d = json.loads(l[8:])
        findings.append(f"* {d['property']}: {d['what']}")
rows = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(f'{HERE}/seeded/*/meta.json')):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {d['property']} | {d['what_it_breaks']} | {d['needs']} | {d.get('caught_by', d['property'])} |")
t = open(f'{HERE}/DESIGN.md').read()
for k, v in (('FIXED', fixed), ('FINDINGS', findings), ('SEEDED', rows)):
    block = f'<!-- {k} -->\n' + '\n'.join(v) + f'\n<!-- /{k} -->'
    if f'@{k}@' in t:
        t = t.replace(f'@{k}@', block)
    else:
        t = re.sub(f'<!-- {k} -->.*?<!-- /{k} -->', lambda m: block, t, flags=re.S)
open(f'{HERE}/DESIGN.md', 'w').write(t)
