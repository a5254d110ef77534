"""Rewrite the generated tables of DESIGN.md (quick evidence, seeds)."""
import glob, json, re
D = '/verif/DESIGN.md'
t = open(D).read()
rows = ['| id | cases | states | transitions | outcomes |', '|---|---|---|---|---|']
for f in sorted(glob.glob('/verif/evidence/C*.json')):
    e = json.load(open(f)); c = e['coverage']
    if e['tier'] != 'quick':
        continue
    out = sorted(c['outcomes'].items(), key=lambda x: -x[1])[:4]
    rows.append(f"| {e['property']} | {c['evaluations']} | {c['states']} | {c['transitions']} | {', '.join(f'{k} {v}' for k, v in out)} |")
seeds = ['| seed | needs |', '|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); seeds.append(f"| {f.split('/')[-2]} | {m['needs']} |")
for name, r in (('evidence', rows), ('seeds', seeds)):
    t = re.sub(f'(<!-- {name} -->\n).*?(<!-- /{name} -->)', lambda m: m[1] + '\n'.join(r) + '\n' + m[2], t, flags=re.S)
open(D, 'w').write(t)
