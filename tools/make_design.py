#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (repaired defects, planted bugs) from known_findings.jsonl and seeded/."""
import json, pathlib, re

V = pathlib.Path(__file__).resolve().parent.parent
d = (V / 'DESIGN.md').read_text()
fixes = [json.loads(l) for l in (V / 'known_findings.jsonl').read_text().splitlines() if l.strip()]
t = '| Property | Commit | What failed |\n| --- | --- | --- |\n'
for f in fixes:
    t += f"| {', '.join([f['property']] + f.get('also', []))} | {f['id']} | {f['what'].split(' ', 3)[3]} |\n"
b = '| Bug | Needs | Caught by |\n| --- | --- | --- |\n'
caught = json.loads((V / 'tools' / 'caught.json').read_text())
for m in sorted((V / 'seeded').glob('*/meta.json')):
    j = json.loads(m.read_text())
    b += f"| {m.parent.name} | {j['needs']} | {caught.get(m.parent.name, 'not run')} |\n"
for name, text in (('FIXES', t), ('BUGS', b)):
    d = re.sub(rf'<!-- {name} -->.*?<!-- end -->', lambda _: f'<!-- {name} -->\n{text}<!-- end -->', d, flags=re.S)
(V / 'DESIGN.md').write_text(d)
