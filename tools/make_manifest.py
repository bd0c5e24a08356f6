#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a module in sim/props."""
import json, pathlib

V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / 'properties.jsonl').read_text().splitlines()]
NOTE = json.loads((V / 'tools' / 'level_notes.json').read_text())
PURE = ('a pure function of its inputs: no schedule, clock, I/O, fault or interleaving decides it, so there is nothing '
        'for a simulator to control')
NA = {
    'N01': 'derivative correctness of a component is ' + PURE,
    'N02': 'sizing relations are ' + PURE,
    'N03': 'integration of the mission equations is ' + PURE,
    'N04': 'unit handling is ' + PURE,
    'N05': 'the meaning of a translated legacy value is ' + PURE + ' (conversion history, faults and crashes are P10 and P11)',
    'N06': 'interpolation is ' + PURE + ' (history dependence of the builders is P19)',
    'N07': 'optimality and feasibility are numerical results of the optimizer, ' + PURE + ' (truthful reporting of its outcome is P07)',
}
checks, na = [], []
for p in props:
    i = p['id']
    if (V / 'sim' / 'props' / f'{i.lower()}.py').exists() and i in NOTE:
        checks.append(dict(
            property=i,
            quick_cmd=f'./check.sh {i} --tier quick',
            thorough_cmd=f'./check.sh {i} --tier thorough',
            technique='deterministic simulation with fault injection: ' + NOTE[i][0],
            level='exploration',
            level_note=NOTE[i][1],
        ))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'simulation check not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
h = V / 'tools' / 'hooks.json'
if h.exists():
    m['hooks'] = json.loads(h.read_text())
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not applicable')
