"""P13 - aircraft decks survive writing and reading, and I/O faults surface."""

import copy
import os

from sim import fixtures, values
from sim.canon import canon

ID = 'P13'
TIERS = dict(quick=dict(cases=2200, budget=170, floor=200), thorough=dict(cases=90000, budget=3000, floor=2000))
RULE = ('seeded histories of up to 8 simulated processes: save an aircraft of up to 25 random entries (any Core or custom '
        'metadata entry, any legal type) as a deck, load it, load and save it again, in changing working directories, as '
        'changing users, with up to one disk fault per process; non-trivial = a fault fired, a non-float entry or a second '
        'generation deck')
REAL = ['save_to_csv_file', 'create_vehicle / parse_inputs', 'convert_strings_to_data', 'AviaryValues typing']
STUB = ['disk calls (SimFS)', 'clock and user name', 'process boundaries (fork)']
ASSUMPTIONS = ['a lone value and a one-element list or array are the same for a variable that takes several; lists, tuples and '
               'arrays are the same kind of value; a Path may come back as the same string',
               'strings have no line breaks and no leading or trailing blanks',
               'a value that the deck format cannot hold may be refused when it is saved']
SHRINK = ('ops', 'edits')

IGNORE = ('settings:verbosity',)
STRS = ['abc', 'a b', '12', '1.50', '007', 'True', 'x,y', 'caf\u00e9', '[1]', '<x>', "it's", 'a#b.csv', 'm', 'unitless', '1e5', 'nan',
        'say "hi"', 'models/engines/turbofan_28k.csv', 'C:\\data\\e.csv', '"q"', 'a, "b", c', '']
CUSTOM = [
    ('aircraft:custom:span', dict(units='ft', desc='custom', default_value=1.0)),
    ('aircraft:custom:flag', dict(units='unitless', desc='custom', default_value=False, types=bool, option=True)),
    ('aircraft:custom:count', dict(units='unitless', desc='custom', default_value=1, types=int, option=True)),
    ('aircraft:custom:flags', dict(units='unitless', desc='custom', default_value=[True], types=bool, option=True, multivalue=True)),
    ('aircraft:custom:names', dict(units='unitless', desc='custom', default_value=['x'], types=str, option=True, multivalue=True)),
    ('aircraft:custom:rates', dict(units='lbm/h', desc='custom', default_value=[0.0], types=(list, float), option=True, multivalue=True)),
    ('mission:custom:label', dict(units='unitless', desc='custom', default_value='x', types=str, option=True)),
]
META = {}


def setup(tier):
    import aviary.api as av
    from aviary.utils.aviary_inputs_to_csv import save_to_csv_file  # noqa: F401

    m = copy.deepcopy(av.CoreMetaData)
    for k, kw in CUSTOM:
        av.add_meta_data(k, m, **kw)
    META['custom'] = m
    META['core'] = av.CoreMetaData


def _value(rng, m):
    v = values.value_code(rng, m)

    def fix(c):
        if c[0] == 's':
            return ['s', rng.choice(STRS)]
        if c[0] in ('l', 'a'):
            return [c[0], [fix(x) if isinstance(x[0], str) else [fix(y) for y in x] for x in c[1]]]
        return c

    return v and fix(v)


def gen(rng, i, tier):
    custom = rng.random() < 0.4
    M = META['custom' if custom else 'core']
    names = [k for k in M if k.split(':')[0] in ('aircraft', 'mission', 'settings')]
    special = [k for k in names if M[k]['multivalue'] or values.types_of(M[k])[0] is not float]
    ops = []
    for _ in range(rng.choice((1, 2, 3, 5, 8))):
        k = rng.choice(('save', 'load', 'cycle', 'cycle')) if ops else 'save'
        op = dict(op=k, to=rng.choice(('a.csv', 'b.csv', 'd/c.csv', 'nodir/e.csv' if rng.random() < 0.1 else 'a.csv')), pick=round(rng.random(), 3),
                  cwd=rng.choice(('.', '.', 'd')), user=rng.choice(('ann', 'Doe, J', 'b\u00f6b', '!fail', 'a#b', 'x "y"')),
                  tz=rng.choice(('UTC', 'Asia/Tokyo')), buf=rng.choice((16, 256, 8192)), kind=rng.choice(('str', 'path')),
                  verbosity=rng.choice((None, 0, 1, 2)))
        if k == 'save':
            edits = []
            for _ in range(rng.choice((0, 1, 4, 10, 25))):
                n = rng.choice(special if rng.random() < 0.6 else names)
                if custom and rng.random() < 0.3:
                    n = rng.choice(CUSTOM)[0]
                v = _value(rng, M[n])
                if v is not None:
                    edits.append([n, v, values.units_code(rng, M[n])])
            op['edits'] = edits
        if rng.random() < 0.35:
            op['fault'] = dict(at=round(rng.random(), 4), arg=round(rng.random(), 3),
                               kind=rng.choice(('eio', 'sticky_eio', 'enospc', 'short', 'short', 'close_eio', 'eacces', 'interrupt', 'emfile')))
        ops.append(op)
    ops.append(dict(op='load', all=True, to='', pick=0, cwd='.', user='ann', tz='UTC', buf=8192, kind='str', verbosity=0))
    return dict(prop=ID, custom=custom, ops=ops)


def norm(v):
    """Comparable form of a value: container kind and length-one containers do not matter."""
    import numpy as np
    from pathlib import PurePath

    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        if len(v) == 1 and not isinstance(v[0], (list, tuple, np.ndarray)):
            return norm(v[0])
        return ['seq', [norm(x) for x in v]]
    if isinstance(v, PurePath):
        return str(v)
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and v != v:
        return 'nan!'
    return canon(v)


def form(vals):
    return {k: [norm(v), u] for k, (v, u) in vals}


def client(ctx, case, op):
    import aviary.api as av
    from pathlib import Path
    from aviary.utils.aviary_inputs_to_csv import save_to_csv_file
    from aviary.utils.process_input_decks import create_vehicle

    meta = META['custom' if case['custom'] else 'core']
    out = dict(skipped=0)
    ctx.phase = 'load'
    if op['op'] == 'save':
        vals = av.AviaryValues()
        for k, code, units in op['edits']:
            try:
                vals.set_val(k, values.decode(code, meta[k]), units, meta_data=meta)
            except Exception:
                out['skipped'] += 1
    else:
        p = os.path.join(ctx.fs.root, op['src'])
        p = os.path.relpath(p)
        vals, _ = create_vehicle(p if op['kind'] == 'str' else Path(p), meta_data=meta, verbosity=op['verbosity'])
        out['loaded'] = form(vals)
        out['warned'] = [w for w in ctx.warns if 'not in meta_data' in w[1]]
    if op['op'] in ('save', 'cycle'):
        out['before'] = form(vals)
        ctx.note('saving')
        p = os.path.relpath(os.path.join(ctx.fs.root, op['to']))
        save_to_csv_file(p if op['kind'] == 'str' else Path(p), vals)
        ctx.note('saved')
        if form(vals) != out['before']:
            out['changed'] = True
    return out


def _unholdable(edits, meta):
    """Does the case hold a value that a deck cannot represent?"""
    def flat(c, depth=0):
        if c[0] in ('l', 'a'):
            for x in c[1]:
                if not isinstance(x[0], str):
                    return True  # nested
                if flat(x, depth + 1):
                    return True
            return not c[1]
        return c[0] == 's' and (c[1] == '' or any(ch in c[1] for ch in ',#"[]'))

    return any(flat(c) for _, c, _ in edits)


def run(sim, case):
    os.makedirs(os.path.join(sim.root, 'd'))
    meta = META['custom' if case['custom'] else 'core']
    model = {}
    gen_of = {}
    todo = []
    for n, op in enumerate(case['ops']):
        if op.get('all'):
            todo += [(n, dict(op, src=f)) for f in ('a.csv', 'b.csv', 'd/c.csv')]
        else:
            todo.append((n, op))
    for n, op in todo:
        op = dict(op)
        known = sorted(k for k in model if model[k] is not None)
        if op['op'] != 'save':
            if op.get('all'):
                if op['src'] not in known:
                    continue
            elif not known:
                continue
            else:
                op['src'] = known[int(op['pick'] * len(known)) % len(known)]
        kw = dict(bufsize=op['buf'], user=op['user'], clock={}, env=dict(TZ=op['tz']), seed=n, cwd=op['cwd'])
        plan = []
        if op.get('fault'):
            import shutil

            dry = sim.new_host()
            shutil.copytree(sim.root, dry, dirs_exist_ok=True)
            d = sim.process(client, case, op, root=dry, label='dry', quiet=True, **kw)
            shutil.rmtree(dry)
            plan = [dict(op['fault'], step=int(op['fault']['at'] * max(1, len(d.steps))))]
        r = sim.process(client, case, op, root=sim.root, label=op['op'], plan=plan, **kw)
        hard = [x for x in r.fired if x[3] != 'short']
        what = f"{op['op']} {op.get('src', '')} as {op['user']!r} (faults {[x[1:] for x in r.fired]})"
        sim.state((op['op'], r.status, r.exc and r.exc[0], [x[1:4:2] for x in r.fired], sorted({e[1][0] for e in op.get('edits', ())})))
        if r.fired or any(e[1][0] != 'f' for e in op.get('edits', ())):
            sim.nontrivial = True
        saving = ('saving',) in r.notes
        if r.ok and hard:
            sim.violate('fault-swallowed', f'{what}: returned normally')
        if not r.ok and not hard and 'nodir' not in op['to']:
            if op['op'] == 'save' and _unholdable(op['edits'], meta):
                sim.counts['refused_saves'] += 1
            elif op['op'] == 'save' or saving:
                sim.violate('save-raised', f'{what}: {r.why()} {r.exc[2][-300:]}')
            else:
                sim.violate('load-raised', f'{what}: {r.why()} {r.exc[2][-300:]}')
        if r.ok and r.value.get('changed'):
            sim.violate('save-altered-values', what)
        if r.ok and op['op'] != 'save':
            want, got = model[op['src']], r.value['loaded']
            for k, w in want.items():
                if k not in meta or k in IGNORE:
                    continue
                if k not in got:
                    sim.violate('entry-lost', f'{what}: {k} = {w}')
                elif got[k] != w:
                    sim.violate('entry-altered', f'{what}: {k} = {w} loaded as {got[k]}')
                if len(sim.violations) > 3:
                    return
            sim.counts['entries_compared'] += len(want)
            if gen_of.get(op['src'], 0) > 1:
                sim.nontrivial = True
        if saving or op['op'] == 'save':
            if r.ok:
                model[op['to']] = r.value['before']
                gen_of[op['to']] = gen_of.get(op.get('src'), 0) + 1
            else:
                model[op['to']] = None


def simplify(case):
    for i, o in enumerate(case['ops']):
        for k, d in (('fault', None), ('user', 'ann'), ('cwd', '.'), ('tz', 'UTC'), ('buf', 8192), ('kind', 'str')):
            if o.get(k, d) != d:
                c = copy.deepcopy(case)
                if d is None:
                    del c['ops'][i][k]
                else:
                    c['ops'][i][k] = d
                yield c
        e = o.get('edits') or []
        for half in (e[: len(e) // 2], e[len(e) // 2 :]) if len(e) > 1 else ():
            c = copy.deepcopy(case)
            c['ops'][i]['edits'] = half
            yield c
        if 2 < len(e) < 8:
            for j in range(len(e)):
                c = copy.deepcopy(case)
                del c['ops'][i]['edits'][j]
                yield c
    if case['custom']:
        c = copy.deepcopy(case)
        c['custom'] = False
        yield c
