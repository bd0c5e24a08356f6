"""P12 - data tables survive writing and reading, and I/O faults surface."""

import copy
import os

from sim import fixtures, kernel
from sim.canon import diff

ID = 'P12'
TIERS = dict(quick=dict(cases=2400, budget=170, floor=200), thorough=dict(cases=90000, budget=3000, floor=2000))
RULE = ('seeded histories of up to 8 simulated processes over one directory: write a random table, read a file, rewrite a '
        'file from what was read, transport a file (line ends, byte-order mark, blank lines), with up to one disk fault per '
        'process, random buffer size, clock and user; non-trivial = a fault fired or a file read back after a rewrite')
REAL = ['write_data_file', 'read_data_file', 'NamedValues', 'numpy.savetxt']
STUB = ['disk calls (SimFS)', 'clock and user name', 'process boundaries (fork)']
ASSUMPTIONS = ['column names are valid OpenMDAO names that are not numbers; one-dimensional numeric columns of equal length',
               'comments are compared stripped, without empty lines; a comment does not begin with more than one #',
               'a file torn by a crash or by another program is not required to be recognised']
SHRINK = ('ops', 'columns0')

UNITS = ['unitless', 'ft', 'm', 'lbm/h', 'lbf', 'degF', 'kn', 'lbm/ft**3', '1/s', 'lbm/(hp*h)', '(ft*lbf)/s', 'W', 'ft/(s*(m**2))']
NAMES = ['altitude', 'mach', 'aircraft:engine:x', 'T4', 'fuel_flow', 'x', 'Input', 'output_power', 'a:b:c_d', 'e', 'units', 'thrust']
SPECIAL = [0.0, -0.0, 1.0, 1e-07, 1e22, 1 / 3, 5e-324, 1.7976931348623157e308, -123456.789, 'inf', '-inf', 'nan', 100.0]
COMMENTS = ['plain', 'with, commas (and parens)', 'caf\u00e9 \u2192 na\u00efve', '# already marked', '', '  padded  ', 'two\nlines',
            'mach, altitude', '1.0, 2.0', 'tab\tinside', 'ends with newline\n', '\u4e2d\u6587']


def setup(tier):
    import aviary.api  # noqa: F401
    from aviary.utils import csv_data_file  # noqa: F401


def table(rng, wide):
    n = rng.choice((1, 1, 2, 5, 30) + ((900,) if wide else ()))
    names = rng.sample(NAMES, rng.choice((1, 2, 3, 6)))
    cols = []
    for c in names:
        kind = rng.choice(('f', 'f', 'f', 'i', 'list', 'f4'))
        if kind == 'i':
            v = [rng.choice((0, 1, -7, 2**53, rng.randrange(-10**6, 10**6))) for _ in range(n)]
        elif kind == 'f4':
            v = [round(rng.uniform(-100, 100), 3) for _ in range(n)]
        else:
            v = [rng.choice(SPECIAL) if rng.random() < 0.3 else rng.uniform(-1e5, 1e5) for _ in range(n)]
        cols.append([c, kind, v, rng.choice(UNITS)])
    outputs = None if rng.random() < 0.4 else [c for c in names if rng.random() < 0.5]
    cm = [rng.choice(COMMENTS) for _ in range(rng.choice((0, 0, 1, 3)))]
    return dict(cols=cols, outputs=outputs, comments=cm[0] if cm and rng.random() < 0.2 else cm, stamp=rng.random() < 0.4,
                bad=rng.choice((None,) * 12 + ('ragged', 'scalar', 'text', 'empty')))


def gen(rng, i, tier):
    ops = []
    files = ['t.csv', 't.txt', 'd/u.deck', 'nodir/v.csv']
    for _ in range(rng.choice((2, 3, 5, 8))):
        k = rng.choice(('write', 'write', 'read', 'rewrite', 'rewrite', 'carry')) if ops else 'write'
        op = dict(op=k, file=rng.choice(files[:3]) if rng.random() < 0.95 else files[3], kind=rng.choice(('str', 'path')),
                  buf=rng.choice((16, 256, 8192)))
        if k == 'write':
            op['table'] = table(rng, rng.random() < 0.1)
        if k in ('read', 'rewrite', 'carry'):
            op['pick'] = round(rng.random(), 3)
        if k == 'carry':
            op['how'] = rng.choice(('crlf', 'bom', 'blank', 'trail'))
        if k != 'carry' and rng.random() < 0.35:
            op['fault'] = dict(at=round(rng.random(), 4), arg=round(rng.random(), 3),
                               kind=rng.choice(('eio', 'sticky_eio', 'enospc', 'short', 'short', 'close_eio', 'eacces', 'interrupt', 'emfile')))
        op['user'] = rng.choice(('ann', 'ann', 'b\u00f6b', '!fail'))
        op['stamp'] = rng.random() < 0.3
        ops.append(op)
    ops.append(dict(op='read', file='t.csv', pick=0.0, kind='str', buf=8192, user='ann', stamp=False, all=True))
    return dict(prop=ID, ops=ops)


def values_of(t):
    import numpy as np
    from aviary.utils.named_values import NamedValues

    d = NamedValues()
    for n, (c, kind, v, u) in enumerate(t['cols']):
        v = [float(x) if kind in ('f', 'list', 'f4') else x for x in v]
        if t['bad'] == 'ragged' and n == 0:
            v = v + [1.0]
        x = np.array(v, dtype=np.float32) if kind == 'f4' else (v if kind == 'list' else np.array(v))
        if t['bad'] == 'scalar':
            x = 3.5
        elif t['bad'] == 'text':
            x = ['abc def'] * len(v)
        elif t['bad'] == 'empty':
            x = np.array([])
        d.set_val(c, x, u)
    return d


def read_all(p):
    from aviary.utils.csv_data_file import read_data_file

    data, inputs, outputs, comments = read_data_file(p, save_comments=True, verbosity=0)
    return data, inputs, outputs, comments


def form(data, inputs, outputs, comments):
    return dict(cols=[[k, [float(x) for x in v], u] for k, (v, u) in data], inputs=inputs, outputs=outputs, comments=comments)


def client(ctx, op):
    from pathlib import Path
    from aviary.utils.csv_data_file import write_data_file

    fixtures.quiet()
    arg = lambda f: f if op['kind'] == 'str' else Path(f)
    if op['op'] == 'write':
        t = op['table']
        write_data_file(arg(op['file']), values_of(t), t['outputs'], copy.deepcopy(t['comments']), t['stamp'])
        return None
    got = read_all(arg(op['src']))
    if op['op'] == 'rewrite':
        data, inputs, outputs, comments = got
        r = form(data, list(inputs), list(outputs), list(comments))
        write_data_file(arg(op['file']), data, outputs if (inputs or outputs) else None, comments, op['stamp'])
        return r
    return form(*got)


def ref_comments(comments):
    if isinstance(comments, str):
        comments = [comments]
    out = []
    for c in comments:
        for line in c.split('\n'):
            line = line.strip()
            if line.startswith('#'):
                line = line[1:].strip()
            if line:
                out.append(line)
    return out


def expected(t):
    import numpy as np

    cols = []
    for c, kind, v, u in t['cols']:
        v = [float(x) for x in v]
        cols.append([c, v, u or 'unitless', kind])
    lab = t['outputs'] is not None
    return dict(cols=cols, outputs=[c[0] for c in t['cols'] if c[0] in t['outputs']] if lab else [],
                inputs=[c[0] for c in t['cols'] if c[0] not in t['outputs']] if lab else [],
                comments=ref_comments(t['comments']), stamps=1 if t['stamp'] else 0)


def compare(want, got):
    import numpy as np

    bad = []
    if [c[0] for c in want['cols']] != [c[0] for c in got['cols']]:
        return [f"columns {[c[0] for c in want['cols']]} read as {[c[0] for c in got['cols']]}"]
    for w, g in zip(want['cols'], got['cols']):
        if w[2] != g[2]:
            bad.append(f'{w[0]}: units {w[2]} read as {g[2]}')
        a, b = np.array(w[1]), np.array(g[1])
        if w[3] == 'f4':
            a, b = a.astype(np.float32), b.astype(np.float32)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
            bad.append(f'{w[0]}: {len(a)} values {w[1][:4]} read as {len(b)} values {g[1][:4]}')
    for k in ('inputs', 'outputs'):
        if want[k] != got[k]:
            bad.append(f'{k} {want[k]} read as {got[k]}')
    cm = [c for c in got['comments'] if c]
    n = want['stamps']
    if cm[n:] != want['comments'] or len([c for c in cm[:n] if c.startswith('created ')]) != n:
        bad.append(f"comments {want['comments']} (after {n} stamps) read as {cm}")
    return bad


def run(sim, case):
    os.makedirs(os.path.join(sim.root, 'd'))
    model = {}  # path -> expected table, or None when its state is unspecified
    for n, op in enumerate(case['ops']):
        op = dict(op)
        known = sorted(model)
        if op['op'] != 'write' and not known:
            continue
        if op.get('all'):
            for f in known:
                step(sim, case, dict(op, src=f), model, n)
            continue
        if op['op'] != 'write':
            op['src'] = known[int(op['pick'] * len(known)) % len(known)]
        if op['op'] == 'carry':
            carry(sim, op, model)
            continue
        step(sim, case, op, model, n)
        if len(sim.violations) > 3:
            return


def carry(sim, op, model):
    p = os.path.join(sim.root, op['src'])
    if model[op['src']] is None:
        return
    with open(p, 'rb') as f:
        b = f.read()
    if op['how'] == 'crlf':
        b = b.replace(b'\r\n', b'\n').replace(b'\n', b'\r\n')
    elif op['how'] == 'bom' and not b.startswith(b'\xef\xbb\xbf'):
        b = b'\xef\xbb\xbf' + b
    elif op['how'] == 'blank':
        b = b'\n \n' + b if not b.startswith(b'\xef\xbb\xbf') else b
    elif op['how'] == 'trail':
        b = b + b'\n\n'
    with open(p, 'wb') as f:
        f.write(b)
    sim.fault('transport_' + op['how'])


def step(sim, case, op, model, n):
    plan = []
    f = op.get('fault')
    if f:
        # number the steps on a fault-free run of the same call in a copy of the directory
        import shutil

        dry = sim.new_host()
        shutil.copytree(sim.root, dry, dirs_exist_ok=True)
        d = sim.process(client, op, root=dry, label='dry', quiet=True, bufsize=op['buf'], user=op['user'], clock={}, seed=n)
        shutil.rmtree(dry)
        plan = [dict(f, step=int(f['at'] * max(1, len(d.steps))))]
    r = sim.process(client, op, root=sim.root, label=op['op'], plan=plan, bufsize=op['buf'], user=op['user'], clock={}, seed=n)
    kinds = [x[3] for x in r.fired]
    hard = [k for k in kinds if k != 'short']
    sim.state((op['op'], r.status, r.exc and r.exc[0], kinds, [x[1] for x in r.fired]))
    if r.fired:
        sim.nontrivial = True
    what = f"{op['op']} {op.get('src', '')} {op['file'] if op['op'] != 'read' else ''} (faults {[x[1:] for x in r.fired]})"
    src = model.get(op.get('src'))
    if op['op'] == 'write':
        want = expected(op['table'])
        legal = op['table']['bad'] is None and 'nodir' not in op['file']
    else:
        want, legal = src, 'nodir' not in op['file'] or op['op'] == 'read'
    if r.ok and hard:
        sim.violate('fault-swallowed', f'{what}: returned normally')
    if not r.ok and not hard and legal and want is not None:
        sim.violate('call-raised', f'{what}: {r.why()}')
    if r.ok and op['op'] in ('read', 'rewrite') and want is not None:
        bad = compare(want, r.value)
        if bad:
            sim.violate('table-altered', f'{what}: {bad}')
            model[op['src']] = None
            return
        sim.counts['tables_compared'] += 1
    if op['op'] in ('write', 'rewrite'):
        if r.ok:
            w = None if want is None else copy.deepcopy(want)
            if op['op'] == 'write' and op['table']['bad']:
                w = None
            elif w is not None and op['op'] == 'rewrite':
                sim.nontrivial = True
                # comments read are given back in full, earlier stamps included
                w['comments'] = [c for c in r.value['comments'] if c]
                w['stamps'] = 1 if op['stamp'] else 0
                for c in w['cols']:
                    c[3] = 'f'
                    c[1] = next(g[1] for g in r.value['cols'] if g[0] == c[0])
            model[op['file']] = w
        elif os.path.exists(os.path.join(sim.root, op['file'])):
            if any(x[1] in ('write', 'close_w', 'open_w') for x in r.fired) or model.get(op['file']) is None:
                model[op['file']] = None
        else:
            model.pop(op['file'], None)


def simplify(case):
    for i, o in enumerate(case['ops']):
        if 'fault' in o:
            c = copy.deepcopy(case)
            del c['ops'][i]['fault']
            yield c
        t = o.get('table')
        if t:
            for k, d in (('comments', []), ('stamp', False), ('outputs', None)):
                if t[k] != d:
                    c = copy.deepcopy(case)
                    c['ops'][i]['table'][k] = d
                    yield c
            if len(t['cols']) > 1:
                for j in range(len(t['cols'])):
                    c = copy.deepcopy(case)
                    del c['ops'][i]['table']['cols'][j]
                    yield c
            if len(t['cols'][0][2]) > 1:
                c = copy.deepcopy(case)
                for col in c['ops'][i]['table']['cols']:
                    col[2] = col[2][:1]
                yield c
