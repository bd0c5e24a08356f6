"""P16 - result bundles are saved and opened all-or-nothing."""

import copy
import hashlib
import io
import os
import random
import shutil
import zipfile

ID = 'P16'
TIERS = dict(quick=dict(cases=700, budget=50, floor=60), thorough=dict(cases=40000, budget=2400, floor=1500))
RULE = ('seeded histories of up to 9 simulated processes on one host: save a run with `aviary dashboard --save` or with the save '
        'button of an open dashboard, open a bundle with and without --force in one of two folders, new runs, damaged bundles and '
        'bundles with entries that point outside, one fault, interrupt or kill per process at any I/O step, any listing order; '
        'non-trivial = a fault fired, an existing bundle or directory was at stake, or the bundle was damaged')
REAL = ['`aviary dashboard` command line', 'bundle saving and opening', 'dashboard() up to its web server', 'save button callback']
STUB = ['disk calls (SimFS)', 'the web server (panel.serve)', 'process boundaries (fork)', 'process number']
ASSUMPTIONS = ['runs hold regular files, links to files and folders',
               'leftover temporary files beside the target after a failure are allowed; the names the user asked for hold old or new content',
               'after a kill between the two renames of a forced open the old directory may be found under another name beside it',
               'power loss (unsynced data) is not simulated']
SHRINK = ('ops',)

RUNS = ('foo', 'bar', 'foo.v2')
NAMES = ('reports/status.json', 'reports/n2.html', 'reports/subsystems/mass.md', 'problem_history.db', 'a..b.txt', '.hidden', 'caf\u00e9.csv',
         'reports/x y.txt', 'deep/er/and/deeper/f.bin', 'back\\slash', 'reports/timeseries_data.csv', 'zzz.zip', '-dash', 'coloring_files/c.pkl')
EMPTY = ('empty', 'reports/subsystems', 'hollow/inner')


def setup(tier):
    import panel  # noqa: F401
    import aviary.interface.cmd_entry_points  # noqa: F401
    import aviary.visualization.dashboard  # noqa: F401


def _tree_code(rng):
    files = [[n, rng.randrange(1 << 30), rng.choice((0, 1, 40, 900, 9000, 70000, 140000 if rng.random() < 0.2 else 300)), rng.random() < 0.5]
             for n in rng.sample(NAMES, rng.randint(0, 8))]
    dirs = ['reports'] + rng.sample(EMPTY, rng.randint(0, 2))
    if rng.random() < 0.2:  # a run that wrote no reports
        files = [f for f in files if not f[0].startswith('reports')]
        dirs = [d for d in dirs if not d.startswith('reports')]
    return dict(files=files, dirs=dirs, link=rng.random() < 0.2)


def gen(rng, i, tier):
    ops = []
    runs = {n: _tree_code(rng) for n in rng.sample(RUNS, rng.randint(1, 3))}
    case = dict(prop=ID, runs=runs, script_dir=rng.random() < 0.15, out_file=rng.random() < 0.05)
    names = sorted(runs)
    for _ in range(rng.choice((2, 3, 5, 7, 9))):
        k = rng.choice(('save', 'save', 'button', 'open', 'open', 'open', 'rerun', 'damage', 'crafted')) if ops else rng.choice(('save', 'save', 'button', 'crafted'))
        op = dict(op=k, run=rng.choice(names), pick=round(rng.random(), 3), listing=rng.choice((None, 1, 2, 3)), buf=rng.choice((512, 8192, 8192)))
        if k == 'save':
            op['name'] = rng.choice((None, None, 'x', 'x.zip', 'x.v2', 'd/x.zip', 'd/foo', 'foo', 'ABS/y.zip', 'bar.zip', 'none/z.zip' if rng.random() < 0.3 else 'x'))
            op['style'] = rng.choice((0, 0, 1))
            op['missing'] = rng.random() < 0.05
        elif k == 'open':
            op['force'] = rng.random() < 0.55
            op['cwd'] = rng.choice(('work', 'other', 'other'))
            op['path'] = rng.choice(('rel', 'abs'))
        elif k == 'rerun':
            op['tree'] = _tree_code(rng)
        elif k == 'damage':
            op['how'] = rng.choice(('flip', 'flip', 'cut', 'junk'))
            op['at'] = round(rng.random(), 5)
        elif k == 'crafted':
            op['as'] = rng.choice(('work/evil.zip', 'other/foo.zip', 'work/bar.zip'))
            op['entries'] = rng.sample(['../evil.txt', '../../evil.txt', 'ROOT/evil.txt', 'reports/ok.txt', 'reports/../../up.txt', 'foo.txt', '../foo_out/reports/status.json'], rng.randint(2, 6))
        if k in ('save', 'button', 'open') and rng.random() < 0.55:
            op['fault'] = dict(at=round(rng.random(), 4), arg=round(rng.random(), 3),
                               kind=rng.choice(('eio', 'sticky_eio', 'enospc', 'enospc', 'close_eio', 'eacces', 'interrupt', 'short', 'crash', 'crash', 'crash_mid', 'crash_after')))
            op['retry'] = rng.random() < 0.5
        ops.append(op)
    case['ops'] = ops
    return case


def _data(code):
    name, seed, size, text = code
    r = random.Random(seed)
    if text:
        return (('%d,' % seed) * (size // 4 + 1)).encode()[:size]
    return r.randbytes(size)


def _write_tree(top, code):
    os.makedirs(top, exist_ok=True)
    for d in code['dirs']:
        os.makedirs(os.path.join(top, d), exist_ok=True)
    for f in code['files']:
        p = os.path.join(top, f[0])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as h:
            h.write(_data(f))
    if code['link'] and code['files']:
        os.symlink(os.path.join(top, code['files'][0][0]), os.path.join(top, 'link.bin'))


def _content(top):
    """{relative path: bytes or None for a folder} as a reader of the folder sees it."""
    out = {}
    for d, dirs, files in os.walk(top):
        for n in dirs:
            out[os.path.relpath(os.path.join(d, n), top)] = None
        for n in files:
            p = os.path.join(d, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, top)] = _sha(f.read())
    return dict(sorted(out.items()))


def _sha(data):
    return hashlib.sha1(data).hexdigest()[:16]


def _bundle(data):
    """Content of a zip file, None when it is not a complete one."""
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            return {i.filename.rstrip('/'): None if i.is_dir() else _sha(z.read(i)) for i in z.infolist()}
    except Exception:
        return None


def _sub(tree, rel):
    pre = rel + os.sep
    return {k[len(pre):]: _sha(v) if isinstance(v, bytes) else v for k, v in tree.items() if k.startswith(pre)}


def client(ctx, argv, press, watch):
    import sys
    import panel as pn
    import aviary.visualization.dashboard as mod
    from aviary.interface.cmd_entry_points import aviary_cmd

    out = dict(shown=None)
    real = mod.dashboard

    def serve(template, *a, **k):
        class Server:
            def stop(self):
                pass

        if press:
            for row in template.header:
                for b in row.select(pn.widgets.Button):
                    if b.name == 'Save Dashboard':
                        out['pressed'] = True
                        ctx.note('pressed', len(ctx.fs.steps))
                        ctx.note('at press', _content(os.path.join(ctx.fs.root, press)))
                        ctx.fs.active = True
                        b.clicks += 1
                        ctx.fs.active = False
        return Server()

    def shown(script_name, port=0, run_in_background=False):
        ctx.fs.active = False
        ctx.note('shown', script_name)
        out['shown'] = script_name
        if watch:
            ctx.note('at show', _content(os.path.join(ctx.fs.root, watch)))
        try:
            return real(script_name, port, run_in_background)
        finally:
            ctx.fs.active = True

    pn.serve = serve
    mod.dashboard = shown
    sys.argv = ['aviary', 'dashboard'] + argv
    try:
        aviary_cmd()
    except SystemExit as e:
        if e.code not in (None, 0):
            raise
    return out


def _target(op, root):
    name = op['name']
    if name is None:
        return f'work/{op["run"]}.zip', None
    if name.startswith('ABS'):
        return 'other/y.zip', os.path.join(root, 'other', 'y.zip')
    return 'work/' + (name if name.endswith('.zip') else name + '.zip'), name


def _save(sim, case, op, kw, label):
    root = sim.root
    button = op['op'] == 'button'
    run = op['run']
    src = f'work/{run}_out'
    if button:
        argv = [run, '--port', '5006', '-b']
        dest = f'work/{run}.zip'
        if os.path.isdir(os.path.join(root, 'work', run)):
            src = f'work/{run}'
    else:
        dest, name = _target(op, root)
        if op.get('missing'):
            run = 'nosuchrun'
            src = f'work/{run}_out'
            if name is None:
                dest = f'work/{run}.zip'
        argv = [run] + (['--save'] if name is None else ['--save', name])
        if name is not None and op['style']:
            argv = [f'--save={name}', run]
    expect_ok = os.path.isdir(os.path.join(root, src)) and os.path.isdir(os.path.join(root, os.path.dirname(dest)))
    if button and not os.path.isdir(os.path.join(root, src, 'reports')):
        expect_ok = False
    # name.zip given to --save while the positional is missing is not part of the property
    want = _content(os.path.join(root, src)) if expect_ok else None
    return argv, button, dest, src, want, expect_ok


def _attempt(sim, case, op, n, plan_of, retry=False):
    root = sim.root
    kw = dict(bufsize=op['buf'], listing=op['listing'], seed=n, clock={})
    before = sim.tree()
    if op['op'] == 'open':
        zips = sorted(k for k, v in before.items() if k.endswith('.zip') and v is not None and '_out' + os.sep not in k and not isinstance(v, tuple)
                      and '.tmp' not in k)
        if not zips:
            return None
        z = zips[int(op['pick'] * len(zips)) % len(zips)]
        kw['cwd'] = op['cwd']
        p = os.path.join(root, z)
        argv = [p if op['path'] == 'abs' else os.path.relpath(p, os.path.join(root, op['cwd'])), '-b', '--port', '5006'] + (['--force'] if op['force'] else [])
        stem = os.path.basename(z)[:-4]
        dest = f"{op['cwd']}/{stem}_out"
        bundle = _bundle(before[z])
        trusted = bundle is not None and not any(os.path.isabs(k) or '..' in k.split('/') for k in bundle)
        exists = dest in before
        want = bundle if trusted else None
        expect_ok = trusted and (not exists or (op['force'] and before[dest] is None)) and 'reports' in bundle
        shadow = os.path.join(op['cwd'], stem) in before
        if shadow:
            expect_ok = expect_ok and None  # the folder of that name is what the dashboard shows
        press = None
        watch = dest
        damaged = bundle is None
    else:
        kw['cwd'] = 'work'
        argv, press, dest, src, want, expect_ok = _save(sim, case, op, kw, op['op'])
        press = src if press else None
        watch = None
        exists = dest in before
    what = f"aviary dashboard {' '.join(argv)}{' [button]' if press else ''} in {kw['cwd']}".replace(root, '$ROOT')

    plan = []
    f = None if retry else op.get('fault')
    if f:
        dry = sim.new_host()
        shutil.rmtree(dry)
        shutil.copytree(root, dry, symlinks=True)
        d = sim.process(client, [a.replace(root, dry) for a in argv], press, watch, root=dry, label='dry', quiet=True, **kw)
        shutil.rmtree(dry)
        total = len(d.steps)
        first = next((x[1] for x in d.notes if x[0] == 'pressed'), 0)
        # a third of the faults hits the second half, where the effects become visible
        from sim.fs import KINDS_FOR

        fit = [s for s in range(first, total) if f['kind'] in KINDS_FOR[d.steps[s][0]]]
        if fit:
            plan = [dict(f, step=fit[int(f['at'] * len(fit)) % len(fit)])]
    r = sim.process(client, argv, press, watch, root=root, label=op['op'], plan=plan, **kw)
    after = sim.tree()
    hard = [x for x in r.fired if x[3] != 'short']
    what += f' (faults {[x[1:] for x in r.fired]})'
    crashed = r.status == 'crash'
    changed = {k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)}
    folder = os.path.dirname(dest)
    if r.fired or exists or (op['op'] == 'open' and damaged):
        sim.nontrivial = True
    sim.state((op['op'], op.get('force'), exists, r.status, r.exc and r.exc[0], [x[1:4:2] for x in r.fired]))

    if press and r.ok and not r.value.get('pressed'):
        raise RuntimeError('the save button was not found')

    # only the target (and temporary names beside it after a failure) may change
    def mine(k):
        return k == dest or k.startswith(dest + os.sep)

    def temporary(k):
        top = os.path.relpath(k, folder).split(os.sep)[0]
        p = os.path.join(folder, top)
        return k.startswith(folder + os.sep) and p not in before and not top.endswith('_out') and not (top.endswith('.zip') and '.tmp' not in top)

    other = sorted(k for k in changed if not mine(k) and not (not r.ok or hard) or (not mine(k) and not temporary(k)))
    if press:
        other = [k for k in other if not k.startswith(src + os.sep + 'reports')]  # the dashboard itself adds to the reports
    if other:
        kind = 'source-changed' if op['op'] != 'open' and any(k.startswith(src + os.sep) for k in other) else 'outside-changed'
        sim.violate(kind, f'{what}: {r.status} changed {other[:6]}')
        return r

    if op['op'] == 'open':
        got = _sub(after, dest)
        old = _sub(before, dest)
        absent = dest not in after
        if dest in after and isinstance(after[dest], type(None)):
            got = _content(os.path.join(root, dest))
        for x in r.notes:
            if x[0] == 'at show':
                got = x[1]  # before the dashboard added its own pages
        if isinstance(after.get(dest), (bytes, tuple)):
            got = after.get(dest)
            old = before.get(dest)
        if exists and not op['force']:
            if r.ok:
                sim.violate('opened-over-existing', what)
            if any(mine(k) for k in changed):
                sim.violate('existing-replaced', f'{what}: {sorted(changed)[:6]}')
            return r
        same_old = (not exists and absent) or (exists and not any(mine(k) for k in changed))
        complete = want is not None and not absent and isinstance(got, dict) and _filled(got) == _filled(want)
        if r.ok:
            if damaged:
                sim.violate('damaged-bundle-opened', f'{what}')
            elif want is not None and not complete:
                sim.violate('open-incomplete', f'{what}: {_diff(got, want)}')
            if not shadow and r.ok and r.value['shown'] is not None:
                s = r.value['shown']
                if os.path.normpath(os.path.join(op['cwd'], s)) not in (dest, dest[:-4]):
                    sim.violate('other-run-shown', f'{what}: {s}')
            if r.value['shown'] is None:
                sim.violate('nothing-shown', what)
        else:
            ok = same_old or complete
            if not ok and want is None and not damaged:
                ok = True  # crafted bundle: only containment is claimed
            if not ok and crashed and absent:
                tops = {os.path.relpath(k, folder).split(os.sep)[0] for k in after if k.startswith(folder + os.sep)}
                ok = any(isinstance(after.get(os.path.join(folder, t)), type(None)) and _sub(after, os.path.join(folder, t)) == old for t in tops
                         if os.path.join(folder, t) not in before)
            if not ok:
                sim.violate('partial-open', f'{what}: {r.why()}: {"missing" if absent else _diff(got, want or old)}')
    else:
        for x in r.notes:
            if x[0] == 'at press':
                want = x[1]
        new = after.get(dest)
        complete = want is not None and isinstance(new, bytes) and _bundle(new) is not None and _filled(_bundle(new)) == _filled(want)
        if r.ok:
            if want is None:
                if expect_ok is False and dest in changed:
                    sim.violate('saved-nothing', what)
            elif not complete:
                got = _bundle(new) if isinstance(new, bytes) else None
                sim.violate('bundle-incomplete', f'{what}: {"no bundle" if got is None else _diff(got, want)}')
        elif dest in changed and not complete:
            sim.violate('bundle-destroyed' if exists else 'partial-bundle', f'{what}: {r.why()}')
    if not r.ok and not hard and expect_ok:
        sim.violate('failed-without-cause', f'{what}: {r.why()} {r.exc and r.exc[2][-400:]}')
    if r.ok and not hard and expect_ok is False and op['op'] != 'open' and not os.path.isdir(os.path.join(root, src)):
        sim.violate('saved-missing-run', what)
    return r


def _filled(tree):
    """Folders that hold something need not be listed."""
    out = dict(tree)
    for k in list(tree):
        d = os.path.dirname(k)
        while d and d != os.sep:
            out.setdefault(d, None)
            d = os.path.dirname(d)
    return out


def _diff(got, want):
    if not isinstance(got, dict):
        return 'not a folder'
    got, want = _filled(got), _filled(want)
    return dict(missing=sorted(set(want) - set(got))[:4], extra=sorted(set(got) - set(want))[:4],
                different=sorted(k for k in want if k in got and got[k] != want[k])[:4])


def run(sim, case):
    root = sim.root
    for d in ('work/d', 'other'):
        os.makedirs(os.path.join(root, d))
    for p in ('outside.txt', 'work/outside.txt', 'other/outside.txt'):
        with open(os.path.join(root, p), 'w') as f:
            f.write('keep me')
    for name, code in case['runs'].items():
        _write_tree(os.path.join(root, 'work', f'{name}_out'), code)
    if case['script_dir']:
        _write_tree(os.path.join(root, 'work', 'foo'), dict(files=[['reports/other.txt', 5, 40, True]], dirs=['reports'], link=False))
    if case['out_file']:
        with open(os.path.join(root, 'other', 'foo_out'), 'w') as f:
            f.write('a file')
    for n, op in enumerate(case['ops']):
        k = op['op']
        if k == 'rerun':
            top = os.path.join(root, 'work', f"{op['run']}_out")
            shutil.rmtree(top, ignore_errors=True)
            _write_tree(top, op['tree'])
        elif k == 'crafted':
            p = os.path.join(root, op['as'])
            with zipfile.ZipFile(p, 'w') as z:
                z.writestr('reports/', '')
                for e in op['entries']:
                    z.writestr(e.replace('ROOT', root), 'evil')
        elif k == 'damage':
            t = sim.tree()
            zips = sorted(x for x, v in t.items() if x.endswith('.zip') and isinstance(v, bytes) and '_out' + os.sep not in x and _bundle(v))
            if not zips:
                continue
            z = zips[int(op['pick'] * len(zips)) % len(zips)]
            data = bytearray(t[z])
            if op['how'] == 'cut':
                data = data[: int(len(data) * op['at'])]
            elif op['how'] == 'junk':
                data = bytearray(b'PK\x03\x04 not a zip at all')
            else:
                with zipfile.ZipFile(io.BytesIO(bytes(data))) as zf:
                    spots = [i for i in zf.infolist() if i.compress_size > 8 and i.file_size > 8]
                if not spots:
                    continue
                i = spots[int(op['at'] * 977) % len(spots)]
                pos = i.header_offset + 30 + len(i.filename.encode()) + int(op['at'] * (i.compress_size - 1))
                data[pos] ^= 0x55
            if _bundle(bytes(data)) is not None:
                continue  # the flip made no difference
            with open(os.path.join(root, z), 'wb') as f:
                f.write(bytes(data))
            sim.fault('damage-' + op['how'])
        else:
            r = _attempt(sim, case, op, n, None)
            if r is None:
                continue
            if sim.violations:
                return
            if op.get('fault') and op.get('retry') and not r.ok:
                sim.counts['retries'] += 1
                _attempt(sim, case, op, n, None, retry=True)
            if sim.violations:
                return


def simplify(case):
    for i, o in enumerate(case['ops']):
        for k, d in (('fault', None), ('retry', None), ('listing', None), ('buf', 8192), ('name', None), ('style', 0), ('path', 'rel')):
            if o.get(k, d) != d:
                c = copy.deepcopy(case)
                if d is None and k in ('fault', 'retry'):
                    del c['ops'][i][k]
                else:
                    c['ops'][i][k] = d
                yield c
    for n, t in case['runs'].items():
        for j in range(len(t['files'])):
            c = copy.deepcopy(case)
            del c['runs'][n]['files'][j]
            yield c
        if t['link']:
            c = copy.deepcopy(case)
            c['runs'][n]['link'] = False
            yield c
    for k in ('script_dir', 'out_file'):
        if case[k]:
            c = copy.deepcopy(case)
            c[k] = False
            yield c
