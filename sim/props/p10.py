"""P10 - converters never damage existing files and report every failure."""

import copy
import os
import shutil

from sim import converters, fixtures

ID = 'P10'
TIERS = dict(quick=dict(cases=1600, budget=170, floor=150), thorough=dict(cases=60000, budget=3000, floor=1500))
RULE = ('seeded histories of up to 4 conversions (engine deck, aero table, propeller map, Fortran deck; API or command line), '
        'each its own simulated process on one disk that already holds earlier outputs, the inputs and unrelated files, '
        'with malformed or truncated inputs, default, relative, absolute and colliding output names, and up to one disk fault, '
        'interrupt or crash each, followed by a retry; non-trivial = a fault fired or a malformed input was refused')
REAL = ['aero_table_conversion', 'engine_deck_conversion', 'fortran_to_aviary', 'propeller_map_conversion', 'aviary convert (argparse)',
        'write_data_file', 'get_path']
STUB = ['disk calls (SimFS)', 'clock and user name', 'process boundaries (fork)']
ASSUMPTIONS = ['one process uses a directory at a time', 'data handed to a finished write call survives a crash (no lost page cache)',
               'an extra temporary file left behind by a crash is not output', 'a FLOPS aero table that fails half-way may have '
               'written the first of its two outputs in full']
SHRINK = ('ops',)


def setup(tier):
    import aviary.api  # noqa: F401

    converters.warm_imports()


OUTS = ('default', 'rel', 'rel', 'abs', 'sub', 'exist', 'exist', 'input', 'dir', 'nodir')


def gen(rng, i, tier):
    ops = []
    for _ in range(rng.choice((1, 1, 2, 3, 4))):
        src = converters.source(rng)
        if rng.random() < 0.3:
            src['mut'] = dict(how=rng.choice(converters.MUTATIONS), at=round(rng.random(), 4))
        op = dict(src=src, name=rng.choice(('a', 'b')) + rng.choice(converters.SUFFIX[src['kind']]), where=rng.choice(('in', 'work')),
                  abspath=rng.random() < 0.2, out=rng.choice(OUTS), via=rng.choice(('api', 'api', 'cli')), force=rng.random() < 0.5,
                  rnd=rng.random() < 0.3, as_path=rng.random() < 0.4, buf=rng.choice((16, 512, 8192)),
                  user=rng.choice(('ann', 'ann', '!fail')))
        if rng.random() < 0.65:
            op['fault'] = dict(at=round(rng.random(), 4), arg=round(rng.random(), 3), late=rng.random() < 0.5,
                               kind=rng.choice(('eio', 'eio', 'enospc', 'short', 'close_eio', 'eacces', 'interrupt', 'emfile',
                                                'crash', 'crash_mid', 'crash_after', 'sticky_eio')))
        ops.append(op)
    return dict(prop=ID, seed=rng.randrange(1000), ops=ops)


def outname(op):
    """The output argument of the call (None: not given), as the user would type it from work/."""
    src, o = op['src'], op['out']
    stem = 'o_' + os.path.splitext(op['name'])[0]
    ext = '.csv' if src['kind'] == 'deck' else {'engine': '.csv', 'aero': '.csv', 'prop': '.prop'}[src['kind']]
    if o == 'default':
        return None
    if o == 'rel':
        r = stem + ext
    elif o == 'abs':
        r = '$ROOT/out/' + stem + ext
    elif o == 'sub':
        r = '../out/' + stem + ext
    elif o == 'exist':
        r = 'kept' + ext
    elif o == 'input':
        r = inpath(op)
    elif o == 'dir':
        r = '../out/folder'
    else:
        r = '../out/missing/' + stem + ext
    if src['fmt'] == 'FLOPS' and src['kind'] == 'aero' and op['via'] == 'api':
        return [r, r + '2']
    return r


def inpath(op):
    base = {'in': '../in/', 'work': ''}[op['where']] + op['name']
    if op['abspath']:
        base = '$ROOT/' + {'in': 'in/', 'work': 'work/'}[op['where']] + op['name']
    return base


def client(ctx, op, root):
    fixtures.quiet()
    sub = lambda x: None if x is None else [i.replace('$ROOT', root) for i in x] if isinstance(x, list) else x.replace('$ROOT', root)
    converters.convert(op['src']['kind'], op['src']['fmt'], sub(inpath(op)), sub(outname(op)), op['via'], op['force'], op['rnd'],
                       op['as_path'])


def put(root, rel, data):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data)


def files(sim, root):
    """relpath -> bytes (or 'dir'), temporary files of an interrupted write left out."""
    t = sim.tree(root)
    return {k: b'<folder>' if v is None else v for k, v in t.items() if '.tmp' not in k and '__pycache__' not in k}


def rows(data):
    return [x for x in data.split(b'\n') if not x.startswith(b'#')] if data else data


def allowed(op, before):
    """Which existing or new paths (relative to the host) this call may write."""
    out = outname(op)
    rel = lambda x: os.path.normpath(os.path.join('work', x.replace('$ROOT/', '../')))
    inp = rel(inpath(op))
    src = op['src']
    if out is None:
        stem = os.path.splitext(os.path.basename(inp))[0]
        d = os.path.dirname(inp)

        def ok(p):
            return os.path.dirname(p) in (d, 'work') and os.path.basename(p).startswith(stem) and p != inp

        return ok, inp
    names = out if isinstance(out, list) else [out]
    names = [rel(n) for n in names]
    if src['kind'] == 'deck':
        o = out.replace('$ROOT/', '../')
        # documented: a relative output is placed in the deck's folder
        names.append(os.path.normpath(os.path.join(os.path.dirname(inp), o)))
        names += [os.path.dirname(x) for x in names]  # and missing folders are created
    if src['kind'] == 'aero' and src['fmt'] == 'FLOPS' and not isinstance(out, list):
        return (lambda p: any(p == n or (os.path.dirname(p) == os.path.dirname(n) and os.path.splitext(os.path.basename(n))[0] in os.path.basename(p))
                              for n in names)), inp
    return (lambda p: p in names), inp


def run(sim, case):
    from sim.kernel import HarnessError

    root = sim.root
    for d in ('work', 'in', 'out/folder'):
        os.makedirs(os.path.join(root, d))
    for rel, data in (('work/kept.csv', b'kept csv\n'), ('work/kept.prop', b'kept prop\n'), ('out/folder/x.txt', b'x\n'),
                      ('in/neighbour.csv', b'1, 2\n'), ('work/notes.txt', b'notes\n')):
        put(root, rel, data)
    if not os.path.isdir(root):
        raise HarnessError('no host')
    for n, op in enumerate(case['ops']):
        one(sim, case, n, op)
        if len(sim.violations) > 2:
            return


def one(sim, case, n, op):
    root = sim.root
    src = op['src']
    clean = converters.content({k: v for k, v in src.items() if k != 'mut'})
    data = converters.content(src)
    put(root, os.path.join(op['where'], op['name']), data)
    before = files(sim, root)
    args = dict(bufsize=op['buf'], clock={}, seed=case['seed'], user=op['user'], cwd='work', pidno=n + 1)

    # what the same call does on the same disk with no fault
    dry = sim.new_host()
    shutil.copytree(root, dry, dirs_exist_ok=True, symlinks=True)
    d = sim.process(client, op, dry, root=dry, label='dry', quiet=True, **args)
    want = files(sim, dry)
    shutil.rmtree(dry)
    what = f"{op['via']} convert {src['kind']} {src['fmt']} {src.get('real', 'generated')} {src.get('mut') or ''} -> {outname(op)}"
    may, inp = allowed(op, before)
    changed = sorted(p for p in set(before) | set(want) if before.get(p) != want.get(p))
    asked_input = op['out'] == 'input'
    sim.state((src['kind'], src['fmt'], (src.get('mut') or {}).get('how'), op['out'], op['via'], d.status, d.exc and d.exc[0]))
    exists_refused = src['kind'] == 'deck' and not op['force']
    for p in changed:
        if not may(p) or (p == inp and not asked_input):
            sim.violate('other-file-changed', f'{what}: {p} was {"changed" if p in before else "created"}')
        elif p not in want:
            sim.violate('file-removed', f'{what}: {p} was removed')
        elif exists_refused and p in before:
            sim.violate('overwritten-unasked', f'{what}: {p} was overwritten although overwriting was not asked for')
    if d.ok and not changed and not any(may(p) for p in want):
        sim.violate('nothing-written', f'{what}: returned normally, but wrote no file')
    if d.ok and op['out'] == 'dir':
        if 'out/folder' in want and want.get('out/folder') != before.get('out/folder'):
            sim.violate('directory-replaced', f'{what}')
    multi = src['kind'] == 'aero' and src['fmt'] == 'FLOPS'
    if not d.ok:
        if 'mut' in src:
            sim.nontrivial = True
        if changed and not multi:
            sim.violate('refused-but-written', f'{what}: {d.why()}, yet {changed} changed')
        legal = 'mut' not in src and op['out'] not in ('dir', 'nodir', 'input') and not exists_refused
        if legal and not (multi and op['via'] == 'cli' and False):
            sim.violate('call-raised', f'{what}: {d.why()}')
        mro = d.exc[3] if d.exc else []
        if d.status == 'raise' and 'Exception' not in mro and 'SystemExit' not in mro:
            sim.violate('call-raised', f'{what}: {d.why()}')
    elif 'mut' in src and data != clean and converters.unreadable(src):
        # input that cannot mean anything else must be refused, unless it makes no difference to the data
        full = sim.new_host()
        shutil.copytree(root, full, dirs_exist_ok=True, symlinks=True)
        put(full, os.path.join(op['where'], op['name']), clean)
        sim.process(client, op, full, root=full, label='full', quiet=True, **args)
        whole = files(sim, full)
        shutil.rmtree(full)
        if any(rows(whole.get(p)) != rows(want.get(p)) for p in changed if p != inp):
            sim.violate('malformed-accepted', f'{what}: converted without an error, to other data than the whole input')
        sim.counts['malformed_compared'] += 1

    f = op.get('fault')
    plan = []
    if f and d.steps:
        ws = [k for k, s in enumerate(d.steps) if s[0] != 'read' and s[0] != 'open_r']
        if f['late'] and ws:
            step = ws[min(len(ws) - 1, int(f['at'] * len(ws)))]
        else:
            step = int(f['at'] * len(d.steps))
        plan = [dict(kind=f['kind'], arg=f['arg'], step=step)]
    r = sim.process(client, op, root, root=root, label='convert', plan=plan, **args)
    after = files(sim, root)
    kinds = [x[3] for x in r.fired]
    hard = [k for k in kinds if k != 'short']
    if kinds:
        sim.nontrivial = True
        sim.state((src['kind'], op['via'], [x[1:] for x in r.fired], r.status, r.exc and r.exc[0]))
    what += f' (faults {[x[1:] for x in r.fired]})'
    for p in sorted(set(before) | set(after) | set(want)):
        if after.get(p) not in (before.get(p), want.get(p)):
            sim.violate('half-written', f'{what}: {p} is neither what it was nor the complete output ({r.why()})')
    if not hard and (r.status, r.exc and r.exc[0]) != (d.status, d.exc and d.exc[0]):
        sim.violate('call-raised', f'{what}: {r.why()}, without a fault {d.why()}')
    if r.ok and d.ok and any(after.get(p) != want.get(p) for p in changed):
        sim.violate('failure-hidden', f'{what}: returned normally without the complete output')
    if r.ok and not d.ok:
        sim.violate('failure-hidden', f'{what}: returned normally, without the fault {d.why()}')
    if not (hard and d.ok):
        return

    # once the cause has gone, the same call does its work
    done = any(after.get(p) == want.get(p) for p in changed if want.get(p) != b'<folder>')
    r2 = sim.process(client, op, root, root=root, label='retry', quiet=True, **dict(args, pidno=100 + n))
    again = files(sim, root)
    if r.ok:
        return
    sim.counts['retries'] += 1
    if exists_refused and done:
        if r2.ok:
            sim.violate('overwritten-unasked', f'{what}: the retry overwrote the output')
    elif asked_input:
        return
    elif not r2.ok:
        sim.violate('retry-failed', f'{what}: after {r.why()}, the retry failed: {r2.why()}')
    elif any(again.get(p) != want.get(p) for p in changed):
        sim.violate('retry-differs', f'{what}: the retry wrote other contents than a first run')


def simplify(case):
    for i, o in enumerate(case['ops']):
        if 'fault' in o:
            c = copy.deepcopy(case)
            del c['ops'][i]['fault']
            yield c
        if 'mut' in o['src']:
            c = copy.deepcopy(case)
            del c['ops'][i]['src']['mut']
            yield c
        for k, v in (('via', 'api'), ('rnd', False), ('as_path', False), ('abspath', False), ('out', 'rel'), ('where', 'work'), ('user', 'ann'), ('buf', 8192)):
            if o[k] != v:
                c = copy.deepcopy(case)
                c['ops'][i][k] = v
                yield c
