"""P01 - saving sizing results replaces the file all-or-nothing."""

import hashlib
import json
import os

from sim import fixtures

ID = 'P01'
TIERS = dict(quick=dict(cases=1200, budget=150, floor=150), thorough=dict(cases=30000, budget=3000, floor=500))
RULE = ('seeded histories of 1-4 processes, each editing and saving one of two real Aviary problems to one of '
        'three paths, with up to one fault per process placed at a random I/O step of a save; every I/O step is also '
        'inspected as a crash point; non-trivial = a fault fired or an earlier results file existed when a save began')
REAL = ['AviaryProblem.save_results and everything under it', 'json', 'Python file buffering']
STUB = ['disk calls below Python buffering (SimFS)', 'process death (os._exit in a forked child)']
ASSUMPTIONS = ['a crash is the death of the process, not of the machine: data handed to the kernel survives',
               'one process writes a given results file at a time']
SHRINK = ('procs',)

PATHS = ['sizing_results.json', 'sub/saved.json', 'resultats_é.json']
BAD = ['object', 'set', 'complex', 'np64', 'surrogate', 'npobj', 'badlist']

PROB = {}


def setup(tier):
    PROB['a'] = fixtures.in_scratch(fixtures.small_problem, 'asa', None, 'sized_a')
    PROB['b'] = fixtures.in_scratch(fixtures.small_problem, 'min', None, 'sized_b')


def gen(rng, i, tier):
    procs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        acts = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            which = rng.choice('aab')
            if r < 0.12:
                acts.append(['bad', which, rng.choice(BAD), rng.choice(PATHS[:2])])
            elif r < 0.18:
                acts.append(['unset', rng.choice(PATHS[:2])])
            elif r < 0.22:
                acts.append(['save_default', which, round(rng.uniform(1, 99), 4)])
            else:
                p = PATHS[0] if rng.random() < 0.6 else rng.choice(PATHS)
                acts.append(['save', which, round(rng.uniform(1, 99), 4), rng.choice(['str', 'path', 'abs']), p])
        fault = None
        if rng.random() < 0.75:
            kind = rng.choice(['eio', 'eio', 'enospc', 'enospc', 'sticky_eio', 'short', 'close_eio', 'interrupt', 'crash',
                               'crash', 'crash_mid', 'crash_mid', 'crash_after', 'eacces'])
            fault = dict(at=round(rng.random(), 6), kind=kind, arg=round(rng.random(), 3))
            if rng.random() < 0.5:
                fault['once'] = True
        procs.append(dict(acts=acts, fault=fault, bufsize=rng.choice([64, 512, 4096, 8192, 8192, 1 << 17]),
                          wt=rng.random() < 0.3))
    return dict(prop=ID, procs=procs)


def _poison(prob, kind):
    import numpy as np

    v = {'object': object(), 'set': {1, 2}, 'complex': 1 + 2j, 'np64': np.int64(3) if False else np.float32(3.0),
         'surrogate': '\udc80', 'npobj': np.array([1, object()], dtype=object), 'badlist': [1, {2}]}[kind]
    prob.aviary_inputs.set_val('custom:poison', v, 'unitless')


def worker(ctx, acts, watch):
    """One process: edits and saves; `watch` makes every I/O step an observed crash point."""
    import aviary.api as av
    from pathlib import Path

    fixtures.quiet()
    fs = ctx.fs
    images = []
    real_step = fs.step

    def look(path):
        from sim.fs import _REAL
        try:
            with _REAL['open'](os.path.join(fs.root, path), 'rb') as f:
                return hashlib.sha256(f.read()).hexdigest()
        except OSError:
            return None

    cur = {'act': -1, 'path': None}

    def step(op, rel, detail=''):
        if cur['path'] is not None:
            h = look(cur['path'])
            if not images or images[-1] != (cur['act'], cur['path'], h):
                images.append((cur['act'], cur['path'], h))
        return real_step(op, rel, detail)

    fs.step = step
    for k, act in enumerate(acts):
        op = act[0]
        path = {'save': lambda: act[4], 'bad': lambda: act[3], 'unset': lambda: act[1],
                'save_default': lambda: 'sizing_results.json'}[op]()
        cur['act'], cur['path'] = k, path
        ctx.note('begin', k, look(path), fs.n)
        try:
            if op == 'unset':
                prob = av.AviaryProblem(verbosity=0, name='unset')
                prob.load_inputs(fixtures.AIRCRAFT['min'], fixtures.mission())
            else:
                prob = PROB[act[1]]
            if op == 'bad':
                _poison(prob, act[2])
                prob.save_results(path)
            elif op == 'unset':
                prob.save_results(path)
            elif op == 'save_default':
                prob.aviary_inputs.set_val(av.Aircraft.Wing.SPAN, act[2], 'ft')
                prob.save_results()
            else:
                prob.aviary_inputs.set_val(av.Aircraft.Wing.SPAN, act[2], 'ft')
                p = path
                if act[3] == 'path':
                    p = Path(path)
                elif act[3] == 'abs':
                    p = os.path.join(os.getcwd(), path)
                prob.save_results(p)
            status = 'ok'
        except BaseException as e:
            status = type(e).__name__
        finally:
            if op == 'bad':
                prob.aviary_inputs.delete('custom:poison')
        ctx.note('end', k, status, look(path), len(images))
    cur['path'] = None
    return images


def _expected(ctx, which):
    """What a complete file must contain, from the live problem itself."""
    import aviary.api as av

    prob = PROB[which]
    return [k for k, _ in prob.aviary_inputs]


def _valid(data, names, span):
    try:
        rows = json.loads(data.decode('utf-8'))
    except Exception as e:
        return f'not a JSON document ({type(e).__name__})'
    got = [r[0] for r in rows]
    missing = [n for n in names if n not in got]
    if missing:
        return f'entries missing: {missing[:3]}'
    v = next(r for r in rows if r[0] == 'aircraft:wing:span')
    if v[1] != span:
        return f'stored span {v[1]!r}, the problem had {span!r}'
    return None


def run(sim, case):
    names = {w: [k for k, _ in PROB[w].aviary_inputs] for w in 'ab'}
    for w in 'ab':
        if 'aircraft:wing:span' not in names[w]:
            names[w] = names[w] + ['aircraft:wing:span']
    os.makedirs(os.path.join(sim.root, 'sub'))
    ref_root = sim.new_host('ref')
    for pi, proc in enumerate(case['procs']):
        # reference: same starting files, no fault
        import shutil

        shutil.rmtree(ref_root)
        shutil.copytree(sim.root, ref_root)
        ref = sim.process(worker, proc['acts'], True, root=ref_root, label='ref', bufsize=proc['bufsize'],
                          write_through=proc['wt'])
        if not ref.ok:
            sim.violate('fault-free-exception', ref.why())
            return
        ends = {n[1]: n for n in ref.notes if n[0] == 'end'}
        begins = {n[1]: n for n in ref.notes if n[0] == 'begin'}
        complete = {}  # act -> hash of complete content
        for k, act in enumerate(proc['acts']):
            st, h = ends[k][2], ends[k][3]
            if act[0] in ('save', 'save_default'):
                if st != 'ok':
                    sim.violate('fault-free-save-raised', f'{act}: {st}')
                    return
                complete[k] = h
            elif st == 'ok':
                # whatever was stored must at least be a complete document
                complete[k] = h
                if act[0] == 'unset':
                    sim.violate('save-of-unfinished-problem-reported-ok', f'{act}')
            if st != 'ok' and ends[k][3] != begins[k][2]:
                sim.violate('failed-save-changed-file', f'{act}: save raised {st} but the file is no longer the earlier one')
        # contents of the fault-free files
        last = {}
        for k, act in enumerate(proc['acts']):
            if act[0] in ('save', 'save_default'):
                last[act[4] if act[0] == 'save' else PATHS[0]] = act
        for path, act in last.items():
            later = [a for k, a in enumerate(proc['acts']) if a[0] == 'bad' and a[3] == path and k in complete and k > proc['acts'].index(act)]
            if later:
                continue
            with open(os.path.join(ref_root, path), 'rb') as f:
                bad = _valid(f.read(), names[act[1]], act[2])
            if bad:
                sim.violate('acknowledged-save-incomplete', f'{act}: {bad}')
        _crash_points(sim, proc, ref, complete, begins, 'fault-free')
        if sim.violations:
            return
        # the run with the fault
        plan = []
        f = proc['fault']
        if f is not None and ref.steps:
            plan = [dict(f, step=int(f['at'] * len(ref.steps)))]
        if begins and any(b[2] for b in begins.values()):
            sim.nontrivial = True
        res = sim.process(worker, proc['acts'], True, root=sim.root, label='proc', bufsize=proc['bufsize'],
                          write_through=proc['wt'], plan=plan)
        if res.fired:
            sim.nontrivial = True
        if res.status == 'raise':
            sim.violate('process-exception', res.why())
            return
        b2 = {n[1]: n for n in res.notes if n[0] == 'begin'}
        e2 = {n[1]: n for n in res.notes if n[0] == 'end'}
        for k, act in enumerate(proc['acts']):
            if k not in b2:
                break
            path = act[4] if act[0] == 'save' else act[3] if act[0] == 'bad' else act[1] if act[0] == 'unset' else PATHS[0]
            old = b2[k][2]
            if k in e2:
                st, now = e2[k][2], e2[k][3]
                if st == 'ok':
                    if k in complete and now != complete[k]:
                        sim.violate('acknowledged-save-lost', f'{act}: returned normally under {res.fired} but the file is not the complete new one')
                elif now not in (old, complete.get(k, old)):
                    sim.violate('failed-save-damaged-file',
                                f'{act}: raised {st} under {res.fired}; the file is neither the earlier nor the new one')
                    sim.count_path = path
                sim.state((act[0], st, now == old, now == complete.get(k), res.fired and res.fired[0][1:4:2]))
            else:  # crashed inside
                try:
                    with open(os.path.join(sim.root, path), 'rb') as fh:
                        now = hashlib.sha256(fh.read()).hexdigest()
                except OSError:
                    now = None
                if now not in (old, complete.get(k, old)):
                    sim.violate('crash-damaged-file',
                                f'{act}: process died at {res.fired}; the file is neither the earlier nor the new one')
                sim.state((act[0], 'crash', now == old, now == complete.get(k), res.fired and res.fired[0][1:4:2]))
                sim.counts['crashes_inside_save'] += 1
        _crash_points(sim, proc, res, complete, b2, 'faulted')
        if sim.violations:
            return


def _crash_points(sim, proc, res, complete, begins, what):
    """Every observed I/O step is a place where the process could have died."""
    images = res.value if res.ok else []
    for k, path, h in images or []:
        sim.counts['crash_points_inspected'] += 1
        old = begins[k][2]
        if h not in (old, complete.get(k, old)):
            sim.violate('crash-point-damaged-file',
                        f'{proc["acts"][k]}: dying between two I/O steps of this {what} save leaves neither the earlier nor the new file')
            return


def simplify(case):
    import copy

    for i, p in enumerate(case['procs']):
        for j in range(len(p['acts'])):
            if len(p['acts']) > 1:
                c = copy.deepcopy(case)
                del c['procs'][i]['acts'][j]
                yield c
        if p['fault'] is not None:
            c = copy.deepcopy(case)
            c['procs'][i]['fault'] = None
            yield c
        if p['bufsize'] != 8192 or p['wt']:
            c = copy.deepcopy(case)
            c['procs'][i].update(bufsize=8192, wt=False)
            yield c
