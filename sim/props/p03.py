"""P03 - problems living in one process do not affect each other."""

import copy

from sim import fixtures, kernel, optimizer, problems
from sim.canon import diff, digest
from sim.trace import LineFault

ID = 'P03'
TIERS = dict(quick=dict(cases=240, budget=45, floor=20), thorough=dict(cases=20000, budget=3200, floor=400))
RULE = ('2 to 4 clients, each performing a seeded program of AviaryProblem calls (create, load, edit, external subsystems, '
        'check, build whole or in parts, driver, design variables, objective, set up, run, rerun, save; single- and '
        'multi-mission; level 1 and 2) to a seeded depth in one process, interleaved call by call by a seeded scheduler, with '
        'shared or private caller-owned inputs; some clients fail in their own modifier or builder, end in a scripted optimizer '
        'outcome, or are interrupted at a seeded line; every other client is compared, when all are done, with the same program '
        'alone in a fresh process; non-trivial = the scheduler switched clients at least twice')
REAL = ['AviaryProblem and AviaryGroup (all steps)', 'problem configurators, phase builders, preprocessors, core subsystem builders',
        'EngineDeck', 'run_aviary', 'OpenMDAO and Dymos model set-up and model runs']
STUB = ['optimizer (scripted SimDriver around the real model)', 'N2 diagram', "users' builders and modifiers", 'process boundaries (fork)']
ASSUMPTIONS = ['problems are given distinct names', 'one client runs one call at a time (no threads inside a call)']
SHRINK = ('programs', 'schedule')

FILES = ('core/aviary_problem.py', 'core/aviary_group.py', 'mission/phase_builder.py', 'utils/preprocessors.py', 'utils/process_input_decks.py',
         'problem_configurator.py', 'variable_info/functions.py', 'utils/aviary_values.py', 'mission/flight_phase_builder.py',
         'utils/functions.py', 'propulsion/engine_deck.py', 'interface/utils.py', 'interface/run_aviary.py')


def setup(tier):
    import aviary.interface.reports  # noqa: F401
    import aviary.models.missions.energy_state_default  # noqa: F401
    import aviary.models.missions.two_dof_default  # noqa: F401
    import aviary.interface.run_aviary  # noqa: F401
    import aviary.mission.two_dof.phases  # noqa: F401

    fixtures.quiet()
    fixtures.stub_n2()
    optimizer.install()


def gen(rng, i, tier):
    pool = []
    n = rng.choice((2, 2, 3, 3, 4))
    deep = rng.random() < (0.2 if tier == 'quick' else 0.4)
    depths = ('check', 'build', 'configured', 'setup', 'run', 'save') if deep else ('load', 'ext', 'check', 'build', 'configured', 'configured')
    progs = []
    for k in range(n):
        s = problems.gen_program(rng, k, pool, depths, gasp=0.08 if deep else 0.2)
        if progs and rng.random() < 0.35:  # a twin that starts from the same objects
            t = copy.deepcopy(rng.choice(progs))
            t.update(name=f'p{k}', depth=s['depth'])
            t.pop('strike', None)
            if t.get('ext') and pool[t['ext'][1]].get('private'):  # a failing builder counts its own calls
                del t['ext']
            s = t
        if rng.random() < 0.12:
            pool.append(dict(type='exts', private=True, items=[dict(type='builder', variant=['pre', 'mission', 'post', 'dv', 'con'],
                                                                    fail=dict(what=rng.choice(problems.METHODS), nth=rng.choice((0, 0, 1, 2)),
                                                                              kind=rng.choice(('user', 'key', 'value', 'interrupt'))))]))
            if not s.get('multi'):
                s['ext'] = ['pool', len(pool) - 1]
        if rng.random() < 0.15:
            s['strike'] = dict(step=rng.randrange(0, 9), at=int(10 ** rng.uniform(0, 3.6)))
        progs.append(s)
    return dict(prop=ID, pool=pool, programs=progs, schedule=[rng.randrange(12) for _ in range(rng.choice((3, 11, 29, 40)))])


def together(ctx, case, names):
    """Run the named programs of the case; returns their snapshots and the order of steps."""
    specs = [s for s in case['programs'] if s['name'] in names]
    need = set()

    def refs(x):
        if isinstance(x, dict):
            for v in x.values():
                refs(v)
        elif isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == 'pool' and isinstance(x[1], int):
                need.add(x[1])
            for v in x:
                refs(v)

    refs(specs)
    objects = {k: problems.make_object(case['pool'][k]) for k in sorted(need)}
    progs = [problems.Program(s, objects) for s in specs]
    order, k, struck = [], 0, {}
    sched = case['schedule'] or [0]
    while True:
        live = [i for i, p in enumerate(progs) if not p.done]
        if not live:
            break
        pick = live[sched[k % len(sched)] % len(live)]
        k += 1
        p = progs[pick]
        strike = p.spec.get('strike')
        if strike and strike['step'] == p.pc and len(names) > 1:
            with LineFault(FILES, strike['at']) as lf:
                name = p.step()
            if lf.fired:
                struck[p.spec['name']] = list(lf.fired)
                p.dead = True
        else:
            name = p.step()
        order.append((p.spec['name'], name, p.outcomes[-1][1]))
    snaps = {p.spec['name']: problems.snapshot(p) for p in progs if p.spec['name'] not in struck}
    ctx.note('order', order, struck)
    return dict(snaps=snaps, order=order, struck=struck)


def run(sim, case):
    names = [s['name'] for s in case['programs']]
    res = sim.process(together, case, names, root=sim.new_host('together'), label='together')
    if not res.ok:
        raise kernel.HarnessError('together: ' + res.why() + (res.exc[2] if res.exc else ''))
    got = res.value
    order = got['order']
    switches = sum(1 for a, b in zip(order, order[1:]) if a[0] != b[0])
    sim.nontrivial = switches >= 2
    sim.counts['steps'] += len(order)
    sim.counts['switches'] += switches
    for n, fired in got['struck'].items():
        sim.fault(f'interrupt@{fired[0]}')
    for n, step, out in order:
        if out != 'ok' and n not in got['struck']:
            sim.fault(f'{out}@{step}')
    sim.state(digest([(s.get('inputs'), s.get('phases'), s['depth'], s.get('modifier')) for s in case['programs']]) + repr([(a, b) for a, b, _ in order]))
    for s in case['programs']:
        n = s['name']
        if n in got['struck']:
            continue
        solo = sim.process(together, case, [n], root=sim.new_host('solo-' + n), label='solo')
        if not solo.ok:
            raise kernel.HarnessError('solo: ' + solo.why() + (solo.exc[2] if solo.exc else ''))
        want = solo.value['snaps'][n]
        sim.counts['compared'] += 1
        d = diff(want, got['snaps'][n])
        if d:
            what = sorted({x.split(':')[0].strip('/').split('/')[0] + '/' + (x.split(':')[0].strip('/') + '//').split('/')[1] for x in d})
            sim.violate('neighbour', f'{n} alone and with neighbours differ at {what}: ' + '; '.join(d[:4]), program=n)
            return


def simplify(case):
    for k, s in enumerate(case['programs']):
        for key in ('strike', 'modifier', 'edits', 'ext2', 'ext', 'script', 'rerun', 'set_vals', 'check_twice', 'parts', 'meta_new', 'meta_load', 'meta_edit', 'reload', 'objective',
                    'step_verbosity', 'verbosity', 'level1', 'phases'):
            if key in s:
                c = copy.deepcopy(case)
                del c['programs'][k][key]
                yield c
        ds = problems.DEPTHS
        for d in ds[: ds.index(s['depth'])]:
            c = copy.deepcopy(case)
            c['programs'][k]['depth'] = d
            yield c
    for k, o in enumerate(case['pool']):
        for key in ('twists', 'edits'):
            for j in range(len(o.get(key, ()))):
                c = copy.deepcopy(case)
                del c['pool'][k][key][j]
                yield c
