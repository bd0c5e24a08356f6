"""P06 - a failing user component or read surfaces and leaves a clean retry."""

import copy
import os

from sim import fixtures, kernel, optimizer, problems
from sim.canon import diff, digest
from sim.trace import Injected, LineFault

ID = 'P06'
TIERS = dict(quick=dict(cases=600, budget=60, floor=20), thorough=dict(cases=20000, budget=3200, floor=400))
RULE = ('a seeded problem assembly (single- and multi-mission, levels 1 and 2, whole or in parts, reload of a sizing file) with user '
        'builders, engines, components and phase-info modifiers and with input files on the simulated disk (aircraft csv, engine '
        'deck, drag tables, phase_info file, sizing json) is attempted two to twelve times with a failure at a seeded call of user '
        'code (any exception type, interrupts), at a seeded read of an input file, with an input file missing, or an interrupt at a '
        'seeded line, and then once more with the cause gone, in the same process; the last attempt is compared with the same '
        'assembly in a fresh process; non-trivial = at least one injected failure fired')
REAL = ['AviaryProblem and AviaryGroup assembly', 'problem configurators, phase builders, preprocessors, core subsystem builders', 'EngineDeck',
        'csv, json and phase_info readers', 'reload_aviary_problem', 'OpenMDAO and Dymos set-up']
STUB = ["users' builders, engines, components and modifiers (scripted)", 'disk (SimFS over a scratch directory)', 'optimizer', 'N2 diagram']
ASSUMPTIONS = ['a failure counts as having reached the caller when the step raises and the injected exception is in the chain of what it raises',
               'the user tries again with the same arguments, and with the same or fresh user objects']
SHRINK = ('attempts',)
STATE_MEASURE = 'distinct (failing call or read, kind of failure, step that raised, kind of assembly)'

FILES = ('core/aviary_problem.py', 'core/aviary_group.py', 'mission/phase_builder.py', 'utils/preprocessors.py', 'utils/process_input_decks.py',
         'problem_configurator.py', 'mission/flight_phase_builder.py', 'subsystems/premission.py', 'propulsion/engine_deck.py',
         'variable_info/functions.py', 'propulsion/propulsion_builder.py')
TEXT = {}
CD0 = 'validation_cases/validation_data/test_data/large_single_aisle_1_CD0_polar.csv'
CDI = 'validation_cases/validation_data/test_data/large_single_aisle_1_CDI_polar.csv'
KINDS = problems.CallFault.KINDS + ('type', 'type', 'attr', 'attr', 'key', 'key', 'value', 'value', 'user', 'index', 'os')
READS = ('open_r', 'read')


def _sized():
    p = fixtures.small_problem('asa', None, 'sized06')
    p.run_aviary_problem(run_driver=False, make_plots=False, suppress_solver_print=True)
    p.save_results('sizing.json')
    with open('sizing.json') as f:
        return f.read()


def setup(tier):
    import aviary
    import aviary.interface.reports  # noqa: F401
    import aviary.interface.run_aviary  # noqa: F401
    import aviary.mission.two_dof.phases  # noqa: F401
    import aviary.models.missions.energy_state_default  # noqa: F401
    import aviary.models.missions.two_dof_default  # noqa: F401

    fixtures.quiet()
    fixtures.stub_n2()
    optimizer.install()
    base = os.path.dirname(aviary.__file__)
    for k, rel in fixtures.AIRCRAFT.items():
        with open(os.path.join(base, rel)) as f:
            lines = f.read().split('\n')
        for j, line in enumerate(lines):
            if line.startswith('aircraft:engine:data_file,'):
                deck = line.split(',')[1].strip(" '\"")
                lines[j] = 'aircraft:engine:data_file,own_deck.csv,unitless'
        deck = os.path.join(base, deck[7:] if deck.startswith('aviary/') else deck)
        with open(deck) as f:
            TEXT[k] = ('\n'.join(lines), f.read())
    for k, rel in (('cd0', CD0), ('cdi', CDI)):
        with open(os.path.join(base, rel)) as f:
            TEXT[k] = f.read()
    with open(os.path.join(base, 'models/missions/energy_state_default.py')) as f:
        TEXT['phases'] = f.read()
    TEXT['json'] = fixtures.in_scratch(_sized)


def gen(rng, i, tier):
    pool = []
    kind = rng.choices(('program', 'json'), (12, 1))[0]
    s = problems.gen_program(rng, 0, pool, ('check', 'build', 'configured', 'setup', 'setup', 'setup'), gasp=0.12, fail=0.0)
    for k in ('level1', 'rerun', 'script', 'set_vals', 'reload', 'meta_edit'):
        s.pop(k, None)
    s['files'] = {}
    if kind == 'json':
        s = dict(name='p0', depth='setup', from_json='own_sizing.json', inputs=['path', ''], files={'own_sizing.json': 'json'})
        if rng.random() < 0.5:
            s['phases'] = ['lit', 'own_phases.py']
            s['files']['own_phases.py'] = 'phases'
        pool = []
    else:
        if s.get('multi'):
            s['ext'] = None
        elif rng.random() < 0.5:
            ac = s['inputs'][1] if s['inputs'][0] == 'file' else pool[s['inputs'][1]]['aircraft']
            s['inputs'] = ['path', 'own_plane.csv']
            s['files'].update({'own_plane.csv': ['plane', ac], 'own_deck.csv': ['deck', ac]})
            if ac in problems.FLOPS_AC and rng.random() < 0.25:
                s['phases'] = ['lit', 'own_phases.py']
                s['files']['own_phases.py'] = 'phases'
            elif ac in problems.FLOPS_AC and rng.random() < 0.6:
                s['depth'] = 'setup' if rng.random() < 0.7 else s['depth']
                pool.append(dict(problems.gen_phases(rng), tabular=True))
                s['phases'] = ['pool', len(pool) - 1]
                s['files'].update({'own_cd0.csv': 'cd0', 'own_cdi.csv': 'cdi'})
        if s.get('multi') or s.get('ext') is None and rng.random() < 0.75:
            items = [dict(type='builder', variant=rng.choice((['pre', 'mission', 'post', 'dv', 'con'], ['pre', 'post', 'dv'], ['mission', 'con'])),
                          shared=rng.random() < 0.5)]
            if rng.random() < 0.5:
                items.append(dict(type='engine', aircraft='asa', sim=True))
            if s['inputs'][0] == 'path' if 'inputs' in s else False:
                items = [dict(x, aircraft='asa') for x in items]
            pool.append(dict(type='exts', items=items))
            s['ext'] = ['pool', len(pool) - 1]
        if not s.get('multi') and not s.get('modifier') and rng.random() < 0.25:
            s['modifier'] = 'shift'
    att = []
    for _ in range(rng.choice((2, 4, 8, 12))):
        site = rng.choices(('call', 'io', 'missing', 'line'), (18, 9 if s['files'] else 0, 1 if s['files'] else 0, 2))[0]
        a = dict(site=site, fresh=rng.random() < 0.4)
        if site == 'call':
            a.update(pos=[rng.random(), rng.random()], kind=rng.choice(KINDS))
        elif site == 'io':
            a.update(pos=[rng.random(), rng.random()], kind=rng.choice(('eio', 'eacces', 'emfile', 'interrupt', 'eio')))
        elif site == 'missing':
            a.update(file=rng.choice(sorted(s['files'])))
        else:
            a.update(at=int(10 ** rng.uniform(0, 4)))
        att.append(a)
    return dict(prop=ID, pool=pool, program=s, attempts=att)


def content(what):
    if what == 'json' or what in ('cd0', 'cdi', 'phases'):
        return TEXT[what]
    return TEXT[what[1]][0 if what[0] == 'plane' else 1]


def put(ctx, case, root):
    os.makedirs(root, exist_ok=True)
    for n, what in case['program']['files'].items():
        with open(os.path.join(root, n), 'w') as f:
            f.write(content(what))


def make_objects(case):
    out = {}
    for k, o in enumerate(case['pool']):
        out[k] = problems.make_object(o)
        if o.get('tabular'):
            for n, ph in out[k].items():
                if n not in ('pre_mission', 'post_mission'):
                    ph.setdefault('subsystem_options', {})['aerodynamics'] = {'method': 'tabular', 'CD0_data': 'own_cd0.csv', 'CDI_data': 'own_cdi.csv'}
    return out


def chain(e):
    seen, todo = [], [e]
    while todo:
        x = todo.pop()
        if x is None or any(x is y for y in seen):
            continue
        seen.append(x)
        todo += [x.__cause__, x.__context__]
    return seen


def attempts(ctx, case, faults, where):
    """Assemble once per entry of `faults` (None: no failure), in one process."""
    objects, out = None, []
    for a in faults:
        if objects is None or (a or {}).get('fresh') or case['attempts'][-1].get('fresh') and a is None:
            objects = make_objects(case)
        p = problems.Program(case['program'], objects)
        a = a or {}
        cf = problems.CallFault(a.get('call'), a.get('kind', 'user'))
        io0 = ctx.fs.n
        nsteps = len(ctx.fs.steps)
        ctx.fs.plan = {io0 + a['io']: dict(step=io0 + a['io'], kind=a['kind'])} if 'io' in a else {}
        nf = len(ctx.fs.fired)
        gone = None
        if a.get('site') == 'missing':
            gone = os.path.join(ctx.fs.root, a['file'])
            os.rename(gone, gone + '.away')
        lf = LineFault(FILES, a['at']) if a.get('site') == 'line' else None
        with cf:
            while not p.done:
                if lf is not None:
                    with lf:
                        p.step()
                    if lf.fired:
                        p.dead = True
                else:
                    p.step()
        if gone:
            os.rename(gone + '.away', gone)
        fired, surfaced = None, True
        exc = getattr(p, 'exc', None)
        if cf.fired:
            fired = ['call', cf.fired[0], a['kind']]
            surfaced = exc is not None and any(x is cf.exc for x in chain(exc))
        elif len(ctx.fs.fired) > nf:
            fired = ['io', ctx.fs.fired[-1][1] + ' ' + ctx.fs.fired[-1][2], a['kind']]
            surfaced = exc is not None and any('simulated' in str(x) for x in chain(exc))
        elif lf is not None and lf.fired:
            fired = ['line', lf.fired[0], 'interrupt']
        elif gone:
            fired = ['missing', a['file'], '']
        rec = dict(fired=fired, surfaced=surfaced, calls=cf.n, names=cf.names,
                   reads=[(k, rel) for k, (op, rel) in enumerate(ctx.fs.steps[nsteps:]) if op in READS and rel in case['program']['files']],
                   files=sorted({rel for op, rel in ctx.fs.steps[nsteps:] if op in READS and rel in case['program']['files']}),
                   last=p.outcomes[-1][:2] if p.outcomes else None, message=p.outcomes[-1][2] if p.outcomes else '')
        ctx.note(where, rec['fired'], rec['last'])
        if not a:
            rec['snap'] = problems.snapshot(p)
        out.append(rec)
    return out


def run(sim, case):
    put(None, case, os.path.join(sim.base, 'fresh'))
    res = sim.process(attempts, case, [None], 'fresh', root=os.path.join(sim.base, 'fresh'), label='fresh')
    if not res.ok:
        raise kernel.HarnessError('fresh: ' + res.why() + (res.exc[2] if res.exc else ''))
    ref = res.value[0]
    faults = []
    for a in case['attempts']:
        a = dict(a)
        if a['site'] == 'call':
            if not ref['calls']:
                continue
            names = sorted(set(ref['names']))  # a method first, then one of its calls
            name = names[int(a['pos'][0] * len(names))]
            at = [k for k, n in enumerate(ref['names']) if n == name]
            a['call'] = at[int(a['pos'][1] * len(at))]
        elif a['site'] == 'io':
            if not ref['reads']:
                continue
            rel = ref['files'][int(a['pos'][0] * len(ref['files']))]  # a file first, then one of its reads
            at = [k for k, r in ref['reads'] if r == rel]
            a['io'] = at[int(a['pos'][1] * len(at))]
        elif a['site'] == 'missing' and a['file'] not in ref['files']:
            continue
        faults.append(a)
    if not faults:
        return
    root = os.path.join(sim.base, 'faulty')
    put(None, case, root)
    res = sim.process(attempts, case, faults + [None], 'faulty', root=root, label='faulty')
    if not res.ok:
        raise kernel.HarnessError('faulty: ' + res.why() + (res.exc[2] if res.exc else ''))
    got = res.value
    kind = 'json' if case['program'].get('from_json') else 'multi' if case['program'].get('multi') else 'single'
    for a, r in zip(faults, got):
        if not r['fired']:
            continue
        sim.nontrivial = True
        sim.counts['failed_attempts'] += 1
        if r['fired'][0] != 'io':
            sim.fault(f'{r["fired"][0]}:{r["fired"][2] or "missing"}')
        sim.state((r['fired'], r['last'], kind))
        if r['last'][1] == 'ok' and r['fired'][0] in ('call', 'io'):
            sim.violate('swallowed', f'{r["fired"]} did not reach the caller, every step succeeded', site=r['fired'][1])
        elif not r['surfaced']:
            sim.violate('swallowed', f'{r["fired"]} did not reach the caller; {r["last"][0]} raised {r["last"][1]}: {r["message"]}', site=r['fired'][1])
        elif r['fired'][0] == 'missing' and r['last'][1] == 'ok':
            sim.violate('swallowed', f'{r["fired"][1]} is missing, yet every step succeeded', site=r['fired'][1])
    sim.counts['compared'] += 1
    d = diff(ref['snap'], got[-1]['snap'])
    if d and not sim.violations:
        what = sorted({x.split(':')[0].strip('/').split('/')[0] + '/' + (x.split(':')[0].strip('/') + '//').split('/')[1] for x in d})
        sim.violate('retry', f'after {[r["fired"] for r in got[:-1]]} the retry differs from a fresh process at {what}: ' + '; '.join(d[:4]))


def simplify(case):
    s = case['program']
    for key in ('modifier', 'edits', 'ext2', 'ext', 'check_twice', 'parts', 'meta_new', 'meta_load', 'objective', 'step_verbosity', 'verbosity', 'phases'):
        if s.get(key) is not None:
            c = copy.deepcopy(case)
            del c['program'][key]
            yield c
    ds = problems.DEPTHS
    for d in ds[: ds.index(s['depth'])]:
        c = copy.deepcopy(case)
        c['program']['depth'] = d
        yield c
    for k, o in enumerate(case['pool']):
        for key in ('twists', 'edits', 'items'):
            for j in range(len(o.get(key, ()))):
                c = copy.deepcopy(case)
                del c['pool'][k][key][j]
                yield c
    for k, a in enumerate(case['attempts']):
        if a.get('fresh'):
            c = copy.deepcopy(case)
            c['attempts'][k]['fresh'] = False
            yield c
        if a.get('kind') not in (None, 'user', 'eio'):
            c = copy.deepcopy(case)
            c['attempts'][k]['kind'] = 'user' if a['site'] == 'call' else 'eio'
            yield c
