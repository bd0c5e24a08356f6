"""P05 - off-design and payload-range runs leave the sized problem intact."""

import copy
import hashlib
import os
import re

from sim import fixtures, kernel, optimizer, problems, sized
from sim.canon import canon, diff, digest
from sim.trace import LineFault

ID = 'P05'
TIERS = dict(quick=dict(cases=400, budget=45, floor=20), thorough=dict(cases=20000, budget=3000, floor=300))
RULE = ('a sized problem (one of nine aircraft and missions) and a seeded history of off-design runs (problem type, payload, range, gross '
        'mass, phase information of its own or shared, names, optimizer), payload-range analyses, re-runs of the sizing, edits of '
        'returned problems and changes of directory, each with a scripted optimizer outcome, some refused, some interrupted at a '
        'seeded line; after every operation the sized problem and the caller\'s objects are compared with before, and sampled '
        'operations with the same operation alone on the sized problem in a fresh process; non-trivial = at least two off-design '
        'or payload-range operations')
REAL = ['AviaryProblem.run_off_design_mission, run_payload_range, run_aviary_problem', 'AviaryGroup, configurators, preprocessors, core '
        'subsystem builders', 'OpenMDAO set-up and model runs', 'payload-range file writer']
STUB = ['optimizer (scripted SimDriver around the real model)', 'dymos.run_problem (no recorder, no plots)', 'N2 diagram',
        'process boundaries (fork from a process holding the sized problems)']
ASSUMPTIONS = ['one client, one call at a time', 'off-design problems are only changed through their own attributes']
SHRINK = ('ops',)

FILES = ('core/aviary_problem.py', 'core/aviary_group.py', 'energy_state_problem_configurator.py', 'utils/preprocessors.py',
         'mission/phase_builder.py', 'utils/aviary_values.py', 'variable_info/functions.py')
QUICK = ('cruise', 'two', 'bwb', 'modified', 'unbounded', 'gasp')


def setup(tier):
    fixtures.quiet()
    fixtures.stub_n2()
    optimizer.install()
    sized.bare_runs()
    sized.prepare(QUICK if tier == 'quick' else list(sized.VARIANTS))


def gen_off(rng, gasp):
    kw = dict(problem_type=rng.choice(('off_design_min_fuel', 'off_design_max_range')))
    if rng.random() < 0.05:
        kw['problem_type'] = rng.choice(('sizing', 'bogus'))
    if rng.random() < 0.4:
        kw['mission_range'] = rng.choice((900.0, 1500.0, 2100.0))
    if rng.random() < 0.3:
        kw['mission_gross_mass'] = rng.choice((120000.0, 150000.0))
    if rng.random() < 0.4 and not gasp:
        kw['num_economy'] = rng.choice((0, 80, 100, 154))
        kw['num_first_class'] = rng.choice((0, 4))
        kw['num_business'] = 0
    if rng.random() < 0.2:
        kw['num_pax'] = rng.choice((0, 60, 110))
    if rng.random() < 0.25 and not gasp:
        kw['wing_cargo'] = rng.choice((0, 1000.0))
        kw['misc_cargo'] = rng.choice((0, 2000.0))
    if rng.random() < 0.15:
        kw['cargo_mass'] = rng.choice((0, 4000.0))
    if rng.random() < 0.2:
        kw['optimizer'] = rng.choice(('SLSQP', 'SLSQP', 'SNOPT', 'IPOPT'))
    if rng.random() < 0.12:
        kw['fill_cargo'] = True
    if rng.random() < 0.12:
        kw['fill_fuel'] = True
    if rng.random() < 0.2:
        kw['name'] = rng.choice(('mine', 'other'))
    if rng.random() < 0.3:
        kw['verbosity'] = rng.choice((0, 1))
    op = dict(op='off', kw=kw, end=rng.choice(('converged', 'converged', 'converged', 'limit', 'infeasible', 'error', 'interrupt')), solves=rng.choice((1, 1, 2)))
    if rng.random() < 0.35:
        op['phases'] = rng.choice((0, 0, 1))
    return op


def gen(rng, i, tier):
    names = QUICK if tier == 'quick' else list(sized.VARIANTS)
    variant = names[i % len(names)] if rng.random() < 0.5 else rng.choice(names)
    gasp = variant == 'gasp'
    ops = []
    for _ in range(rng.choice((2, 3, 3, 4) if tier == 'quick' else (3, 4, 5, 6, 7))):
        r = rng.random()
        if r < 0.55:
            ops.append(gen_off(rng, gasp))
        elif r < 0.72:
            ops.append(dict(op='pr', ends=[rng.choice(('converged', 'converged', 'limit', 'error')) for _ in range(2)], verbosity=rng.choice((None, 0, 1))))
        elif r < 0.8:
            ops.append(dict(op='resize', end=rng.choice(('converged', 'converged', 'limit', 'error')), solves=rng.choice((1, 2)), move=rng.choice((0.0, 0.03))))
        elif r < 0.9:
            ops.append(dict(op='touch'))
        elif r < 0.95:
            ops.append(dict(op='cd', to=rng.choice(('sub', 'sub2'))))
        elif ops:
            ops.append(copy.deepcopy(rng.choice(ops)))
    if len(ops) > 1 and rng.random() < 0.35:
        ops.append(copy.deepcopy(rng.choice([o for o in ops if o['op'] in ('off', 'pr')] or ops)))
    if i % 3 == 1:
        # the same analysis before and after something changed
        again = dict(op='pr', ends=['converged', 'converged'], verbosity=rng.choice((None, 0, 1))) if rng.random() < 0.7 else dict(gen_off(rng, gasp), end='converged')
        mid = [dict(op='resize', end='converged', solves=1, move=0.03)] if rng.random() < 0.7 else [dict(op='touch')]
        if rng.random() < 0.3:
            mid.insert(rng.randint(0, 1), gen_off(rng, gasp))
        ops = [again] + mid + [dict(copy.deepcopy(again), check=True)]
    for o in ops:
        if o['op'] in ('off', 'pr') and 'check' not in o and rng.random() < 0.15:
            o['strike'] = int(10 ** rng.uniform(0, 3.7))
    todo = [k for k, o in enumerate(ops) if o['op'] in ('off', 'pr') and 'strike' not in o]
    later = [k for k in todo if k] or todo
    if any('check' in o for o in ops):
        later = []
    for k in later if tier != 'quick' else sorted(set(later[-1:] + rng.sample(later, min(len(later), 1)))):
        ops[k]['check'] = True
    return dict(prop=ID, variant=variant, ops=ops, workdir=rng.choice((None, None, 'work')),
                pool=[dict(kind=rng.choice(('cruise', 'climb_cruise')), twists=rng.choice(([], ['guesses'], ['constraint'], ['external']))) for _ in range(2)])


def files_under(top):
    out = {}
    for d, ds, fs in os.walk(top):
        ds.sort()
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                b = fh.read()
            out[os.path.relpath(p, top)] = hashlib.sha1(b).hexdigest()[:12]
        out[os.path.relpath(d, top) + '/'] = ''
    return out


def describe(x):
    d = sized.observe(x)
    d.pop('saved', None)
    return d


def history(ctx, case, which):
    """Perform the operations numbered in `which`; everything observed."""
    import pathlib

    if os.environ.get('OPENMDAO_WORKDIR'):
        os.environ['OPENMDAO_WORKDIR'] = os.path.abspath(os.environ['OPENMDAO_WORKDIR'])
    for d in ('sub', 'sub2', 'work'):
        os.makedirs(d, exist_ok=True)
    home = os.getcwd()
    work = os.environ.get('OPENMDAO_WORKDIR')
    prob = sized.adopt(sized.READY[case['variant']]) if case['variant'] in sized.READY else sized.make(case['variant'])
    for p in case['pool']:
        p.setdefault('type', 'phases')
    pool = [problems.make_object(p) for p in case['pool']]
    if case['variant'] == 'gasp':
        for ph in pool:
            for v in ph.values():
                if 'subsystem_options' in v:
                    v['subsystem_options']['aerodynamics']['method'] = 'cruise'
    before = describe(prob)
    mine = [canon(p) for p in pool]
    res = []
    returned = []
    for k in which:
        op = case['ops'][k]
        out = dict(k=k, op=op['op'])
        here = work or os.getcwd()
        dirs = {n: files_under(os.path.join(here, n)) for n in sorted(os.listdir(here)) if n.endswith('_out')}
        value, lf = None, None
        try:
            if op['op'] == 'cd':
                os.chdir(os.path.join(home, op['to']))
            elif op['op'] == 'touch':
                for o in returned[-1:]:
                    touch(o)
            else:
                optimizer.SCRIPT[:] = []
                if op['op'] == 'off':
                    kw = dict(op['kw'])
                    if 'phases' in op:
                        kw['phase_info'] = pool[op['phases']]
                    optimizer.SCRIPT[:] = [dict(end=op['end'], solves=op['solves'], move=0.01)]
                    call = lambda: prob.run_off_design_mission(**kw)  # noqa: E731
                elif op['op'] == 'pr':
                    optimizer.SCRIPT[:] = [dict(end=e, solves=1) for e in op['ends']]
                    call = lambda: prob.run_payload_range(verbosity=op['verbosity'])  # noqa: E731
                else:
                    optimizer.SCRIPT[:] = [dict(end=op['end'], solves=op['solves'], move=op['move'])]
                    call = lambda: prob.run_aviary_problem(make_plots=False, verbosity=0)  # noqa: E731
                if 'strike' in op and len(which) > 1:
                    with LineFault(FILES, op['strike']) as lf:
                        value = call()
                else:
                    value = call()
            out['outcome'] = ['ok', '']
        except (Exception, KeyboardInterrupt) as e:
            out['outcome'] = [type(e).__name__, re.sub(r'\.\d+\.tmp', '.tmp', str(e).replace(home, '<cwd>'))[:300]]
        out['struck'] = list(lf.fired) if lf and lf.fired else None
        if op['op'] == 'off' and out['outcome'][0] == 'ok':
            returned.append(value)
            out['value'] = describe(value)
            out['name'] = value._name
            auto = op['kw'].get('name') is None
            if auto and value._name + '_out' in dirs:
                out['reused'] = value._name + '_out'
        elif op['op'] == 'pr' and out['outcome'][0] == 'ok':
            returned.extend(x for x in value or () if x is not None)
            out['value'] = [describe(x) for x in value or ()]
            data = getattr(prob, 'payload_range_data', None)
            out['data'] = canon(data) if value else None
            f = pathlib.Path(prob.get_reports_dir()) / 'payload_range_data.csv'
            out['csv'] = [ln for ln in f.read_text().splitlines() if 'created' not in ln.lower()] if value and f.exists() else None
        if op['op'] == 'off' and op['kw'].get('name') is None:
            for n, was in dirs.items():
                if n.startswith('sized_off_design') and files_under(os.path.join(here, n)) != was:
                    out['reused'] = n
        if op['op'] == 'resize':
            before = describe(prob)
        else:
            now = describe(prob)
            d = diff(before, now)
            if d:
                out['changed'] = d
                before = now
        now = [canon(p) for p in pool]
        if now != mine:
            out['caller'] = diff(mine, now)
            mine = now
        res.append(out)
    ctx.note('outcomes', [(o['k'], o['op'], o['outcome'][0]) for o in res])
    return res


def touch(o):
    """A client edits a problem it was given back."""
    from aviary.variable_info.variables import Aircraft

    o.aviary_inputs.set_val(Aircraft.Wing.SWEEP, 3.0, 'deg')
    for ph in o.model.mission_info.values():
        ph.setdefault('user_options', {})['time_duration_bounds'] = ((1.0, 2.0), 's')
        ph.setdefault('subsystem_options', {}).setdefault('aerodynamics', {})['method'] = 'edited'
    o.model.post_mission_info['target_range'] = (1.0, 'm')
    o.model.pre_mission_info['edited'] = True
    o.meta_data[Aircraft.Wing.SWEEP] = dict(o.meta_data[Aircraft.Wing.SWEEP], default_value=-1.0)


def run(sim, case):
    env = {'OPENMDAO_WORKDIR': case['workdir']}
    all_ops = list(range(len(case['ops'])))
    res = sim.process(history, case, all_ops, root=sim.new_host('all'), label='all', env=env)
    if not res.ok:
        raise kernel.HarnessError('history: ' + res.why() + (res.exc[2] if res.exc else ''))
    got = res.value
    n = sum(1 for o in got if o['op'] in ('off', 'pr'))
    sim.nontrivial = n >= 2
    sim.counts['operations'] += len(got)
    for o in got:
        if o['struck']:
            sim.fault(f'interrupt@{o["struck"][0]}')
        elif o['outcome'][0] != 'ok':
            sim.fault(f'{o["outcome"][0]}@{o["op"]}')
    sim.state([case['variant']] + [(o['op'], o['outcome'][0]) for o in got])
    for o in got:
        what = f'operation {o["k"]} ({o["op"]}, {o["outcome"][0]}) '
        if o.get('changed'):
            sim.violate('sized-problem', what + 'changed the sized problem: ' + '; '.join(o['changed'][:4]))
        if o.get('caller'):
            sim.violate('caller-object', what + 'changed the phase information it was given: ' + '; '.join(o['caller'][:4]))
        if o.get('reused'):
            sim.violate('output-directory', what + f'used {o["reused"]}, the output directory of an earlier run')
        if sim.violations:
            return
    for k in all_ops:
        o = got[k]
        if not case['ops'][k].get('check'):
            continue
        if o['op'] not in ('off', 'pr') or o['struck'] or 'strike' in case['ops'][k]:
            continue
        which = [j for j in all_ops[:k] if case['ops'][j]['op'] == 'resize'] + [k]
        solo = sim.process(history, case, which, root=sim.new_host(f'solo{k}'), label=f'solo{k}', env=env)
        if not solo.ok:
            raise kernel.HarnessError('solo: ' + solo.why() + (solo.exc[2] if solo.exc else ''))
        w = solo.value[-1]
        sim.counts['compared'] += 1
        d = diff([w['outcome'], w.get('value'), w.get('data'), w.get('csv')], [o['outcome'], o.get('value'), o.get('data'), o.get('csv')])
        if d:
            sim.violate('later-result', f'operation {k} ({o["op"]}) alone and after the others differ: ' + '; '.join(d[:4]))
            return


def simplify(case):
    for k, o in enumerate(case['ops']):
        for key in ('strike', 'phases'):
            if key in o:
                c = copy.deepcopy(case)
                del c['ops'][k][key]
                yield c
        for key in list(o.get('kw', ())):
            if key != 'problem_type':
                c = copy.deepcopy(case)
                del c['ops'][k]['kw'][key]
                yield c
        if o.get('end', 'converged') != 'converged':
            c = copy.deepcopy(case)
            c['ops'][k]['end'] = 'converged'
            yield c
    if case['workdir']:
        yield dict(case, workdir=None)
    if case['variant'] != 'cruise':
        yield dict(case, variant='cruise')
