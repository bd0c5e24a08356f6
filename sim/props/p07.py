"""P07 - the outcome of a run is reported as it was."""

import copy
import json
import os
import pathlib

from sim import fixtures, kernel, optimizer, problems, sized
from sim.canon import canon

ID = 'P07'
TIERS = dict(quick=dict(cases=400, budget=45, floor=20), thorough=dict(cases=20000, budget=3000, floor=300))
RULE = ('a problem that is ready to run (sizing with and without payload-range analysis, off-design, multi-mission, single-phase and '
        'multi-phase) and a seeded history of optimizer runs, single runs, payload-range analyses, off-design runs, level-1 runs and '
        'installation checks at seeded verbosities, each with a scripted optimizer outcome (converged, iteration limit, infeasible, '
        'exception, interrupt) per run; a reference model of the history gives what every report of the outcome must say; non-trivial = '
        'at least two runs of the optimizer with different outcomes, or one that failed')
REAL = ['AviaryProblem.run_aviary_problem, run_payload_range, run_off_design_mission', 'run_aviary', 'run-status report and its hook', 'aviary '
        'check', 'OpenMDAO driver result bookkeeping, set-up and model runs', 'dymos.run_problem and its recorder', 'payload-range file writer']
STUB = ['optimizer (scripted SimDriver around the real model)', 'dymos plots', 'N2 diagram', 'clock',
        'process boundaries (fork from a process holding the problems)']
ASSUMPTIONS = ['the optimizer reports its own outcome truthfully', 'reports of earlier runs are removed before the next run (their '
               'freshness is P17)']
SHRINK = ('ops',)

KINDS = {
    'sizing': dict(variant='cruise'),
    'payload': dict(variant='cruise', payload=True),
    'payload_bwb': dict(variant='bwb', payload=True),
    'payload_two': dict(variant='two', payload=True),
    'offdesign': dict(variant='cruise', payload=True, ptype='off_design_min_fuel'),
    'multi': dict(multi=True),
    'multi_payload': dict(multi=True, payload=True),
}
READY = {}
ENDS = ('converged', 'limit', 'infeasible', 'error', 'interrupt')


def build(kind):
    import aviary.api as av
    from aviary.core.aviary_problem import AviaryProblem
    from aviary.variable_info.enums import ProblemType
    from aviary.variable_info.variables import Aircraft, Mission, Settings

    k = KINDS[kind]
    if k.get('multi'):
        p = AviaryProblem(problem_type=ProblemType.MULTI_MISSION, verbosity=0, name='ready')
        for g in ('one', 'two'):
            inputs = problems.make_inputs(dict(aircraft='asa'))
            if k.get('payload'):
                inputs.set_val(Settings.PAYLOAD_RANGE, True)
            p.add_aviary_group(g, aircraft=inputs, phase_info=problems.make_phases(dict(kind='cruise')), verbosity=0)
        p.build_model(verbosity=0)
        p.promote_inputs(['one', 'two'], [(Aircraft.Design.GROSS_MASS, 'Aircraft1:GROSS_MASS'), (Aircraft.Design.RANGE, 'Aircraft1:RANGE')])
        p.add_design_var_default('Aircraft1:GROSS_MASS', lower=10.0, upper=900e3, units='lbm', default_val=100000)
        p.add_composite_objective(('one', Mission.FUEL_MASS, 2), ('two', Mission.FUEL_MASS, 1), ref=1)
        p.add_driver('SLSQP', max_iter=2, verbosity=0)
        p.add_design_variables(verbosity=0)
        p.setup()
        return p
    v = sized.VARIANTS[k['variant']]
    p = AviaryProblem(verbosity=0, name='ready')
    inputs = problems.make_inputs(v['inputs'])
    if k.get('payload'):
        inputs.set_val(Settings.PAYLOAD_RANGE, True)
    if k.get('ptype'):
        inputs.set_val(Settings.PROBLEM_TYPE, ProblemType(k['ptype']))
    p.load_inputs(inputs, problems.make_phases(v['phases']))
    return fixtures.build(p)


def setup(tier):
    import aviary.interface.reports  # noqa: F401
    import aviary.interface.run_aviary  # noqa: F401

    fixtures.quiet()
    fixtures.stub_n2()
    optimizer.install()
    os.environ['OPENMDAO_REPORTS'] = 'run_status'

    def go():
        for k in KINDS:
            READY[k] = build(k)
    fixtures.in_scratch(go)


def gen(rng, i, tier):
    kinds = sorted(KINDS)
    kind = kinds[i % len(kinds)] if rng.random() < 0.6 else rng.choice(kinds)
    ops = []

    def ends(n):
        return [rng.choice(('converged', 'converged', 'converged') + ENDS) for _ in range(n)]

    for _ in range(rng.choice((1, 2, 2, 3)) if tier == 'quick' else rng.choice((2, 3, 4, 5, 6))):
        r = rng.random()
        verb = rng.choice((None, 0, 0, 1, 1, 2, 3))
        if r < 0.55:
            ops.append(dict(op='run', ends=[rng.choice(ENDS)] + ends(2), verbosity=verb, driver=True, solves=rng.choice((1, 2))))
        elif r < 0.67:
            ops.append(dict(op='run', ends=['converged'] + ends(2), verbosity=rng.choice((None, 0, 1)), driver=False, solves=1))
        elif r < 0.82:
            ops.append(dict(op='pr', ends=ends(2), verbosity=rng.choice((None, 0, 1))))
        elif r < 0.92:
            ops.append(dict(op='off', ends=[rng.choice(ENDS)], verbosity=rng.choice((None, 0, 1)),
                            ptype=rng.choice(('off_design_min_fuel', 'off_design_max_range'))))
        elif r < 0.97 or tier == 'quick':
            ops.append(dict(op='level1', ends=[rng.choice(ENDS)], verbosity=rng.choice((0, 1)), driver=rng.random() < 0.8))
        else:
            ops.append(dict(op='check', ends=[rng.choice(ENDS)]))
    if tier == 'quick' and i % 25 == 7:
        ops.append(dict(op='check', ends=[rng.choice(ENDS[:4])]))
    return dict(prop=ID, kind=kind, ops=ops, verbosity=rng.choice((0, 0, 1, 1, 2)))


def history(ctx, case):
    import contextlib
    import io

    import aviary.api as av
    from aviary.interface.utils import set_warning_format
    from aviary.variable_info.enums import Verbosity

    prob = sized.adopt(READY[case['kind']])
    prob.verbosity = Verbosity(case['verbosity'])
    res = []
    for op in case['ops']:
        set_warning_format(prob.verbosity)  # other problems of the process may have changed the global filters
        out = dict(op=op['op'])
        optimizer.SCRIPT[:] = [dict(end=e, solves=op.get('solves', 1), move=0.01) for e in op['ends']]
        optimizer.RUNS[:] = []
        del ctx.warns[:]
        for d, _, fs in os.walk('.'):
            for f in fs:
                if f in ('status.json', 'payload_range_data.csv'):
                    os.remove(os.path.join(d, f))
        had = vars(prob).pop('payload_range_data', None)
        target, text = prob, io.StringIO()
        verb = op.get('verbosity')
        try:
            with contextlib.redirect_stdout(text):
                if op['op'] == 'run':
                    prob.run_aviary_problem(run_driver=op['driver'], make_plots=False, verbosity=verb)
                elif op['op'] == 'pr':
                    target = None
                    if not hasattr(prob, 'result'):
                        out['skipped'] = True
                    else:
                        out['returned'] = len(prob.run_payload_range(verbosity=verb) or ())
                elif op['op'] == 'off':
                    target = None
                    if not hasattr(prob, 'result') or prob.aviary_groups_dict:
                        out['skipped'] = True
                    else:
                        target = prob.run_off_design_mission(op['ptype'], verbosity=verb)
                elif op['op'] == 'level1':
                    target = None
                    target = av.run_aviary(fixtures.AIRCRAFT['asa'], problems.make_phases(dict(kind='cruise')), optimizer='SLSQP',
                                           run_driver=op['driver'], make_plots=False, verbosity=verb)
                else:
                    from aviary.interface.installation_test import _exec_installation_test

                    target = None
                    out['returned'] = _exec_installation_test(None, None)
            out['outcome'] = ['ok', '']
        except (Exception, KeyboardInterrupt) as e:
            out['outcome'] = [type(e).__name__, str(e)[:300]]
        out['text'] = text.getvalue()[-3000:] if op['op'] == 'check' else ''
        out['runs'] = [list(x) for x in optimizer.RUNS]
        out['warned'] = sum('Aviary run failed' in m for _, m in ctx.warns)
        if target is not None:
            r = getattr(target, 'result', None)
            out['result'] = None if r is None else bool(r.success)
            out['exit'] = None if r is None else str(r.exit_status)
            out['driver_success'] = bool(target.driver.result.success)
        data = getattr(prob, 'payload_range_data', None)
        out['data'] = None if data is None else [n for n, _ in data]
        if data is None and had is not None:
            prob.payload_range_data = had
        files = {}
        for d, _, fs in os.walk('.'):
            for f in fs:
                if f == 'status.json':
                    with open(os.path.join(d, f)) as fh:
                        s = json.load(fh)
                    files[s['Problem']] = [s['Exit status'], s['Number of driver iterations']]
                elif f == 'payload_range_data.csv':
                    files['csv'] = os.path.relpath(d, '.')
        out['files'] = files
        res.append(out)
    ctx.note('history', [(o['op'], o['outcome'][0], o['runs'], o['warned'], o.get('result'), sorted(o['files'])) for o in res])
    return res


EXC = {'error': 'SimulatedOptimizerError', 'interrupt': 'KeyboardInterrupt'}


def run(sim, case):
    res = sim.process(history, case, root=sim.new_host('run'), label='run', clock=dict(t0=1.7e9, tick=0.01))
    if not res.ok:
        raise kernel.HarnessError('history: ' + res.why() + (res.exc[2] if res.exc else ''))
    k = KINDS[case['kind']]
    sizing = not k.get('multi') and not k.get('ptype')
    last = None  # did the last run of the main problem converge?
    seen = set()
    for n, (op, o) in enumerate(zip(case['ops'], res.value)):
        if o.get('skipped'):
            continue
        verb = op.get('verbosity')
        verb = case['verbosity'] if verb is None and op['op'] != 'level1' else (verb or 0)
        label = f'operation {n} ({op["op"]}, verbosity {verb}, {[e for _, e in o["runs"]]})'
        seen.update(e for _, e in o['runs'])
        for _, e in o['runs']:
            sim.fault(f'optimizer {e}', 1) if e != 'converged' else None
        sim.counts['optimizer_runs'] += len(o['runs'])
        exc = next((EXC[e] for _, e in o['runs'] if e in EXC), None)

        # an exception during a run reaches the caller, and nothing else stops the call
        if op['op'] == 'check':
            pass
        elif exc and o['outcome'][0] != exc:
            sim.violate('swallowed', f'{label}: the run raised {exc}, the caller saw {o["outcome"]}')
        elif not exc and o['outcome'][0] != 'ok':
            sim.violate('spurious', f'{label}: no run raised, the caller saw {o["outcome"]}')

        if op['op'] == 'run':
            if op['driver']:
                first = o['runs'][0][1] if o['runs'] else None
                if first is None:
                    sim.violate('not-run', f'{label}: the optimizer was not run')
                    return
                last = first == 'converged'
            else:
                first = 'single'
                last = False
                if any(p == 'ready' for p, _ in o['runs']):
                    sim.violate('not-asked', f'{label}: the optimizer ran although run_driver was False')
            raised = first in EXC
            if o['driver_success'] != last or (o['result'] is not None and o['result'] != last) or (o['result'] is None and not raised):
                sim.violate('result', f'{label}: success is {o["result"]} (driver {o["driver_success"]}), the run ended {first}')
            behind = [e for p, e in o['runs'] if p != 'ready']
            status(sim, label, o, 'ready', first if op['driver'] else None)
            warn(sim, label, o, verb, [first] if op['driver'] else [], [(e, case['verbosity']) for e in behind], case['verbosity'] != 0)
            if raised and behind:
                sim.violate('payload-range', f'{label}: payload-range runs {behind} follow a run that raised')
            payload(sim, label, o, behind, last and sizing and bool(k.get('payload')), reports='ready_out')
        elif op['op'] == 'pr':
            behind = [e for _, e in o['runs']]
            warn(sim, label, o, verb, [], [(e, verb) for e in behind], case['verbosity'] != 0 and verb != 0)
            payload(sim, label, o, behind, bool(last) and not k.get('multi'), reports='ready_out')
        elif op['op'] in ('off', 'level1'):
            end = o['runs'][0][1] if o['runs'] else None
            if op.get('driver', True) and end is None:
                sim.violate('not-run', f'{label}: the optimizer was not run')
            good = end == 'converged'
            if o.get('result') is not None and o['result'] != good:
                sim.violate('result', f'{label}: success is {o["result"]}, the run ended {end}')
            if o['files'].get('csv'):
                sim.violate('payload-range', f'{label}: wrote payload-range data')
            for p in {p for p, _ in o['runs']}:
                status(sim, label, o, p, end)
            warn(sim, label, o, verb, [end] if end else [], [],
                 verb != 0 and (op['op'] == 'level1' or case['verbosity'] != 0))
        else:
            end = o['runs'][0][1] if o['runs'] else None
            good = end == 'converged'
            if end == 'interrupt':
                if o['outcome'][0] != 'KeyboardInterrupt':
                    sim.violate('swallowed', f'{label}: an interrupt did not reach the caller: {o["outcome"]}')
            elif o['outcome'][0] != 'ok' or bool(o.get('returned')) != good:
                sim.violate('installation', f'{label}: the installation check answered {o.get("returned")}, {o["outcome"]}')
            if not good and ('Aviary run successful' in o['text'] or 'installation is working.' in o['text']):
                sim.violate('installation', f'{label}: the installation check printed success')
        if sim.violations:
            return
    sim.nontrivial = len(seen) > 1 or bool(seen - {'converged'})
    sim.state([case['kind'], case['verbosity']] + [(o['op'], tuple(e for _, e in o['runs']), op.get('verbosity')) for op, o in zip(case['ops'], res.value)])


def status(sim, label, o, name, end):
    s = o['files'].get(name)
    good = end == 'converged'
    if s is not None and (s[0] == 'SUCCESS') != good:
        sim.violate('status', f'{label}: the run-status report of {name} says {s[0]}, the run ended {end}')
    if s is None and end in ('converged', 'limit', 'infeasible'):
        sim.violate('status', f'{label}: no run-status report of {name}')
    if s is not None and end is None:
        sim.violate('status', f'{label}: a run-status report {s} although the optimizer did not run')


def warn(sim, label, o, verb, own, behind, loud):
    """A failure at low verbosity is announced once per failed run, unless the problem's own verbosity suppresses every warning;
    no warning without failure."""
    bad = ('limit', 'infeasible')
    must = 0
    if loud:
        must = sum(1 for e in own if e in bad and verb <= 1) + sum(1 for e, v in behind if e in bad and v == 1)
    may = sum(1 for e in own if e in bad) + sum(1 for e, _ in behind if e in bad)
    if not must <= o['warned'] <= may:
        sim.violate('warning', f'{label}: {o["warned"]} failure warnings, expected {must} to {may}')


def payload(sim, label, o, behind, wanted, reports):
    csv, data = o['files'].get('csv'), o['data']
    if not wanted:
        if behind:
            sim.violate('payload-range', f'{label}: payload-range runs {behind} behind a run that must not have them')
        if csv or data:
            sim.violate('payload-range', f'{label}: payload-range data {data} {csv} behind a run that must not have them')
        return
    if not behind:
        sim.violate('payload-range', f'{label}: no payload-range runs behind a converged sizing run')
        return
    good = all(e == 'converged' for e in behind)
    if bool(csv) != good or bool(data) != good:
        sim.violate('payload-range', f'{label}: payload-range data {data}, file in {csv}, after runs that ended {behind}')
    elif csv and not csv.startswith(reports):
        sim.violate('payload-range', f'{label}: payload-range data written to {csv}')


def simplify(case):
    for k, o in enumerate(case['ops']):
        for key in ('verbosity',):
            if o.get(key):
                c = copy.deepcopy(case)
                c['ops'][k][key] = 0
                yield c
        for j, e in enumerate(o['ends']):
            if e != 'converged':
                c = copy.deepcopy(case)
                c['ops'][k]['ends'][j] = 'converged'
                yield c
    if case['verbosity']:
        yield dict(case, verbosity=0)
    if case['kind'] != 'sizing':
        yield dict(case, kind='sizing')
