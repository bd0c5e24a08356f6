"""P08 - results do not depend on hash seed, listing order, clock, working directory or user."""

import copy
import os
import re

from sim import converters, fixtures, optimizer, problems, zygote
from sim.canon import canon, diff, digest, short

ID = 'P08'
TIERS = dict(quick=dict(cases=600, budget=60, floor=40), thorough=dict(cases=30000, budget=3000, floor=600))
RULE = ('seeded workloads (problem assembly, runs with all Aviary reports, saves and reloads; conversions of legacy files; metadata and '
        'hierarchy merges, lookups, table and deck writing, builder queries) performed with identical inputs on simulated hosts that '
        'differ in hash seed (real interpreters), directory listing order, clock start, speed, jumps and time zone, working directory '
        'name, user name, process number, global random state and legal short reads; everything observed and written is compared '
        'after masking time stamps, user names and paths; non-trivial = the workload did something and at least one host differs in '
        'its hash seed or listing order')
REAL = ['AviaryProblem and everything it builds', 'Aviary reports and their hooks', 'file converters (API and command line)',
        'merge_meta_data, merge_hierarchies, get_path, get_model, write_data_file, save_to_csv_file, build_data_interpolator',
        'the interpreter (one per hash seed)', 'OpenMDAO and dymos']
STUB = ['optimizer (scripted SimDriver around the real model)', 'clock and time zone', 'user name', 'directory order and read sizes (SimFS)',
        'process number and random state', 'N2 diagram']
ASSUMPTIONS = ['files that OpenMDAO itself writes (databases, HTML pages, its own check log) are not Aviary\'s output', 'the memory address in the text form of an object is as little a result as a process number',
               'four hash seeds stand for all; any order that depends on the seed differs between two of them with high probability']
SHRINK = ('envs', 'ops')
STATE_MEASURE = 'hash of (workload kind, environment dimensions that differ)'

HASHES = (0, 1, 7, 123)
REPORTS = 'subsystems,mission,timeseries_csv,run_status,sizing_results,input_checks,overridden_variables,list_options'
BASE = dict(hash=0, listing=None, t0=1.7e9, tick=0.001, jumps={}, tz='UTC', cwd='work', user='ann', pid=1, seed=0, buf=8192, shorts=[])
CWDS = ('work', 'a b', 'gr\u00f6\u00dfe', 'deep/er/one', 'x.csv', 'models', 'p0_out', 'reports', '1')
TZS = ('UTC', 'EST5EDT', 'NZST-12NZDT', 'XYZ-14', 'ABC+11:30')
T0S = (1.7e9, 0.0, 951782399.0, 1709251199.5, 2147483646.9, 4102444799.0, 1741503599.0, 1735689599.9)


def setup(tier):
    import aviary.api  # noqa: F401

    zygote.start(__name__, tier, HASHES, env=dict(OPENMDAO_REPORTS=REPORTS))


def zygote_setup(tier):
    import aviary.api  # noqa: F401
    import aviary.interface.reports  # noqa: F401
    import aviary.interface.cmd_entry_points  # noqa: F401
    import aviary.subsystems.propulsion.turboprop_model  # noqa: F401

    fixtures.quiet()
    fixtures.stub_n2()
    optimizer.install()
    converters.warm_imports()
    fixtures.in_scratch(fixtures.small_problem)  # imports what a build imports


# ---- generation ------------------------------------------------------------------------------------
def gen_env(rng, tier):
    e = dict(BASE, jumps={}, shorts=[])
    if rng.random() < 0.85:
        e['hash'] = rng.choice(HASHES[1:])
    if rng.random() < 0.5:
        e['listing'] = rng.randrange(1, 1000)
    if rng.random() < 0.5:
        e['t0'] = rng.choice(T0S)
        e['tick'] = rng.choice((0.001, 0.0, 1.0, -0.01, 3600.0))
        for _ in range(rng.choice((0, 0, 1, 3))):
            e['jumps'][str(rng.choice((1, 2, 3, 5, 9, 20, 60)))] = rng.choice((-3600.0, 3600.0, 8.64e6, -50.0, 0.999))
        e['tz'] = rng.choice(TZS)
        if e['t0'] == 0.0:
            e['tick'], e['jumps'] = abs(e['tick']), {}
    if rng.random() < 0.5:
        e['cwd'] = rng.choice(CWDS[1:])
    if rng.random() < 0.5:
        e['user'] = rng.choice(('root', '!fail', '\u00dcnal', 'a b', ''))
    if rng.random() < 0.3:
        e['pid'] = rng.choice((2, 77, 8191))
        e['seed'] = rng.randrange(1000)
    if rng.random() < 0.3:
        e['buf'] = rng.choice((16, 97, 4096))
        e['shorts'] = sorted(rng.sample(range(300), rng.choice((3, 10, 40))))
    return e


INTERP = dict(inputs=('mach', 'altitude', 'throttle'), outputs=('thrust', 'drag', 'fuel', 'heat', 'noise', 'temp'))


def gen_ops(rng):
    ops = []
    for _ in range(rng.choice((3, 6, 10))):
        k = rng.choice(('meta', 'hier', 'path', 'model', 'table', 'inputs_csv', 'interp', 'aero', 'engine', 'vehicle', 'turboprop', 'engines', 'options'))
        o = dict(op=k)
        if k == 'meta':
            o['parts'] = [[rng.choice(('aircraft', 'mission', 'zz', 'a')) + f':p{rng.randrange(20)}' for _ in range(rng.choice((0, 3, 9)))] for _ in range(rng.choice((2, 3)))]
            o['core'] = rng.random() < 0.5
        elif k == 'hier':
            o['names'] = [[rng.choice(('ALPHA', 'BETA', 'GAMMA', 'DELTA', 'EPS', 'ZETA')) for _ in range(4)] for _ in range(rng.choice((2, 3)))]
        elif k in ('path', 'model'):
            o['name'] = rng.choice(('turbofan_22k.csv', 'large_single_aisle_1_FLOPS.csv', 'phase_info.py', 'models/engines/turbofan_28k.csv',
                                    'energy_phase_info.py', 'nothing.csv', 'user.csv', 'advanced_single_aisle_FLOPS', 'PAX300_baseline_ENGDEK', 'bwb_simple_FLOPS.csv'))
        elif k == 'table':
            o['cols'] = rng.sample(('b', 'a', 'z', 'mach', 'Thrust', 'c d'), rng.choice((1, 3, 5)))
            o['meta'] = rng.random() < 0.5
        elif k == 'inputs_csv':
            o['names'] = rng.sample(sorted(problems.EDITS), 5)
        elif k == 'interp':
            o['outs'] = rng.sample(INTERP['outputs'], rng.choice((1, 3, 6)))
            o['how'] = rng.choice(('dict', 'list', 'file'))
            o['struct'] = rng.random() < 0.5
        elif k == 'aero':
            o['code'] = rng.choice(('gasp', 'gasp', 'flops'))
            o['method'] = rng.choice(('cruise', 'low_speed', 'tabular_cruise', 'tabular_low_speed') if o['code'] == 'gasp' else ('computed', 'computed', 'low_speed', 'tabular'))
            o['ac'] = rng.choice(('asa', 'lsa1g', 'bwb', 'ssg', 'ltf'))
        elif k == 'engine':
            o['ac'] = rng.choice(('asa', 'lsa1g', 'bwb', 'ssg', 'ltf'))
        elif k == 'engines':
            o['kinds'] = rng.choice((['deck', 'deck'], ['deck', 'turboprop'], ['turboprop', 'deck', 'deck']))
        elif k == 'vehicle':
            o['ac'] = rng.choice(('asa', 'lsa1g', 'bwb', 'ssg', 'ltf', 'lsa2', 'min'))
        elif k == 'options':
            o['ac'] = rng.choice(('asa', 'lsa1g', 'ssg'))
        ops.append(o)
    return ops


def gen(rng, i, tier):
    r = rng.random()
    case = dict(prop=ID, envs=[gen_env(rng, tier) for _ in range(2 if tier == 'quick' else rng.choice((2, 3)))])
    if not any(e['hash'] for e in case['envs']):
        case['envs'][0]['hash'] = rng.choice(HASHES[1:])
    if r < 0.55:
        pool = []
        if rng.random() < 0.25:  # two-degree-of-freedom and turboprop problems
            s = dict(name='p0', depth='setup', inputs=['file', rng.choice(('lsa1g', 'ssg', 'ltf', 'ltf'))], verbosity=rng.choice((0, 1)))
            if s['inputs'][1] == 'ltf':
                pool.append(dict(type='exts', items=[dict(type='turboprop')]))
                s['ext'] = ['pool', 0]
            elif rng.random() < 0.5:
                s['solved'] = True
            progs = [s]
        else:
            depths = rng.choice((('configured',), ('setup',), ('run',), ('run', 'save'), ('save',)))
            progs = [problems.gen_program(rng, 0, pool, depths, gasp=0.1, fail=0.03)]
            if progs[0]['depth'] in ('run', 'save') and 'script' not in progs[0] and rng.random() < 0.7:
                progs[0]['script'] = dict(end=rng.choice(('converged', 'limit')), solves=1, move=0.01)
            if rng.random() < 0.15:
                progs[0]['payload'] = True
        case.update(kind='problem', pool=pool, programs=progs)
    elif r < 0.78:
        ops = []
        for _ in range(rng.choice((1, 2))):
            src = converters.source(rng)
            op = dict(src=src, name=rng.choice(('a', 'b')) + rng.choice(converters.SUFFIX[src['kind']]), via=rng.choice(('api', 'cli')),
                      out=rng.random() < 0.5, rnd=rng.random() < 0.3)
            if rng.random() < 0.15:
                src['mut'] = dict(how=rng.choice(converters.MUTATIONS), at=round(rng.random(), 4))
            ops.append(op)
        case.update(kind='convert', ops=ops)
    else:
        case.update(kind='util', ops=gen_ops(rng))
    return case


# ---- workloads ---------------------------------------------------------------------------------------
def do_problem(case):
    pool = [problems.make_object(s) for s in case['pool']]
    out = []
    for s in case['programs']:
        p = problems.Program(s, pool)
        while not p.done:
            p.step()
        d = problems.snapshot(p)
        if p.prob is not None and 'vars_input' in d:
            d['prom_order'] = [list(p.prob.model._resolver.prom_iter(io)) for io in ('input', 'output')]
        d['order_subsystems'] = [n for n, _ in _subs(p.prob)] if p.prob is not None else None
        out.append(d)
    return out


def _subs(prob):
    if getattr(prob, 'model', None) is None:
        return []
    return [(s.pathname, 0) for s in prob.model.system_iter(include_self=False, recurse=True)] if prob._metadata and prob._metadata['setup_status'] >= 2 else []


def do_convert(case):
    out = []
    for k, op in enumerate(case['ops']):
        src = op['src']
        name = f'{k}{op["name"]}'
        with open(name, 'wb') as f:
            f.write(converters.content(src))
        o = None
        if op['out']:
            o = f'out{k}' + {'prop': '.prop'}.get(src['kind'], '.csv')
            if src['fmt'] == 'FLOPS' and src['kind'] == 'aero' and op['via'] == 'api':
                o = [o, o + '2']
        try:
            converters.convert(src['kind'], src['fmt'], name, o, op['via'], True, op['rnd'])
            out.append(['ok', ''])
        except Exception as e:
            out.append([type(e).__name__, str(e)])
        except SystemExit as e:
            out.append(['SystemExit', str(e.code)])
    return out


def _named(names):
    return type('Aircraft', (), {'Extra': type('Extra', (), {n: f'aircraft:extra:{n.lower()}' for n in names})})


def do_op(o, k):
    import numpy as np

    import aviary.api as av
    from aviary.utils.functions import get_model, get_path
    from aviary.utils.process_input_decks import create_vehicle

    op = o['op']
    if op == 'meta':
        ds = [{}, {}, {}][: len(o['parts'])]
        for d, names in zip(ds, o['parts']):
            for n in names:
                if n not in d:
                    av.add_meta_data(n, desc='x', default_value=1.0, units='ft', meta_data=d)
        m = av.merge_meta_data(([av.CoreMetaData] if o['core'] else []) + ds)
        return [list(m)[-40:], digest(canon(m))]
    if op == 'hier':
        from aviary.utils.merge_hierarchies import merge_hierarchies

        m = merge_hierarchies([_named(n) for n in o['names']] + [av.Aircraft])
        return [[x for x in vars(m) if not x.startswith('__')], [x for x in vars(m.Extra) if not x.startswith('__')]]
    if op == 'path':
        with open('user.csv', 'w') as f:
            f.write('x\n')
        return str(get_path(o['name'], 0))
    if op == 'model':
        return str(get_model(o['name'], 0))
    if op == 'table':
        from aviary.utils.csv_data_file import read_data_file, write_data_file

        data = av.NamedValues()
        for n in o['cols']:
            data.set_val(n, np.linspace(0, 1, 5), 'ft')
        write_data_file(f'table{k}.csv', data, outputs=o['cols'][-1:], comments=['made by hand'], include_timestamp=o['meta'])
        d, i, u = read_data_file(f'table{k}.csv', save_comments=False)[:3]
        return [canon(d), list(i), list(u)]
    if op == 'inputs_csv':
        from aviary.utils.aviary_inputs_to_csv import save_to_csv_file

        vals = problems.make_inputs(dict(aircraft='asa', edits=[e for e in o['names'] if e not in ('minfuel', 'maxrange', 'verb2')]))
        save_to_csv_file(f'inputs{k}.csv', vals)
        return None
    if op == 'interp':
        import openmdao.api as om

        from aviary.utils.data_interpolator_builder import build_data_interpolator

        data = av.NamedValues()
        x = np.array(np.meshgrid([0.0, 0.2, 0.5, 0.7, 1.0], [0.0, 1e4, 2e4, 3e4, 4e4], [0.0, 0.2, 0.5, 0.7, 1.0], indexing='ij')).reshape(3, -1)
        for n, v in zip(INTERP['inputs'], x):
            data.set_val(n, v, 'unitless')
        for j, n in enumerate(o['outs']):
            data.set_val(n, x[0] + x[1] * j + x[2], 'lbf')
        src = data
        if o['how'] == 'file':
            from aviary.utils.csv_data_file import write_data_file

            write_data_file(f'interp{k}.csv', data, outputs=list(o['outs']), include_timestamp=False)
            src = f'interp{k}.csv'
        outs = {n: 'lbf' for n in o['outs']} if o['how'] == 'dict' else list(o['outs'])
        comp = build_data_interpolator(num_nodes=2, interpolator_data=src, interpolator_outputs=outs, method='slinear' if o['struct'] else 'lagrange3',
                                       extrapolate=True)
        p = om.Problem(reports=False)
        p.model.add_subsystem('c', comp, promotes=['*'])
        p.setup()
        p.final_setup()
        p.run_model()
        m = p.model
        return [list(m._var_allprocs_abs2meta['input']), list(m._var_allprocs_abs2meta['output']), m._outputs.asarray().tolist()]
    if op == 'aero':
        from aviary.subsystems.aerodynamics.aerodynamics_builder import CoreAerodynamicsBuilder
        from aviary.variable_info.enums import LegacyCode

        b = CoreAerodynamicsBuilder(code_origin=LegacyCode(o['code'].upper()))
        vals = make_vehicle(o['ac'])
        opts = {'method': o['method']}
        return [canon(b.get_parameters(aviary_inputs=vals, user_options={}, subsystem_options=opts)),
                canon(b.mission_inputs(aviary_inputs=vals, user_options={}, subsystem_options=opts)),
                canon(b.mission_outputs(aviary_inputs=vals, user_options={}, subsystem_options=opts))]
    if op in ('engine', 'turboprop', 'engines'):
        from aviary.subsystems.propulsion.propulsion_builder import CorePropulsionBuilder
        from aviary.utils.preprocessors import preprocess_options
        from aviary.subsystems.propulsion.utils import build_engine_deck
        import openmdao.api as om

        vals = make_vehicle('ltf' if op == 'turboprop' else o.get('ac', 'asa'))
        if op == 'engines':
            eng = [problems.make_object(dict(type='engine', name=f'deck{n}') if t == 'deck' else dict(type='turboprop')) for n, t in enumerate(o['kinds'])]
        else:
            eng = [problems.make_object(dict(type='turboprop'))] if op == 'turboprop' else [build_engine_deck(vals)]
        preprocess_options(vals, engine_models=eng, verbosity=0)
        b = CorePropulsionBuilder('core_propulsion', engine_models=eng)
        kw = dict(aviary_inputs=vals, user_options={}, subsystem_options={})
        res = [canon(b.get_parameters(**kw)), canon(b.mission_inputs(**kw)), canon(b.mission_outputs(**kw)), canon(b.get_design_vars(vals)),
               canon(b.get_states(**kw)), canon(b.get_controls(**kw)), canon(b.get_linked_variables(**kw))]
        p = om.Problem(reports=False)
        p.model.add_subsystem('c', b.build_mission(num_nodes=3, **kw), promotes=['*'])
        from aviary.variable_info.functions import setup_model_options

        setup_model_options(p, vals, engine_models=eng)
        p.setup()
        m = p.model
        return res + [[list(m._var_allprocs_abs2meta[io]) for io in ('input', 'output')], [s.pathname for s in m.system_iter(recurse=True)]]
    if op == 'vehicle':
        v, g = create_vehicle(fixtures.AIRCRAFT[o['ac']], verbosity=0)
        return [canon(v), canon(g)]
    if op == 'options':
        from aviary.subsystems.premission import CorePreMission
        from aviary.subsystems.geometry.geometry_builder import CoreGeometryBuilder
        from aviary.subsystems.mass.mass_builder import CoreMassBuilder
        from aviary.variable_info.enums import LegacyCode
        from aviary.variable_info.functions import extract_options

        vals = make_vehicle(o['ac'])
        return [canon(extract_options(vals)), CorePreMission.__name__, CoreGeometryBuilder.__name__, CoreMassBuilder.__name__, LegacyCode.FLOPS.value]
    raise ValueError(op)


def make_vehicle(ac):
    from aviary.utils.process_input_decks import create_vehicle

    vals = create_vehicle(fixtures.AIRCRAFT[ac], verbosity=0)[0]
    for n in ('aircraft:engine:num_engines', 'aircraft:engine:num_fuselage_engines', 'aircraft:engine:num_wing_engines'):
        if n not in vals:
            vals.set_val(n, [2])
    return vals


def do_util(case):
    out = []
    for k, o in enumerate(case['ops']):
        try:
            out.append([o['op'], 'ok', do_op(o, k)])
        except Exception as e:
            out.append([o['op'], type(e).__name__, str(e)])
    return out


def perform(ctx, case):
    obs = {'problem': do_problem, 'convert': do_convert, 'util': do_util}[case['kind']](case)
    ctx.note('observed', digest(mask(repr(obs), os.getcwd(), ())))
    return obs


# ---- comparison ----------------------------------------------------------------------------------------
TIMES = [
    (re.compile(r'\d\d/\d\d/\d\d at \d\d:\d\d( by [^\n\r]*?)?(?=\r|\n|$|\\[nr])'), '<created>'),
    (re.compile(r'"Wall clock run time": "[^"]*"'), '<runtime>'),
    (re.compile(r'"Report generation date and time": "[^"]*"'), '<date>'),
    (re.compile(r'[-0-9.e]+ ?(sec\b|seconds\b|s elapsed)'), '<seconds>'),
    (re.compile(r'\bat 0x[0-9a-f]+'), 'at <address>'),
    (re.compile(r'\d{4}-\d\d-\d\d[ T]\d\d:\d\d(:\d\d(\.\d+)?)?'), '<date>'),
]
SKIP = ('.db', '.html', '.pkl', '.openmdao_out', 'openmdao_checks.out', '.pyc')


def mask(text, cwd, roots):
    for p in (cwd,) + tuple(roots):
        text = text.replace(p, '<cwd>')
    for rx, to in TIMES:
        text = rx.sub(to, text)
    return text


def observe(sim, case, env, root):
    """Everything one host shows after the workload."""
    cwd = os.path.join(os.path.realpath(root), env['cwd'])
    os.makedirs(cwd)
    res = zygote.sim_process(
        sim, env['hash'], 'perform', case, root=root, cwd=env['cwd'], label=f'hash {env["hash"]}', listing=env['listing'],
        clock=dict(t0=env['t0'], tick=env['tick'], jumps={int(k): v for k, v in env['jumps'].items()}), env=dict(TZ=env['tz']),
        user=env['user'], pidno=env['pid'], seed=env['seed'], bufsize=env['buf'], quiet=True,
        plan=[dict(step=s, kind='short', arg=0.5) for s in env['shorts']])
    if not res.ok:
        return ['process', res.why(), (res.exc or ['', '', ''])[2][-1500:]]
    esc = cwd.encode('unicode_escape').decode()
    m = lambda t: mask(t, cwd, (esc, cwd.encode('ascii', 'backslashreplace').decode()))
    files = []
    for rel, data in sorted(sim.tree(root).items()):
        rel = os.path.relpath(rel, env['cwd']) if rel != '.' else rel
        if rel in ('.', '..', '../..') or rel.endswith(SKIP) or '__pycache__' in rel:
            continue
        if data is None:
            files.append([rel, 'folder'])
            continue
        files.append([rel, m(data.decode('utf-8', 'surrogateescape')).split('\n')])
    return dict(outcome=[w for w in [res.status]], files=files, observed=deep_mask(res.value, m), printed=m(res.out).split('\n'),
                warned=[[c, m(t)] for c, t in res.warns if c not in ('ResourceWarning', 'DeprecationWarning')], notes=[tuple(n) for n in res.notes])


def deep_mask(x, m):
    if isinstance(x, str):
        return m(x) if len(x) > 5 else x
    if isinstance(x, list):
        return [deep_mask(i, m) for i in x]
    if isinstance(x, tuple):
        return tuple(deep_mask(i, m) for i in x)
    if isinstance(x, dict):
        return {deep_mask(k, m): deep_mask(v, m) for k, v in x.items()}
    return x


def run(sim, case):
    base = observe(sim, case, BASE, sim.new_host('base'))
    if isinstance(base, list):
        sim.note('harness', base)
        raise_harness(base)
    sim.note('base', digest(base['observed']), digest(base['files']), digest(base['printed']), digest(base['warned']))
    for n, env in enumerate(case['envs']):
        got = observe(sim, case, env, sim.new_host(f'env{n}'))
        dims = sorted(k for k in env if env[k] != BASE[k])
        for d in dims:
            if d != 'shorts':
                sim.fault({'hash': 'hash_seed', 't0': 'clock_start', 'tick': 'clock_speed', 'jumps': 'clock_jump', 'tz': 'time_zone', 'cwd': 'working_directory',
                           'user': 'user_name', 'listing': 'listing_order', 'pid': 'process_number', 'seed': 'random_state', 'buf': 'buffer_size'}[d])
        sim.state((case['kind'], dims, env['hash']))
        if isinstance(got, list):
            sim.violate('differs-outcome', f'the workload ends in {got[1]} on a host that differs in {dims}: {got[2]}')
            continue
        sim.note('env', digest(got['observed']), digest(got['files']), digest(got['printed']), digest(got['warned']))
        for part in ('observed', 'files', 'printed', 'warned'):
            d = diff(base[part], got[part])
            if d:
                sim.violate('differs-' + part, f'{part} on a host that differs in {dims}: {short(d, 1100)}')
                break
    sim.nontrivial = bool(base['files'] or base['observed']) and any(e['hash'] or e['listing'] is not None for e in case['envs'])


def raise_harness(x):
    from sim.kernel import HarnessError

    raise HarnessError(f'the workload failed on the base host: {x}')


def simplify(case):
    for n, e in enumerate(case['envs']):
        for k in BASE:
            if e[k] != BASE[k]:
                c = copy.deepcopy(case)
                c['envs'][n][k] = copy.deepcopy(BASE[k])
                yield c
    for n, p in enumerate(case.get('programs', ())):
        for k in ('rerun', 'reload', 'set_vals', 'script', 'objective', 'parts', 'step_verbosity', 'meta_new', 'meta_load', 'ext2', 'ext', 'modifier', 'edits', 'payload', 'level1'):
            if k in p:
                c = copy.deepcopy(case)
                del c['programs'][n][k]
                yield c
        for d in problems.DEPTHS[3:problems.DEPTHS.index(p['depth'])]:
            c = copy.deepcopy(case)
            c['programs'][n]['depth'] = d
            yield c
    for n, o in enumerate(case.get('pool', ())):
        if o.get('twists'):
            for t in o['twists']:
                c = copy.deepcopy(case)
                c['pool'][n]['twists'].remove(t)
                yield c
