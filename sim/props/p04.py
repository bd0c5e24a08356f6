"""P04 - objects the caller passes in are not modified and can be reused."""

import copy
import os
import re

import numpy as np
import openmdao.api as om

import aviary.api as av
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.named_values import NamedValues
from aviary.variable_info.enums import LegacyCode
from aviary.variable_info.variables import Aircraft, Dynamic, Mission, Settings

from sim import fixtures, kernel, optimizer, problems
from sim.canon import canon, diff, digest
from sim.trace import LineFault

ID = 'P04'
TIERS = dict(quick=dict(cases=600, budget=45, floor=25), thorough=dict(cases=40000, budget=3200, floor=500))
RULE = ('seeded histories of 2 to 8 calls that share caller-owned objects drawn from a pool (phase information, aircraft values, '
        'metadata, subsystem lists, engine decks, data tables, alias maps, comment and output lists, option dictionaries): whole '
        'AviaryProblem programs to a seeded depth, data-file and deck writers and readers, create_vehicle, EngineDeck, '
        'build_engine_deck, build_data_interpolator, tabular aerodynamics, merge_meta_data; with failing user code, disk faults and '
        'interrupts at seeded lines; after every call each object is compared with its state when handed over, and every result with '
        'that of the same history given fresh copies; non-trivial = some object used twice, or a call failed')
REAL = ['AviaryProblem, AviaryGroup, configurators, preprocessors, core builders', 'write_data_file, read_data_file, save_to_csv_file',
        'create_vehicle', 'EngineDeck, build_engine_deck, build_data_interpolator', 'merge_meta_data']
STUB = ['disk calls (SimFS)', 'optimizer', 'N2 diagram', "users' builders and modifiers", 'interrupts (line tracer)']
ASSUMPTIONS = ['objects whose own methods the caller calls to change them (set_val, add_meta_data) are targets, not arguments',
               'solver objects in phase information belong to the problem they are given to']
SHRINK = ('ops',)

FILES = problems_files = ('core/aviary_problem.py', 'core/aviary_group.py', 'mission/phase_builder.py', 'utils/preprocessors.py',
                          'utils/process_input_decks.py', 'problem_configurator.py', 'variable_info/functions.py', 'utils/aviary_values.py',
                          'mission/flight_phase_builder.py', 'utils/csv_data_file.py', 'utils/data_interpolator_builder.py',
                          'propulsion/engine_deck.py', 'propulsion/utils.py', 'utils/aviary_inputs_to_csv.py', 'utils/named_values.py')


def setup(tier):
    import aviary.interface.reports  # noqa: F401
    import aviary.models.missions.energy_state_default  # noqa: F401
    import aviary.models.missions.two_dof_default  # noqa: F401
    import aviary.interface.run_aviary  # noqa: F401
    import aviary.mission.two_dof.phases  # noqa: F401
    import aviary.utils.aviary_inputs_to_csv  # noqa: F401

    fixtures.quiet()
    fixtures.stub_n2()
    optimizer.install()


# ---- objects ----------------------------------------------------------------------------------------
def grid(axes, fns, order, keep2d=False):
    """Columns of a full grid (last axis fastest), rows permuted by `order` (a seed; 0 keeps the order)."""
    pts = np.array(np.meshgrid(*axes, indexing='ij')).reshape(len(axes), -1)
    rows = np.arange(pts.shape[1])
    if order:
        rows = np.random.RandomState(order).permutation(rows)
    cols = [p[rows] for p in pts] + [np.array([fn(*p) for p in pts[:, rows].T]) for fn in fns]
    return cols


def make(spec):
    t = spec['type']
    if t == 'engine_data':
        nv = NamedValues()
        names = {0: ('mach', 'altitude', 'throttle', 'thrust', 'fuel_flow'), 1: ('mn', 'alt', 'power_code', 'net_thrust', 'fuel'),
                 2: tuple()}[spec['names']]
        if spec['names'] == 2:
            from aviary.subsystems.propulsion.utils import EngineModelVariables as E

            names = (E.MACH, E.ALTITUDE, E.THROTTLE, E.THRUST, E.FUEL_FLOW)
        units = ('unitless', spec.get('alt', 'ft'), 'unitless', spec.get('thrust', 'lbf'), 'lbm/h')
        k = {'ft': 1.0, 'm': 0.3048}[units[1]]
        f = {'lbf': 1.0, 'N': 4.4482216152605}[units[3]]
        cols = grid(([0.0, 0.4, 0.8], [0.0, 20000.0 * k, 40000.0 * k], [0.2, 0.6, 1.0]),
                    (lambda m, h, t: f * (28000.0 * t * (1 - 0.3 * m) * (1 - h / k / 60000.0) - spec.get('neg', 0.0)),
                     lambda m, h, t: 9000.0 * t * (1 + 0.2 * m) * (1 - h / k / 70000.0)), spec.get('order', 0))
        for n, c, u in zip(names, cols, units):
            nv.set_val(n, c if spec.get('kind') != 'list' else c.tolist(), u)
        if spec.get('extra'):
            nv.set_val('mystery', np.zeros(len(cols[0])), 'unitless')
        return nv
    if t == 'engine_options':
        o = AviaryValues()
        o.set_val(Settings.VERBOSITY, av.Verbosity.QUIET)
        for n, v, u in ((Aircraft.Engine.DATA_FILE, 'models/engines/turbofan_28k.csv', 'unitless'), (Aircraft.Engine.SCALE_FACTOR, 1.0, 'unitless'),
                        (Aircraft.Engine.NUM_ENGINES, np.array([2]) if spec.get('vec') else 2, 'unitless'),
                        (Aircraft.Engine.REFERENCE_SLS_THRUST, 28000.0, 'lbf'), (Aircraft.Engine.SCALED_SLS_THRUST, 28000.0, 'lbf'),
                        (Aircraft.Engine.IGNORE_NEGATIVE_THRUST, bool(spec.get('ignore')), 'unitless'),
                        (Aircraft.Engine.GEOPOTENTIAL_ALT, bool(spec.get('geo')), 'unitless'),
                        (Aircraft.Engine.GENERATE_FLIGHT_IDLE, bool(spec.get('idle')), 'unitless')):
            o.set_val(n, v, u)
        if spec.get('geo'):
            o.set_val(Settings.ATMOSPHERE_MODEL, av.AtmosphereModel.STANDARD)
        if spec.get('idle'):
            o.set_val(Aircraft.Engine.FLIGHT_IDLE_THRUST_FRACTION, 0.0)
            o.set_val(Aircraft.Engine.FLIGHT_IDLE_MAX_FRACTION, 1.0)
            o.set_val(Aircraft.Engine.FLIGHT_IDLE_MIN_FRACTION, 0.08)
        return o
    if t == 'grid':
        nv = NamedValues()
        cols = grid(([0.1, 0.5, 0.9], [0.0, 1.0, 2.0, 4.0]), (lambda a, b: a * b + 1.0, lambda a, b: a - b), spec.get('order', 0))
        names = ['x', 'y', 'f', 'g']
        if spec.get('first'):
            names, cols = ['f', 'x', 'y', 'g'], [cols[2], cols[0], cols[1], cols[3]]
        for n, c in zip(names, cols):
            nv.set_val(n, c if spec.get('kind') != 'list' else c.tolist(), 'm' if n in 'xf' else 'unitless')
        return nv
    if t == 'structured':
        nv = NamedValues()
        x, y = np.array([0.1, 0.5, 0.9]), np.array([0.0, 1.0, 2.0, 4.0])
        nv.set_val('x', x, 'm')
        nv.set_val('y', y, 'unitless')
        nv.set_val('f', np.outer(x, y) + 1.0, 'm')
        nv.set_val('g', x[:, None] - y[None, :], 'unitless')
        return nv
    if t == 'aero':
        cd0, cdi = NamedValues(), NamedValues()
        h, m, c0 = grid(([0.0, 20000.0, 30000.0, 40000.0], [0.2, 0.5, 0.8, 0.9]), (lambda a, b: 0.01 + a * 1e-8 + 0.002 * b,), spec.get('order', 0))
        m2, cl, ci = grid(([0.2, 0.5, 0.8, 0.9], [0.0, 0.3, 0.6, 0.9]), (lambda a, b: 0.04 * b * b + 0.001 * a,), spec.get('order', 0))
        for nv, cs in ((cd0, (('altitude', h, 'ft'), ('mach', m, 'unitless'), ('zero_lift_drag_coefficient', c0, 'unitless'))),
                       (cdi, (('mach', m2, 'unitless'), ('lift_coefficient', cl, 'unitless'), ('lift_dependent_drag_coefficient', ci, 'unitless')))):
            for n, v, u in cs:
                nv.set_val(n, v if spec.get('kind') != 'list' else v.tolist(), u)
        d = dict(method='tabular', CD0_data=cd0, CDI_data=cdi)
        if spec.get('train'):
            d['connect_training_data'] = True
        return d
    if t == 'table':
        nv = NamedValues()
        for k, n in enumerate(spec['names']):
            nv.set_val(n, np.linspace(0.0, 1.0 + k, spec['rows']) if spec.get('kind') != 'list' else [float(i * k) for i in range(spec['rows'])],
                       spec['units'][k])
        return nv
    if t in ('strs', 'aliases'):
        return copy.deepcopy(spec['val'])
    return problems.make_object(spec)


def snap(x):
    if isinstance(x, dict) and len(x) > 200:
        return digest(canon(x))
    return problems.deep(x)


def values_in(x):
    """Long containers by digest, so that a difference is still told from the entry that differs."""
    return x


# ---- calls ------------------------------------------------------------------------------------------
def training(comp):
    p = om.Problem(reports=None)
    p.model.add_subsystem('c', comp)
    p.setup()
    d = [type(comp).__name__]
    for a in ('params', 'training_outputs', '_training_input'):
        v = getattr(comp, a, None)
        d.append(canon([np.asarray(i) for i in v] if isinstance(v, list) else {k: np.asarray(i) for k, i in v.items()} if isinstance(v, dict) else v))
    d.append([[n, m['units']] for n, m in comp._var_rel2meta.items()])
    return d


def do(op, objs):
    k = op['op']
    g = lambda r: None if r is None else objs(r)  # noqa: E731
    if k == 'program':
        refs = {}

        class Lazy(dict):
            def __missing__(self, i):
                refs[i] = objs(['pool', i])
                self[i] = refs[i]
                return refs[i]

        p = problems.Program(op['program'], Lazy())
        while not p.done:
            p.step()
        return problems.snapshot(p)
    if k == 'write':
        kw = {}
        if op.get('comments') is not None:
            kw['comments'] = g(op['comments'])
        if op.get('outputs') is not None:
            kw['outputs'] = g(op['outputs'])
        av.write_data_file(op['file'], g(op['data']), **kw)
        with open(op['file']) as f:
            return f.read()
    if k == 'read':
        kw = {}
        if op.get('aliases') is not None:
            kw['aliases'] = g(op['aliases'])
        if op.get('meta') is not None:
            kw['metadata'] = g(op['meta'])
        return canon(list(av.read_data_file(op['file'], save_comments=True, **kw)))
    if k == 'save_deck':
        from aviary.utils.aviary_inputs_to_csv import save_to_csv_file

        save_to_csv_file(op['file'], g(op['data']))
        with open(op['file']) as f:
            return f.read().split('\n', 1)[1]
    if k == 'vehicle':
        from aviary.utils.process_input_decks import create_vehicle

        kw = {} if op.get('meta') is None else dict(meta_data=g(op['meta']))
        vals, guesses = create_vehicle(g(op['data']), verbosity=op.get('v', 0), **kw)
        out = [fixtures.inputs_of(vals), canon(guesses)]
        if op.get('change'):  # what a program does with the values it was given
            for n, (v, u) in list(vals):
                if isinstance(v, np.ndarray) and v.dtype.kind in 'if':
                    v += 1
                elif isinstance(v, list) and v:
                    v.append(v[0])
            vals.set_val(Aircraft.Wing.SWEEP, 33.0, 'deg')
        return out
    if k == 'engine':
        from aviary.subsystems.propulsion.engine_deck import EngineDeck

        kw = {}
        if op.get('required') is not None:
            kw['required_variables'] = g(op['required'])
        e = EngineDeck('sim', g(op['options']), g(op['data']), **kw)
        e.build_mission(num_nodes=2, aviary_inputs=e.options, user_options={}, subsystem_options={})
        return [canon(e.options), canon({str(a): b for a, b in e.data.items()}), canon({str(a): b for a, b in e.engine_variables.items()})]
    if k == 'deck':
        from aviary.subsystems.propulsion.utils import build_engine_deck

        e = build_engine_deck(g(op['options']))
        return [canon(e.options), canon({str(a): b for a, b in e.data.items()})]
    if k == 'interp':
        c = av.build_data_interpolator(g(op['data']), g(op['outputs']), num_nodes=2, method=op['method'], structured=op.get('structured'),
                                       connect_training_data=op.get('train', False))
        return training(c)
    if k == 'tabular':
        from aviary.subsystems.aerodynamics.aerodynamics_builder import CoreAerodynamicsBuilder

        b = CoreAerodynamicsBuilder('aero', code_origin=LegacyCode.FLOPS)
        inputs = g(op['inputs'])
        out = [canon(b.get_parameters(aviary_inputs=inputs, user_options={}, subsystem_options=g(op['opts'])))]
        m = b.build_mission(num_nodes=2, aviary_inputs=inputs, user_options={}, subsystem_options=g(op['opts']))
        p = om.Problem(reports=None)
        p.model.add_subsystem('aero', m, promotes=['*'])
        p.setup()
        for s in m.system_iter(recurse=True):
            if isinstance(s, (om.MetaModelStructuredComp, om.MetaModelSemiStructuredComp)):
                out.append([s.name, canon({a: np.asarray(b) for a, b in s.training_outputs.items()})])
        return out
    if k == 'merge':
        m = av.merge_meta_data([g(r) for r in op['metas']])
        if op.get('change'):  # the merged registry is the caller's to extend
            av.add_meta_data('aircraft:simext:later', meta_data=m, desc='simulated', units='ft', default_value=1.0)
            av.update_meta_data(Aircraft.Wing.SWEEP, meta_data=m, desc='changed', units='deg', default_value=-1.0)
        return digest(canon(m))
    raise ValueError(k)


# ---- generation -------------------------------------------------------------------------------------
COMMENTS = [['# one', 'two'], ['plain'], [], ['  padded ', 'two\nlines'], ['#', 'a, b']]
ALIASES = [{'Mach': ['m', 'MACH', 'x']}, {'thrust': ['f', 'Net Thrust'], 'alt': 'h'}, {'z': ['Y', 'y y']}]


def gen(rng, i, tier):
    pool = []

    def put(spec):
        pool.append(spec)
        return ['pool', len(pool) - 1]

    def pick(t, mk, share=0.75):
        have = [k for k, o in enumerate(pool) if o['type'] == t and not o.get('private')]
        if have and rng.random() < share:
            return ['pool', rng.choice(have)]
        return put(mk())

    heavy = rng.random() < 0.45
    ops = []
    if heavy:
        deep = rng.random() < (0.2 if tier == 'quick' else 0.35)
        depths = ('configured', 'setup', 'run', 'save') if deep else ('load', 'check', 'build', 'configured', 'configured')
        progs = []
        for k in range(rng.choice((2, 2, 3))):
            s = problems.gen_program(rng, k, pool, depths, gasp=0.05 if deep else 0.15)
            s.pop('meta_edit', None)
            if progs and rng.random() < 0.5:
                s = dict(copy.deepcopy(rng.choice(progs)), name=f'p{k}')
                if s.get('ext') and pool[s['ext'][1]].get('private'):
                    del s['ext']
            if rng.random() < 0.12 and not s.get('multi'):
                pool.append(dict(type='exts', private=True,
                                 items=[dict(type='builder', variant=['pre', 'mission', 'post', 'dv', 'con'],
                                             fail=dict(what=rng.choice(problems.METHODS), nth=rng.choice((0, 0, 1, 2)), kind=rng.choice(('user', 'key', 'value'))))]))
                s['ext'] = ['pool', len(pool) - 1]
            progs.append(s)
            ops.append(dict(op='program', program=s))
    for _ in range(rng.choice((0, 1, 2)) if heavy else rng.choice((3, 5, 8))):
        k = rng.choice(('write', 'write', 'read', 'save_deck', 'vehicle', 'vehicle', 'engine', 'engine', 'deck', 'interp', 'interp', 'interp', 'tabular', 'merge'))
        op = dict(op=k)
        if k == 'write':
            op.update(file=f'f{rng.randrange(3)}.csv', data=pick(rng.choice(('table', 'grid')), None) if False else
                      pick('table', lambda: dict(type='table', names=rng.sample(['Mach', 'h', 'f', 'x', 'Y'], 3), units=['unitless', 'ft', 'lbf'],
                                                 rows=rng.choice((1, 3, 20)), kind=rng.choice(('nd', 'nd', 'list')))),
                      comments=pick('strs', lambda: dict(type='strs', val=copy.deepcopy(rng.choice(COMMENTS)))) if rng.random() < .8 else None)
            if rng.random() < 0.5:
                names = pool[op['data'][1]]['names']
                op['outputs'] = put(dict(type='outs', val=[names[-1]]))
                pool[-1]['type'] = 'strs'
                pool[-1]['private'] = True
        elif k == 'read':
            op.update(file=f'f{rng.randrange(3)}.csv', aliases=pick('aliases', lambda: dict(type='aliases', val=copy.deepcopy(rng.choice(ALIASES)))))
            if rng.random() < 0.2:
                op['meta'] = pick('meta', lambda: dict(type='meta', extra=1))
        elif k == 'save_deck':
            op.update(file='deck.csv', data=pick('inputs', lambda: problems.gen_inputs(rng)))
        elif k == 'vehicle':
            op.update(data=pick('inputs', lambda: problems.gen_inputs(rng)), v=rng.choice((0, 0, 1, 3)), change=rng.random() < 0.5)
            if rng.random() < 0.3:
                op['meta'] = pick('meta', lambda: dict(type='meta', extra=1))
        elif k in ('engine', 'deck'):
            op['options'] = pick('engine_options', lambda: dict(type='engine_options', vec=rng.random() < .4, ignore=rng.random() < .05,
                                                                geo=rng.random() < .4, idle=rng.random() < .3))
            if k == 'engine':
                op['data'] = pick('engine_data', lambda: dict(type='engine_data', names=rng.choice((0, 1, 1, 2)), alt=rng.choice(('ft', 'ft', 'm')),
                                                              thrust=rng.choice(('lbf', 'N')), order=rng.choice((0, 3, 7)), neg=rng.choice((0.0, 8000.0)),
                                                              kind=rng.choice(('nd', 'nd', 'list')), extra=rng.random() < .2)) if rng.random() < .9 else None
        elif k == 'interp':
            t = rng.choice(('grid', 'grid', 'structured'))
            op['data'] = pick(t, lambda: dict(type=t, order=rng.choice((0, 2, 5)), first=rng.random() < .3, kind=rng.choice(('nd', 'nd', 'list'))))
            op['train'] = rng.random() < 0.2
            op['outputs'] = put(dict(type='aliases', private=True, val={'f': 'm', 'g': 'unitless'} if op['train'] or rng.random() < .5 else ['f', 'g']))
            op['structured'] = rng.choice((None, True, False)) if t == 'grid' else rng.choice((None, True))
            op['method'] = 'slinear'
        elif k == 'tabular':
            op['opts'] = pick('aero', lambda: dict(type='aero', order=rng.choice((0, 4)), kind=rng.choice(('nd', 'nd', 'nd', 'nd', 'list')), train=rng.random() < .15))
            op['inputs'] = pick('inputs', lambda: problems.gen_inputs(rng, 'asa'))
        elif k == 'merge':
            op['metas'] = [pick('meta', lambda: dict(type='meta', extra=rng.choice((0, 1, 2)))) for _ in range(rng.choice((1, 2, 3)))]
            op['change'] = rng.random() < 0.4
        ops.append(op)
    rng.shuffle(ops)
    for op in ops:
        if rng.random() < 0.12:
            op['strike'] = int(10 ** rng.uniform(0, 3.7))
    case = dict(prop=ID, pool=pool, ops=ops)
    if not heavy and rng.random() < 0.25:
        case['disk'] = dict(step=rng.randrange(1, 60), kind=rng.choice(('eio', 'enospc')))
    return case


def perform(ctx, case, fresh):
    """The history with shared objects, or with fresh copies for every call; returns results and changes seen."""
    pool = case['pool']
    made, before = {}, {}

    def shared(ref):
        k = ref[1]
        if k not in made:
            made[k] = make(pool[k])
            before[k] = snap(made[k])
        return made[k]

    results, changed, uses = [], [], {}
    for n, op in enumerate(case['ops']):
        if fresh:
            made.clear()
            before.clear()
        fired = None
        try:
            if 'strike' in op:
                with LineFault(FILES, op['strike']) as lf:
                    try:
                        r = ['ok', do(op, shared)]
                    finally:
                        fired = lf.fired
            else:
                r = ['ok', do(op, shared)]
        except (Exception, KeyboardInterrupt) as e:
            # the names of temporary files hold the process id
            r = [type(e).__name__, re.sub(r'\.\d+\.tmp', '.tmp', str(e).replace(os.getcwd(), '<cwd>'))[:300]]
        if fired:
            r = ['struck', str(fired[0])]
        results.append(r)
        if not fresh:
            for k in sorted(made):
                after = snap(made[k])
                if after != before[k]:
                    d = diff(before[k], after)
                    changed.append([n, op['op'], pool[k]['type'], r[0], '; '.join(d[:3])])
                    before[k] = after
        if op['op'] == 'program':
            uses.update({k: uses.get(k, 0) + 1 for k in made})
    return dict(results=results, changed=changed)


def run(sim, case):
    plan = []
    if case.get('disk'):
        plan = [case['disk']]
    out = []
    for fresh in (False, True):
        host = sim.new_host('fresh' if fresh else 'shared')
        res = sim.process(perform, case, fresh, root=host, plan=plan, label='fresh' if fresh else 'shared')
        if not res.ok:
            raise kernel.HarnessError('history: ' + res.why() + (res.exc[2] if res.exc else ''))
        out.append(res.value)
    got, want = out
    refs = {}

    def count(x):
        if isinstance(x, dict):
            for v in x.values():
                count(v)
        elif isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == 'pool' and isinstance(x[1], int):
                refs[x[1]] = refs.get(x[1], 0) + 1
            else:
                for v in x:
                    count(v)

    count(case['ops'])
    bad = [r for r in got['results'] if r[0] != 'ok']
    sim.nontrivial = any(v > 1 for v in refs.values()) or bool(bad)
    sim.counts['calls'] += len(case['ops'])
    sim.counts['reused'] += sum(v - 1 for v in refs.values())
    for op, r in zip(case['ops'], got['results']):
        sim.counts['op ' + op['op']] += 1
        if r[0] != 'ok':
            sim.fault(f'{r[0]}@{op["op"]}')
        elif op['op'] == 'program':
            for step, o, _ in r[1]['outcomes']:
                if o != 'ok':
                    sim.fault(f'{o}@{step}')
        sim.state(f'{op["op"]}:{r[0]}:{digest(op)}')
    if got['changed']:
        n, op, t, out, what = got['changed'][0]
        sim.violate('modified', f'call {n} ({op}, {out}) changed the {t} it was given: {what}', op=op, object=t)
        return
    for n, (a, b) in enumerate(zip(want['results'], got['results'])):
        if 'struck' in (a[0], b[0]):
            continue
        d = diff(a, b)
        if d:
            sim.violate('reuse', f'call {n} ({case["ops"][n]["op"]}) with used objects and with fresh copies differ: ' + '; '.join(d[:4]),
                        op=case['ops'][n]['op'])
            return


def simplify(case):
    for k, op in enumerate(case['ops']):
        if 'strike' in op:
            c = copy.deepcopy(case)
            del c['ops'][k]['strike']
            yield c
        p = op.get('program')
        if p:
            for key in ('modifier', 'edits', 'ext2', 'ext', 'script', 'rerun', 'set_vals', 'check_twice', 'parts', 'meta_new', 'meta_load', 'objective',
                        'step_verbosity', 'verbosity', 'level1', 'phases', 'reload'):
                if key in p:
                    c = copy.deepcopy(case)
                    del c['ops'][k]['program'][key]
                    yield c
            ds = problems.DEPTHS
            for d in ds[: ds.index(p['depth'])]:
                c = copy.deepcopy(case)
                c['ops'][k]['program']['depth'] = d
                yield c
    for k, o in enumerate(case['pool']):
        for key in ('twists', 'edits'):
            for j in range(len(o.get(key, ()))):
                c = copy.deepcopy(case)
                del c['pool'][k][key][j]
                yield c
