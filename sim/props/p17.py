"""P17 - reports describe the run that produced them, and I/O faults surface."""

import copy
import datetime
import hashlib
import json
import os
import re

import numpy as np

from sim import fixtures, optimizer, problems, sized
from aviary.variable_info.variables import Aircraft, Mission, Settings

ID = 'P17'
TIERS = dict(quick=dict(cases=400, budget=45, floor=16), thorough=dict(cases=20000, budget=2700, floor=400))
RULE = ('seeded histories of up to 7 operations in one process on two or three of six prepared problems (one phase, three phases with '
        'an external subsystem, two engine types, GASP aircraft, two missions in one problem, off-design type): change inputs, run with '
        'the optimizer (every outcome, up to days of simulated time), run the driver directly, run without it, set up again, change '
        'folder; one I/O fault, interrupt or kill while a report is written; non-trivial = a rerun, an interleaving or a fault')
REAL = ['the eight Aviary reports, their hooks and registration', 'subsystem reports', 'run_aviary_problem', 'input and output lists',
        'problem setup, model and dymos trajectory']
STUB = ['optimizer (scripted, runs the real model)', 'n2 diagram', 'clock', 'disk calls (SimFS)', 'process boundaries (fork)']
ASSUMPTIONS = ['numbers in tables are rounded as round_it does, the time series file holds full precision',
               'a run that raised in the optimizer writes no reports; those of the last completed run stay',
               'for problems of several missions the subsystem reports and the time series cover the first mission (documented)',
               'values in the input check are those at the start of the run']
SHRINK = ('ops',)

REPORTS = 'subsystems,mission,timeseries_csv,run_status,sizing_results,input_checks,overridden_variables,list_options'
KINDS = {
    'cruise': dict(inputs=dict(aircraft='asa'), phases=dict(kind='cruise')),
    'full': dict(inputs=dict(aircraft='asa', edits=['pax']), phases=dict(kind='full', twists=['external', 'reserve'])),
    'gasp': dict(inputs=dict(aircraft='ssg', energy=True), phases=dict(kind='cruise')),
    'off': dict(inputs=dict(aircraft='lsa2'), phases=dict(kind='cruise'), ptype='off_design_min_fuel'),
    'engines': dict(engines=True),
    'multi': dict(multi=[('mis.sion'.replace('.', ''), 'asa', 'cruise'), ('craft', 'lsa2', 'climb_cruise')]),
}
READY = {}
SETS = [Aircraft.Wing.SWEEP, Aircraft.Engine.SCALE_FACTOR, Aircraft.Wing.AREA, Aircraft.Design.GROSS_MASS, Mission.GROSS_MASS, Aircraft.Wing.SPAN,
        Aircraft.Fuselage.LENGTH, Aircraft.CrewPayload.Design.NUM_PASSENGERS, Aircraft.Engine.MASS]
RUN_FILES = ('status.json', 'mission_summary.md', 'mission_timeseries_data.csv', 'options.txt', 'subsystems/mass.md', 'subsystems/geometry.md', 'subsystems/propulsion.md')
SETUP_FILES = ('input_checks.md', 'overridden_variables.md')


def extra_builder():
    """A user's subsystem: an input no one gives in its own units, an output with other units in each phase and none in the first."""
    import openmdao.api as om
    from aviary.subsystems.subsystem_builder import SubsystemBuilder

    units = {'cruise': 'm', 'descent': 'ft'}

    class Level(om.ExplicitComponent):
        def initialize(self):
            self.options.declare('num_nodes', types=int)
            self.options.declare('units')

        def setup(self):
            n = self.options['num_nodes']
            self.add_input('sim_area', 3.0, units='ft**2')
            self.add_output('sim_level', np.ones(n), units=self.options['units'])

        def compute(self, inputs, outputs):
            outputs['sim_level'] = 100.0 + 10.0 * np.arange(self.options['num_nodes']) + float(np.ravel(inputs['sim_area'])[0])

    class Extra(SubsystemBuilder):
        _default_name = 'sim_ext'

        def build_pre_mission(self, aviary_inputs, subsystem_options=None):
            g = om.Group()
            g.add_subsystem('c', om.ExecComp('sim_total = 2.0 * a', a=dict(units='m**2', val=7.0), sim_total=dict(units='m**2')),
                            promotes_inputs=[('a', Aircraft.Canard.WETTED_AREA)], promotes_outputs=['*'])
            return g

        def build_mission(self, num_nodes, aviary_inputs, user_options, subsystem_options):
            u = units.get(subsystem_options.get('name'))
            return Level(num_nodes=num_nodes, units=u) if u else None

        def get_timeseries(self, aviary_inputs=None, user_options=None, subsystem_options=None):
            return ['sim_level'] if subsystem_options.get('name') in units else []

    return Extra()


def build(name):
    import aviary.api as av
    from aviary.core.aviary_problem import AviaryProblem
    from aviary.variable_info.enums import ProblemType, ThrottleAllocation

    k = KINDS[name]
    kw = dict(verbosity=0, name=f'rep_{name}')
    if k.get('ptype'):
        kw['problem_type'] = ProblemType(k['ptype'])
    if k.get('multi'):
        p = AviaryProblem(problem_type=ProblemType.MULTI_MISSION, **kw)
        names = []
        for n, ac, kind in k['multi']:
            names.append(n)
            p.add_aviary_group(n, aircraft=problems.make_inputs(dict(aircraft=ac)), phase_info=problems.make_phases(dict(kind=kind)), verbosity=0)
        p.check_and_preprocess_inputs(verbosity=0)
        p.build_model(verbosity=0)
        p.promote_inputs(names, [(Aircraft.Design.GROSS_MASS, 'Aircraft1:GROSS_MASS')])
        p.add_design_var_default('Aircraft1:GROSS_MASS', lower=10.0, upper=900e3, units='lbm', default_val=100000)
        p.add_composite_objective(*[(n, Mission.FUEL_MASS, j + 1) for j, n in enumerate(names)], ref=1)
        p.add_driver('SLSQP', max_iter=2, verbosity=0)
        p.add_design_variables()
        p.setup()
        return p
    p = AviaryProblem(**kw)
    if k.get('engines'):
        from aviary.subsystems.propulsion.utils import build_engine_deck
        from aviary.validation_cases.validation_data.test_data.multi_engine_single_aisle_data import engine_1_inputs, engine_2_inputs, inputs

        inp = copy.deepcopy(inputs)
        inp.set_val(Aircraft.Nacelle.LAMINAR_FLOW_LOWER, np.zeros(2))
        inp.set_val(Aircraft.Nacelle.LAMINAR_FLOW_UPPER, np.zeros(2))
        phases = problems.make_phases(dict(kind='climb_cruise'))
        for ph in phases.values():
            if 'user_options' in ph:
                ph['user_options']['throttle_allocation'] = ThrottleAllocation.FIXED
        engines = []
        for i, e in enumerate((engine_1_inputs, engine_2_inputs)):
            engines.append(build_engine_deck(copy.deepcopy(e)))
            engines[-1].name = f'engine_{i + 1}'
        p.load_inputs(inp, phases)
        p.load_external_subsystems(engines)
        return fixtures.build(p)
    inputs = problems.make_inputs(k['inputs'])
    phases = problems.make_phases(k['phases'])
    if k['inputs'].get('energy'):
        inputs.set_val(Settings.EQUATIONS_OF_MOTION, av.EquationsOfMotion.ENERGY_STATE)
        for ph in phases.values():
            if 'subsystem_options' in ph:
                ph['subsystem_options']['aerodynamics']['method'] = 'cruise'
    p.load_inputs(inputs, phases)
    if name == 'full':
        p.load_external_subsystems([extra_builder()])
    return fixtures.build(p)


def setup(tier):
    import aviary.interface.reports  # noqa: F401

    fixtures.quiet()
    fixtures.stub_n2()
    optimizer.install()
    sized.bare_runs()
    os.environ['OPENMDAO_REPORTS'] = REPORTS

    def go():
        for k in KINDS:
            READY[k] = build(k)
    fixtures.in_scratch(go)


def gen(rng, i, tier):
    kinds = rng.sample(sorted(KINDS), rng.choice((1, 2, 2, 3)))
    if i % 6 < 5:
        kinds[0] = sorted(KINDS)[i % 6]
        kinds = sorted(set(kinds), key=kinds.index)
    ops = []
    for _ in range(rng.choice((2, 3, 4, 5, 7)) if tier != 'quick' else rng.choice((2, 3, 4, 5))):
        k = rng.choice(('set', 'set', 'run', 'run', 'run', 'drive', 'model', 'again', 'chdir'))
        op = dict(op=k, kind=rng.choice(kinds))
        if k == 'set':
            op['sets'] = [[rng.choice(SETS), rng.choice((0.9, 0.97, 1.05, 1.2, 1.01))] for _ in range(rng.randint(1, 3))]
        elif k in ('run', 'drive'):
            op['end'] = rng.choice(('converged', 'converged', 'converged', 'limit', 'infeasible', 'error', 'interrupt'))
            op['solves'] = rng.choice((1, 1, 2, 3))
            op['move'] = rng.choice((0.0, 0.01, 0.03))
            op['takes'] = rng.choice((0.0, 0.0, 59.9996, 3723.25, 90061.5, 200000.0))
            op['verbosity'] = rng.choice((0, 0, 0, 1, 2))
        elif k == 'chdir':
            op['to'] = rng.choice(('.', 'elsewhere'))
        ops.append(op)
    if not any(o['op'] in ('run', 'drive') for o in ops):
        ops.append(dict(op='run', kind=kinds[0], end='converged', solves=1, move=0.01, takes=0.0, verbosity=0))
    case = dict(prop=ID, ops=ops, t0=rng.choice((1.7e9, 1e9, 4e9)), listing=rng.choice((None, 1, 2)), buf=rng.choice((256, 8192)), hooked=rng.random() < 0.5)
    if rng.random() < 0.5:
        case['fault'] = dict(at=round(rng.random(), 4), arg=round(rng.random(), 3), once=True,
                             kind=rng.choice(('eio', 'enospc', 'close_eio', 'eacces', 'interrupt', 'short', 'crash', 'crash_mid', 'crash_after', 'emfile')))
        if case['fault']['kind'] == 'enospc':
            case['fault']['arg'] = 0.0
    return case


# -- independent reading of the reports ---------------------------------------------------------------------
def near(shown, want):
    try:
        shown, want = float(shown), float(want)
    except (TypeError, ValueError):
        return str(shown) == str(want)
    if want != want or shown != shown:
        return want != want and shown != shown
    tol = 0.0051 + 1e-9 * abs(want) if abs(want) >= 0.5 else 0.006 * abs(want) + 1e-300
    return abs(shown - want) <= tol


def _tables(text):
    """Rows of all tables of a markdown text with the headings above them: (headings, cells)."""
    out, heads = [], {}
    for line in text.splitlines():
        m = re.match(r'(#+) (.*)', line)
        if m:
            d = len(m.group(1))
            heads = {k: v for k, v in heads.items() if k < d}
            heads[d] = m.group(2).strip()
        elif line.startswith('|') and not re.fullmatch(r'[|:\- ]+', line):
            cells = [c.strip() for c in line.strip().strip('|').split('|')]
            if cells[0] not in ('Name', 'Variable Name'):
                out.append((tuple(heads[k] for k in sorted(heads)), cells))
    return out


MASS_ROWS = {
    'Wing': Aircraft.Wing.MASS, 'Empennage Group': Aircraft.Design.EMPENNAGE_MASS, 'Canard': Aircraft.Canard.MASS,
    'Horizontal Tail': Aircraft.HorizontalTail.MASS, 'Vertical Tail': Aircraft.VerticalTail.MASS, 'Fins': Aircraft.Fins.MASS,
    'Fuselage': Aircraft.Fuselage.MASS, 'Landing Gear Group': Aircraft.LandingGear.TOTAL_MASS, 'Main Gear': Aircraft.LandingGear.MAIN_GEAR_MASS,
    'Nose Gear': Aircraft.LandingGear.NOSE_GEAR_MASS, 'Paint': Aircraft.Paint.MASS, 'Structure Mass': Aircraft.Design.STRUCTURE_MASS,
    'Propulsion Group': Aircraft.Propulsion.MASS, 'Engines': Aircraft.Propulsion.TOTAL_ENGINE_MASS,
    'Thrust Reversers': Aircraft.Propulsion.TOTAL_THRUST_REVERSERS_MASS, 'Fuel System': Aircraft.Fuel.FUEL_SYSTEM_MASS,
    'Systems and Equipment': Aircraft.Design.SYSTEMS_AND_EQUIPMENT_MASS, 'Flight Controls': Aircraft.Controls.MASS,
    'Instruments': Aircraft.Instruments.MASS, 'Hydraulics': Aircraft.Hydraulics.MASS, 'Electrical': Aircraft.Electrical.MASS,
    'Avionics': Aircraft.Avionics.MASS, 'Furnishings': Aircraft.Furnishings.MASS, 'Environmental Control': Aircraft.AirConditioning.MASS,
    'Auxiliary Power': Aircraft.APU.MASS, 'Anti-Icing': Aircraft.AntiIcing.MASS, 'External Subsystems': Aircraft.Design.EXTERNAL_SUBSYSTEMS_MASS,
    'Empty Mass Margin': Aircraft.Design.EMPTY_MASS_MARGIN, 'Empty Mass': Aircraft.Design.EMPTY_MASS, 'Operating Items': Mission.OPERATING_ITEMS_MASS,
    'Flight Crew': Aircraft.CrewPayload.FLIGHT_CREW_MASS, 'Cabin Crew': Aircraft.CrewPayload.CABIN_CREW_MASS,
    'Passenger Service': Aircraft.CrewPayload.PASSENGER_SERVICE_MASS, 'Cargo Containers': Aircraft.CrewPayload.CARGO_CONTAINER_MASS,
    'Unusable Fuel': Aircraft.Fuel.UNUSABLE_FUEL_MASS, 'Operating Mass': Mission.OPERATING_MASS, 'Payload': Aircraft.CrewPayload.TOTAL_PAYLOAD_MASS,
    'Passengers and Baggage': Aircraft.CrewPayload.PASSENGER_PAYLOAD_MASS, 'Cargo': Aircraft.CrewPayload.CARGO_MASS,
    'Zero Fuel Mass': Mission.ZERO_FUEL_MASS, 'Mission Fuel': Mission.FUEL_MASS, 'Reserve Fuel': Mission.RESERVE_FUEL_MASS, 'Gross Mass': Mission.GROSS_MASS,
}
# rows that every mass report has to show when the model has the variable
MASS_NEEDED = ('Wing', 'Fuselage', 'Structure Mass', 'Engines', 'Empty Mass', 'Operating Mass', 'Zero Fuel Mass', 'Gross Mass', 'Paint', 'Furnishings')


class Truth:
    """What the problem says now."""

    def __init__(self, prob, ready):
        self.prob = prob
        self.groups = dict(prob.aviary_groups_dict) if ready == 'multi' else {'': prob.model}
        self.multi = ready == 'multi'

    def val(self, name, units=None, group=''):
        """A value of the problem, or of its inputs when the model does not have it; None if neither."""
        pre = f'{group}.' if group else ''
        try:
            return np.atleast_1d(self.prob.get_val(pre + name, units=units) if units else self.prob.get_val(pre + name))
        except (KeyError, TypeError):
            pass
        inputs = self.groups[group].aviary_inputs
        try:
            return np.atleast_1d(inputs.get_val(name, units) if units else inputs.get_item(name)[0])
        except (KeyError, TypeError):
            return None

    def first(self):
        return next(iter(self.groups))


def _units(u):
    return {'-': 'unitless', 'unknown': None}.get(u, u)


def check_mission(t, text, bad):
    parts = {'': text}
    if t.multi:
        pieces = re.split(r'^# MULTIMISSION: (.*)$', text, flags=re.M)
        parts = {pieces[i].strip(): pieces[i + 1] for i in range(1, len(pieces), 2)}
    if set(parts) != set(t.groups):
        return bad('mission_summary', f'missions {sorted(parts)} instead of {sorted(t.groups)}')
    for g, part in parts.items():
        pre = f'{g}.' if g else ''
        group = t.groups[g]

        def ts(ph, name, units):
            try:
                return np.ravel(t.prob.get_val(f'{pre}traj.{ph}.timeseries.{name}', units=units))
            except KeyError:
                return None

        rows = _tables(part)
        phases = list(group.mission_info)
        seen = [h[-1] for h, c in rows if c[0] == 'Elapsed Time']
        if seen != phases:
            bad('mission_summary', f'{g} segments {seen} instead of {phases}')
            continue
        want = {}
        for ph in phases:
            for label, name, units, sign in (('Fuel Burn', 'mass', 'lbm', -1), ('Elapsed Time', 'time', 'min', 1), ('Ground Distance', 'distance', 'nmi', 1)):
                v = ts(ph, name, units)
                if v is not None:
                    want[ph, label] = sign * (v[-1] - v[0])
        for label, name, units in (('Total Time', 'time', 'min'), ('Total Ground Distance', 'distance', 'nmi')):
            a, b = ts(phases[0], name, units), ts(phases[-1], name, units)
            if a is not None and b is not None:
                want['', label] = b[-1] - a[0]
        for label, name in (('Total Fuel Burn', Mission.FUEL_MASS), ('Total Fuel Capacity', Aircraft.Fuel.MAX_CAPACITY_MASS),
                            ('Excess Fuel Capacity', Mission.Constraints.EXCESS_FUEL_MASS_CAPACITY)):
            want['', label] = t.val(name, 'lbm', g)[0]
        got = {(h[-1] if h[-1] in phases else '', c[0]): c[1] for h, c in rows}
        for key, w in want.items():
            if key not in got or not near(got[key], w):
                bad('mission_summary', f'{g} {key}: {got.get(key)} instead of {w}')


def check_series(t, text, bad):
    import csv
    import io

    g = t.first()
    pre = f'{g}.' if g else ''
    group = t.groups[g]
    rows = list(csv.reader(io.StringIO(text)))
    heads, rows = rows[0], rows[1:]
    phases = list(group.traj._phases)
    have = {}
    for m in group.list_outputs(includes='*timeseries*', out_stream=None, return_format='dict', units=True).values():
        parts = m['prom_name'].split('.')
        if len(parts) >= 4 and parts[2] == 'timeseries' and not parts[-1].endswith('_phase'):
            have.setdefault(parts[-1], set()).add(parts[1])
    names = {}
    for j, h in enumerate(heads):
        m = re.fullmatch(r'(.*?)(?:\[(\d+)\])? \((.*)\)', h)
        names.setdefault(m.group(1), []).append((j, m.group(3)))
    if set(names) != set(have):
        return bad('timeseries', f'variables missing {sorted(set(have) - set(names))[:4]} extra {sorted(set(names) - set(have))[:4]}')
    cols = {}
    n = None
    for name, where in names.items():
        u = where[0][1]
        blocks = []
        width = 1
        for ph in phases:
            if ph in have[name]:
                v = np.asarray(t.prob.get_val(f'{pre}traj.{ph}.timeseries.{name}', units=None if u in ('None', 'unitless') else u))
                width = int(np.prod(v.shape[1:]))
                blocks.append(v.reshape(v.shape[0], -1))
            else:
                blocks.append(None)
        for b, ph in enumerate(phases):
            if blocks[b] is None:
                k = t.prob.get_val(f'{pre}traj.{ph}.timeseries.time').shape[0]
                blocks[b] = np.full((k, width), np.nan)
        full = np.vstack(blocks)
        n = full.shape[0]
        if len(where) != width:
            return bad('timeseries', f'{name} has {len(where)} columns for {width} values per point')
        for i, (j, _) in enumerate(where):
            cols[j] = full[:, i]
    want = np.array([cols[j] for j in range(len(heads))]).T
    got = np.array([[float(x) if x else np.nan for x in r] for r in rows])
    if got.ndim != 2 or got.shape[1] != want.shape[1]:
        return bad('timeseries', f'shape {got.shape} for {want.shape}')

    def same(a, b):
        nan = np.isnan(a) & np.isnan(b)
        return bool(np.all(nan | (np.abs(a - b) <= 1e-9 * np.maximum(np.abs(a), np.abs(b)) + 1e-12)))

    k = 0
    for w in range(n):
        if k < len(got) and same(got[k], want[w]):
            if k and rows[k] == rows[k - 1]:
                return bad('timeseries', f'rows {k - 1} and {k} are the same')
            k += 1
        elif not any(same(want[w], want[x]) for x in range(w)):
            j = [heads[c] for c in range(len(heads)) if k < len(got) and not same(got[k, c : c + 1], want[w, c : c + 1])]
            return bad('timeseries', f'row {w} of the mission is missing or differs in {j[:5]}')
    if k != len(got):
        bad('timeseries', f'{len(got)} rows for a mission of {n} points')


def check_status(t, text, bad, start, end):
    d = json.loads(text)
    r = t.prob.driver.result
    for k, w in (('Problem', t.prob._name), ('Optimizer', t.prob.driver._get_name()), ('Number of driver iterations', r.iter_count),
                 ('Number of model evals', r.model_evals), ('Number of deriv evals', r.deriv_evals), ('Exit status', r.exit_status)):
        if d.get(k) != w:
            bad('status', f'{k} is {d.get(k)!r} instead of {w!r}')
    m = re.fullmatch(r'(\d+) hours (\d+) minutes (\d+) seconds ([\d.]+) milliseconds', d['Wall clock run time'])
    if not m:
        bad('status', f'run time {d["Wall clock run time"]!r}')
    else:
        h, mi, s, ms = (float(x) for x in m.groups())
        if abs(h * 3600 + mi * 60 + s + ms / 1000 - r.runtime) > 0.06:
            bad('status', f'run time {d["Wall clock run time"]} for {r.runtime} s')
    stamp = datetime.datetime.strptime(d['Report generation date and time'].strip()[:19], '%Y-%m-%d %H:%M:%S').replace(tzinfo=datetime.timezone.utc).timestamp()
    if not start - 1.5 <= stamp <= end + 1.5:
        bad('status', f'time stamp {d["Report generation date and time"]}')


def check_subsystems(t, texts, bad):
    g = t.first()
    group = t.groups[g]
    engines = list(group.engine_models)
    rows = _tables(texts['subsystems/mass.md'])
    seen = set()
    nums = np.atleast_1d(group.aviary_inputs.get_val(Aircraft.Engine.NUM_ENGINES))
    part, hits = None, {}
    for _, c in rows:
        label = c[0].replace('&nbsp;', '').replace('*', '')
        if not label:
            continue
        value = c[1].replace('*', '') if len(c) > 1 else ''
        units = c[2].replace('*', '') if len(c) > 2 else ''
        if label in ('Nacelles', 'Engines'):
            part = label
        names = [e.name for e in engines]
        if label in names:
            i = names.index(label)
            v = t.val(Aircraft.Nacelle.MASS if part == 'Nacelles' else Aircraft.Engine.MASS, units, g)
            m = re.fullmatch(r'(\S+) \((\S+) total\)', value)
            if v is None or not m:
                continue
            hits[part, i] = 1
            w = v[i] if v.size > 1 else v[0]
            if not near(m.group(1), w) or abs(float(m.group(2)) - w * nums[i]) > 0.011 * nums[i] + 1e-6 * abs(w):
                bad('mass', f'{part} of {label}: {value} instead of {w} x {nums[i]}')
            continue
        var = MASS_ROWS.get(label)
        if var is None:
            continue
        seen.add(label)
        if value == 'Not Found in Model':
            if t.val(var, None, g) is not None:
                bad('mass', f'{label} not found but {var} exists')
            continue
        w = t.val(var, _units(units), g)
        if w is None or not near(value, w[0]):
            bad('mass', f'{label}: {value} {units} instead of {w} ({var})')
    for label in MASS_NEEDED:
        if label not in seen and t.val(MASS_ROWS[label], None, g) is not None:
            bad('mass', f'{label} missing')
    for p in ('Nacelles', 'Engines'):
        if t.val(Aircraft.Nacelle.MASS if p == 'Nacelles' else Aircraft.Engine.MASS, None, g) is not None:
            for i in range(len(engines)):
                if (p, i) not in hits:
                    bad('mass', f'{p} row of {engines[i].name} missing')
    for f, needed in (('geometry', [Aircraft.Wing.AREA, Aircraft.Wing.SPAN, Aircraft.Wing.ASPECT_RATIO, Aircraft.Wing.SWEEP, Aircraft.Fuselage.LENGTH]),
                      ('propulsion', [Aircraft.Propulsion.TOTAL_SCALED_SLS_THRUST, Aircraft.Engine.SCALED_SLS_THRUST, Aircraft.Engine.SCALE_FACTOR])):
        got = set()
        per_engine = {}
        for heads, c in _tables(texts[f'subsystems/{f}.md']):
            var, value, units = c[0], c[1], _units(c[2])
            w = t.val(var, units, g)
            got.add(var)
            eng = [i for i, e in enumerate(engines) if heads and heads[-1] == e.name]
            if eng:
                per_engine.setdefault(var, set()).add(eng[0])
                if w is not None and w.size > 1:
                    w = w[eng[0] : eng[0] + 1]
            if value == 'Not Found in Model':
                if w is not None:
                    bad(f, f'{var} not found but it is {w}')
                continue
            vals = value.strip('[]').replace(',', ' ').split() if value.startswith('[') else [value]
            if w is None or len(vals) != w.size or not all(near(re.sub(r'np\.\w+\((.*)\)', r'\1', a), b) for a, b in zip(vals, w)):
                bad(f, f'{" ".join(heads[-1:])} {var}: {value} {units} instead of {w}')
        for v in needed:
            if v not in got:
                bad(f, f'{v} missing')
        if f == 'propulsion':
            for v, s in per_engine.items():
                if len(s) != len(engines):
                    bad(f, f'{v} shown for {len(s)} of {len(engines)} engines')


def check_inputs(t, text, bad):
    model = t.prob.model
    bare = set()
    res = model._resolver
    for tgt, src in model._conn_abs_in2out.items():
        if 'ivc' in src:
            bare.add(res.abs2prom(tgt, 'input'))
    given = set()
    for g, group in t.groups.items():
        pre = f'{g}.' if g else ''
        for k, _ in group.aviary_inputs:
            given.add(k)
            given.add(pre + k)
    want = {v for v in bare if v not in given}
    top = {v for v in want if v.startswith(('mission:', 'aircraft:')) or '.mission:' in v or '.aircraft:' in v}
    local = {v for v in want - top if not (v.startswith('traj') and '.rhs_all.' not in v)}
    halves = re.split(r'^# Unspecified (Hierarchy|Local) Variables$', text, flags=re.M)
    if len(halves) != 5:
        return bad('input_checks', 'the two sections are not there')
    for part, names in ((halves[2], top), (halves[4], local)):
        got = set(re.findall(r'^\| \*\*(.*?)\*\* \|', part, flags=re.M))
        if got != names:
            bad('input_checks', f'missing {sorted(names - got)[:4]} extra {sorted(got - names)[:4]}')
        if not names and 'None' not in part:
            bad('input_checks', 'empty section not marked')
        # the model was not run since, or the optimizer left these alone
        moved = {m.get('name', k) for k, m in t.prob.driver._designvars.items()} | set(t.prob.driver._designvars) if t.moved else set()
        for row in re.findall(r'^\| \*\*(.*?)\*\* \| (.*?) \| (\S+) \|', part, flags=re.M | re.S):
            name, value, units = row
            if name in names and name not in moved and 'traj' not in name:
                try:
                    w = np.ravel(t.prob.get_val(name, units=None if units in ('None', 'unitless') else units))
                    v = np.array(value.replace('[', ' ').replace(']', ' ').split(), dtype=float)
                except (KeyError, TypeError, ValueError):
                    continue
                if v.shape != w.shape or not np.allclose(v, w, rtol=1e-6, atol=1e-12):
                    bad('input_checks', f'{name}: {value} {units} instead of {w}')


def check_overrides(t, text, bad):
    parts = {'': text}
    if t.multi:
        pieces = re.split(r'^# MULTIMISSION: (.*)$', text, flags=re.M)
        parts = {pieces[i].strip(): pieces[i + 1] for i in range(1, len(pieces), 2)}
    if set(parts) != set(t.groups):
        return bad('overridden_variables', f'missions {sorted(parts)}')
    for g, part in parts.items():
        group = t.groups[g]
        inner, outer = set(), set()
        for prom in group._resolver.prom_iter(iotype='output'):
            if 'EXTERNAL_SUBSYSTEM_OVERRIDE' in prom:
                outer.add(prom.split(':', 1)[1] if False else group._resolver.absnames(prom, 'output')[0].split('.')[-1])
            elif 'AIRCRAFT_DATA_OVERRIDE' in prom:
                inner.add(group._resolver.absnames(prom, 'output')[0].split('.')[-1])
        rows = _tables(part)
        got = {c[0]: c for h, c in rows if h and h[-1].startswith('Internal')}
        got_out = {c[0] for h, c in rows if h and h[-1].startswith('External')}
        if set(got) != inner or got_out != outer:
            bad('overridden_variables', f'{g}: {sorted(set(got) ^ inner)[:4]} {sorted(got_out ^ outer)[:4]}')
            continue
        for k, c in got.items():
            w = np.atleast_1d(group.aviary_inputs.get_val(k, _units(c[2])))
            vals = c[1].strip('[]').split()
            if len(vals) != w.size or not all(abs(float(a) - b) <= 0.0051 * abs(b) + 1e-12 for a, b in zip(vals, w)):
                bad('overridden_variables', f'{k}: {c[1]} {c[2]} instead of {w}')


def check_sizing(t, text, bad):
    """The gross mass the run arrived at, all other entries as given (save_results documents this)."""
    d = {x[0]: x for x in json.loads(text)}
    inputs = t.groups[''].aviary_inputs
    given = {k for k, _ in inputs} | {Aircraft.Design.GROSS_MASS}
    if set(d) != given:
        return bad('sizing_results', f'missing {sorted(given - set(d))[:4]} extra {sorted(set(d) - given)[:4]}')
    for k, (_, value, units, _) in d.items():
        if k in (Mission.GROSS_MASS, Aircraft.Design.GROSS_MASS):
            # both hold the mission's gross mass when they are inputs of the problem
            w = t.val(Mission.GROSS_MASS if k in inputs else k, units)
        else:
            w, u = inputs.get_item(k)
            if u != units:
                bad('sizing_results', f'{k} in {units} instead of {u}')
        try:
            v, w = np.atleast_1d(np.array(value, float)), np.atleast_1d(np.array(w, float))
        except (TypeError, ValueError):
            continue
        if v.shape != w.shape or not np.allclose(v, w, rtol=1e-9, atol=1e-9):
            bad('sizing_results', f'{k}: {v} instead of {w}')


def mask(rel, data):
    text = data.decode('utf-8', 'replace')
    if rel.endswith('status.json'):
        text = re.sub(r'"(Wall clock run time|Report generation date and time|Script)": "[^"]*"', r'"\1"', text)
    if rel.endswith('options.txt'):
        text = _addresses(text)
    return hashlib.sha1(text.encode()).hexdigest()[:16]


def _addresses(text):
    return re.sub(r'0x[0-9a-f]+', '0x', text)


def _tree(top):
    out = {}
    for d, _, files in os.walk(top):
        for n in files:
            p = os.path.join(d, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, top)] = f.read()
    return out


def verify(prob, kind, op, before, start, end):
    """Compare every report of the problem with its current values."""
    import io

    out = []

    def bad(report, detail):
        out.append([report, detail])

    t = Truth(prob, kind)
    t.moved = op.get('move', 0.0) != 0.0
    top = os.path.join(str(prob.get_outputs_dir()), 'reports')
    tree = {k: v.decode('utf-8') for k, v in _tree(top).items()} if os.path.isdir(top) else {}
    driven = op['op'] in ('run', 'drive')
    needed = list(SETUP_FILES) + (list(RUN_FILES) if driven else [])
    if driven and kind in ('cruise', 'full', 'gasp', 'engines'):
        needed.append('sizing_results.json')
    if op['op'] == 'run' and op['verbosity'] >= 2:
        needed += ['input_list.txt', 'output_list.txt']
    for f in needed:
        if f not in tree:
            bad('missing', f)
    if out:
        return out
    checks = [('input_checks.md', check_inputs), ('overridden_variables.md', check_overrides)]
    if driven:
        checks += [('mission_summary.md', check_mission), ('mission_timeseries_data.csv', check_series),
                   ('status.json', lambda t, x, b: check_status(t, x, b, start, end))]
        if 'sizing_results.json' in needed:
            checks.append(('sizing_results.json', check_sizing))
        elif 'sizing_results.json' in tree:
            bad('sizing_results', 'written for a problem that is not a sizing problem')
    for f, fn in checks:
        try:
            fn(t, tree[f], bad)
        except (ValueError, IndexError, KeyError, TypeError, AttributeError) as e:
            bad(f, f'cannot be read: {type(e).__name__} {e}')
    if driven:
        try:
            check_subsystems(t, tree, bad)
        except (ValueError, IndexError, KeyError) as e:
            bad('subsystems', f'cannot be read: {type(e).__name__} {e}')
        s = io.StringIO()
        prob.model.list_options(out_stream=s, include_default=False, include_solvers=False)
        if _addresses(s.getvalue()) != _addresses(tree['options.txt']):
            bad('options', 'differ from the options of the model')
    if 'output_list.txt' in needed:
        s = io.StringIO()
        prob.model.list_vars(out_stream=s, units=True, print_arrays=True)
        if s.getvalue() != tree['output_list.txt']:
            bad('output_list', 'differs from the variables of the model')
        if "Input(s) in 'model'" not in tree['input_list.txt']:
            bad('input_list', 'incomplete')
    return out


def client(ctx, case):
    import sys
    import time

    from aviary.variable_info.enums import Verbosity

    sys.argv = ['my script.py']
    fs = ctx.fs
    fs.active = False
    kinds = sorted({o['kind'] for o in case['ops']})
    probs = {k: sized.adopt(READY[k]) for k in kinds}
    where = {k: os.path.relpath(str(probs[k].get_outputs_dir()), fs.root) for k in kinds}

    def look():
        return {k: {r: mask(r, d) for r, d in _tree(os.path.join(fs.root, where[k])).items() if not r.endswith(('.db', '.pkl'))} for k in kinds}

    res = []
    now = look()
    ran = set()
    for n, op in enumerate(case['ops']):
        out = dict(op=op['op'], kind=op['kind'], outcome='ok', bad=[], n=n)
        prob = probs[op['kind']]
        start = ctx.clock.t
        ctx.note('op', n, len(fs.steps))
        fired = len(fs.fired)
        try:
            if op['op'] == 'chdir':
                os.chdir(os.path.join(fs.root, op['to']))
            elif op['op'] == 'set':
                groups = list(prob.aviary_groups_dict) if op['kind'] == 'multi' else ['']
                for name, factor in op['sets']:
                    for g in groups:
                        name_ = f'{g}.{name}' if g else name
                        try:
                            prob.set_val(name_, np.array(prob.get_val(name_), dtype=float) * factor)
                        except KeyError:
                            pass
            else:
                optimizer.SCRIPT[:] = [dict(end=op.get('end', 'converged'), solves=op.get('solves', 1), move=op.get('move', 0.0), takes=op.get('takes', 0.0))]
                fs.active = True
                try:
                    if op['op'] == 'run':
                        prob.run_aviary_problem(make_plots=False, suppress_solver_print=True, verbosity=Verbosity(op['verbosity']))
                    elif op['op'] == 'drive':
                        prob.run_driver()
                    elif op['op'] == 'model':
                        prob.run_aviary_problem(run_driver=False, make_plots=False, suppress_solver_print=True, verbosity=0)
                    else:
                        prob.final_setup()
                finally:
                    fs.active = False
        except optimizer.SimulatedOptimizerError:
            out['outcome'] = 'optimizer'
        except KeyboardInterrupt as e:
            out['outcome'] = 'optimizer' if 'optimizer' in str(e) else 'interrupt'
        except Exception as e:
            import traceback

            out['outcome'] = type(e).__name__
            out['error'] = str(e)[:300]
            out['trace'] = traceback.format_exc()[-1200:]
        out['fired'] = [list(x) for x in fs.fired[fired:]]
        before, now = now, look()
        out['others'] = sorted(f'{k}/{r}' for k in kinds if k != op['kind'] for r in set(before[k]) | set(now[k]) if before[k].get(r) != now[k].get(r))
        mine_before = {r[8:]: h for r, h in before[op['kind']].items() if r.startswith('reports/')}
        mine = {r[8:]: h for r, h in now[op['kind']].items() if r.startswith('reports/')}
        if out['outcome'] == 'ok' and op['op'] not in ('set', 'chdir'):
            out['bad'] = verify(prob, op['kind'], op, mine_before, start, ctx.clock.t)
            ran.add(op['kind'])
        out['before'], out['reports'] = mine_before, mine
        ctx.note('done', n, out['outcome'], mine)
        res.append(out)
    return dict(res=res, where=where, kinds=len(ran))


def run(sim, case):
    os.makedirs(os.path.join(sim.root, 'elsewhere'))
    kw = dict(bufsize=case['buf'], listing=case['listing'], clock=dict(t0=case['t0']), seed=1, pidno=3)
    plan = []
    versions = {}
    if case.get('fault'):
        from sim.fs import KINDS_FOR

        root = sim.new_host()
        os.makedirs(os.path.join(root, 'elsewhere'))
        d = sim.process(client, case, root=root, label='dry', quiet=True, **kw)
        if not d.ok:
            raise RuntimeError(f'dry run: {d.why()} {d.exc and d.exc[2]}')
        for o in d.value['res']:
            for tree in (o['before'], o['reports']):
                for r, h in tree.items():
                    versions.setdefault((o['kind'], r), set()).add(h)
        f = case['fault']
        fit = [s for s, (op, rel) in enumerate(d.steps) if '/reports' in rel and f['kind'] in KINDS_FOR[op]]
        if fit:
            plan = [dict(f, step=fit[int(f['at'] * len(fit)) % len(fit)])]
    r = sim.process(client, case, plan=plan, label='history', **kw)
    if r.status == 'raise':
        raise RuntimeError(f'{r.why()} {r.exc[2]}')
    sim.sim_time += sum(o.get('takes', 0.0) for o in case['ops'])
    if r.status == 'crash':
        sim.nontrivial = True
        sim.state(('crash', [x[1:] for x in r.fired]))
        done = {}
        for x in r.notes:
            if x[0] == 'done':
                done[x[1]] = x[3]
        n = max([x[1] for x in r.notes if x[0] == 'op'])
        kind = case['ops'][n]['kind']
        top = os.path.join(sim.root, f'rep_{kind}_out', 'reports')
        for rel, data in _tree(top).items():
            if (kind, rel) in versions:
                sim.counts['crash_files'] += 1
                if mask(rel, data) not in versions[kind, rel]:
                    sim.violate('incomplete-report', f'killed at {r.fired[0][1:]}: {kind}/{rel} is neither the earlier nor the new report ({len(data)} bytes)')
        return
    seen = {}
    for o in r.value['res']:
        what = f"op {o['n']} {o['op']} on {o['kind']} (faults {[x[1:] for x in o['fired']]})"
        hard = [x for x in o['fired'] if x[3] != 'short']
        sim.state((o['op'], o['kind'], o['outcome'], [x[1:] for x in o['fired']]))
        if o['fired'] or seen.get(o['kind']):
            sim.nontrivial = True
        if o['op'] in ('run', 'drive'):
            seen[o['kind']] = seen.get(o['kind'], 0) + 1
        if o['others']:
            sim.violate('other-problem-changed', f'{what}: {o["others"][:5]}')
        if o['outcome'] == 'ok' and hard:
            sim.violate('fault-swallowed', what)
        if o['outcome'] not in ('ok', 'optimizer') and not hard:
            sim.violate('run-raised', f"{what}: {o['outcome']} {o.get('error')} {o.get('trace')}")
        for report, detail in o['bad'][:4]:
            sim.violate(f'report-{report}', f'{what}: {detail}')
        if o['outcome'] == 'ok':
            sim.counts['reports_checked'] += len(o['reports'])
        else:
            for rel, h in o['reports'].items():
                if o['before'].get(rel) != h and versions and (o['kind'], rel) in versions and h not in versions[o['kind'], rel]:
                    sim.violate('incomplete-report', f'{what}: {rel} is neither the earlier nor the new report')
        if sim.violations:
            return
    stray = sorted(k for k, v in sim.tree().items() if v is not None and '_out' + os.sep not in k)
    if stray:
        sim.violate('stray-file', f'{stray[:5]}')


def simplify(case):
    if case.get('fault'):
        c = copy.deepcopy(case)
        del c['fault']
        yield c
    for i, o in enumerate(case['ops']):
        for k, d in (('takes', 0.0), ('move', 0.0), ('solves', 1), ('verbosity', 0), ('end', 'converged')):
            if k in o and o[k] != d:
                c = copy.deepcopy(case)
                c['ops'][i][k] = d
                yield c
        if len(o.get('sets', ())) > 1:
            c = copy.deepcopy(case)
            c['ops'][i]['sets'].pop()
            yield c
    for k, d in (('listing', None), ('buf', 8192), ('t0', 1.7e9)):
        if case[k] != d:
            c = copy.deepcopy(case)
            c[k] = d
            yield c
