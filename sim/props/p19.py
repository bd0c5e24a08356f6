"""P19 - builders answer and build the same whatever was asked of them before."""

import copy
import os
import re
import sys

import numpy as np
import openmdao.api as om

import aviary.api as av
from aviary.utils.aviary_values import AviaryValues
from aviary.variable_info.enums import LegacyCode
from aviary.variable_info.variables import Aircraft, Dynamic, Settings

from sim import fixtures, kernel, problems
from sim.canon import canon, diff, digest
from sim.props import p04
from sim.trace import LineFault

ID = 'P19'
TIERS = dict(quick=dict(cases=400, budget=50, floor=25), thorough=dict(cases=30000, budget=3000, floor=500))
RULE = ('seeded histories of 4 to 14 queries and builds by several clients (aircraft, options) that share subsystem, engine, propulsion and '
        'phase builders: every interface method, pre-mission, mission and post-mission systems, phases built from shared phase information, '
        'the answers edited by the client afterwards, builders made again with the same arguments, interrupts at seeded lines inside a query '
        'or build and disk faults while engine and propeller data are read; every answer is compared with that of fresh builders, given '
        'fresh arguments, asked alone in their own process; arguments and builders\' own data are compared with their state before; '
        'non-trivial = some builder was asked at least twice, or something was interrupted')
REAL = ['CoreAerodynamicsBuilder, CoreGeometryBuilder, CoreMassBuilder, CorePropulsionBuilder, CorePerformanceBuilder, CoreEnergyBuilder',
        'EngineDeck, TurbopropModel, motor, gearbox, propeller and battery builders', 'phase builders of every equation of motion',
        'the systems and phases they build (OpenMDAO and dymos)', 'create_vehicle, preprocess_options']
STUB = ['disk calls (SimFS)', "users' builders and engines", 'interrupts (line tracer)', 'clients (one thread, seeded order)']
ASSUMPTIONS = ['a client may change the containers it is given as answers, not the numbers inside arrays', 'a user\'s builder that answers from its '
               'own tables owns these tables']
SHRINK = ('ops',)
STATE_MEASURE = 'hash of (builder specification, what was asked, outcome)'

FILES = ('subsystems/subsystem_builder.py', 'aerodynamics/aerodynamics_builder.py', 'propulsion/propulsion_builder.py', 'propulsion/engine_deck.py',
         'propulsion/engine_model.py', 'propulsion/turboprop_model.py', 'mass/mass_builder.py', 'geometry/geometry_builder.py',
         'energy/battery_builder.py', 'energy/energy_builder.py', 'gearbox/gearbox_builder.py', 'propeller/propeller_builder.py',
         'motor/motor_builder.py', 'mission/phase_builder.py', 'mission/flight_phase_builder.py', 'mission/initial_guess_builders.py',
         'utils/aviary_options_dict.py', 'phases/flight_phase.py', 'phases/accel_phase.py', 'phases/takeoff_phase.py', 'phases/groundroll_phase.py',
         'propulsion/utils.py', 'propulsion/propulsion_premission.py', 'propulsion/propulsion_mission.py')


def setup(tier):
    import aviary.interface.reports  # noqa: F401
    import aviary.models.missions.energy_state_default  # noqa: F401
    import aviary.models.missions.two_dof_default  # noqa: F401
    import aviary.models.missions.solved2dof_default  # noqa: F401
    import aviary.models.external_subsystems.detailed_battery.detailed_battery_builder  # noqa: F401
    import aviary.subsystems.propulsion.turboprop_model  # noqa: F401
    import aviary.subsystems.propulsion.motor.motor_builder  # noqa: F401
    import aviary.mission.two_dof.phases  # noqa: F401

    classes()
    fixtures.quiet()
    fixtures.in_scratch(fixtures.small_problem)


def classes():
    from aviary.mission.energy_state.phases.energy_phase import EnergyPhase
    from aviary.mission.solved_two_dof.phases.groundroll_phase import GroundrollPhase
    from aviary.mission.solved_two_dof.phases.solved_twodof_phase import SolvedTwoDOFPhase
    from aviary.mission.two_dof.phases.accel_phase import AccelPhase
    from aviary.mission.two_dof.phases.breguet_cruise_phase import BreguetCruisePhase
    from aviary.mission.two_dof.phases.flight_phase import FlightPhase
    from aviary.mission.two_dof.phases.simple_cruise_phase import SimpleCruisePhase
    from aviary.mission.two_dof.phases.takeoff_phase import TakeoffPhase

    return dict(energy=EnergyPhase, groundroll=GroundrollPhase, solved=SolvedTwoDOFPhase, accel=AccelPhase, breguet=BreguetCruisePhase,
                flight=FlightPhase, simple=SimpleCruisePhase, takeoff=TakeoffPhase)


# ---- objects ----------------------------------------------------------------------------------------
class OwnEngine(problems.SimEngine):
    """A user's engine that answers from its own tables."""

    tables = None

    def _own(self, k, default):
        if self.tables is None:
            self.tables = dict(
                parameters={Aircraft.Engine.SCALE_FACTOR: {'val': 1.0, 'units': 'unitless', 'static_target': True},
                            Aircraft.Engine.REFERENCE_SLS_THRUST: {'val': 2.0, 'units': 'lbf', 'static_target': True}},
                states={problems.X_STATE: {'rate_source': problems.X_RATE, 'units': 'm'}},
                controls={f'throttle_{self.name}': {'units': 'unitless', 'opt': False}},
                constraints={problems.X_RATE: {'type': 'path', 'upper': 1e9, 'units': 'm/s'}},
                guesses={problems.X_STATE: {'val': [1.0, 2.0], 'type': 'state', 'units': 'm'}},
                bus={f'own_{self.name}.mass': {'mission_name': [f'own_mass_{self.name}'], 'units': 'kg'}},
                dvs={problems.X_SIZE: {'units': 'm', 'lower': 0.5}}, linked=[f'own_linked_{self.name}'], names=[f'own_mass_{self.name}'], series=['own_a', f'own_b_{self.name}'])
        return self.tables[k]

    def get_parameters(self, *a, **k):
        return self._own('parameters', {})

    def get_states(self, *a, **k):
        return self._own('states', {})

    def get_controls(self, *a, **k):
        return self._own('controls', {})

    def get_constraints(self, *a, **k):
        return self._own('constraints', {})

    def get_initial_guesses(self, *a, **k):
        return self._own('guesses', {})

    def get_pre_mission_bus_variables(self, *a, **k):
        return self._own('bus', {})

    def get_design_vars(self, *a, **k):
        return self._own('dvs', {})

    def get_linked_variables(self, *a, **k):
        return self._own('linked', [])

    def get_mass_names(self, *a, **k):
        return self._own('names', [])

    def get_timeseries(self, *a, **k):
        return self._own('series', [])


PHASE_SOURCES = {
    'energy': ('energy_state_default', ('climb', 'cruise', 'descent')), 'takeoff': ('two_dof_default', ('groundroll', 'rotation', 'ascent')),
    'accel': ('two_dof_default', ('accel',)), 'flight': ('two_dof_default', ('climb1', 'climb2', 'desc1', 'desc2')),
    'simple': ('two_dof_default', ('cruise',)), 'breguet': ('two_dof_default', ('cruise',)),
    'groundroll': ('solved2dof_default', ('AB',)), 'solved': ('solved2dof_default', ('rotate', 'BC', 'CD_to_P2', 'DE', 'EF_to_P1', 'EF_past_P1')),
}


def source(kind, name):
    import importlib

    m = importlib.import_module('aviary.models.missions.' + PHASE_SOURCES[kind][0]).phase_info
    names = PHASE_SOURCES[kind][1]
    have = [n for n in names if n in m]
    return copy.deepcopy(m[have[name % len(have)]]), have[name % len(have)]


CONS = {'mass_end': {'type': 'boundary', 'loc': 'final', 'lower': 1000.0, 'units': 'kg', 'target': 'mass'},
        Dynamic.Vehicle.MASS: {'type': 'boundary', 'loc': 'initial', 'upper': 1e6, 'units': 'kg'},
        Dynamic.Mission.ALTITUDE: {'type': 'path', 'upper': 45000.0, 'units': 'ft'}}


def gasp_table(spec):
    from aviary.utils.named_values import NamedValues

    nv = NamedValues()
    cols = p04.grid(([0.0, 20000.0, 37500.0], [0.2, 0.5, 0.8], [-2.0, 2.0, 6.0]),
                    (lambda h, m, a: 0.25 + 0.09 * a + 0.1 * m, lambda h, m, a: 0.02 + 0.001 * a * a + h * 1e-8), spec.get('order', 0))
    for n, c, u in zip(('altitude', 'mach', 'angle_of_attack', 'lift_coefficient', 'drag_coefficient'), cols, ('ft', 'unitless', 'deg', 'unitless', 'unitless')):
        nv.set_val(n, c, u)
    return nv


class World:
    """Lazily made shared objects; arguments and builders' own tables are remembered as they were made."""

    def __init__(self, pool):
        self.pool = pool
        self.made = {}
        self.before = {}

    def __call__(self, ref):
        if ref is None:
            return None
        k = ref[1]
        if k not in self.made:
            x = self.make(self.pool[k])
            self.made[k] = x
            self.before[k] = self.look(k)
        return self.made[k]

    def look(self, k):
        s, x = self.pool[k], self.made[k]
        if s['type'] in ('engine', 'tengine'):
            return [canon(x.options), canon(getattr(x, 'tables', None)), x.name, [canon({str(a): b for a, b in x.data.items()}),
                    canon({str(a): b for a, b in x.engine_variables.items()})] if hasattr(x, 'data') else None]
        if s['type'] == 'sub':
            return canon(x.tables) if isinstance(x, problems.SimBuilder) else [x.name, type(x).__name__]
        if s['type'] == 'propulsion':
            return [x.name, [e.name for e in x.engine_models], len(x.engine_models)]
        if s['type'] == 'phase':
            return None
        if s['type'] == 'aero_opts':
            return deep(x)
        return problems.deep(x)

    def make(self, s):
        t = s['type']
        if t == 'aircraft':
            return aircraft(s)
        if t in ('engine_options', 'engine_data'):
            return p04.make(s)
        if t == 'engine':
            cls = {'deck': av_engine(), 'sim': problems.SimEngine, 'own': OwnEngine}[s['cls']]
            if s.get('own'):
                e = cls(s['name'], self(s['options']), self(s.get('data')))
            else:
                o = self(s['options'])
                e = cls(s['name'], o, self(s.get('data')))
            if cls is OwnEngine:
                e._own('states', {})
            return e
        if t == 'tengine':
            from aviary.subsystems.propulsion.gearbox.gearbox_builder import GearboxBuilder
            from aviary.subsystems.propulsion.motor.motor_builder import MotorBuilder
            from aviary.subsystems.propulsion.propeller.propeller_builder import PropellerBuilder
            from aviary.subsystems.propulsion.turboprop_model import TurbopropModel

            kw = {}
            if s.get('motor'):
                kw['shaft_power_model'] = MotorBuilder('motor')
            if s.get('gearbox'):
                kw['gearbox_model'] = GearboxBuilder('gb', include_constraints=bool(s['gearbox'] - 1))
            if s.get('propeller'):
                kw['propeller_model'] = PropellerBuilder('prop')
            return TurbopropModel(s['name'], options=self(s['options']), **kw)
        if t == 'propulsion':
            from aviary.subsystems.propulsion.propulsion_builder import CorePropulsionBuilder

            return CorePropulsionBuilder('propulsion', engine_models=[self(e) for e in s['engines']])
        if t == 'sub':
            return subsystem(s)
        if t == 'opts':
            return copy.deepcopy(s['val'])
        if t == 'aero_opts':
            return aero_options(s)
        if t == 'phase_info':
            pi, _ = source(s['kind'], s['name'])
            pi.setdefault('subsystem_options', {}).update(copy.deepcopy(s.get('sub_opts', {})))
            u = pi['user_options']
            if s.get('plain'):
                u['num_segments'] = 2
            if s['kind'] == 'breguet':
                for k in ('mass_bounds', 'mass_ref', 'time_duration_ref'):
                    u.pop(k, None)
                pi['initial_guesses'] = {}
            if s.get('cons') and s['kind'] in ('energy', 'flight', 'groundroll', 'solved'):
                u['constraints'] = copy.deepcopy({c: CONS[c] for c in s['cons']})
            return pi
        if t == 'phase':
            cls = classes()[s['kind']]
            pi = self(s['info'])
            if s.get('registry') and s['kind'] == 'energy':
                from aviary.mission.phase_builder import phase_info_to_builder

                return phase_info_to_builder(s['name'], pi)
            return cls.from_phase_info(s['name'], pi, [self(x) for x in s['subs']])
        raise ValueError(t)


def av_engine():
    from aviary.subsystems.propulsion.engine_deck import EngineDeck

    return EngineDeck


def deep(x):
    if isinstance(x, dict):
        return ['dict', [[k, deep(v)] for k, v in x.items()]]
    return canon(x)


def aircraft(s):
    from aviary.utils.preprocessors import preprocess_options

    vals = problems.make_inputs(dict(aircraft=s['ac'], edits=s.get('edits', ())))
    for n, v in s.get('tails', {}).items():
        vals.set_val(getattr(Aircraft, n).NUM_TAILS, v)
    if s.get('engines', 1) > 1:
        vals.set_val(Aircraft.Engine.NUM_ENGINES, np.array([2] * s['engines']))
    if s.get('bwb'):
        vals.set_val(Aircraft.Design.TYPE, av.AircraftTypes.BLENDED_WING_BODY)
    if s.get('drop'):
        for n in (Aircraft.Design.TYPE, Aircraft.HorizontalTail.NUM_TAILS, Aircraft.VerticalTail.NUM_TAILS):
            if n in vals:
                vals.delete(n)
    if s.get('polar'):
        vals.set_val(Aircraft.Design.LIFT_INDEPENDENT_DRAG_POLAR, np.full((4, 4), 0.02))
    if s.get('prep'):
        preprocess_options(vals, verbosity=0)
    return vals


def aero_options(s):
    k = s['kind']
    if k == 'flops_table':
        d = p04.make(dict(type='aero', order=s.get('order', 0), train=s.get('train')))
    elif k == 'gasp_table':
        d = dict(method='tabular_cruise', aero_data=gasp_table(s))
        if s.get('solve'):
            d['solve_alpha'] = True
    else:
        d = {} if k is None else dict(method=k)
        if s.get('solve'):
            d['solve_alpha'] = True
        if s.get('out_alpha') is not None:
            d['output_alpha'] = s['out_alpha']
        if k == 'low_speed' and s.get('flops'):
            d.update(ground_altitude=500.0, angles_of_attack=[0.0, 5.0, 10.0], lift_coefficients=[0.2, 0.8, 1.3], drag_coefficients=[0.04, 0.06, 0.1],
                     lift_coefficient_factor=1.0, drag_coefficient_factor=1.0)
        elif k == 'low_speed' and s.get('kw'):
            d.update(retract_gear=False, retract_flaps=False)
    return d


def subsystem(s):
    c = s['cls']
    F, G = LegacyCode.FLOPS, LegacyCode.GASP
    code = {'f': F, 'g': G, None: None, 'fg': (F, G)}[s.get('code')]
    if c == 'aero':
        from aviary.subsystems.aerodynamics.aerodynamics_builder import CoreAerodynamicsBuilder

        return CoreAerodynamicsBuilder('aerodynamics', code_origin=code, tabular=bool(s.get('tabular')))
    if c == 'mass':
        from aviary.subsystems.mass.mass_builder import CoreMassBuilder

        return CoreMassBuilder('mass', code_origin=code)
    if c == 'geometry':
        from aviary.subsystems.geometry.geometry_builder import CoreGeometryBuilder

        return CoreGeometryBuilder('geometry', code_origin=code, code_origin_to_prioritize=F if s.get('code') == 'fg' else None)
    if c == 'performance':
        from aviary.subsystems.performance.performance_builder import CorePerformanceBuilder

        return CorePerformanceBuilder('performance')
    if c == 'energy':
        from aviary.subsystems.energy.energy_builder import CoreEnergyBuilder

        return CoreEnergyBuilder('energy')
    if c == 'battery':
        from aviary.subsystems.energy.battery_builder import BatteryBuilder

        return BatteryBuilder()
    if c == 'detailed':
        from aviary.models.external_subsystems.detailed_battery.detailed_battery_builder import DetailedBatteryBuilder

        return DetailedBatteryBuilder(include_constraints=bool(s.get('con', True)))
    if c == 'simple':
        from aviary.models.external_subsystems.simple_aero.simple_aero_builder import SimpleAeroBuilder

        return SimpleAeroBuilder()
    if c in ('motor', 'gearbox', 'propeller'):
        import importlib

        m = importlib.import_module(f'aviary.subsystems.propulsion.{c}.{c}_builder')
        return getattr(m, c.capitalize() + 'Builder')()
    if c == 'sim':
        return problems.SimBuilder(variant=['pre', 'mission', 'post', 'dv', 'con'])
    raise ValueError(c)


# ---- what was built, as data ------------------------------------------------------------------------
def opts_of(o):
    out = []
    for k in sorted(o._dict):
        v = o._dict[k].get('val')
        if isinstance(v, (list, tuple)) and any(hasattr(i, 'get_states') for i in v):
            v = [getattr(i, 'name', '?') for i in v]
        elif isinstance(v, dict) or isinstance(v, list):
            v = deep(v) if isinstance(v, dict) else canon(v)
        out.append([k, canon(v)])
    return out


def describe(s, depth=0):
    if s is None:
        return None
    d = [type(s).__name__, opts_of(s.options)]
    if isinstance(s, om.Group):
        d.append([[n, describe(i.system, depth + 1), canon(getattr(i.system, '_var_promotes', None))] for n, i in s._static_subsystems_allprocs.items()])
        d.append(canon({k: v for k, v in s._static_group_inputs.items()}))
        d.append([canon(sorted(s._static_design_vars)), canon(sorted(s._static_responses)), canon(s._static_manual_connections)])
        for sol in (s.nonlinear_solver, s.linear_solver):
            d.append(None if sol is None else [type(sol).__name__, [x for x in opts_of(sol.options)]])
    else:
        d.append([[n, m.get('units'), canon(m.get('val')), canon(m.get('shape'))] for n, m in list(s._static_var_rel2meta.items())])
        for a in ('params', 'training_outputs', 'inputs'):
            v = getattr(s, a, None)
            if isinstance(v, list):
                d.append([canon(np.asarray(i)) for i in v])
            elif isinstance(v, dict):
                d.append({k: canon(np.asarray(i)) for k, i in v.items()})
    return d


class _Engines:
    def __init__(self, models):
        self.engine_models = models


def variables(s, ac, engines):
    """Everything the set-up system declares."""
    from aviary.variable_info.functions import setup_model_options

    p = om.Problem(reports=None)
    p.model.add_subsystem('propulsion' if engines else 's', s, promotes=['*'])
    setup_model_options(p, ac, group=_Engines(engines))
    p.setup()
    out = []
    m = p.model
    for io in ('input', 'output'):
        for n, v in m._var_allprocs_abs2meta[io].items():
            val = m._var_abs2meta[io][n].get('val')
            out.append([io, n, m._resolver.abs2prom(n, io), v['units'], canon(v['shape']), canon(None if val is None else np.asarray(val))])
    for sub in m.system_iter(recurse=True):
        if isinstance(sub, (om.MetaModelStructuredComp, om.MetaModelSemiStructuredComp)):
            out.append([sub.pathname, canon({a: np.asarray(b) for a, b in sub.training_outputs.items()})])
    return out


def describe_phase(ph):
    d = [type(ph).__name__, opts_of_phase(ph.options)]
    for a in ('state_options', 'control_options', 'parameter_options', 'polynomial_control_options'):
        o = getattr(ph, a, None)
        if o is not None:
            d.append([a, [[n, opts_of(v)] for n, v in o.items()]])
    d.append(opts_of(ph.time_options) if hasattr(ph, 'time_options') else None)
    for a in ('_initial_boundary_constraints', '_final_boundary_constraints', '_path_constraints', '_objectives', '_timeseries'):
        v = getattr(ph, a, None)
        d.append([a, safe(v)])
    return d


def opts_of_phase(o):
    out = []
    for k in sorted(o._dict):
        v = o._dict[k].get('val')
        if k == 'transcription':
            v = [type(v).__name__, [canon(v.options[n]) for n in ('num_segments', 'order', 'compressed', 'segment_ends') if n in v.options._dict]] if v is not None else None
            out.append([k, v])
        elif k == 'ode_init_kwargs':
            out.append([k, safe(v)])
        else:
            out.append([k, canon(v)])
    return out


def safe(v):
    if isinstance(v, dict):
        return ['dict', [[str(k), safe(x)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, [safe(x) for x in v]]
    if hasattr(v, 'get_states'):
        return ['builder', v.name]
    return canon(v)


# ---- calls ------------------------------------------------------------------------------------------
QUERIES = ('get_states', 'get_controls', 'get_parameters', 'get_constraints', 'get_linked_variables', 'get_bus_variables',
           'get_pre_mission_bus_variables', 'get_post_mission_bus_variables', 'mission_inputs', 'mission_outputs', 'get_design_vars',
           'get_initial_guesses', 'get_mass_names', 'get_timeseries', 'get_outputs', 'needs_mission_solver')
BUILDS = ('build_pre_mission', 'build_mission', 'build_mission', 'build_post_mission')
PHASE_OPS = ('get_parameters', 'get_linked_variables', 'to_phase_info', 'build_phase', 'build_phase', 'stored', 'stored', 'make_default_transcription', 'validate_initial_guesses')


def call(op, w):
    b = w(op['builder'])
    m = op['method']
    ac, uo, so = w(op.get('aircraft')), w(op.get('user')), w(op.get('opts'))
    if hasattr(b, 'build_phase'):
        if m == 'build_phase':
            return describe_phase(b.build_phase(ac)), None
        if m == 'stored':  # what the builder stores, given back
            one = describe_phase(b.build_phase(ac))
            name, info = b.to_phase_info()
            c = type(b).from_phase_info(name, info, b.subsystems)
            two = describe_phase(c.build_phase(ac))
            for d in (one, two):  # a stored phase names its default options too
                d[1] = [o for o in d[1] if o[0] != 'ode_init_kwargs']
            return [name, canon(c.initial_guesses), diff(floats([one, canon(b.initial_guesses)]), floats([two, canon(c.initial_guesses)]))], None
        r = getattr(b, m)()
        if m == 'make_default_transcription':
            return [type(r).__name__, canon(r.options['num_segments']), canon(r.options['order'])], None
        return safe(r), None
    if m in BUILDS:
        if m == 'build_pre_mission':
            s = b.build_pre_mission(aviary_inputs=ac, subsystem_options=so)
        elif m == 'build_mission':
            s = b.build_mission(num_nodes=op['nn'], aviary_inputs=ac, user_options=uo, subsystem_options=so)
        else:
            s = b.build_post_mission(aviary_inputs=ac, mission_info=uo, subsystem_options=so, phase_mission_bus_lengths={})
        out = [describe(s)]
        if s is not None and op.get('setup'):
            out.append(variables(s, ac, getattr(b, 'engine_models', [])))
        return out, None
    if m in ('get_bus_variables', 'get_design_vars', 'get_mass_names'):
        r = getattr(b, m)(aviary_inputs=ac)
    elif m in ('get_pre_mission_bus_variables', 'get_post_mission_bus_variables'):
        r = getattr(b, m)(aviary_inputs=ac, mission_info=uo)
    elif m == 'get_outputs':
        r = b.get_outputs()
    else:
        r = getattr(b, m)(aviary_inputs=ac, user_options=uo, subsystem_options=so)
    if hasattr(b, 'engine_models') and m in COMBINED:
        if m in ('get_mass_names', 'get_design_vars'):
            parts = [getattr(e, m)(aviary_inputs=ac) for e in b.engine_models]
        else:
            parts = [getattr(e, m)(aviary_inputs=ac, user_options=uo, subsystem_options=so) for e in b.engine_models]
        names = sorted({str(n) for p in parts for n in p})
        if names != sorted({str(n) for n in r}):
            return ['combined', names, sorted({str(n) for n in r})], None
    return canon(r), r


COMBINED = ('get_states', 'get_controls', 'get_parameters', 'get_constraints', 'get_linked_variables', 'get_design_vars', 'get_initial_guesses',
            'get_mass_names', 'get_timeseries')


def floats(x):
    if isinstance(x, (list, tuple)):
        return [floats(i) for i in x]
    return float(x) if isinstance(x, int) and not isinstance(x, bool) else x


def edit(r):
    """What a client does with an answer: it completes the entries for its own use."""
    if isinstance(r, dict):
        for k, v in list(r.items()):
            if isinstance(v, dict):
                v['shape'] = (7,)
                v.pop('units', None)
                v['client'] = True
        r['client:extra'] = {}
    elif isinstance(r, list):
        r.append('client:extra')
        r.reverse()


def owned(op, pool):
    """The answer is a user's own table: not the client's to change."""
    s = pool[op['builder'][1]]
    if s['type'] == 'sub':
        return s['cls'] == 'sim'
    if s['type'] == 'engine':
        return s['cls'] == 'own'
    if s['type'] == 'propulsion':  # merged answers share the entries of the engines that own them
        return any(pool[e[1]].get('cls') == 'own' for e in s['engines'])
    return False


def attempt(op, w, pool):
    fired = None
    try:
        if 'strike' in op:
            with LineFault(FILES, op['strike']) as lf:
                try:
                    r, raw = call(op, w)
                finally:
                    fired = lf.fired
        else:
            r, raw = call(op, w)
        out = ['ok', r]
        if op.get('edit') and raw is not None and not owned(op, pool):
            edit(raw)
    except (Exception, KeyboardInterrupt) as e:
        out = [type(e).__name__, re.sub(r'0x[0-9a-f]+', '0x', str(e).replace(os.getcwd(), '<cwd>'))[:300]]
    if fired:
        out = ['struck', str(fired[0])]
    return out


def tables():
    """Everything the builders' modules and classes share."""
    out = {'core metadata': digest(canon(av.CoreMetaData))}
    for f in FILES:
        m = sys.modules.get('aviary.' + ('subsystems/' + f if not f.startswith(('mission/', 'utils/', 'phases/')) else f)[:-3].replace('/', '.'))
        for n, v in sorted(vars(m).items()) if m else ():
            if isinstance(v, (dict, list, set)) and not n.startswith('_') and 'MetaData' not in n:
                out[f'{f[:-3]}.{n}'] = digest(repr(safe(v)) if not isinstance(v, set) else repr(sorted(map(str, v))))
            elif isinstance(v, type) and v.__module__ == m.__name__:
                for a, x in sorted(vars(v).items()):
                    if isinstance(x, (dict, list, set)) and not a.startswith('_') and 'meta_data' not in a:
                        out[f'{f[:-3]}.{n}.{a}'] = digest(repr(safe(x)) if not isinstance(x, set) else repr(sorted(map(str, x))))
    return out


def perform(ctx, case):
    w = World(case['pool'])
    results, changed = [], []
    tables0 = tables()
    for n, op in enumerate(case['ops']):
        if op.get('renew'):
            w.made.pop(op['builder'][1], None)
        results.append(attempt(op, w, case['pool']))
        for k in sorted(w.made):
            now = w.look(k)
            if now != w.before[k]:
                changed.append([n, op['method'], case['pool'][k]['type'], results[-1][0], '; '.join(diff(w.before[k], now)[:3])])
                w.before[k] = now
    tables1 = tables()
    for k in sorted(tables0):
        if tables0[k] != tables1.get(k):
            changed.append([len(case['ops']), 'history', k, 'any', 'a table shared by all builders'])
    return dict(results=results, changed=changed)


def alone(ctx, case, op):
    op = {k: v for k, v in op.items() if k not in ('strike', 'edit', 'renew')}
    return attempt(op, World(case['pool']), case['pool'])


# ---- generation -------------------------------------------------------------------------------------
def gen(rng, i, tier):
    pool = []

    def put(s):
        if s in pool:
            return ['pool', pool.index(s)]
        pool.append(s)
        return ['pool', len(pool) - 1]

    def ac():
        s = dict(type='aircraft', ac=rng.choice(('asa', 'asa', 'lsa1', 'bwb', 'min', 'lsa1g', 'lsa1g', 'ltf', 'ssg')))
        if rng.random() < 0.3:
            s['tails'] = {'HorizontalTail': rng.choice((0, 1)), 'VerticalTail': rng.choice((0, 1, 2))}
        if rng.random() < 0.35:
            s['engines'] = rng.choice((2, 3))
        if rng.random() < 0.25:
            s['bwb'] = True
        if rng.random() < 0.15:
            s['drop'] = True
        if rng.random() < 0.3:
            s['polar'] = True
        if rng.random() < 0.3:
            s['edits'] = rng.sample(('sweep', 'area', 'pax'), 1)
        if s.get('engines', 1) == 1 and rng.random() < 0.4:
            s['prep'] = True
        return put(s)

    craft = [ac() for _ in range(rng.choice((1, 2, 3)))]
    users = [put(dict(type='opts', val=v)) for v in rng.sample(({}, {'a': (1.0, 'm')}, {'throttle_enforcement': 'path_constraint'}, {'reserve': True}), 2)]
    builders = []

    def engine():
        if rng.random() < 0.25:
            o = put(dict(type='aircraft', ac='ltf'))
            return put(dict(type='tengine', name=f'tp{rng.randrange(2)}', options=o, motor=rng.random() < .35, gearbox=rng.choice((0, 1, 2)),
                            propeller=rng.random() < .4))
        o = put(dict(type='engine_options', vec=rng.random() < .3, geo=rng.random() < .15, idle=rng.random() < .3))
        s = dict(type='engine', cls=rng.choice(('deck', 'deck', 'sim', 'own')), name=f'e{rng.randrange(3)}', options=o)
        if rng.random() < 0.6:
            s['data'] = put(dict(type='engine_data', names=rng.choice((0, 1, 2)), alt=rng.choice(('ft', 'm')), thrust=rng.choice(('lbf', 'N')),
                                 order=rng.choice((0, 3))))
        return put(s)

    def sub():
        c = rng.choice(('aero', 'aero', 'aero', 'aero', 'mass', 'geometry', 'performance', 'energy', 'battery', 'detailed', 'simple', 'motor', 'gearbox',
                        'propeller', 'sim', 'sim'))
        s = dict(type='sub', cls=c)
        if c in ('aero', 'mass', 'geometry'):
            s['code'] = rng.choice(('f', 'g') if c != 'geometry' else ('f', 'g', 'fg'))
            if c == 'aero' and rng.random() < .15:
                s['tabular'] = True
        if c == 'detailed':
            s['con'] = rng.random() < .6
        return put(s)

    for _ in range(rng.choice((1, 2, 3))):
        r = rng.random()
        if r < 0.3:
            builders.append(put(dict(type='propulsion', engines=[engine() for _ in range(rng.choice((1, 1, 2, 3)))])))
        elif r < 0.42:
            builders.append(engine())
        elif r < 0.75:
            builders.append(sub())
        else:
            kind = rng.choice(('energy', 'energy', 'flight', 'accel', 'takeoff', 'simple', 'breguet', 'groundroll', 'solved'))
            info = put(dict(type='phase_info', kind=kind, name=rng.randrange(4), plain=rng.random() < .5,
                            cons=rng.sample(sorted(CONS), rng.choice((0, 1, 2)))))
            subs = [sub() if rng.random() < .6 else put(dict(type='propulsion', engines=[engine()])) for _ in range(rng.choice((0, 1, 2)))]
            for n in range(rng.choice((1, 2))):
                builders.append(put(dict(type='phase', kind=kind, name=f'ph{n}', info=info, subs=subs, registry=rng.random() < .2)))
            builders += [s for s in subs if rng.random() < .5]
    aopts = {}

    def options(b):
        s = pool[b[1]]
        if s['type'] == 'sub' and s['cls'] == 'aero':
            if b[1] not in aopts:
                if s['code'] == 'f':
                    kinds = rng.sample((None, 'computed', 'low_speed', 'flops_table', 'external'), 2)
                else:
                    kinds = rng.sample((None, 'cruise', 'low_speed', 'gasp_table', 'external', 'cruise'), 2)
                aopts[b[1]] = []
                for k in kinds:
                    o = dict(type='aero_opts', kind=k, order=rng.choice((0, 4)), solve=s['code'] == 'g' and rng.random() < .4, flops=s['code'] == 'f',
                             kw=rng.random() < .5, train=rng.random() < .2)
                    if k in ('cruise', None) and s['code'] == 'g':
                        o['out_alpha'] = rng.choice((None, True, False))
                    aopts[b[1]].append(put(o))
            return rng.choice(aopts[b[1]])
        return put(dict(type='opts', val=rng.choice(({}, {}, {'method': 'external'}, {'x': 1}))))

    ops = []
    for _ in range(rng.choice((4, 7, 10, 14))):
        b = rng.choice(builders)
        s = pool[b[1]]
        op = dict(builder=b, aircraft=rng.choice(craft))
        if s['type'] == 'phase':
            op['method'] = rng.choice(PHASE_OPS)
        else:
            op['method'] = rng.choice(QUERIES) if rng.random() < .3 else rng.choice(('get_parameters', 'get_parameters', 'mission_inputs', 'mission_outputs',
                                      'get_states', 'get_constraints', 'get_pre_mission_bus_variables', 'get_timeseries') + BUILDS)
            op['user'] = rng.choice(users)
            op['opts'] = options(b)
            if op['method'] in BUILDS:
                op['nn'] = rng.choice((1, 2, 5))
                op['setup'] = rng.random() < .35
            elif rng.random() < .4:
                op['edit'] = True
        if rng.random() < .1:
            op['strike'] = int(10 ** rng.uniform(0, 2.6))
        if rng.random() < .07:
            op['renew'] = True
        ops.append(op)
    case = dict(prop=ID, pool=pool, ops=ops)
    if rng.random() < .15:
        case['disk'] = dict(step=rng.randrange(1, 40), kind=rng.choice(('eio', 'eio', 'enospc')))
    return case


def run(sim, case):
    plan = [case['disk']] if case.get('disk') else []
    res = sim.process(perform, case, root=sim.new_host('shared'), plan=plan, label='shared')
    if not res.ok:
        raise kernel.HarnessError('history: ' + res.why() + (res.exc[2] if res.exc else ''))
    got = res.value
    seen = {}
    for op in case['ops']:
        seen[op['builder'][1]] = seen.get(op['builder'][1], 0) + 1
    sim.nontrivial = any(v > 1 for v in seen.values()) or any(r[0] == 'struck' for r in got['results']) or bool(res.fired)
    sim.counts['calls'] += len(case['ops'])
    for op, r in zip(case['ops'], got['results']):
        s = case['pool'][op['builder'][1]]
        sim.counts[f'{s["type"]} {s.get("cls") or s.get("kind") or ""}'.strip()] += 1
        sim.counts['op ' + op['method']] += 1
        sim.counts['answered' if r[0] == 'ok' else 'raised'] += 1
        if r[0] == 'struck':
            sim.fault('interrupt@' + op['method'])
        sim.state([s, op['method'], r[0]])
    if got['changed']:
        n, m, t, out, what = got['changed'][0]
        sim.violate('modified', f'call {n} ({m}, {out}) changed the {t} it was given or answers from: {what}', method=m, object=t)
        return
    for n, (op, r) in enumerate(zip(case['ops'], got['results'])):
        if r[0] == 'ok' and op['method'] == 'stored' and r[1][2]:
            sim.violate('stored', f'call {n}: the phase stored by {case["pool"][op["builder"][1]]} and given back is another one: ' + '; '.join(r[1][2][:4]),
                        method='stored')
            return
        if r[0] == 'ok' and op['method'] in COMBINED and isinstance(r[1], list) and r[1][:1] == ['combined']:
            sim.violate('combined', f'call {n}: {op["method"]} of {case["pool"][op["builder"][1]]} answers {r[1][2]}, the engines together {r[1][1]}',
                        method=op['method'])
            return
        if r[0] in ('TypeError', 'NameError', 'UnboundLocalError') and op['method'] in COMBINED + ('stored', 'to_phase_info'):
            sim.violate('broken', f'call {n}: {op["method"]} of {case["pool"][op["builder"][1]]} raised {r[0]}: {r[1]}', method=op['method'])
            return
    want = {}
    for n, (op, r) in enumerate(zip(case['ops'], got['results'])):
        if r[0] == 'struck' or (res.fired and r[0] in ('OSError', 'UserWarning', 'RuntimeError')):
            continue
        key = repr({k: v for k, v in sorted(op.items()) if k not in ('strike', 'edit', 'renew')})
        if key not in want:
            a = sim.process(alone, case, op, root=sim.new_host(f'alone{n}'), label=f'alone{n}')
            if not a.ok:
                raise kernel.HarnessError('alone: ' + a.why() + (a.exc[2] if a.exc else ''))
            want[key] = a.value
        d = diff(want[key], r)
        if d:
            sim.violate('answer', f'call {n} ({op["method"]} of {case["pool"][op["builder"][1]]}) differs from that of a fresh builder asked alone: '
                        + '; '.join(d[:4]), method=op['method'])
            return


def simplify(case):
    for k, op in enumerate(case['ops']):
        for key in ('strike', 'edit', 'renew', 'setup'):
            if op.get(key):
                c = copy.deepcopy(case)
                c['ops'][k].pop(key)
                yield c
    if case.get('disk'):
        c = copy.deepcopy(case)
        del c['disk']
        yield c
    for k, o in enumerate(case['pool']):
        for key in ('tails', 'engines', 'bwb', 'drop', 'polar', 'edits', 'prep', 'motor', 'gearbox', 'propeller', 'cons', 'plain', 'data', 'solve', 'out_alpha'):
            if o.get(key) and not (key == 'engines' and o['type'] == 'propulsion'):
                c = copy.deepcopy(case)
                c['pool'][k].pop(key)
                yield c
        if o['type'] == 'propulsion' and len(o['engines']) > 1:
            c = copy.deepcopy(case)
            c['pool'][k]['engines'].pop()
            yield c
        if o['type'] == 'phase' and o['subs']:
            c = copy.deepcopy(case)
            c['pool'][k]['subs'].pop()
            yield c
