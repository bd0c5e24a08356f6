"""Clients of AviaryProblem: programs of API steps over a pool of caller-owned objects, and what they observe.

A *program* is a JSON object; `Program(spec, objects)` performs it one step at a time, so that a
scheduler can interleave several of them in one simulated process.
"""

import copy
import os

import numpy as np
import openmdao.api as om

import aviary.api as av
from aviary.core.aviary_problem import AviaryProblem
from aviary.subsystems.propulsion.engine_deck import EngineDeck
from aviary.subsystems.subsystem_builder import SubsystemBuilder
from aviary.utils.aviary_values import AviaryValues
from aviary.utils.named_values import NamedValues
from aviary.variable_info.enums import ProblemType
from aviary.variable_info.variables import Aircraft, Mission, Settings

from sim import fixtures, optimizer
from sim.canon import canon, digest

X_PARAM, X_MASS, X_STATE, X_RATE = 'aircraft:simext:param', 'aircraft:simext:mass', 'mission:simext:state', 'mission:simext:rate'
X_SIZE = 'aircraft:simext:size'


class SimulatedUserError(RuntimeError):
    """What failing user code raises."""


HOOK = [None]  # called with the name of every call made to user code


def user_call(what):
    if HOOK[0] is not None:
        HOOK[0](what)


class CallFault:
    """Numbers the calls made to user code and lets the one numbered `at` fail."""

    KINDS = ('user', 'key', 'value', 'attr', 'type', 'os', 'index', 'stop', 'memory', 'interrupt', 'analysis', 'notimpl', 'assert')

    def __init__(self, at=None, kind='user'):
        self.n, self.at, self.kind, self.fired, self.exc, self.names = 0, at, kind, None, None, []

    def __call__(self, what):
        n = self.n
        self.n += 1
        self.names.append(what)
        if n == self.at:
            self.fired = (what, n)
            self.exc = make_error(self.kind, what)
            raise self.exc

    def __enter__(self):
        HOOK[0] = self
        return self

    def __exit__(self, *a):
        HOOK[0] = None
        return False


def make_error(kind, what):
    if kind == 'interrupt':
        return KeyboardInterrupt('simulated interrupt in user code')
    return {'user': SimulatedUserError, 'key': KeyError, 'value': ValueError, 'attr': AttributeError,
            'type': TypeError, 'os': OSError, 'index': IndexError, 'stop': StopIteration, 'memory': MemoryError,
            'analysis': om.AnalysisError, 'notimpl': NotImplementedError, 'assert': AssertionError}[kind](f'simulated failure in {what}')


METHODS = ('needs_mission_solver', 'preprocess_inputs', 'build_pre_mission', 'build_mission', 'build_post_mission', 'get_states',
           'get_parameters', 'get_initial_guesses', 'get_constraints', 'get_timeseries', 'get_linked_variables', 'get_mass_names',
           'get_design_vars', 'get_pre_mission_bus_variables', 'get_controls', 'mission_inputs', 'mission_outputs')


def ext_meta(extra=0):
    m = copy.deepcopy(av.CoreMetaData)
    if extra < 0:
        return m
    for n, u, d in ((X_PARAM, 'm', 0.5), (X_MASS, 'kg', 1.0), (X_STATE, 'm', 0.5), (X_RATE, 'm/s', 0.5), (X_SIZE, 'm', 2.0)):
        av.add_meta_data(n, desc='simulated', default_value=d, option=False, units=u, meta_data=m)
    for k in range(extra):
        av.add_meta_data(f'aircraft:simext:extra_{k}', desc='simulated', default_value=0.1 * k, units='m', meta_data=m)
    return m


class PreComp(om.ExplicitComponent):
    def setup(self):
        user_call('pre_component.setup')
        self.add_input(X_SIZE, 2.0, units='m')
        self.add_output(X_MASS, units='kg')
        self.declare_partials('*', '*', method='fd')

    def compute(self, inputs, outputs):
        outputs[X_MASS] = 3.0 * inputs[X_SIZE]


class MissionComp(om.ExplicitComponent):
    def initialize(self):
        self.options.declare('num_nodes', types=int)

    def setup(self):
        user_call('mission_component.setup')
        nn = self.options['num_nodes']
        self.add_input(X_STATE, units='m', shape=nn)
        self.add_input(X_PARAM, units='m')
        self.add_output(X_RATE, units='m/s', shape=nn)
        self.declare_partials('*', '*', method='fd')

    def compute(self, inputs, outputs):
        outputs[X_RATE] = 1e-3 * inputs[X_STATE] + inputs[X_PARAM] * 0.5


class PostGroup(om.Group):
    def setup(self):
        user_call('post_group.setup')

    def configure(self):
        user_call('post_group.configure')


class SimBuilder(SubsystemBuilder):
    """A user's subsystem: answers from its own tables, may fail at the n-th call of a chosen method."""

    _default_name = 'sim_ext'

    def __init__(self, name='sim_ext', variant=('pre', 'mission', 'post', 'dv'), extra=0, fail=None, shared=True):
        super().__init__(name, meta_data=ext_meta(extra))
        self.variant = list(variant)
        self.fail = dict(fail) if fail else None
        self.calls = []
        self.shared = shared
        m = 'mission' in variant
        self.tables = dict(
            states={X_STATE: {'rate_source': X_RATE, 'units': 'm'}} if m else {},
            parameters={X_PARAM: {'val': 2.0, 'units': 'm', 'static_target': True}} if m else {},
            guesses={X_STATE: {'val': [1.0, 2.0, 3.0], 'type': 'state', 'units': 'm'}} if m else {},
            constraints={X_RATE: {'type': 'path', 'upper': 1e9, 'units': 'm/s'}} if m and 'con' in variant else {},
            timeseries=[X_RATE] if m and 'con' in variant else [],
            linked=[X_STATE] if m else [],
            masses=[X_MASS] if 'pre' in variant else [],
            dvs={X_SIZE: {'units': 'm', 'lower': 0.5, 'upper': 5.0, 'ref': 1.0}} if 'pre' in variant and 'dv' in variant else {},
        )

    def _call(self, what):
        self.calls.append(what)
        f = self.fail
        if f and f['what'] == what and self.calls.count(what) == f['nth'] + 1 and not f.get('fixed'):
            raise make_error(f.get('kind', 'user'), what)
        user_call(what)

    def _table(self, k):
        return self.tables[k] if self.shared else copy.deepcopy(self.tables[k])

    def needs_mission_solver(self, aviary_inputs, user_options, subsystem_options):
        self._call('needs_mission_solver')
        return False

    def preprocess_inputs(self, aviary_inputs):
        self._call('preprocess_inputs')
        return aviary_inputs

    def build_pre_mission(self, aviary_inputs, subsystem_options=None):
        self._call('build_pre_mission')
        return PreComp() if 'pre' in self.variant else None

    def build_mission(self, num_nodes, aviary_inputs, user_options, subsystem_options):
        self._call('build_mission')
        return MissionComp(num_nodes=num_nodes) if 'mission' in self.variant else None

    def build_post_mission(self, aviary_inputs=None, mission_info=None, subsystem_options=None, phase_mission_bus_lengths=None):
        self._call('build_post_mission')
        if 'post' not in self.variant or 'pre' not in self.variant:
            return None
        g = PostGroup()
        g.add_subsystem('comp', om.ExecComp('y_simpost = x**2'), promotes_inputs=[('x', X_MASS)], promotes_outputs=['*'])
        return g

    def get_states(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._call('get_states')
        return self._table('states')

    def get_parameters(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._call('get_parameters')
        return self._table('parameters')

    def get_initial_guesses(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._call('get_initial_guesses')
        return self._table('guesses')

    def get_constraints(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._call('get_constraints')
        return self._table('constraints')

    def get_timeseries(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._call('get_timeseries')
        return self._table('timeseries')

    def get_linked_variables(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._call('get_linked_variables')
        return self._table('linked')

    def get_mass_names(self, aviary_inputs=None):
        self._call('get_mass_names')
        return self._table('masses')

    def get_design_vars(self, aviary_inputs=None):
        self._call('get_design_vars')
        return self._table('dvs')

    def get_pre_mission_bus_variables(self, aviary_inputs=None, mission_info=None):
        self._call('get_pre_mission_bus_variables')
        return {}

    def get_post_mission_bus_variables(self, aviary_inputs=None, mission_info=None):
        self._call('get_post_mission_bus_variables')
        return {}

    def get_controls(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._call('get_controls')
        return {}

    def mission_inputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._call('mission_inputs')
        return ['*']

    def mission_outputs(self, aviary_inputs=None, user_options=None, subsystem_options=None):
        self._call('mission_outputs')
        return ['*']


class SimEngine(EngineDeck):
    """A user's engine: an engine deck whose interface methods are the user's own."""


def _own(name):
    def method(self, *a, **k):
        user_call('engine.' + name)
        return getattr(super(SimEngine, self), name)(*a, **k)

    method.__name__ = name
    return method


ENGINE_METHODS = ('build_pre_mission', 'build_mission', 'build_post_mission', 'get_parameters', 'needs_mission_solver', 'mission_inputs',
                  'mission_outputs', 'get_design_vars', 'get_states', 'get_controls', 'get_timeseries', 'get_mass_names', 'get_constraints',
                  'get_linked_variables', 'get_initial_guesses', 'get_pre_mission_bus_variables', 'get_post_mission_bus_variables', 'update')
for _n in ENGINE_METHODS:
    setattr(SimEngine, _n, _own(_n))


# ---- modifiers --------------------------------------------------------------------------------------
def modifier_shift(phase_info, post_mission_info, aviary_inputs):
    """A user's modifier that works in place, as Aviary's own examples do."""
    user_call('modifier')
    for p in phase_info.values():
        u = p.get('user_options', {})
        if 'time_duration_bounds' in u and u['time_duration_bounds'][0][1] is not None:
            (lo, hi), units = u['time_duration_bounds']
            u['time_duration_bounds'] = ((lo, hi * 1.5), units)
        p.setdefault('initial_guesses', {})
    if 'target_range' in post_mission_info:
        r, units = post_mission_info['target_range']
        post_mission_info['target_range'] = (r * 1.25, units)
    return phase_info, post_mission_info


def modifier_drop(phase_info, post_mission_info, aviary_inputs):
    """A user's modifier that removes the last phase."""
    user_call('modifier')
    for name in list(phase_info)[1:][-1:]:
        del phase_info[name]
    return phase_info, post_mission_info


def modifier_raise(phase_info, post_mission_info, aviary_inputs):
    for p in phase_info.values():
        p['user_options']['num_segments'] = 2
        break
    raise SimulatedUserError('simulated failure in phase_info_modifier')


def get_modifier(name):
    if name in (None, ''):
        return None
    if name == 'default':
        from aviary.models.missions.energy_state_default import phase_info_parameterization

        return phase_info_parameterization
    return {'shift': modifier_shift, 'drop': modifier_drop, 'raise': modifier_raise}[name]


# ---- caller-owned objects ---------------------------------------------------------------------------
EDITS = {
    'range': (Aircraft.Design.RANGE, 2200.0, 'NM'),
    'cruise_alt': (Aircraft.Design.CRUISE_ALTITUDE, 31000.0, 'ft'),
    'sweep': (Aircraft.Wing.SWEEP, 21.0, 'deg'),
    'area': (Aircraft.Wing.AREA, 1350.0, 'ft**2'),
    'pax': (Aircraft.CrewPayload.NUM_ECONOMY_CLASS, 120, 'unitless'),
    'first': (Aircraft.CrewPayload.NUM_FIRST_CLASS, 4, 'unitless'),
    'reserve': (Mission.RESERVE_FUEL_MASS_ADDITIONAL, 3500.0, 'lbm'),
    'minfuel': (Settings.PROBLEM_TYPE, ProblemType.OFF_DESIGN_MIN_FUEL, 'unitless'),
    'maxrange': (Settings.PROBLEM_TYPE, ProblemType.OFF_DESIGN_MAX_RANGE, 'unitless'),
    'thrust': (Aircraft.Engine.SCALED_SLS_THRUST, 25000.0, 'lbf'),
    'verb2': (Settings.VERBOSITY, av.Verbosity.VERBOSE, 'unitless'),
}


def apply_edits(values, edits):
    for e in edits:
        n, v, u = EDITS[e]
        values.set_val(n, v, u)
    return values


def make_phases(spec):
    pi = fixtures.mission(spec.get('kind', 'cruise'), spec.get('nseg', 1))
    for t in spec.get('twists', ()):
        names = [n for n in pi if n not in ('pre_mission', 'post_mission')]
        last = pi[names[-1]]
        first = pi[names[0]]
        if t == 'fixed_time':
            last['user_options']['time_duration'] = (60.0, 'min')
            last['user_options'].pop('time_duration_bounds', None)
        elif t == 'fixed_time_guess':
            last['user_options']['time_duration'] = (90.0, 'min')
            last['initial_guesses'] = {'time': ([0.0, 100.0], 'min')}
        elif t == 'guesses':
            first['initial_guesses'] = {'mass': ([150.0e3, 140.0e3], 'lbm'), 'distance': (np.array([0.0, 300.0]), 'nmi'),
                                        'mach': ([0.7, 0.7], 'unitless')}
        elif t == 'bad_time':
            last['user_options']['time_duration'] = (-3.0, 'min')
        elif t == 'no_post':
            del pi['post_mission']
        elif t == 'no_pre':
            del pi['pre_mission']
        elif t == 'no_range':
            pi.get('post_mission', {}).pop('target_range', None)
        elif t == 'constraint':
            first['user_options']['constraints'] = {
                'altitude': {'type': 'path', 'upper': 45000.0, 'units': 'ft'},
                'mass_end': {'type': 'boundary', 'loc': 'final', 'lower': 1000.0, 'units': 'kg', 'target': 'mass'}}
        elif t == 'external':
            for n in names:
                pi[n].setdefault('subsystem_options', {})['sim_ext'] = {'opt': [1, 2], 'name': n}
        elif t == 'reserve' and len(names) > 1:
            last['user_options']['reserve'] = True
        elif t == 'solver':
            pi['pre_mission']['nonlinear_solver'] = om.NonlinearBlockGS(maxiter=2)
    return pi


def make_inputs(spec):
    from aviary.utils.process_input_decks import create_vehicle

    vals, guesses = create_vehicle(fixtures.AIRCRAFT[spec.get('aircraft', 'asa')], verbosity=0)
    for k, v in guesses.items():
        if spec.get('guesses') and v:
            vals.set_val(f'initialization_guesses:{k}', v)
    apply_edits(vals, spec.get('edits', ()))
    return vals


def make_object(spec):
    t = spec['type']
    if t == 'phases':
        return make_phases(spec)
    if t == 'inputs':
        return make_inputs(spec)
    if t == 'meta':
        m = ext_meta(spec.get('extra', 0))
        if spec.get('sweep', 11.0) is not None:  # conflicts with the metadata of every other subsystem
            m[Aircraft.Wing.SWEEP] = dict(m[Aircraft.Wing.SWEEP], default_value=float(spec.get('sweep', 11.0)))
        return m
    if t == 'builder':
        return SimBuilder(spec.get('name', 'sim_ext'), spec.get('variant', ('pre', 'mission', 'post', 'dv', 'con')),
                          extra=spec.get('extra', 0), fail=spec.get('fail'), shared=spec.get('shared', True))
    if t == 'engine':
        vals = make_inputs(dict(aircraft=spec.get('aircraft', 'asa')))
        opts = AviaryValues()
        for n, (v, u) in vals:
            if n.startswith('aircraft:engine:') or n.startswith('settings:'):
                opts.set_val(n, v, u)
        cls = SimEngine if spec.get('sim') else EngineDeck
        if spec.get('deck'):
            opts.set_val(Aircraft.Engine.DATA_FILE, spec['deck'])
        return cls(spec.get('name', 'deck'), options=opts)
    if t == 'turboprop':
        from aviary.subsystems.propulsion.turboprop_model import TurbopropModel

        return TurbopropModel('turboprop', options=make_inputs(dict(aircraft='ltf')))
    if t in ('exts', 'exts2'):
        return [make_object(s) for s in spec['items']]
    raise ValueError(t)


def deep(x, depth=0, seen=None):
    """canon() that also looks into the user's own builders and other plain objects."""
    if isinstance(x, SimBuilder):
        return ['builder', x.name, x.variant, canon(x.tables), canon(x.meta_data)]
    if isinstance(x, list):
        return ['list', [deep(i) for i in x]]
    if isinstance(x, dict):
        return ['dict', [[canon(k), deep(v)] for k, v in x.items()]]
    if isinstance(x, EngineDeck):
        return ['enginedeck', x.name, canon(x.options), canon({str(k): v for k, v in x.data.items()})]
    return canon(x)


def snapshot_object(x):
    return deep(x)


# ---- programs ---------------------------------------------------------------------------------------
DEPTHS = ('load', 'ext', 'check', 'build', 'configured', 'setup', 'run', 'save')


class Program:
    def __init__(self, spec, objects):
        self.spec = spec
        self.objects = objects
        self.prob = None
        self.outcomes = []  # [step, 'ok' | exception type, message]
        self.pc = 0
        self.steps = self._steps()
        self.dead = False

    def _steps(self):
        s = self.spec
        if s.get('level1'):
            return ['level1']
        if s.get('from_json'):
            return ['from_json']
        if s.get('multi'):
            st = ['new'] + [f'group{k}' for k in range(len(s['multi']))]
            d = s['depth']
            if s.get('ext') is not None:
                st += ['ext']
            if DEPTHS.index(d) >= DEPTHS.index('build'):
                st += ['build']
            if DEPTHS.index(d) >= DEPTHS.index('configured'):
                st += ['multi_conf']
            if DEPTHS.index(d) >= DEPTHS.index('setup'):
                st += ['setup', 'final']
            return st
        st = ['new'] + (['meta_edit'] if s.get('meta_edit') else []) + ['load']
        if s.get('edits'):
            st.append('edit')
        if s.get('ext') is not None:
            st.append('ext')
            if s.get('ext2') is not None:
                st.append('ext2')
        st.append('check')
        if s.get('check_twice'):
            st.append('check')
        st += ['pre', 'phases', 'post', 'link'] if s.get('parts') else ['build']
        st += ['driver', 'dvs', 'objective', 'setup', 'final']
        if s.get('set_vals'):
            st.append('set')
        st.append('run')
        if s.get('rerun'):
            st.append('run')
        st.append('save')
        if s.get('reload') and s['depth'] == 'save':
            return st + ['reload']
        last = {'load': 'load', 'ext': 'ext', 'check': 'check', 'build': 'link' if s.get('parts') else 'build',
                'configured': 'objective', 'setup': 'final', 'run': 'run', 'save': 'save'}[s['depth']]
        if last not in st:
            last = 'load'
        return st[: len(st) - st[::-1].index(last)]

    @property
    def done(self):
        return self.dead or self.pc >= len(self.steps)

    def obj(self, ref):
        return self.objects[ref[1]] if isinstance(ref, (list, tuple)) else ref

    def step(self):
        name = self.steps[self.pc]
        self.pc += 1
        try:
            self._do(name)
            self.outcomes.append([name, 'ok', ''])
        except (Exception, KeyboardInterrupt) as e:
            self.exc = e
            self.outcomes.append([name, type(e).__name__, str(e).replace(os.getcwd(), '<cwd>')[:300]])
            if not self.spec.get('push_on'):
                self.dead = True
        return name

    def _load_args(self, s):
        src = s['inputs']
        aircraft = fixtures.AIRCRAFT[src[1]] if src[0] == 'file' else src[1] if src[0] == 'path' else self.objects[src[1]]
        ph = s.get('phases')
        phases = None if ph is None else self.objects[ph[1]] if ph[0] == 'pool' else ph[1]
        return aircraft, phases

    def _do(self, name):
        s, v = self.spec, self.spec.get('step_verbosity')
        if name == 'level1':
            aircraft, phases = self._load_args(s)
            optimizer.SCRIPT[:] = [dict(s.get('script') or {})]
            self.prob = av.run_aviary(aircraft, phases, optimizer='SLSQP', objective_type=s.get('objective'),
                                      subsystems=self.objects[s['ext'][1]] if s.get('ext') else [], max_iter=2,
                                      run_driver=s.get('run_driver', False), make_plots=False,
                                      phase_info_modifier=get_modifier(s.get('modifier')), verbosity=0)
            return
        if name == 'new':
            kw = dict(name=s['name'])
            if 'verbosity' in s:
                kw['verbosity'] = s['verbosity']
            if s.get('ptype'):
                kw['problem_type'] = ProblemType(s['ptype'])
            if s.get('multi'):
                kw['problem_type'] = ProblemType.MULTI_MISSION
            if s.get('meta_new'):
                kw['meta_data'] = self.objects[s['meta_new'][1]]
            self.prob = AviaryProblem(**kw)
            return
        p = self.prob
        if name == 'meta_edit':  # a user extends and changes the metadata of this problem
            for n, val in s['meta_edit'].items():
                if n in p.meta_data:
                    p.meta_data[n]['default_value'] = val
                else:
                    av.add_meta_data(n, desc='simulated', default_value=val, units='unitless', meta_data=p.meta_data)
            return
        if name == 'from_json':
            self.prob = av.reload_aviary_problem(s['from_json'], self._load_args(s)[1], verbosity=0)
            return
        if name == 'reload':
            ph = self._load_args(s)[1]
            self.prob = av.reload_aviary_problem(f'{s["name"]}.json', ph, verbosity=0)
            return
        if name == 'load':
            aircraft, phases = self._load_args(s)
            p.load_inputs(aircraft, phases, phase_info_modifier=get_modifier(s.get('modifier')),
                          meta_data=self.objects[s['meta_load'][1]] if s.get('meta_load') else None, verbosity=v)
        elif name.startswith('group'):
            g = s['multi'][int(name[5:])]
            aircraft, phases = self._load_args(g)
            p.add_aviary_group(g['name'], aircraft=aircraft, phase_info=phases,
                               phase_info_modifier=get_modifier(g.get('modifier')), verbosity=0)
        elif name == 'edit':
            apply_edits(p.aviary_inputs, s['edits'])
        elif name == 'ext':
            p.load_external_subsystems(self.objects[s['ext'][1]], verbosity=v)
        elif name == 'ext2':
            p.load_external_subsystems(self.objects[s['ext2'][1]], verbosity=v)
        elif name == 'check':
            p.check_and_preprocess_inputs(verbosity=v)
        elif name == 'build':
            p.build_model(verbosity=v)
        elif name == 'pre':
            p.add_pre_mission_systems(verbosity=v)
        elif name == 'phases':
            p.add_phases(verbosity=v)
        elif name == 'post':
            p.add_post_mission_systems(verbosity=v)
        elif name == 'link':
            p.link_phases(verbosity=v)
        elif name == 'driver':
            p.add_driver('SLSQP', max_iter=2, verbosity=0)
        elif name == 'dvs':
            p.add_design_variables(verbosity=v)
        elif name == 'objective':
            p.add_objective(s.get('objective'), verbosity=v)
        elif name == 'multi_conf':
            names = [g['name'] for g in s['multi']]
            p.promote_inputs(names, [(Aircraft.Design.GROSS_MASS, 'Aircraft1:GROSS_MASS'), (Aircraft.Design.RANGE, 'Aircraft1:RANGE')])
            p.add_design_var_default('Aircraft1:GROSS_MASS', lower=10.0, upper=900e3, units='lbm', default_val=100000)
            p.add_composite_objective(*[(n, Mission.FUEL_MASS, k + 1) for k, n in enumerate(names)], ref=1)
            p.add_driver('SLSQP', max_iter=2, verbosity=0)
            p.add_design_variables()
        elif name == 'setup':
            p.setup()
        elif name == 'final':
            p.final_setup()
        elif name == 'set':
            p.set_val(Aircraft.Wing.SWEEP, 24.0, units='deg')
        elif name == 'run':
            optimizer.SCRIPT[:] = [dict(s.get('script') or {})]
            p.run_aviary_problem(run_driver=bool(s.get('script')), make_plots=False, suppress_solver_print=True, verbosity=0)
        elif name == 'save':
            p.save_results(f'{s["name"]}.json')
            with open(f'{s["name"]}.json') as f:
                self.saved = f.read()
        else:
            raise ValueError(name)


class _Snap:
    def __init__(self):
        self.memo = {}

    def values(self, v):
        if id(v) not in self.memo:
            self.memo[id(v)] = (digest(canon(v)), v)
        return self.memo[id(v)][0]

    def opts(self, o):
        """Options of a system; aircraft-value containers and builders are summarised."""
        out = []
        for k in sorted(o._dict):
            out.append([k, self.opt(o._dict[k].get('val'))])
        return out

    def opt(self, v):
        if isinstance(v, NamedValues):
            return ['values', self.values(v)]
        if isinstance(v, dict) and len(v) > 200:
            if id(v) not in self.memo:
                self.memo[id(v)] = (digest(canon(v)), v)
            return ['meta', self.memo[id(v)][0]]
        if isinstance(v, dict):
            return ['dict', [[canon(k), self.opt(x)] for k, x in v.items()]]
        if isinstance(v, (list, tuple)):
            return [type(v).__name__, [self.opt(i) for i in v]]
        if isinstance(v, SubsystemBuilder):
            return ['builder', type(v).__name__, v.name]
        return canon(v)

    def tree(self, g, path=''):
        out = [[path, type(g).__name__, self.opts(g.options)]]
        subs = getattr(g, '_subsystems_allprocs', None) or getattr(g, '_static_subsystems_allprocs', {}) or {}
        st = getattr(g, '_static_subsystems_allprocs', {}) or {}
        both = dict(st)
        both.update(subs)
        for n, info in both.items():
            out.extend(self.tree(info.system, f'{path}.{n}' if path else n))
        return out

    def phase(self, ph):
        d = {}
        for a in ('time_options', 'state_options', 'control_options', 'parameter_options', 'refine_options', '_initial_boundary_constraints',
                  '_final_boundary_constraints', '_path_constraints', '_objectives'):
            x = getattr(ph, a, None)
            d[a] = self.opt(x)
        ts = getattr(ph, '_timeseries', {})
        d['timeseries'] = [[n, canon(list(t.get('outputs', {})))] for n, t in ts.items()]
        return d


def _group_snapshot(sn, g):
    d = {}
    d['inputs'] = fixtures.inputs_of(g.aviary_inputs) if getattr(g, 'aviary_inputs', None) is not None else None
    d['mission_info'] = sn.opt(getattr(g, 'mission_info', None))
    d['pre_info'] = sn.opt(getattr(g, 'pre_mission_info', None))
    d['post_info'] = sn.opt(getattr(g, 'post_mission_info', None))
    d['guesses'] = canon(getattr(g, 'initialization_guesses', None))
    d['methods'] = canon([getattr(g, a, None) for a in ('mission_method', 'mass_method', 'aero_method', 'verbosity', 'require_range_residual',
                                                       'target_range', 'main_phases', 'reserve_phases')])
    d['meta'] = sn.opt(getattr(g, 'meta_data', None))
    d['subsystems'] = [[type(x).__name__, x.name] for x in getattr(g, 'subsystems', [])]
    d['ext'] = [[type(x).__name__, x.name] for x in getattr(g, 'external_subsystems', [])]
    d['engines'] = [[type(x).__name__, x.name, canon(x.options), canon({str(k): v for k, v in getattr(x, 'data', {}).items()})]
                    for x in getattr(g, 'engine_models', [])]
    d['dvs'] = [[k, canon(v)] for k, v in g._static_design_vars.items()]
    d['responses'] = [[k, canon(v)] for k, v in g._static_responses.items()]
    d['defaults'] = canon(dict(getattr(g, '_static_group_inputs', {})))
    d['connections'] = sn.opt({k: list(v) for k, v in getattr(g, '_static_manual_connections', {}).items()})
    if hasattr(g, 'traj'):
        d['phases'] = [[n, sn.phase(p)] for n, p in g.traj._phases.items()]
        d['linkages'] = sn.opt(getattr(g.traj, '_linkages', None))
        d['traj_params'] = sn.opt(getattr(g.traj, 'parameter_options', None))
    return d


def snapshot(program):
    """What the owner of a program can observe of its problem."""
    d = {'outcomes': program.outcomes}
    p = program.prob
    if p is None:
        return d
    sn = _Snap()
    d['verbosity'] = canon(p.verbosity)
    d['problem_type'] = canon(p.problem_type)
    d['payload_range'] = bool(p.generate_payload_range)
    d['meta'] = sn.opt(p.meta_data)
    d['meta_names'] = len(p.meta_data)
    d['inputs'] = fixtures.inputs_of(p.aviary_inputs) if getattr(p, 'aviary_inputs', None) is not None else None
    if p.aviary_groups_dict:
        d['groups'] = [[n, _group_snapshot(sn, g)] for n, g in p.aviary_groups_dict.items()]
        d['dvs'] = [[k, canon(v)] for k, v in p.model._static_design_vars.items()]
    elif hasattr(p.model, 'mission_info') or getattr(p.model, 'aviary_inputs', None) is not None:
        d['model'] = _group_snapshot(sn, p.model)
    d['tree'] = sn.tree(p.model)
    d['driver'] = [type(p.driver).__name__, [[k, canon(v)] for k, v in sorted((k, p.driver.options._dict[k].get('val')) for k in p.driver.options._dict)
                                            if k not in ('output_dir', 'hist_file')], canon(getattr(p.driver, 'opt_settings', None))]
    d['saved'] = getattr(program, 'saved', None)
    ran = any(s in ('final', 'run', 'level1') and o == 'ok' for s, o, _ in program.outcomes)
    if ran:
        m = p.model
        for io in ('input', 'output'):
            d['vars_' + io] = [[n, x['units'], list(x['shape'])] for n, x in m._var_allprocs_abs2meta[io].items()]
        d['values_in'] = value_digests(m._inputs)
        d['values_out'] = value_digests(m._outputs)
        d['prom'] = digest(sorted((n, m._resolver.abs2prom(n)) for io in ('input', 'output') for n in m._var_allprocs_abs2meta[io]))
        d['conns'] = digest(sorted(m._conn_global_abs_in2out.items()))
        d['driver_dvs'] = [[k, canon({a: b for a, b in v.items()})] for k, v in p.driver._designvars.items()]
        d['driver_resp'] = [[k, canon({a: b for a, b in v.items()})] for k, v in p.driver._responses.items()]
    r = getattr(p, 'result', None)
    if r is not None:
        d['result'] = [bool(r.success), str(r.exit_status), r.iter_count if hasattr(r, 'iter_count') else None]
    return d


def value_digests(vec):
    return {n: digest(np.asarray(v).tobytes()) for n, v in vec._abs_item_iter()} if hasattr(vec, '_abs_item_iter') else digest(vec.asarray().tobytes())


def interleave(programs, schedule):
    """Perform the programs, choosing the next one from `schedule` (a list of integers); returns the order."""
    order, k = [], 0
    while True:
        live = [i for i, p in enumerate(programs) if not p.done]
        if not live:
            return order
        pick = live[schedule[k % len(schedule)] % len(live)] if schedule else live[0]
        k += 1
        order.append((pick, programs[pick].step()))


# ---- generation ------------------------------------------------------------------------------------
def gen_phases(rng, rich=True):
    tw = []
    if rich:
        for t, pr in (('fixed_time', .2), ('fixed_time_guess', .15), ('guesses', .25), ('no_post', .04), ('no_pre', .04), ('no_range', .1),
                      ('constraint', .2), ('external', .2), ('reserve', .08), ('bad_time', .03)):
            if rng.random() < pr:
                tw.append(t)
    return dict(type='phases', kind=rng.choice(('cruise', 'cruise', 'climb_cruise', 'cruise_descent', 'full')), nseg=rng.choice((1, 1, 2)),
                twists=tw)


FLOPS_AC = ('asa', 'asa', 'lsa1', 'lsa2', 'bwb', 'min')
GASP_AC = ('lsa1g', 'ssg')


def gen_inputs(rng, aircraft=None):
    return dict(type='inputs', aircraft=aircraft or rng.choice(FLOPS_AC + ('lsa1g',)),
                edits=sorted(rng.sample([e for e in sorted(EDITS) if e not in ('minfuel', 'maxrange', 'verb2')], rng.choice((0, 1, 2)))),
                guesses=rng.random() < 0.5)


def gen_program(rng, i, pool, depths, allow_multi=True, gasp=0.2, fail=0.15):
    """One program; shared objects are drawn from `pool` (a list of specs, extended here)."""
    def pooled(t, make, share=0.6):
        have = [k for k, o in enumerate(pool) if o['type'] == t and not o.get('private')]
        if have and rng.random() < share:
            return ['pool', rng.choice(have)]
        pool.append(make())
        return ['pool', len(pool) - 1]

    s = dict(name=f'p{i}', depth=rng.choice(depths))
    if allow_multi and rng.random() < 0.12:
        gs = []
        for k in range(2):
            gs.append(dict(name=f'mission{k}', inputs=pooled('inputs', lambda: gen_inputs(rng, rng.choice(FLOPS_AC))),
                           phases=pooled('phases', lambda: gen_phases(rng)), modifier=rng.choice((None, None, None, 'shift'))))
        s['multi'] = gs
        s['verbosity'] = 0
        return s
    is_gasp = rng.random() < gasp
    if rng.random() < 0.5:
        s['inputs'] = ['file', rng.choice(GASP_AC if is_gasp else FLOPS_AC)]
    else:
        s['inputs'] = pooled('inputs', lambda: gen_inputs(rng, rng.choice(GASP_AC if is_gasp else FLOPS_AC)))
        is_gasp = pool[s['inputs'][1]]['aircraft'] in GASP_AC
    if not is_gasp and rng.random() < 0.7:
        s['phases'] = pooled('phases', lambda: gen_phases(rng))
    if rng.random() < 0.25 and not is_gasp:
        s['modifier'] = rng.choice(('shift', 'shift', 'drop', 'default') + (('raise',) if rng.random() < fail * 2 else ()))
        if s['modifier'] == 'default' and s.get('phases'):
            s['modifier'] = 'shift'
    if rng.random() < 0.35:
        s['edits'] = sorted(rng.sample(sorted(EDITS), rng.choice((1, 1, 2))))
        if is_gasp:
            s['edits'] = [e for e in s['edits'] if e not in ('pax', 'first')] or ['area']
        if 'verb2' in s['edits'] and s['depth'] in ('run', 'save'):
            s['edits'] = ['area']
    has_meta = rng.random() < 0.25
    if rng.random() < (0.6 if has_meta else 0.3):
        def exts():
            items = [dict(type='builder', variant=rng.choice((['pre', 'post', 'dv'], ['pre', 'mission', 'post', 'dv', 'con'], ['mission'], ['pre'])),
                          extra=rng.choice((0, 0, 3)))]
            if rng.random() < 0.2:
                items.append(dict(type='engine', aircraft='asa'))
            return dict(type='exts', items=items)
        s['ext'] = pooled('exts', exts)
        if rng.random() < 0.25:  # a second list, handed over after the first
            s['ext2'] = pooled('exts2', lambda: dict(type='exts2', items=[dict(type='builder', name='sim_ext2', variant=[], extra=rng.choice((0, 4)))]))
    if has_meta:
        s[rng.choice(('meta_new', 'meta_load'))] = pooled('meta', lambda: dict(type='meta', extra=rng.choice((-1, -1, 0, 2)), sweep=rng.choice((None, None, None, 11.0, 17.0))),
                                                          share=0.8)
    elif rng.random() < 0.2:
        s['meta_edit'] = rng.choice(({'aircraft:simext:own': 1.0}, {'aircraft:simext:own': 2.0, Aircraft.Wing.SWEEP: 14.0},
                                     {Aircraft.Wing.ASPECT_RATIO: 10.1}, {Mission.RESERVE_FUEL_MASS_ADDITIONAL: 4000.0}))
    if rng.random() < 0.75:
        s['verbosity'] = rng.choice((0, 0, 0, 1, 2)) if s['depth'] not in ('run', 'save') else 0
    elif s['depth'] in ('run', 'save'):
        s['verbosity'] = 0
    if rng.random() < 0.25:
        s['step_verbosity'] = rng.choice((0, 1, 2, 3)) if s['depth'] not in ('run', 'save') else 0
    if rng.random() < 0.3:
        s['parts'] = True
    if rng.random() < 0.05:
        s['check_twice'] = True
    if rng.random() < 0.4:
        s['objective'] = rng.choice(('mass', 'time', 'fuel_burned', 'fuel', 'hybrid_objective') + (('bogus',) if rng.random() < fail else ()))
    if s['depth'] in ('run', 'save'):
        if rng.random() < 0.4:
            s['script'] = dict(end=rng.choice(('converged', 'limit', 'infeasible', 'error', 'interrupt')), solves=rng.choice((1, 2)), move=0.01)
        if rng.random() < 0.2:
            s['rerun'] = True
        if rng.random() < 0.2:
            s['set_vals'] = True
        if rng.random() < 0.4 and s['depth'] == 'save':
            s['reload'] = True
    if rng.random() < 0.05 and s['depth'] in ('run', 'save'):
        s['level1'] = True
        s.pop('edits', None)
    return s
