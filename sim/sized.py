"""Sized problems that simulated processes inherit, and the off-design calls clients make on them."""

import os
import pathlib

import numpy as np

import aviary.api as av
from aviary.core.aviary_problem import AviaryProblem
from aviary.variable_info.enums import ProblemType
from aviary.variable_info.variables import Aircraft, Mission, Settings

from sim import fixtures, optimizer, problems
from sim.canon import canon

VARIANTS = {
    'cruise': dict(inputs=dict(aircraft='asa'), phases=dict(kind='cruise')),
    'two': dict(inputs=dict(aircraft='lsa1', edits=['range']), phases=dict(kind='climb_cruise', twists=['guesses', 'constraint'])),
    'full': dict(inputs=dict(aircraft='asa', edits=['pax']), phases=dict(kind='full', twists=['external'])),
    'bwb': dict(inputs=dict(aircraft='bwb'), phases=dict(kind='cruise', twists=['guesses'])),
    'modified': dict(inputs=dict(aircraft='asa', edits=['reserve']), phases=dict(kind='cruise', nseg=2), modifier='shift'),
    'unbounded': dict(inputs=dict(aircraft='asa'), phases=dict(kind='cruise', twists=['fixed_time'])),
    'descend': dict(inputs=dict(aircraft='lsa2'), phases=dict(kind='cruise_descent', nseg=1)),
    'gasp': dict(inputs=dict(aircraft='ssg', energy=True), phases=dict(kind='cruise')),
}
READY = {}


def make(name, run=True, problem_name='sized', **kw):
    v = VARIANTS[name]
    p = AviaryProblem(verbosity=0, name=problem_name, **kw)
    inputs = problems.make_inputs(v['inputs'])
    if v['inputs'].get('energy'):
        inputs.set_val(Settings.EQUATIONS_OF_MOTION, av.EquationsOfMotion.ENERGY_STATE)
    phases = problems.make_phases(v['phases'])
    if v['inputs'].get('energy'):
        for ph in phases.values():
            if 'subsystem_options' in ph:
                ph['subsystem_options']['aerodynamics']['method'] = 'cruise'
    p.load_inputs(inputs, phases, phase_info_modifier=problems.get_modifier(v.get('modifier')))
    fixtures.build(p)
    if run:
        optimizer.SCRIPT[:] = [dict(end='converged', solves=2, move=0.02)]
        p.run_aviary_problem(make_plots=False, verbosity=0)
    return p


def prepare(names, **kw):
    def go():
        for n in names:
            if n not in READY:
                READY[n] = make(n, **kw)
    fixtures.in_scratch(go)


def bare_runs():
    """Stands in for dymos.run_problem: the same run without its recorder and plots."""
    import aviary.core.aviary_problem as ap

    def run_problem(problem, run_driver=True, simulate=False, restart=None, **k):
        if simulate or restart:
            raise NotImplementedError
        for traj in problem.model.system_iter(include_self=True, recurse=True, typ=ap.dm.Trajectory):
            traj._check_phase_graph()
        try:
            return problem.run_driver() if run_driver else problem.run_model()
        finally:
            problem._metadata['sim_runs'] = problem._metadata.get('sim_runs', 0) + 1

    ap.dm.run_problem = run_problem


def adopt(prob):
    """The inherited problem belongs to this process: its outputs go to this working directory."""
    wd = pathlib.Path(os.environ.get('OPENMDAO_WORKDIR') or os.getcwd())
    prob._metadata['work_dir'] = wd
    for r in list(prob._rec_mgr._recorders) + list(prob.driver._rec_mgr._recorders):
        if os.path.isabs(str(r._filepath)):
            r._filepath = os.path.basename(str(r._filepath))
    return prob


def observe(prob):
    """Everything a client can see of a problem that has run."""
    class P:
        outcomes = [['run', 'ok', '']]

    P.prob = prob
    d = problems.snapshot(P)
    d['attrs'] = sorted(k for k in vars(prob) if not k.startswith('_') and k not in ('max_fuel_pyld_range_prob', 'ferry_range_prob', 'payload_range_data'))
    return d
