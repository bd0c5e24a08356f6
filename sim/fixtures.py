"""Workload building blocks: small real Aviary problems and their snapshots."""

import copy
import os
import warnings

import openmdao.api as om
import aviary.api as av

from sim.canon import canon

AIRCRAFT = {
    'asa': 'models/aircraft/advanced_single_aisle/advanced_single_aisle_FLOPS.csv',
    'lsa1': 'models/aircraft/large_single_aisle_1/large_single_aisle_1_FLOPS.csv',
    'lsa2': 'models/aircraft/large_single_aisle_2/large_single_aisle_2_FLOPS.csv',
    'bwb': 'models/aircraft/blended_wing_body/bwb_simple_FLOPS.csv',
    'min': 'models/aircraft/minimum_single_aisle/minimum_single_aisle_FLOPS.csv',
    'lsa1g': 'models/aircraft/large_single_aisle_1/large_single_aisle_1_GASP.csv',
    'ltf': 'models/aircraft/large_turboprop_freighter/large_turboprop_freighter_GASP.csv',
    'ssg': 'models/aircraft/small_single_aisle/small_single_aisle_GASP.csv',
}


def quiet():
    """Warnings of third-party code are not observed by the oracles that do not ask for them."""
    warnings.simplefilter('ignore')


def stub_n2():
    """The N2 diagram is browser output; its cost is avoided."""
    om.n2 = lambda *a, **k: None


def mission(kind='cruise', num_segments=1, **over):
    """A fresh phase_info: 'cruise', 'climb_cruise' or 'full' energy-state missions."""
    from aviary.models.missions.energy_state_default import phase_info

    pi = copy.deepcopy(phase_info)
    keep = {'cruise': ('cruise',), 'climb_cruise': ('climb', 'cruise'), 'cruise_descent': ('cruise', 'descent'),
            'full': ('climb', 'cruise', 'descent')}[kind]
    out = {}
    for k, v in pi.items():
        if k in ('pre_mission', 'post_mission') or k in keep:
            out[k] = v
            if 'user_options' in v:
                v['user_options']['num_segments'] = num_segments
    return out


def build(prob, driver='SLSQP', max_iter=2, verbosity=0):
    prob.check_and_preprocess_inputs(verbosity=verbosity)
    prob.build_model(verbosity=verbosity)
    prob.add_driver(driver, max_iter=max_iter, verbosity=verbosity)
    prob.add_design_variables(verbosity=verbosity)
    prob.add_objective(verbosity=verbosity)
    prob.setup()
    return prob


def small_problem(aircraft='asa', pi=None, name='sized', run=False):
    quiet()
    stub_n2()
    prob = av.AviaryProblem(verbosity=0, name=name)
    prob.load_inputs(AIRCRAFT[aircraft], pi if pi is not None else mission())
    build(prob)
    if run:
        prob.run_aviary_problem(run_driver=False, make_plots=False, suppress_solver_print=True)
    return prob


def in_scratch(fn, *a, **k):
    """Run fn with a throw-away working directory (OpenMDAO creates output directories)."""
    import tempfile
    import shutil
    from sim import kernel

    os.makedirs(kernel.SCRATCH, exist_ok=True)
    d = tempfile.mkdtemp(dir=kernel.SCRATCH)
    old = os.getcwd()
    os.chdir(d)
    try:
        return fn(*a, **k)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def inputs_of(av_values):
    return [[k, canon(v), u] for k, (v, u) in av_values]
