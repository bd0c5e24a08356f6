"""A scripted optimizer standing in for the SciPy and pyOptSparse drivers."""

import time

import openmdao.api as om

SCRIPT = []  # outcomes of the next runs: dict(end='converged'|'limit'|'infeasible'|'error'|'interrupt', solves=n, move=f, takes=seconds)
DEFAULT = dict(end='converged', solves=1, move=0.0, takes=0.0)
RUNS = []  # (problem name, outcome) in the order the runs happened


class SimulatedOptimizerError(RuntimeError):
    pass


class SimDriver(om.ScipyOptimizeDriver):
    """Runs the real model a scripted number of times and ends as the script says."""

    def _declare_options(self):
        super()._declare_options()
        self.options.undeclare('optimizer')
        self.options.declare('optimizer', default='SLSQP')
        for name in ('print_results', 'print_opt_prob', 'title', 'hist_file', 'hotstart_file', 'output_dir'):
            if name not in self.options:
                self.options.declare(name, default=None, types=None)

    def run(self):
        self.result.reset()
        prob = self._problem()
        todo = dict(DEFAULT, **(SCRIPT.pop(0) if SCRIPT else {}))
        RUNS.append((prob._name, todo['end']))
        self.iter_count = 0
        self._check_for_missing_objective()
        for k in range(max(1, int(todo['solves']))):
            if k and todo['move']:
                for name, val in list(self.get_design_var_values(driver_scaling=False).items()):
                    self._set_design_var(name, val * (1.0 + float(todo['move']) / (k + 1)))
            with _rec(self):
                self._run_solve_nonlinear()
            self.iter_count += 1
        if todo['takes']:
            time.sleep(todo['takes'])  # on the simulated clock
        end = todo['end']
        if end == 'error':
            raise SimulatedOptimizerError('simulated optimizer error')
        if end == 'interrupt':
            raise KeyboardInterrupt('simulated interrupt in optimizer')
        self.fail = end != 'converged'
        self.result.exit_status = {'converged': 'Optimization terminated successfully', 'limit': 'Iteration limit reached',
                                   'infeasible': 'Positive directional derivative for linesearch'}[end]
        return self.fail


def _rec(driver):
    from openmdao.core.driver import RecordingDebugging

    return RecordingDebugging(driver._get_name(), driver.iter_count, driver)


def install():
    om.pyOptSparseDriver = SimDriver
    om.ScipyOptimizeDriver = SimDriver
