"""P21 - the dashboard shows what the run it is opened on left behind, whatever is missing or damaged."""

import csv
import io
import json
import os
import re
import shutil

import numpy as np

from sim import fixtures, optimizer, sized

ID = 'P21'
TIERS = dict(quick=dict(cases=400, budget=45, floor=16), thorough=dict(cases=20000, budget=2700, floor=300))
RULE = ('seeded histories on one host: real runs (one phase, three phases with an external subsystem, GASP aircraft, the same name run again) '
        'leave their output directory, files of it go missing, are cut, emptied, overwritten with garbage or come from another run, and the '
        'dashboard is opened, each time in a new process, with at most one I/O fault, interrupt or kill; non-trivial = damage, a rerun or a fault')
REAL = ['dashboard, its panes, tables and plots', 'the aircraft variables file it writes', 'runs that wrote the reports and recorder files', 'OpenMDAO case reader', 'panel and bokeh models']
STUB = ['web server (captures the page)', 'optimizer of the runs (scripted)', 'disk calls (SimFS)', 'process boundaries (fork)']
ASSUMPTIONS = ['a file that exists but cannot be read is shown as a message in its tab; the other tabs are not affected',
               'documented: a missing output or reports directory is a FileNotFoundError',
               'the content of the 3D aircraft model is not checked (the model reader asks for options this version does not record)',
               'an error while listing the directory of subsystem reports may hide them or surface',
               'sqlite reads happen in C and get damaged files instead of injected errors']
SHRINK = ('ops',)

RUNS = {'cruise': ('cruise', 0), 'cruise2': ('cruise', 1), 'full': ('p17', 0), 'gasp': ('gasp', 0)}
STORE = {}
TRUTH = {}
EXTRA = {
    'reports/IPOPT.out': 'Ipopt says déjà vu: EXIT: Optimal {run}\n',
    'reports/SNOPT_print.out': 'SNOPT print for {run}\n',
    'reports/SNOPT_summary.out': 'SNOPT summary for {run} \u2264 1e-6\n',
    'reports/n2.html': '<html>n2 {run}</html>',
    'reports/inputs.html': '<html>inputs {run}</html>',
    'reports/opt_report.html': '<html>opt {run}</html>',
    'reports/traj_linkage_report.html': '<html>links {run}</html>',
    'reports/traj_results_report.html': '<html>traj {run}</html>',
    'reports/driver_scaling_report.html': '<html>scaling {run}</html>',
    'reports/total_coloring.html': '<html>coloring {run}</html>',
    'reports/subsystems/user_subsystem.md': '# User subsystem of {run}\n| Name | Value |\n|:-|:-|\n| Temperature (°F) | 59 |\n',
}
RANGES = {'cruise': [('Zero Fuel', 35000.0, 0.0), ('Max Payload', 35000.5, 2100.25), ('Ferry', 0.0, 3900.0)], 'cruise2': [('Only', 1.0, 2.0)],
          'full': [('Economic', 30000.0, 2500.0), ('Ferry', 0.0, 4100.0)]}
# tab -> (file, how it is shown)
MODEL = [('Input Checks', 'reports/input_checks.md', 'markdown'), ('Debug Input List', 'reports/input_list.txt', 'text'),
         ('Debug Output List', 'reports/output_list.txt', 'text'), ('Inputs', 'reports/inputs.html', 'html'),
         ('Overridden Variables', 'reports/overridden_variables.md', 'markdown'), ('N2', 'reports/n2.html', 'html'),
         ('Trajectory Linkage', 'reports/traj_linkage_report.html', 'html'), ('Driver Scaling', 'reports/driver_scaling_report.html', 'html'),
         ('Model Options List', 'reports/options.txt', 'text')]
OPT = [('Optimization History', 'optimization_history.db', 'history'), ('IPOPT Output', 'reports/IPOPT.out', 'text'), ('Summary', 'reports/opt_report.html', 'html'),
       ('SNOPT Output', 'reports/SNOPT_print.out', 'text'), ('SNOPT Summary', 'reports/SNOPT_summary.out', 'text'),
       ('Total Coloring', 'reports/total_coloring.html', 'html')]
RESULTS = [('Aircraft 3d model', 'problem_history.db', 'any'), ('Aviary Variables', 'problem_history.db', 'variables'),
           ('Mission Summary', 'reports/mission_summary.md', 'markdown'), ('Run status pane', 'reports/status.json', 'status'),
           ('Timeseries Mission Output', 'reports/mission_timeseries_data.csv', 'table'),
           ('Payload/Range Diagram', 'reports/payload_range_data.csv', 'range'),
           ('Trajectory Results', 'reports/traj_results_report.html', 'html'), ('Interactive Mission Variable Plot', 'problem_history.db', 'plot')]
OPTIONAL = ('Optimization History', 'IPOPT Output', 'SNOPT Output', 'SNOPT Summary', 'Aircraft 3d model', 'Aviary Variables')  # absent when their file is
MADE = ('reports/aviary_airlines.png', 'reports/aircraft_3d.html', 'reports/aviary_vars/index.html', 'reports/aviary_vars/script.js', 'reports/aviary_vars/aviary_vars.json')
UNFINISHED = {}
DAMAGE = ('unfinished', 'delete', 'delete', 'cut', 'empty', 'garbage', 'binary', 'other', 'dir')


# -- what real runs leave ------------------------------------------------------------------------------------
def _read_tree(top):
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, top)] = fh.read()
    return out


def setup(tier):
    import warnings

    import aviary.interface.reports  # noqa: F401
    import aviary.visualization.dashboard  # noqa: F401
    from aviary.variable_info.variables import Aircraft

    fixtures.quiet()
    fixtures.stub_n2()
    optimizer.install()
    os.environ.pop('TESTFLO_RUNNING', None)
    reports = 'subsystems,mission,timeseries_csv,run_status,sizing_results,input_checks,overridden_variables,list_options'

    def go():
        for name, (kind, twist) in RUNS.items():
            if kind == 'p17':  # three phases and a subsystem whose output has other units in each and none in the first
                from sim.props import p17

                os.environ['OPENMDAO_REPORTS'] = reports
                p = p17.build('full')
                os.environ['OPENMDAO_REPORTS'] = '0'
            else:
                p = sized.make(kind, run=False, problem_name='run_' + name, reports=reports)
            top = f'{p._name}_out'
            if twist:
                p.set_val(Aircraft.Engine.SCALE_FACTOR, 1.07)
            optimizer.SCRIPT[:] = [dict(end='limit' if twist else 'converged', solves=3, move=0.02)]
            p.run_aviary_problem(make_plots=False, verbosity=2)
            files = {k: v for k, v in _read_tree(top).items() if not k.startswith('coloring_files')}
            for rel, text in EXTRA.items():
                if (len(rel) + len(name)) % 4 or name == 'full':
                    files[rel] = text.format(run=name).encode('utf-8')
            if name in RANGES:
                rows = ''.join(f'{n}, {a}, {b}\n' for n, a, b in RANGES[name])
                files['reports/payload_range_data.csv'] = f'Mission Name, Payload (lbm), Range (NM)\n{rows}'.encode()
            STORE[name] = files
            TRUTH[name] = truth(os.path.abspath(top))
        # what a run that was killed before its first case leaves
        import openmdao.api as om
        p = om.Problem(name='unfinished', reports=False)
        p.model.add_subsystem('c', om.ExecComp('y = x'))
        p.add_recorder(om.SqliteRecorder('problem_history.db'))
        p.driver.add_recorder(om.SqliteRecorder('optimization_history.db'))
        p.setup()
        p.final_setup()
        p.run_model()
        p.cleanup()
        UNFINISHED.update({k: v for k, v in _read_tree('unfinished_out').items() if k.endswith('.db')})
        if set(UNFINISHED) != {'problem_history.db', 'optimization_history.db'}:
            raise RuntimeError(f'no recorder files: {sorted(UNFINISHED)}')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fixtures.in_scratch(go)


def _flat(v):
    return [float(x) for x in np.ravel(v)]


def truth(top):
    """What the recorder files of a run say, read without the dashboard."""
    import openmdao.api as om

    cr = om.CaseReader(os.path.join(top, 'problem_history.db'))
    case = cr.get_case('final')
    outs = case.list_outputs(explicit=True, implicit=True, val=True, units=True, out_stream=None, return_format='dict')
    variables = {k: dict(prom_name=m['prom_name'], units=m['units'], val=np.array(m['val']).tolist() if not isinstance(m['val'], (int, float)) else m['val'])
                 for k, m in outs.items()}
    series = {}
    for k, m in outs.items():
        g = re.match(r'traj\.phases\.([A-Za-z0-9_]+)\.timeseries\.(.+)', k)
        if g:
            series.setdefault(g.group(2), {})[g.group(1)] = (k, m['units'], np.array(m['val']))
    co = om.CaseReader(os.path.join(top, 'optimization_history.db'))
    history, units = [], {}
    for n in co.list_cases('driver', out_stream=None):
        c = co.get_case(n)
        row = {}
        for d in (c.get_design_vars(scaled=False), c.get_constraints(scaled=False), c.get_objectives(scaled=False)):
            row.update({k: np.array(v, dtype=float) for k, v in d.items()})
        history.append(row)
        for k in row:
            units[k] = co.problem_metadata['variables'][k]['units']
    return dict(variables=variables, series=series, history=history, units=units)


# -- histories -----------------------------------------------------------------------------------------------
def gen(rng, i, tier):
    names = sorted(RUNS)
    ops = [dict(op='run', run=names[i % 4])]
    files = [f for _, f, _ in MODEL + OPT + RESULTS] + ['problem_history.db', 'optimization_history.db'] + ['reports/payload_range_data.csv', 'reports/subsystems/mass.md', 'reports/status.json']
    for _ in range(rng.choice((1, 2, 2, 3))):
        for _ in range(rng.choice((0, 1, 1, 2, 4))):
            ops.append(dict(op='damage', file=rng.choice(files), how=rng.choice(DAMAGE), frac=round(rng.random(), 3), of=rng.choice(names)))
        if rng.random() < 0.15:
            ops.append(dict(op=rng.choice(('norun', 'noreports'))))
        o = dict(op='open', given=rng.choice(('run', 'run_out', 'run')), x=rng.random(), y=rng.random())
        if rng.random() < 0.5:
            o['want'] = rng.sample(('sim_level', 'altitude', 'distance', 'time'), 2)
        if rng.random() < 0.4:
            o['fault'] = dict(at=round(rng.random(), 4), arg=round(rng.random(), 3), once=True,
                              kind=rng.choice(('eio', 'eacces', 'emfile', 'enospc', 'interrupt', 'crash', 'crash_mid', 'short')))
        ops.append(o)
        if rng.random() < 0.5:
            ops.append(dict(op='run', run=rng.choice(names), keep=rng.random() < 0.5))
    if ops[-1]['op'] != 'open':
        ops.append(dict(op='open', given='run', x=rng.random(), y=rng.random()))
    return dict(prop=ID, ops=ops, listing=rng.choice((None, 1, 2)), buf=rng.choice((512, 8192)))


# -- the dashboard in its process ----------------------------------------------------------------------------
def _num(v):
    if isinstance(v, dict) and '__ndarray__' in v:
        v = v['__ndarray__']
    return np.asarray(v)


def _page(o, out, path=()):
    """What a page object shows: rows of (tab path, kind, content)."""
    import panel as pn

    if isinstance(o, pn.Tabs):
        out.append((path, 'tabs', list(o._names), int(o.active or 0)))
        for j, c in enumerate(o.objects):
            _page(c, out, path + ((o._names[j], j),))
        return
    if isinstance(o, pn.widgets.Tabulator):
        df = o.value
        out.append((path, 'table', [str(c) for c in df.columns], [[x.item() if hasattr(x, 'item') else x for x in r] for r in df.itertuples(index=False, name=None)]))
    elif isinstance(o, pn.widgets.Select):
        out.append((path, 'select', o.name, list(o.options)))
    elif isinstance(o, pn.pane.Bokeh):
        out.append((path, 'bokeh', _figures(o.object)))
    elif hasattr(o, 'objects'):
        for c in o.objects:
            _page(c, out, path)
    else:
        v = getattr(o, 'object', None)
        if isinstance(v, str):
            out.append((path, type(o).__name__.lower(), v))


def _col(v):
    try:
        return np.asarray(v, dtype=float).ravel().tolist()
    except (TypeError, ValueError):
        return [str(x) for x in v]


def _figures(m):
    """The data behind a bokeh figure, per line or scatter, with the axis labels and the legend."""
    from bokeh.models import CustomJS, Legend
    from bokeh.plotting import figure

    if not isinstance(m, figure):
        return None
    curves = []
    for r in m.renderers:
        g = r.glyph
        d = r.data_source.data
        curves.append([type(g).__name__, str(g.x), str(g.y), _col(d[g.x]), _col(d[g.y]), _col(d['point_name']) if 'point_name' in d else None])
    legend = []
    for lay in list(m.right) + list(m.below) + list(m.center):
        if isinstance(lay, Legend):
            legend += [[it.label.value if hasattr(it.label, 'value') else str(it.label), [m.renderers.index(x) for x in it.renderers]] for it in lay.items]
    for cb in m.select(dict(type=CustomJS)) if hasattr(m, 'select') else []:
        pass
    return dict(curves=curves, legend=legend, x=str(m.xaxis[0].axis_label), y=str(m.yaxis[0].axis_label))


def _legend_items(col):
    """Legend entries handed to the browser code of the history plot."""
    from bokeh.models import LegendItem

    out = []
    for it in sorted(col.select(dict(type=LegendItem)), key=lambda x: int(re.sub(r'\D', '', x.id))):
        out.append(it.label.value if hasattr(it.label, 'value') else str(it.label))
    return out


def client(ctx, op):
    import panel as pn

    import aviary.visualization.dashboard as db

    got = {}

    class Server:
        def stop(self):
            pass

    def serve(panels, **kw):
        got['page'], got['kw'] = panels, kw
        return Server()

    pn.serve, old = serve, pn.serve
    try:
        try:
            db.dashboard(op['given'], port=5006, run_in_background=True)
        except KeyboardInterrupt:
            return dict(end='interrupt')
        except Exception as e:
            return dict(end='raised', type=type(e).__name__, text=str(e)[:400])
    finally:
        pn.serve = old
    n = len(ctx.fs.steps)
    fired = list(ctx.fs.fired)
    ctx.fs.active = False
    if 'page' not in got:
        return dict(end='nothing')
    rows = []
    t = got['page']
    for m in t.main:
        _page(m, rows)
    plots = []
    for m in t.main:
        for tabs in m.select(pn.Tabs):
            for name, pane in zip(tabs._names, tabs.objects):
                if name == 'Interactive Mission Variable Plot':
                    sel = {s.name: s for s in pane.select(pn.widgets.Select)} if hasattr(pane, 'select') else {}
                    fns = pane.select(pn.param.ParamFunction) if hasattr(pane, 'select') else []
                    if len(sel) == 2 and fns:
                        opts = list(sel['X-Axis'].options)
                        for xy in ((sel['X-Axis'].value, sel['Y-Axis'].value), (opts[int(op['x'] * len(opts))], opts[int(op['y'] * len(opts))]), *([op['want']] if op.get('want') and set(op['want']) <= set(opts) else [])):
                            sel['X-Axis'].value, sel['Y-Axis'].value = xy
                            plots.append([list(xy), _figures(fns[0].object(*xy))])
                elif name == 'Optimization History' and hasattr(pane, 'select'):
                    figs = [_figures(b.object) for b in pane.select(pn.pane.Bokeh)]
                    figs = [f for f in figs if f]
                    if figs:
                        rows.append((('history',), 'history', figs[0]))
    return dict(end='served', rows=rows, plots=plots, title=str(t.title), dirs={k: str(v) for k, v in got['kw'].get('static_dirs', {}).items()}, steps=n, fired=fired)


# -- checks --------------------------------------------------------------------------------------------------
def _close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    if a.shape != b.shape:
        return False
    nan = np.isnan(a) & np.isnan(b)
    return bool(np.all(nan | (a == b) | (np.abs(a - b) <= tol * np.maximum(np.abs(a), np.abs(b)) + 1e-300)))


def _text(data):
    try:
        return data.decode('utf-8')
    except UnicodeDecodeError:
        return data.decode('latin-1')


def check(sim, host, op, got, before, state, damaged, faulted, label):
    """The page against the files that were there. `damaged`: files whose content no longer is that of a run; `faulted`: files an injected fault touched."""
    rows = got['rows']
    tabs = {}
    for r in rows:
        p = r[0]
        if r[1] == 'tabs':
            for j, n in enumerate(r[2]):
                tabs.setdefault(tuple(x[0] for x in p) + (n,), []).append((p, j))
    content = {}
    for r in rows:
        if r[1] not in ('tabs', 'history'):
            content.setdefault(tuple(x[0] for x in r[0]), []).append(r[1:])

    def bad(kind, text):
        sim.violate(kind, f'{label}: {text}')

    out = 'run_out'
    subs = sorted(f for f in before if re.fullmatch(r'reports/subsystems/[^/]+\.md', f))
    want = [('Results',) + t for t in RESULTS] + [('Model',) + t for t in MODEL] + [('Optimization',) + t for t in OPT]
    want += [('Subsystems', os.path.basename(f)[:-3], f, 'markdown') for f in subs]
    isdir = state['dirs']
    for group, tab, f, how in want:
        key = (group, tab)
        have = f in before
        n = len(tabs.get(key, ()))
        if tab in OPTIONAL and not have and (f not in isdir or f.endswith('.out') or tab in ('Aircraft 3d model', 'Aviary Variables')):
            if n:
                bad('tab-without-file', f'{key} is shown though {f} does not exist')
            continue
        if tab in OPTIONAL and f in isdir:
            if n > 1:
                bad('tabs', f'{key} is shown {n} times')
            continue
        if n == 0 and group == 'Subsystems' and 'reports/subsystems' in faulted:
            continue  # could not be listed
        if n != 1:
            bad('tabs', f'{key} is shown {n} times')
            continue
        rest = [c for c in content.get(key, ()) if not (c[0] == 'html' and 'pane_doc' in c[1])]
        said = ' '.join(c[1] for c in rest if c[0] in ('markdown', 'str', 'html'))
        message = bool(re.search(r'# (Report|Chart|Table) not shown|Unable to create|not found', said)) and not any(c[0] in ('table', 'bokeh') for c in rest)
        sim.counts['tabs_checked'] += 1
        if how == 'any':
            if not rest:
                bad('empty-tab', f'{key} shows nothing')
            continue
        if not have:
            if not message:
                bad('missing-not-told', f'{key} does not say that {f} is missing: {said[:80]!r}')
            elif how in ('markdown', 'text', 'html', 'table', 'range') and f not in isdir and os.path.basename(f) not in said:
                bad('missing-not-told', f'{key} does not name {f}: {said[:120]!r}')
            continue
        if f in faulted or (how == 'variables' and any(x.startswith('reports/aviary_vars') for x in faulted)):
            if message:
                continue  # said so
        data = before[f]
        if how in ('markdown', 'text'):
            kind = 'markdown' if how == 'markdown' else 'str'
            if not any(c[0] == kind and c[1] == _text(data) for c in rest):
                bad('report-text', f'{key} does not show the text of {f}: {said[:120]!r}')
        elif how == 'html':
            m = re.search(r'src="/home/([^"]*)"', said)
            if not m or os.path.normpath(m.group(1)) != f'{out}/{f}':
                bad('report-link', f'{key} points at {m and m.group(1)!r} instead of {out}/{f}')
        elif how == 'status':
            try:
                d = json.loads(data)
                d.items()
            except Exception:
                if not message:
                    bad('damage-not-told', f'{key} does not say that {f} cannot be read: {said[:80]!r}')
                continue
            t = [c for c in rest if c[0] == 'table']
            if not t or [list(map(str, r)) for r in t[0][2]] != [[str(k), str(v)] for k, v in d.items()]:
                bad('status', f'{key} shows {t and t[0][2]} for {d}')
        elif how == 'table':
            if f in damaged:
                if not message and not any(c[0] == 'table' for c in rest):
                    bad('damage-not-told', f'{key} shows neither a table nor a message')
                continue
            t = [c for c in rest if c[0] == 'table']
            want_rows = list(csv.reader(io.StringIO(data.decode())))
            if not t or t[0][1] != want_rows[0] or not _close([[float(x) if x is not None else np.nan for x in r] for r in t[0][2]],
                                                               [[float(x) if x else np.nan for x in r] for r in want_rows[1:]], 1e-14):
                bad('table', f'{key} does not show the rows of {f}')
        elif how == 'range':
            if f in damaged:
                if not message and not any(c[0] == 'bokeh' for c in rest):
                    bad('damage-not-told', f'{key} shows neither a chart nor a message')
                continue
            figs = [c[1] for c in rest if c[0] == 'bokeh' and c[1]]
            pts = RANGES[state['of'][f]]
            if not figs or not figs[0]['curves'] or any(not _close(c[3], [p[2] for p in pts]) or not _close(c[4], [p[1] for p in pts]) or
                                                        (c[5] is not None and c[5] != [p[0] for p in pts]) for c in figs[0]['curves']):
                bad('range-chart', f'{key} shows {figs and figs[0]["curves"]} for {pts}')
        elif f in damaged:
            if how == 'history':
                if not message and not any(r[1] == 'history' for r in rows):
                    bad('damage-not-told', f'{key} shows neither a plot nor a message')
            elif how == 'plot':
                if not message and not got['plots']:
                    bad('damage-not-told', f'{key} shows neither a plot nor a message')
            elif not message and not state['readable'].get(f):
                bad('damage-not-told', f'{key} does not say that {f} cannot be read: {said[:80]!r}')
                now = state['now'].get('reports/aviary_vars/aviary_vars.json')
                if now is not None and now == before.get('reports/aviary_vars/aviary_vars.json'):
                    bad('stale-variables', f'{key} shows the variables of an earlier run, {f} cannot be read')
        elif how == 'variables':
            check_variables(sim, key, state, bad)
        elif how == 'plot':
            check_plots(key, got['plots'], TRUTH[state['of'][f]], bad)
        elif how == 'history':
            fig = [r[2] for r in rows if r[1] == 'history']
            check_history(key, fig, TRUTH[state['of'][f]], bad)
    have_tabs = {k for k in tabs if len(k) == 2}
    extra = have_tabs - {w[:2] for w in want} - {('Optimization', 'PyOpt Solution')}
    extra -= {('Subsystems', os.path.basename(f)[:-3]) for f in isdir if f.startswith('reports/subsystems/')}
    if extra:
        bad('tabs', f'unexpected tabs {sorted(extra)[:4]}')
    # the state of the run in the title
    s = before.get('reports/status.json')
    if 'reports/status.json' not in faulted:
        try:
            st = json.loads(s)['Exit status']
            want_s = '✅ Success' if st == 'SUCCESS' else f'❌ {st}'
        except Exception:
            want_s = 'Unknown'
        if not got['title'].endswith(want_s):
            bad('title', f'title {got["title"]!r} for {want_s!r}')
    # only the dashboard's own files are written
    for f in set(before) | set(state['now']):
        if f not in MADE and before.get(f) != state['now'].get(f):
            bad('files', f'opening the dashboard changed {f}')
    if os.path.normpath(got['dirs'].get('reports', '')) != f'{out}/reports' or os.path.normpath(got['dirs'].get('home', '')) != '.':
        bad('served-directories', f'{got["dirs"]}')


def _same_value(shown, want):
    if isinstance(shown, str):
        shown = json.loads(shown) if shown and shown[0] in '[{' else shown
    if shown == want:
        return True

    def f(x):
        if isinstance(x, str):
            return {'nan': np.nan, 'infinity': np.inf, 'inf': np.inf, '-infinity': -np.inf, '-inf': -np.inf}.get(x.strip().lower(), x)
        return x

    def flat(x):
        return [y for e in x for y in flat(e)] if isinstance(x, (list, tuple)) else [f(x)]

    try:
        return _close([float(x) for x in flat(shown)], [float(x) for x in flat(want)], 1e-9)
    except (TypeError, ValueError):
        return False


def check_variables(sim, key, state, bad):
    want = TRUTH[state['of']['problem_history.db']]['variables']
    data = state['now'].get('reports/aviary_vars/aviary_vars.json')
    try:
        table = json.loads(data)
    except Exception as e:
        return bad('variables', f'{key} reads no table: {e}')
    seen = {}
    for row in table:
        for r in row.get('_children', [row]):
            if r['abs_name'] in seen:
                return bad('variables', f'{r["abs_name"]} is listed twice')
            seen[r['abs_name']] = r
    if set(seen) != set(want):
        return bad('variables', f'names missing {sorted(set(want) - set(seen))[:3]}, not of the run {sorted(set(seen) - set(want))[:3]}')
    for k, w in want.items():
        r = seen[k]
        if r['prom_name'] != w['prom_name'] or r['units'] != w['units'] or not _same_value(r['value'], w['val']):
            return bad('variables', f'{k}: {str([r["prom_name"], r["units"], r["value"]])[:200]} instead of {str([w["prom_name"], w["units"], w["val"]])[:200]}')
    for f in ('reports/aviary_vars/index.html', 'reports/aviary_vars/script.js'):
        if f not in state['now']:
            bad('variables', f'{f} is missing')


def check_plots(key, plots, t, bad):
    from openmdao.utils.units import convert_units

    if len(plots) < 2:
        return bad('plot', f'{key}: no plot')
    for (x, y), fig in plots:
        m = re.fullmatch(r'(.*) \((.*)\)', fig['x']), re.fullmatch(r'(.*) \((.*)\)', fig['y'])
        if not all(m) or m[0].group(1) != x or m[1].group(1) != y:
            return bad('plot', f'{key}: labels {fig["x"]!r}, {fig["y"]!r} for {x}, {y}')
        if x not in t['series'] or y not in t['series']:
            return bad('plot', f'{key}: {x} or {y} is not in the time series of this run')
        phases = sorted({p for s in t['series'].values() for p in s}, key=str.casefold)
        if [g[0] for g in fig['legend']] != phases:
            return bad('plot', f'{key}: phases {fig["legend"]} instead of {phases}')

        def values(name, unit, ph):
            if ph not in t['series'][name]:
                return np.zeros(0)
            _, u, v = t['series'][name][ph]
            unit = None if unit in ('None', 'unitless') else unit
            u = None if u in (None, 'unitless') else u
            return v if u == unit else convert_units(v, u, unit)

        for ph, idx in fig['legend']:
            a, b = values(x, m[0].group(2), ph), values(y, m[1].group(2), ph)
            if len(a) == 0 or len(a) != len(b):
                a = b = np.zeros(0)
            for j in idx:
                c = fig['curves'][j]
                if not _close(c[3], a) or not _close(c[4], b):
                    return bad('plot', f'{key}: {y} over {x} in {ph} shows {c[3][:3]}, {c[4][:3]} instead of {np.ravel(a)[:3]}, {np.ravel(b)[:3]}')


def check_history(key, figs, t, bad):
    if not figs:
        return bad('history', f'{key} shows no plot')
    names = set()
    for kind, x, y, xs, ys, _ in figs[0]['curves']:
        names.add(y)
        w = [h.get(y) for h in t['history']]
        if any(v is None for v in w):
            return bad('history', f'{key}: {y} is not recorded')
        if xs != list(range(len(w))):
            return bad('history', f'{key}: iterations {xs[:5]}.. for {len(w)} recorded')
        for a, v in zip(ys, w):
            if not _close([a], v if v.size == 1 else [np.linalg.norm(v)], 1e-8):
                return bad('history', f'{key}: {y} shows {a} for {v}')
    if names != set(t['units']):
        return bad('history', f'{key}: variables missing {sorted(set(t["units"]) - names)[:3]}, extra {sorted(names - set(t["units"]))[:3]}')


# -- running -------------------------------------------------------------------------------------------------
def _put(top, files):
    for rel, data in files.items():
        p = os.path.join(top, rel)
        if os.path.isdir(p):
            shutil.rmtree(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as fh:
            fh.write(data)


def _readable(path):
    import openmdao.api as om

    try:
        return 'final' in om.CaseReader(path).list_cases(out_stream=None)
    except Exception:
        return False


def run(sim, case):
    top = os.path.join(sim.root, 'run_out')
    damaged, of = {}, {}
    opened = 0
    for n, op in enumerate(case['ops']):
        if op['op'] == 'run':
            if os.path.isdir(top):
                keep = {}
                if op.get('keep'):
                    keep = {k: v for k, v in _read_tree(top).items() if k in MADE}
                shutil.rmtree(top)
                _put(top, keep)
                sim.nontrivial = True
            _put(top, STORE[op['run']])
            damaged, of = {}, {f: op['run'] for f in STORE[op['run']]}
            sim.state(('run', op['run'], bool(op.get('keep'))))
        elif op['op'] in ('norun', 'noreports'):
            shutil.rmtree(top if op['op'] == 'norun' else os.path.join(top, 'reports'), ignore_errors=True)
            sim.nontrivial = True
        elif op['op'] == 'damage':
            f = op['file']
            p = os.path.join(top, f)
            if not os.path.lexists(p) and op['how'] not in ('other', 'unfinished'):
                continue
            if not os.path.isdir(os.path.dirname(p)):
                continue
            old = b''
            if os.path.isdir(p):
                shutil.rmtree(p)
            elif os.path.exists(p):
                with open(p, 'rb') as fh:
                    old = fh.read()
                os.remove(p)
            of.pop(f, None)
            how = 'empty' if op['how'] == 'unfinished' and f not in UNFINISHED else op['how']
            damaged[f] = how
            if how == 'unfinished':
                _put(top, {f: UNFINISHED.get(f, b'')})
            elif how == 'dir':
                os.makedirs(p)
            elif how == 'other':
                if f in STORE[op['of']]:
                    of[f] = op['of']
                    damaged.pop(f)
                    _put(top, {f: STORE[op['of']][f]})
            elif how != 'delete':
                data = dict(cut=old[: int(len(old) * op['frac'])], empty=b'', garbage=b'# not what it was\n\n | 1,2;3 {' + str(op['frac']).encode(),
                            binary=bytes((int(op['frac'] * 997) * k) % 256 for k in range(200)))[how]
                _put(top, {f: data})
            sim.fault(f'file-{how}')
            sim.nontrivial = True
            sim.state(('damage', f, how))
        else:
            opened += 1
            before = _read_tree(top) if os.path.isdir(top) else {}
            dirs = {os.path.relpath(os.path.join(d, x), top) for d, ds, _ in os.walk(top) for x in ds} if os.path.isdir(top) else set()
            kw = dict(listing=case.get('listing'), bufsize=case.get('buf', 8192))
            plan = []
            if op.get('fault'):
                from sim.fs import KINDS_FOR

                copy = sim.new_host()
                if os.path.isdir(top):
                    shutil.copytree(top, os.path.join(copy, 'run_out'))
                d = sim.process(client, op, root=copy, label='dry', quiet=True, **kw)
                can = [j for j, s in enumerate(d.steps) if op['fault']['kind'] in KINDS_FOR[s[0]]]
                if can:
                    plan = [dict(op['fault'], step=can[int(op['fault']['at'] * len(can)) % len(can)])]
            r = sim.process(client, op, plan=plan, label=f'open-{n}', **kw)
            now = _read_tree(top) if os.path.isdir(top) else {}
            label = f'opening {opened}'
            if r.fired:
                sim.nontrivial = True
            if r.status == 'crash':
                sim.state(('crash', [x[1:] for x in r.fired]))
                for f in set(before) | set(now):
                    if f not in MADE and before.get(f) != now.get(f):
                        sim.violate('files', f'{label}: killed at {r.fired[0][1:]}, {f} changed')
                continue
            if not r.ok:
                raise RuntimeError(f'client failed: {r.why()}')
            got = r.value
            sim.counts[f'end_{got["end"]}'] += 1
            sim.state((got['end'], sorted(damaged.items()), sorted({of.get('problem_history.db'), of.get('optimization_history.db')} - {None}), [x[1:] for x in r.fired]))
            fk = {os.path.relpath(x[2], 'run_out') for x in r.fired}
            if got['end'] == 'interrupt':
                continue
            gone = not os.path.isdir(os.path.join(top, 'reports'))
            if gone:
                if got['end'] != 'raised' or got['type'] != 'FileNotFoundError':
                    sim.violate('missing-run', f'{label}: no output of a run, but the dashboard {got["end"]} {got.get("type", "")}')
                continue
            if got['end'] == 'raised' and got['type'] in ('OSError', 'PermissionError') and 'reports/subsystems' in fk:
                continue
            if got['end'] != 'served':
                sim.violate('dashboard-fails', f'{label}: {got["end"]} {got.get("type")}: {got.get("text")} (damage {damaged}, fault {[x[1:] for x in r.fired]})')
                continue
            state = dict(of=of, now=now, dirs=dirs, readable={'problem_history.db': _readable(os.path.join(top, 'problem_history.db')) if damaged.get('problem_history.db') in ('cut',) else False})
            check(sim, top, op, got, before, state, damaged, fk, label)


def simplify(case):
    for i, o in enumerate(case['ops']):
        if o.get('fault'):
            c = json.loads(json.dumps(case))
            c['ops'][i].pop('fault')
            yield c
        if o['op'] == 'damage' and o['how'] not in ('delete',):
            c = json.loads(json.dumps(case))
            c['ops'][i]['how'] = 'delete'
            yield c
    if case.get('listing'):
        yield dict(case, listing=None)
