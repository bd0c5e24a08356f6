"""P18 - the mission editor writes the mission the user drew."""

import json
import math
import os
import types

import numpy as np

from sim import faketk

ID = 'P18'
TIERS = dict(quick=dict(cases=1500, budget=45, floor=100), thorough=dict(cases=60000, budget=2400, floor=3000))
RULE = ('seeded sessions of a simulated user with the mission editor: up to 30 events (mouse, table keys, buttons, menus, dialogs ended in '
        'every way, events in the main window while a dialog is open), saves, openings of written, shipped-style and unusable files, '
        'closing and restarting, with an I/O fault or kill at any step of starting, opening, saving or closing; non-trivial = a fault '
        'fired, a file was opened again, or a dialog was used before a save')
REAL = ['AviaryMissionEditor and all its event handlers', 'create_phase_info', 'settings file', 'matplotlib figure and events',
        'phase options (validity of the written mission)']
STUB = ['window toolkit (tkinter stand-in: widgets keep state, no drawing)', 'file, yes/no and message dialogs', 'canvas drawing',
        'disk calls (SimFS)', 'process boundaries (fork)']
ASSUMPTIONS = ['one dialog is open at a time', 'the mission on screen is what the plots show; a table cell with text that was refused is '
               'not part of it', 'numbers are written with the number of digits the table shows', 'optimize marks that are hidden are off',
               'a mission of fewer than two points or of equal times has no phases and need not be writable']
SHRINK = ('ops',)

GI = None
SETTINGS = 'install/interface/persist_settings.json'
ADV = {'Constrain Range': 'constrain_range', 'Distance Solve Segments': 'distance_solve_segments', 'Include Takeoff': 'include_takeoff',
       'Include Landing': 'include_landing', 'Polynomial Order': 'polynomial_order'}
DEFAULT_ADV = dict(constrain_range=True, distance_solve_segments=False, include_takeoff=False, include_landing=False, polynomial_order=1)
FACTOR = {'s': 1.0, 'min': 60.0, 'h': 3600.0, 'm': 1.0, 'km': 1000.0, 'ft': 0.3048, 'mi': 1609.344, 'nmi': 1852.0, 'unitless': 1.0}
CHOICES = [['s', 'min', 'h'], ['m', 'km', 'ft', 'mi', 'nmi']]


def setup(tier):
    global GI
    from aviary.mission.flight_phase_builder import FlightPhaseOptions  # noqa: F401

    GI = faketk.load('aviary.interface.graphical_input')
    faketk.load('matplotlib.figure')
    # the first figure loads fonts
    GI.__file__ = os.path.join(os.path.dirname(GI.__file__), 'graphical_input.py')


# -- cases ------------------------------------------------------------------------------------------------
CELLS = {0: ('10', '35.5', '90', '120', '123.456', '300', '7.25'), 1: ('0', '1500', '35000', '36000.7', '10668', '28750'),
         2: ('0.3', '0.72', '0.785', '0.12', '0.8')}
ODD = ('abc', '', '-5', '12x', '1e3', 'nan', 'inf', ' 50 ', '1_0')


def gen_event(rng, tier):
    k = rng.choice(('add', 'add', 'click', 'click', 'click', 'drag', 'drag', 'cell', 'cell', 'cell', 'delete', 'check', 'check', 'optview', 'slopes',
                    'theme', 'units', 'round', 'axes', 'adv', 'adv', 'save', 'save', 'saveas', 'saveas', 'open', 'open', 'exit', 'store', 'grow'))
    e = dict(op=k, pick=round(rng.random(), 4))
    if k == 'click':
        e.update(fx=round(rng.uniform(0.0, 1.0), 3), fy=round(rng.uniform(0, 1), 3), plot=rng.randint(0, 1), button=rng.choice((1, 1, 1, 3)))
    elif k == 'grow':
        e['n'] = rng.randint(2, 5)
    elif k == 'drag':
        e.update(plot=rng.randint(0, 1), steps=[[round(rng.uniform(-0.02, 0.02), 3), round(rng.uniform(-0.02, 0.02), 3)]] +
                 [[round(rng.uniform(-0.05, 0.05), 3), round(rng.uniform(-0.2, 0.2), 3)] for _ in range(rng.randint(0, 3))], out=rng.random() < 0.2)
    elif k == 'cell':
        e['col'] = rng.randint(0, 2)
        e['text'] = rng.choice(ODD) if rng.random() < 0.2 else rng.choice(CELLS[e['col']])
        e['delta'] = rng.choice((None, 0.0, 1.0, 10.0)) if e['col'] == 0 else None
    elif k == 'units':
        e.update(sel=[rng.choice((None, 's', 'min', 'h')), rng.choice((None, 'm', 'km', 'ft', 'mi', 'nmi'))], end=rng.choice(('apply', 'apply', 'cancel', 'x')))
    elif k == 'round':
        e.update(sel=[rng.choice((None, '4', '6', '8', '2', '3', 'x', '', '-2', '2.5') if rng.random() < 0.3 else (None, '4', '6', '8', '5')) for _ in range(3)],
                 end=rng.choice(('apply', 'apply', 'cancel', 'x')))
    elif k == 'axes':
        e.update(sel=[rng.choice((None, '500', '60000', '1.2', '800', 'abc', '', '-3', '0') if rng.random() < 0.3 else (None, '500', '60000', '2')) for _ in range(3)],
                 end=rng.choice(('apply', 'apply', 'reset', 'cancel', 'x')))
    elif k == 'adv':
        e.update(flip=[n for n in ADV if rng.random() < 0.35 and n != 'Polynomial Order'], poly=rng.choice((None, None, '2', '3', '', 'x', '12')),
                 orders=[[round(rng.random(), 3), rng.choice(('4', '5', '3', '2', '11', '', 'a'))] for _ in range(rng.choice((0, 1, 1, 2)))],
                 end=rng.choice(('apply', 'apply', 'apply', 'reset', 'cancel', 'cancel', 'x')))
    elif k in ('save', 'saveas'):
        e.update(name=rng.choice(('a.py', 'b.py', 'sub/c.py', '')) if k == 'saveas' else None, yes=rng.random() < 0.8)
    elif k == 'open':
        e['name'] = rng.choice(('a.py', 'b.py', 'sub/c.py', 'outputted_phase_info.py', 'stock.py', 'stock2.py', '', 'none.py', 'syntax.py', 'partial.py', 'nopost.py', 'single.py'))
    if k in ('units', 'round', 'axes') and rng.random() < 0.25:
        e['meanwhile'] = rng.choice(('save', 'add', 'drag', 'saveas'))
    if k in ('save', 'saveas', 'open', 'exit') and rng.random() < 0.4:
        e['fault'] = dict(kind=rng.choice(('eio', 'enospc', 'eacces', 'close_eio', 'crash', 'crash_mid', 'crash_after', 'emfile', 'short')), after=rng.choice((0, 0, 1, 2, 3, 5)),
                          arg=0.0 if rng.random() < 0.5 else 0.6, once=True)
        if e['fault']['kind'] == 'enospc':
            e['fault']['arg'] = 0.0
    return e


def gen(rng, i, tier):
    n = rng.choice((6, 10, 15, 22) if tier == 'quick' else (8, 15, 25, 40))
    ops = []
    if rng.random() < 0.8:
        ops.append(dict(op='grow', pick=round(rng.random(), 4), n=rng.randint(2, 5)))
    ops += [gen_event(rng, tier) for _ in range(n)]
    if i % 3 == 0:  # a dialog left in some way, then saved
        ops.append(dict(op='grow', pick=0.5, n=2))
        while ops[-1]['op'] not in ('units', 'round', 'adv', 'delete'):
            ops.append(gen_event(rng, tier))
    ops.append(dict(op='saveas', name='a.py', yes=True, pick=0.0))
    if rng.random() < 0.7:
        ops += [dict(op='open', name='a.py', pick=0.0), dict(op='save', name=None, yes=True, pick=0.0)]
    return dict(prop=ID, ops=ops, buf=rng.choice((128, 512, 8192)), pick=round(rng.random(), 4), dark=rng.choice((None, 'light', 'dark')))


def stock(kind):
    """A mission written by hand: as many phases as it needs, units chosen by phase, optional entries left out."""
    names = ['climb', 'cruise', 'descent'] if kind == 'stock.py' else ['up', 'top', 'step', 'down']
    t = [0.0, 64.0, 560.0, 580.0, 600.0]
    a = [0.0, 34000.0, 34000.0, 37000.0, 500.0]
    m = [0.3, 0.72, 0.72, 0.74, 0.3]
    pi = {'pre_mission': {'include_takeoff': kind == 'stock.py', 'optimize_mass': True}}
    for j, n in enumerate(names):
        pi[n] = {'user_options': {'num_segments': 5 if kind == 'stock.py' else 2, 'order': 3 + j, 'mach_optimize': j == 1, 'mach_polynomial_order': 2,
                                  'mach_initial': (m[j], 'unitless'), 'mach_final': (m[j + 1], 'unitless'), 'altitude_optimize': False,
                                  'altitude_initial': (a[j], 'ft'), 'altitude_final': (a[j + 1], 'ft')},
                 'initial_guesses': {'time': ([t[j], t[j + 1] - t[j]], 'min')}}
    pi['post_mission'] = {'include_landing': False, 'constrain_range': False, 'target_range': (1000.0, 'nmi')}
    return 'phase_info = ' + repr(pi) + '\n'


# -- the user ---------------------------------------------------------------------------------------------
class Screen:
    """What a user sees and can touch, found through the widgets."""

    def __init__(self, app):
        self.app = app
        self.canvas = faketk.Canvas_.last

    def popups(self):
        return [w for w in self.app.children_ if isinstance(w, faketk.Toplevel) and w.alive]

    def _main(self):
        out = []
        for c in self.app.children_:
            if not isinstance(c, faketk.Toplevel):
                out += c.tree()
        return out

    def entries(self):
        """Cells of the table by row."""
        cells = [w for w in self._main() if isinstance(w, faketk.Entry) and w['state'] != 'readonly' and w.place_]
        rows = {}
        for w in cells:
            rows.setdefault(w.place_['row'], []).append(w)
        return [sorted(rows[r], key=lambda w: w.place_['column']) for r in sorted(rows)]

    def headers(self):
        return [w['textvariable'].get() for w in self._main() if isinstance(w, faketk.Entry) and w['state'] == 'readonly']

    def deletes(self):
        ws = [w for w in self._main() if isinstance(w, faketk.Button) and w['text'] == 'X']
        return sorted(ws, key=lambda w: w.place_['row'])

    def checks(self):
        rows = {}
        for w in self._main():
            if isinstance(w, faketk.Checkbutton):
                rows.setdefault(w.place_['row'], []).append(w)
        return [sorted(rows[r], key=lambda w: w.place_['column']) for r in sorted(rows)]

    def button(self, text, top=None):
        for w in (top.tree() if top else self._main()):
            if isinstance(w, faketk.Button) and w['text'].lower() == text.lower():
                return w

    def theme_button(self):
        return [w for w in self._main() if isinstance(w, faketk.Button) and not w['text'] and w.options.get('command')][0]

    def menu(self, label):
        return self.app['menu'].choose(label)

    def lines(self):
        out = []
        for ax in self.canvas.figure.axes:
            ls = [x for x in ax.lines if x.get_marker() == 'o']
            out.append([[float(v) for v in d] for d in ls[-1].get_data()] if ls else [[], []])
            out[-1].append(len(ls))
        return out

    def slopes(self):
        return [[t.get_text() for t in ax.texts] for ax in self.canvas.figure.axes]

    def estimate(self):
        for w in self._main():
            if isinstance(w, faketk.Label) and w.options.get('textvariable') is not None and 'Estimated Range: ' in w['textvariable'].get():
                v, u = w['textvariable'].get().split('Estimated Range: ')[1].split()
                return float(v), u

    def labels(self):
        axs = self.canvas.figure.axes
        return [axs[0].get_xlabel()] + [ax.get_ylabel() for ax in axs]

    def limits(self):
        axs = self.canvas.figure.axes
        return [axs[0].get_xlim()[1]] + [ax.get_ylim()[1] for ax in axs]

    def view(self):
        return dict(table=[[c['textvariable'].get() for c in r] for r in self.entries()], lines=self.lines(), headers=self.headers(), labels=self.labels(),
                    checks=[[c['variable'].get() for c in r] for r in self.checks()], popups=len(self.popups()), theme=self.app['menu'] and self.theme())

    def theme(self):
        return self.canvas.figure.get_facecolor()[0] > 0.5

    def mouse(self, kind, plot=None, x=None, y=None, button=1):
        from matplotlib.backend_bases import MouseButton

        ax = None if plot is None else self.canvas.figure.axes[plot]
        ev = types.SimpleNamespace(xdata=x, ydata=y, inaxes=ax, button=MouseButton(button), canvas=self.canvas, name=kind, key=None,
                                   dblclick=False, modifiers=frozenset(), guiEvent=None, x=0, y=0, step=0)
        for f in list(self.canvas.callbacks.callbacks.get(kind, {}).values()):
            f()(ev)


def entry_right_of(popup, label):
    """The input widget in the row of a label."""
    rows = {}
    for w in popup.tree():
        if w.place_ and 'row' in w.place_:
            rows.setdefault((id(w.master), w.place_['row']), []).append(w)
    for ws in rows.values():
        if any(isinstance(w, faketk.Label) and str(w['text']).startswith(label) for w in ws):
            return sorted([w for w in ws if not isinstance(w, faketk.Label)], key=lambda w: w.place_['column'])
    return []


class Fault:
    """Plan that fires once at the first fitting step from a number on."""

    def __init__(self, fs):
        self.fs, self.f = fs, None

    def arm(self, f):
        self.f, self.start, self.base = f, len(self.fs.steps) + f['after'], len(self.fs.fired)

    def get(self, i, default=None):
        if self.f and i >= self.start and len(self.fs.fired) == self.base:
            return self.f
        return default


def number(text):
    try:
        v = float(text)
    except ValueError:
        return None
    return v if math.isfinite(v) and v >= 0 else None


def integer(text):
    try:
        return int(text)
    except ValueError:
        return None


def half(v, digits):
    """Half a unit of the last of a number of significant digits."""
    if v == 0:
        return 1e-12
    return 0.5000001 * 10.0 ** (math.floor(math.log10(abs(v))) - max(digits, 1) + 1) * (10 if abs(v) < 1e-300 else 1)


def session(ctx, case, start, ref, dark):
    """One run of the editor, from starting it to closing it. Returns what was seen after each event."""
    GI.__file__ = os.path.join(ctx.fs.root, 'install', 'interface', 'graphical_input.py')
    fs = ctx.fs
    plan = fs.plan = Fault(fs)
    D = faketk.DIALOGS
    bad = []
    app = None

    def viol(kind, detail):
        bad.append([kind, str(detail)[:600]])

    def attempt(f):
        """Run a callback as the toolkit does: errors are shown and the program goes on."""
        try:
            f()
            return None
        except Exception as e:
            import traceback

            tb = traceback.extract_tb(e.__traceback__)[-1]
            return [type(e).__name__, str(e)[:200], f'{os.path.basename(tb.filename)}:{tb.name}']

    fs.active = True
    ctx.note('at', start, 'start', ref)
    err = attempt(lambda: holder.append(GI.AviaryMissionEditor())) if (holder := []) is not None else None
    fs.active = False
    if err:
        viol('start-failed', f'{err} (settings {ref["settings"]})')
        return dict(next=len(case['ops']), ref=ref, bad=bad, outcomes=[])
    app = holder[0]
    s = Screen(app)
    # a new window: one point, defaults, remembered theme and switch
    ref = dict(ref, points=None, orders=[], adv=dict(DEFAULT_ADV), rounding=[3, 3, 3], units=['min', 'ft', 'unitless'], dirty=[], opened=False)
    want = ref['settings']
    light = s.theme()
    if want is not None and want['theme'] != ('light' if light else 'dark'):
        viol('settings-lost', f'theme {want["theme"]} remembered, window starts {"light" if light else "dark"}')
    if bool(s.app['menu'].checked('Store Settings?')) != (want is not None):
        viol('settings-lost', 'store switch')
    ref['points'] = [list(p) for p in zip(*([s.lines()[0][0]] + [x[1] for x in s.lines()]))]
    outcomes = []

    def check(what):
        """The parts of the window agree with each other and with the mission."""
        v = s.view()
        pts = ref['points']
        for a in range(2):
            if v['lines'][a][2] > 1:
                viol('screen', f'{what}: plot {a} shows {v["lines"][a][2]} missions')
            xs, ys = v['lines'][a][:2]
            want_x, want_y = [p[0] for p in pts], [p[a + 1] for p in pts]
            if len(xs) != len(pts) or not np.allclose(xs, want_x, rtol=1e-9, atol=1e-12) or not np.allclose(ys, want_y, rtol=1e-9, atol=1e-12):
                return viol('mission-changed', f'{what}: plot {a} shows {list(zip(xs, ys))} instead of {list(zip(want_x, want_y))}')
        if len(v['table']) != len(pts):
            return viol('screen', f'{what}: {len(v["table"])} rows for {len(pts)} points')
        for r, row in enumerate(v['table']):
            for c, text in enumerate(row):
                if [r, c] in ref['dirty']:
                    continue
                x = number(text.strip())
                if x is None or abs(x - pts[r][c]) > half(pts[r][c], ref['rounding'][c]):
                    viol('screen', f'{what}: cell {r},{c} shows {text!r} for {pts[r][c]} ({ref["rounding"][c]} digits)')
        on = bool(s.app['menu'].checked('Phase Slopes'))
        for a, texts in enumerate(s.slopes()):
            if len(texts) != (max(len(pts) - 1, 0) if on else 0):
                return viol('screen', f'{what}: plot {a} shows {len(texts)} slopes of {len(pts)} points ({on})')
            for q, t in enumerate(texts if on else ()):
                dt, dy = pts[q + 1][0] - pts[q][0], pts[q + 1][a + 1] - pts[q][a + 1]
                want, word = (dy / dt if dt else None), t.split()[0]
                x = None if word in ('undefined', 'inf', '-inf', 'nan') else float(word)
                if (want is None) != (x is None) or want is not None and abs(x - want) > 1e-9 * abs(dy) / abs(dt) + half(want, ref['rounding'][a + 1] + 1):
                    viol('screen', f'{what}: slope {t!r} of phase {q} in plot {a} instead of {want}')
                unit = f'{ref["units"][a + 1]}/{ref["units"][0]}' if a == 0 else ''
                if want is not None and ' '.join(t.split()[1:]) != unit:
                    viol('units', f'{what}: slope {t!r} instead of {unit}')
        if len(pts) > 1:
            est = sum(343.0 * (p[2] + q[2]) / 2 * (q[0] - p[0]) * FACTOR[ref['units'][0]] for p, q in zip(pts, pts[1:]))
            u = {'m': 'km', 'ft': 'nmi'}.get(ref['units'][1], ref['units'][1])
            got = s.estimate()
            if got is None or got[1] != u or abs(got[0] - est / FACTOR[u]) > 0.0051 + 1e-6 * abs(est / FACTOR[u]):
                viol('screen', f'{what}: range shown {got} instead of {est / FACTOR[u]} {u}')
        for j, n in enumerate(('Time', 'Altitude', 'Mach')):
            t = f'{n} ({ref["units"][j]})'
            if v['headers'][j] != t or v['labels'][j] != t:
                viol('units', f'{what}: table says {v["headers"][j]!r}, plot {v["labels"][j]!r} instead of {t!r}')

    def same_view(before, what):
        now = s.view()
        for k in before:
            if before[k] != now[k]:
                viol('not-intact', f'{what}: {k} changed from {before[k]} to {now[k]}')

    def settings_file():
        p = os.path.join(fs.root, SETTINGS)
        if not os.path.exists(p):
            return None
        with open(p) as f:
            try:
                return json.load(f)
            except ValueError:
                return 'damaged'

    def read(name):
        p = os.path.join(fs.root, name)
        if not os.path.exists(p):
            return None
        with open(p) as f:
            return f.read()

    def expected():
        checks = s.checks()
        n = max(len(ref['points']) - 1, 0)
        flags = [[c['variable'].get() for c in row] for row in checks] if checks else [[False, False]] * n
        return dict(points=ref['points'], orders=ref['orders'], flags=flags, adv=ref['adv'], units=ref['units'], rounding=ref['rounding'],
                    texts=[[c['textvariable'].get().strip() for c in r] for r in s.entries()], dirty=ref['dirty'])

    def new_theme():
        return 'light' if s.theme() else 'dark'

    def close_checks(what, before, err, fired):
        """After something that closes the window."""
        now = settings_file()
        on = bool(app['menu'].checked('Store Settings?'))
        new = dict(theme=new_theme()) if on else None
        shown = now if now in (None, 'damaged') else dict(theme=now.get('theme'))
        ok = (new,) if not fired and not err else (new, before)
        if shown not in ok:
            viol('settings', f'{what}: settings file {now}, expected {ok}')
        if not fired and now not in (None, 'damaged') and app.alive is False and not now.get('window_geometry'):
            viol('settings', f'{what}: window size not remembered: {now}')
        ref['settings'] = shown

    def save(e, name, path, what):
        exp = expected()
        pts = ref['points']
        before_view, before_file, before_set = s.view(), read(path) if path else None, ref['settings']
        D.reset()
        D.file = os.path.join(fs.root, path) if path and name is not None else ''
        D.yes = e.get('yes', True)
        if e.get('fault'):
            plan.arm(e['fault'])
        fired = len(fs.fired)
        ctx.note('saving', e['n'], path, exp, ref['settings'], dict(theme=new_theme()) if app['menu'].checked('Store Settings?') else None)
        fs.active = True
        if name is None:
            err = attempt(lambda: s.button('Output Phase Info').press() if e['pick'] < 0.5 else s.menu('Save Phase Info'))
        else:
            err = attempt(lambda: s.menu('Save Phase Info as..'))
        fs.active = False
        plan.f = None
        f = [x for x in fs.fired[fired:] if x[3] != 'short' and '__pycache__' not in x[2]]
        text = read(path) if path else None
        times = [p[0] for p in pts]
        refuse = any(b < a for a, b in zip(times, times[1:]))
        shown = [c if c is not None else 0.0 for c in (number(r[0]) for r in exp['texts'])]
        void = len(pts) < 2 or any(b <= a for a, b in zip(times, times[1:])) or any(
            abs(b - a) <= half(a, ref['rounding'][0]) + half(b, ref['rounding'][0]) for a, b in zip(times, times[1:]))
        low = any(p[2] < 0.25 for p in pts)
        what = f'{what} (faults {[x[1:] for x in fs.fired[fired:]]}, error {err})'
        written = not app.alive or (text != before_file)
        if err and not f and not void:
            viol('error', what)
        if f and not err and not any(k[0] == 'error' for k in D.said):
            viol('fault-swallowed', what)
        if not app.alive or err is None and written:
            if refuse or (low and not D.yes) or not path:
                viol('saved-anyway', f'{what}: refused or cancelled, times {times}, mach {[p[2] for p in pts]}, answer {D.yes}, name {path!r}')
        if text != before_file and text is not None:
            bad.extend([k, f'{what}: {d}'] for k, d in judge(text, exp))
            ref['files'] = dict(ref['files'], **{path: text})
        elif before_file is not None and text is None:
            viol('file-lost', what)
        elif not err and not f and not app.alive and path:
            bad.extend([k, f'{what}: {d}'] for k, d in judge(text or '', exp))
        if not err and not f and app.alive and path and not (refuse or (low and not D.yes) or void):
            viol('not-saved', f'{what}: window still open, dialogs {D.said}')
        if app.alive:
            same_view(before_view, what)
            now = settings_file()
            shown_set = now if now in (None, 'damaged') else dict(theme=now.get('theme'))
            if shown_set != before_set and not any(x[1].startswith('install') or True for x in f):
                viol('settings', f'{what}: settings {now} instead of {before_set}')
            if shown_set == 'damaged':
                viol('settings', f'{what}: settings file damaged')
            ref['settings'] = shown_set
        else:
            close_checks(what, before_set, err, f)
        return err

    def do(e):
        k = e['op']
        what = f'event {e["n"]} {k}'
        pts = ref['points']
        if k in ('add', 'grow'):
            for _ in range(e.get('n_', 1) if k == 'add' else e['n']):
                err = attempt(lambda: s.button('Add New Point').press())
                if err:
                    return viol('error', f'{what}: {err}')
                new = [x[:2] for x in s.lines()]
                if len(new[0][0]) != len(pts) + 1:
                    return viol('mission-changed', f'{what}: {len(new[0][0])} points after adding one to {len(pts)}')
                pts.append([new[0][0][-1], new[0][1][-1], new[1][1][-1]])
                if not all(math.isfinite(v) and v >= 0 for v in pts[-1]):
                    viol('mission-changed', f'{what}: point {pts[-1]}')
                if len(pts) > 1:
                    ref['orders'].append(3)
                if k == 'grow' and len(pts) > 1 and pts[-1][0] <= pts[-2][0]:
                    break
        elif k == 'click':
            lim = s.limits()
            top = max([p[0] for p in pts], default=0.0)
            x = e['fx'] * lim[0] if e['pick'] < 0.3 else top + e['fx'] * max(lim[0] - top, 0.0)
            y = e['fy'] * lim[e['plot'] + 1]
            if not (0 < x <= lim[0] and 0 < y <= lim[e['plot'] + 1]):
                return
            def click():
                s.mouse('motion_notify_event', e['plot'], x, y)
                s.mouse('button_press_event', e['plot'], x, y, e['button'])
                s.mouse('button_release_event', e['plot'], x, y, e['button'])
            err = attempt(click)
            if err:
                return viol('error', f'{what}: {err}')
            if e['button'] == 1 and (not pts or x > top):
                new = s.lines()
                if len(new[0][0]) == len(pts) + 1:
                    p = [new[0][0][-1], new[0][1][-1], new[1][1][-1]]
                    if abs(p[0] - x) > 1e-9 * x or abs(p[e['plot'] + 1] - y) > 1e-9 * y:
                        viol('mission-changed', f'{what} at {x, y} of plot {e["plot"]} added {p}')
                    pts.append(p)
                    if len(pts) > 1:
                        ref['orders'].append(3)
            ref['dirty'] = []  # moving the mouse over a plot shows all values again
        elif k == 'drag':
            if not pts:
                return
            r, a = int(e['pick'] * len(pts)), e['plot']
            lim = s.limits()
            x, y = pts[r][0], pts[r][a + 1]
            if not (x and y and x <= lim[0] and y <= lim[a + 1]):
                return
            def drag():
                nonlocal x, y
                s.mouse('motion_notify_event', a, x, y)
                s.mouse('button_press_event', a, x, y)
                for dx, dy in e['steps']:
                    x, y = min(max(x + dx * lim[0], 1e-6), lim[0]), min(max(y + dy * lim[a + 1], 1e-6), lim[a + 1])
                    s.mouse('motion_notify_event', a, x, y)
                if e['out']:
                    s.mouse('motion_notify_event', None, None, None)
                s.mouse('button_release_event', None if e['out'] else a, None if e['out'] else x, None if e['out'] else y)
            err = attempt(drag)
            if err:
                return viol('error', f'{what}: {err}')
            new = s.lines()
            if any(len(q) != len(pts) for q in (new[0][0], new[0][1], new[1][0], new[1][1])):
                return viol('mission-changed', f'{what}: {len(new[0][0])} points after a drag of one of {len(pts)}')
            # the point nearest to the mouse moves; the others, and the other variable, stay
            moved = [q for q in range(len(pts)) if abs(new[0][0][q] - pts[q][0]) > 1e-12 or abs(new[a][1][q] - pts[q][a + 1]) > 1e-12]
            o = 1 - a
            for q in range(len(pts)):
                if abs(new[o][1][q] - pts[q][o + 1]) > 1e-12:
                    viol('mission-changed', f'{what} in plot {a} changed the other variable of point {q}')
            if len(moved) > len(e['steps']):
                viol('mission-changed', f'{what} moved points {moved}')
            ref['points'] = [[new[0][0][q], new[0][1][q], new[1][1][q]] for q in range(len(pts))]
            ref['dirty'] = []
        elif k == 'cell':
            rows = s.entries()
            if not rows:
                return
            r, c = int(e['pick'] * len(rows)), e['col']
            text = e['text']
            if e.get('delta') is not None and r:
                text = f'{pts[r - 1][0] + e["delta"]:.6g}'
            err = attempt(lambda: rows[r][c].type(text))
            if err:
                return viol('error', f'{what} {text!r}: {err}')
            last = None
            for j in range(0 if text == '' else 1, len(text) + 1):
                last = number(text[:j])
                if last is not None:
                    pts[r][c] = last
            if [r, c] in ref['dirty']:
                ref['dirty'].remove([r, c])
            ref['dirty'].append([r, c])  # the user's text stays as typed, with all its digits
        elif k == 'delete':
            ws = s.deletes()
            if not ws:
                return
            r = int(e['pick'] * len(ws))
            err = attempt(ws[r].press)
            if err:
                return viol('error', f'{what} row {r}: {err}')
            if len(pts) > 1:
                ref['orders'].pop(max(r - 1, 0))
            pts.pop(r)
            ref['dirty'] = []
        elif k == 'check':
            rows = s.checks()
            if rows:
                row = rows[int(e['pick'] * len(rows))]
                w = row[int(e['pick'] * 1000) % len(row)]
                err = attempt(w.toggle)
                if err:
                    viol('error', f'{what}: {err}')
        elif k in ('optview', 'slopes', 'store'):
            err = attempt(lambda: s.menu(dict(optview='Optimize Phase', slopes='Phase Slopes', store='Store Settings?')[k]))
            if err:
                return viol('error', f'{what}: {err}')
            if k == 'optview':
                ref['dirty'] = []
                n = len(s.checks())
                shown = s.app['menu'].checked('Optimize Phase')
                if n != (max(len(pts) - 1, 0) if shown else 0):
                    viol('screen', f'{what}: {n} rows of optimize boxes for {len(pts)} points')
        elif k == 'theme':
            before = s.theme()
            err = attempt(lambda: s.theme_button().press())
            if err or s.theme() == before:
                viol('error', f'{what}: {err}')
        elif k in ('units', 'round', 'axes', 'adv'):
            dialog(e, what)
        elif k in ('save', 'saveas'):
            name = e.get('name') if k == 'saveas' else None
            save(e, name, name if k == 'saveas' else 'outputted_phase_info.py', what)
        elif k == 'open':
            do_open(e, what)
        elif k == 'exit':
            before_set = ref['settings']
            if e.get('fault'):
                plan.arm(e['fault'])
            fired = len(fs.fired)
            ctx.note('saving', e['n'], None, None, before_set, dict(theme=new_theme()) if app['menu'].checked('Store Settings?') else None)
            fs.active = True
            err = attempt(lambda: s.menu('Exit') if e['pick'] < 0.5 else app.protocols['WM_DELETE_WINDOW']())
            fs.active = False
            plan.f = None
            f = [x for x in fs.fired[fired:] if x[3] != 'short' and '__pycache__' not in x[2]]
            what = f'{what} (faults {[x[1:] for x in f]}, error {err})'
            if err and not f:
                viol('error', what)
            if f and not err:
                viol('fault-swallowed', what)
            if app.alive:
                viol('still-open', what)
            close_checks(what, before_set, err, f)

    def dialog(e, what):
        k = e['op']
        before = s.view()
        label = dict(units='Units', round='Rounding', axes='Axes Limits', adv='Advanced Options')[k]
        err = attempt(lambda: s.menu(label))
        if err:
            return viol('error', f'{what}: opening the dialog: {err}')
        pop = s.popups()
        if len(pop) != 1:
            return viol('error', f'{what}: {len(pop)} dialogs')
        pop = pop[0]
        names = ('Time', 'Altitude', 'Mach')
        digits, units, adv, orders = list(ref['rounding']), list(ref['units']), dict(ref['adv']), list(ref['orders'])
        ok = True
        if k == 'units':
            for j in range(2):
                w = entry_right_of(pop, names[j])
                if not w:
                    return viol('error', f'{what}: no choice for {names[j]}')
                if w[0].get() != ref['units'][j]:
                    viol('screen', f'{what}: dialog shows {w[0].get()} for {ref["units"][j]}')
                if e['sel'][j]:
                    units[j] = e['sel'][j]
                    err = attempt(lambda: w[0].pick(list(w[0]['values']).index(units[j])))
                    if err:
                        viol('error', f'{what}: {err}')
        elif k in ('round', 'axes'):
            for j in range(3):
                w = entry_right_of(pop, names[j])
                if not w:
                    return viol('error', f'{what}: no entry for {names[j]}')
                if e['sel'][j] is not None:
                    err = attempt(lambda: w[0].type(e['sel'][j], keys=False))
                    if err:
                        viol('error', f'{what}: {err}')
                    if k == 'round':
                        d = integer(e['sel'][j])
                        if d is None or d < 0:
                            ok = False
                        else:
                            digits[j] = d
                    else:
                        d = number(e['sel'][j])
                        if d is None or d <= 0:
                            ok = False
        else:
            for n in e['flip']:
                w = entry_right_of(pop, n)
                if not w:
                    return viol('error', f'{what}: no box for {n}')
                if w[0]['variable'].get() != adv[ADV[n]]:
                    viol('screen', f'{what}: {n} shows {w[0]["variable"].get()}')
                err = attempt(w[0].toggle)
                adv[ADV[n]] = not adv[ADV[n]]
            if e['poly'] is not None:
                w = entry_right_of(pop, 'Polynomial Order')[0]
                err = attempt(lambda: w.type(e['poly'], keys=False))
                d = integer(e['poly'])
                if d is None:
                    ok = False
                else:
                    adv['polynomial_order'] = d
            ws = entry_right_of(pop, 'Phase Transcription Order')
            if bool(ws) != (len(ref['points']) > 1):
                viol('screen', f'{what}: {len(ws)} phase order widgets for {len(ref["points"])} points')
            if ws:
                combo, entry = ws
                if len(combo['values']) != len(orders):
                    viol('screen', f'{what}: {len(combo["values"])} phases for {len(orders)}')
                if entry['textvariable'].get() != str(orders[combo.current()]):
                    viol('screen', f'{what}: order {entry["textvariable"].get()} shown for {orders[combo.current()]}')
                for f, text in e['orders']:
                    j = int(f * len(orders))
                    err = attempt(lambda: combo.pick(j))
                    if not err and entry['textvariable'].get() != str(orders[j]):
                        viol('screen', f'{what}: order {entry["textvariable"].get()} shown for {orders[j]} of phase {j}')
                    err = err or attempt(lambda: entry.type(text))
                    if err:
                        viol('error', f'{what}: {err}')
                    for q in range(0 if text == '' else 1, len(text) + 1):
                        d = integer(text[:q])
                        if d is not None:
                            orders[j] = max(d, 3)
        if e.get('meanwhile') and app.alive:
            m = dict(op=e['meanwhile'], n=e['n'], pick=e['pick'], yes=True, name='b.py' if e['meanwhile'] == 'saveas' else None, plot=0, steps=[[0.01, 0.02], [0.01, 0.05]], out=False)
            do(m)
            if not app.alive:
                return
            check(f'{what} (while the dialog is open: {e["meanwhile"]})')
            before = s.view()
            before['popups'] = 0
        D.reset()
        if e['end'] == 'x':
            err = attempt(lambda: pop.protocols['WM_DELETE_WINDOW']())
        else:
            b = s.button(e['end'], pop)
            err = attempt(b.press) if b else ['none', 'no button', '']
        what = f'{what} {e.get("sel") or ""} {e["end"]}'
        if err:
            viol('error', f'{what}: {err}')
        left = s.popups()
        if left and ok:
            viol('error', f'{what}: dialog still open')
        for p in left:  # refused: the user gives up
            err = attempt(lambda: p.protocols['WM_DELETE_WINDOW']())
            if err or s.popups():
                return viol('error', f'{what}: dialog cannot be closed: {err}')
        if e['end'] in ('cancel', 'x') or (not ok and e['end'] == 'apply'):
            if k == 'adv' and not ok and e['end'] == 'apply' and not left:
                # an order that is no number is not taken, the rest may be
                ref['adv'] = dict(adv, polynomial_order=ref['adv']['polynomial_order'])
                ref['orders'] = orders
            return same_view(before, what)
        if s.view()['checks'] != before['checks']:
            viol('not-intact', f'{what}: optimize marks changed from {before["checks"]} to {s.view()["checks"]}')
        if k == 'units' and e['end'] == 'apply':
            for j in range(3):
                f = FACTOR[ref['units'][j]] / FACTOR[units[j]]
                for p in ref['points']:
                    p[j] = p[j] * f
            ref['units'] = units
            ref['dirty'] = []
        elif k == 'round' and e['end'] == 'apply':
            ref['rounding'] = digits
            ref['dirty'] = []
        elif k == 'adv':
            if e['end'] == 'reset':
                ref['adv'], ref['orders'] = dict(DEFAULT_ADV), [3] * max(len(ref['points']) - 1, 0)
            else:
                ref['adv'], ref['orders'] = adv, orders

    def do_open(e, what):
        before = s.view()
        text = read(e['name']) if e['name'] else None
        D.reset()
        D.file = os.path.join(fs.root, e['name']) if e['name'] else ''
        if e.get('fault'):
            plan.arm(e['fault'])
        fired = len(fs.fired)
        fs.active = True
        err = attempt(lambda: s.menu('Open Phase Info..'))
        fs.active = False
        plan.f = None
        f = [x for x in fs.fired[fired:] if x[3] != 'short' and '__pycache__' not in x[2]]
        what = f'{what} {e["name"]} (faults {[x[1:] for x in f]}, error {err})'
        m = mission(text) if text else None
        if not e['name'] or m is None or err:
            if e['name'] and m is None and not err and not any(k[0] in ('error', 'warning') for k in D.said):
                viol('bad-file-shown', what)
            if err and m is not None and not f:
                viol('error', what)
            return same_view(before, what)
        if f:
            viol('fault-swallowed', what)
        ref['opened'] = True
        ref.update(points=[list(p) for p in m['points']], orders=list(m['orders']), units=list(m['units']), dirty=[])
        for k2 in ADV.values():
            if m['adv'].get(k2) is not None:
                ref['adv'] = dict(ref['adv'], **{k2: m['adv'][k2]})
        flags = [[c['variable'].get() for c in row] for row in s.checks()]
        if any(any(r) for r in m['flags']) or flags:
            if flags != m['flags']:
                viol('opened', f'{what}: optimize marks {flags} instead of {m["flags"]}')

    for n in range(start, len(case['ops'])):
        e = dict(case['ops'][n], n=n)
        ctx.note('at', n, e['op'], None)
        fired = len(fs.fired)
        nbad = len(bad)
        do(e)
        outcomes.append([e['op'], e.get('end'), len(ref['points']), [x[1:] for x in fs.fired[fired:]]])
        if app.alive and len(bad) == nbad:
            check(f'after event {n} {e["op"]} {e.get("sel") or e.get("end") or ""}')
        if bad:
            return dict(next=len(case['ops']), ref=ref, bad=bad, outcomes=outcomes)
        if not app.alive:
            return dict(next=n + 1, ref=ref, bad=bad, outcomes=outcomes)
    return dict(next=len(case['ops']), ref=ref, bad=bad, outcomes=outcomes)


# -- the files ---------------------------------------------------------------------------------------------
def load(text):
    g = {}
    exec(compile(text, 'mission', 'exec'), g)
    return g['phase_info']


def mission(text):
    """The mission in a file, or None if it has none that can be shown."""
    try:
        pi = load(text)
        out = dict(points=[], orders=[], flags=[], adv={}, units=None)
        names = [n for n in pi if n not in ('pre_mission', 'post_mission')]
        for n in names:
            u = pi[n]['user_options']
            t, tu = pi[n]['initial_guesses']['time']
            if out['units'] is None:
                out['units'] = [tu, u['altitude_initial'][1], u['mach_initial'][1]]
                out['points'].append([float(t[0]), float(u['altitude_initial'][0]), float(u['mach_initial'][0])])
            f = [FACTOR[a] / FACTOR[b] for a, b in zip((tu, u['altitude_final'][1], u['mach_final'][1]), out['units'])]
            out['points'].append([float(t[0] + t[1]) * f[0], float(u['altitude_final'][0]) * f[1], float(u['mach_final'][0]) * f[2]])
            out['orders'].append(u['order'])
            out['flags'].append([bool(u['altitude_optimize']), bool(u['mach_optimize'])])
            out['adv'].setdefault('polynomial_order', u.get('mach_polynomial_order', u.get('altitude_polynomial_order')))
            if u.get('distance_solve_segments') is not None:
                out['adv']['distance_solve_segments'] = bool(u['distance_solve_segments'])
        out['adv'].update(constrain_range=bool(pi['post_mission']['constrain_range']), include_landing=bool(pi['post_mission']['include_landing']),
                          include_takeoff=bool(pi['pre_mission']['include_takeoff']))
        return out if names else None
    except Exception:
        return None


def judge(text, exp):
    """Compare a written file with the mission on screen."""
    out = []
    try:
        pi = load(text)
    except Exception as e:
        return [['unusable-file', f'{type(e).__name__} {e}: {text[:150]!r}']]
    pts, units = exp['points'], exp['units']
    names = [n for n in pi if n not in ('pre_mission', 'post_mission')]
    if len(names) != max(len(pts) - 1, 0):
        return [['wrong-mission', f'{len(names)} phases for {len(pts)} points']]

    def num(got, want, col, row, what):
        if abs(got - want) > half(want, exp['rounding'][col]):
            out.append(['wrong-mission', f'{what} {got} instead of {want} ({exp["rounding"][col]} digits)'])
        elif [row, col] not in exp['dirty'] and abs(got - float(exp['texts'][row][col])) > 1e-9 * abs(got):
            out.append(['wrong-mission', f'{what} {got}, the table says {exp["texts"][row][col]}'])

    from aviary.mission.flight_phase_builder import FlightPhaseOptions

    sum_lo = sum_hi = 0.0
    for j, n in enumerate(names):
        u = pi[n]['user_options']
        kind = 'climb' if pts[j + 1][1] > pts[j][1] else 'descent' if pts[j + 1][1] < pts[j][1] else 'cruise'
        a, b = u['altitude_initial'][0], u['altitude_final'][0]
        if not n.startswith('climb' if b > a else 'descent' if b < a else 'cruise'):
            out.append(['wrong-mission', f'{n} from {a} to {b} ({kind})'])
        t, tu = pi[n]['initial_guesses']['time']
        for got, col, what in ((tu, 0, 'time'), (u['altitude_initial'][1], 1, 'altitude'), (u['altitude_final'][1], 1, 'altitude'), (u['mach_initial'][1], 2, 'mach'),
                               (u['time_duration_bounds'][1], 0, 'duration'), (u['time_initial_bounds'][1], 0, 'start')):
            if got != units[col]:
                out.append(['wrong-mission', f'{n} {what} in {got} instead of {units[col]}'])
        num(t[0], pts[j][0], 0, j, f'{n} start')
        num(t[0] + t[1], pts[j + 1][0], 0, j + 1, f'{n} end')
        for v, col in (('altitude', 1), ('mach', 2)):
            num(u[f'{v}_initial'][0], pts[j][col], col, j, f'{n} {v}_initial')
            num(u[f'{v}_final'][0], pts[j + 1][col], col, j + 1, f'{n} {v}_final')
            lo, hi = u[f'{v}_bounds'][0]
            if not lo <= min(u[f'{v}_initial'][0], u[f'{v}_final'][0]) or not hi >= max(u[f'{v}_initial'][0], u[f'{v}_final'][0]):
                out.append(['wrong-mission', f'{n} {v}_bounds {lo, hi} do not contain the phase'])
        lo, hi = u['time_duration_bounds'][0]
        if not lo <= t[1] <= hi:
            out.append(['wrong-mission', f'{n} lasts {t[1]}, bounds {lo, hi} {tu}'])
        sum_lo, sum_hi = u['time_initial_bounds'][0]
        if not (sum_lo - 1e-9 <= t[0] - (pi[names[0]]['initial_guesses']['time'][0][0]) <= sum_hi + 1e-9):
            out.append(['wrong-mission', f'{n} starts at {t[0]}, bounds {sum_lo, sum_hi}'])
        if j < len(exp['orders']) and u['order'] != exp['orders'][j] or len(exp['orders']) != len(names):
            out.append(['wrong-options', f'order {u["order"]} of phase {j}, expected {exp["orders"]}'])
        if [u['altitude_optimize'], u['mach_optimize']] != exp['flags'][j]:
            out.append(['wrong-options', f'optimize marks {u["altitude_optimize"], u["mach_optimize"]} of phase {j}, shown {exp["flags"][j]}'])
        if u['distance_solve_segments'] != exp['adv']['distance_solve_segments'] or u['mach_polynomial_order'] != exp['adv']['polynomial_order'] \
                or u['altitude_polynomial_order'] != exp['adv']['polynomial_order']:
            out.append(['wrong-options', f'solve segments {u["distance_solve_segments"]}, polynomial {u["mach_polynomial_order"]}, expected {exp["adv"]}'])
        try:
            FlightPhaseOptions(dict(u))
        except Exception as e:
            out.append(['invalid-mission', f'{n}: {type(e).__name__} {e}'])
    got = dict(constrain_range=pi['post_mission']['constrain_range'], include_landing=pi['post_mission']['include_landing'], include_takeoff=pi['pre_mission']['include_takeoff'])
    if any(got[k] != exp['adv'][k] for k in got):
        out.append(['wrong-options', f'{got} instead of {exp["adv"]}'])
    if names:
        r, ru = pi['post_mission']['target_range']
        ts = [pi[n]['initial_guesses']['time'][0] for n in names]
        ms = [(pi[n]['user_options']['mach_initial'][0], pi[n]['user_options']['mach_final'][0]) for n in names]
        est = sum(343.0 * (a + b) / 2 * t[1] * FACTOR[units[0]] for t, (a, b) in zip(ts, ms)) / FACTOR[ru]
        if abs(r - est) > 0.0051 + 1e-6 * est:
            out.append(['wrong-mission', f'target range {r} {ru} instead of {est}'])
    return out


def run(sim, case):
    root = sim.root
    os.makedirs(os.path.join(root, 'install/interface'))
    os.makedirs(os.path.join(root, 'sub'))
    for n in ('stock.py', 'stock2.py'):
        with open(os.path.join(root, n), 'w') as f:
            f.write(stock(n))
    for n, t in (('none.py', 'x = 1\n'), ('syntax.py', 'phase_info = {\n'), ('single.py', "phase_info = {'pre_mission': {'include_takeoff': False}, 'post_mission': {'include_landing': False, 'constrain_range': True}}\n"),
                 ('partial.py', stock('stock.py').replace("'altitude_final': (500.0, 'ft')", "'x': 1").replace("'altitude_final': (37000.0, 'ft')", "'x': 1")),
                 ('nopost.py', stock('stock2.py').replace('post_mission', 'pst_mission'))):
        with open(os.path.join(root, n), 'w') as f:
            f.write(t)
    ref = dict(settings=None, files={})
    if case['dark']:
        ref['settings'] = dict(theme=case['dark'])
        with open(os.path.join(root, SETTINGS), 'w') as f:
            json.dump(dict(window_geometry='900x500+10+20', theme=case['dark']), f)
    at = 0
    used = set()
    while at < len(case['ops']):
        r = sim.process(session, case, at, ref, case['dark'], bufsize=case['buf'], label=f'session {at}', clock=dict(t0=1.7e9), seed=1)
        if r.status == 'raise':
            raise RuntimeError(f'{r.why()} {r.exc[2]}')
        if r.fired:
            sim.nontrivial = True
        if r.status == 'crash':
            n = [x for x in r.notes if x[0] == 'at'][-1][1]
            sim.state(('crash', case['ops'][n]['op'], [x[1:] for x in r.fired]))
            sv = [x for x in r.notes if x[0] == 'saving' and x[1] == n]
            now = read_settings(root)
            if sv:
                _, _, path, exp, old, new = sv[-1]
                if now not in (old, new):
                    sim.violate('settings', f'killed in event {n} {case["ops"][n]["op"]} at {r.fired}: settings {now}, were {old}, to become {new}')
                if path:
                    text = read(os.path.join(root, path))
                    old_text = ref['files'].get(path)
                    if text != old_text:
                        for k, d in judge(text or '', exp):
                            sim.violate(k, f'killed in event {n} {case["ops"][n]["op"]} at {r.fired}: {path}: {d}')
                            break
                        ref = dict(ref, files=dict(ref['files'], **({path: text} if text else {})))
            elif now != ref['settings']:
                sim.violate('settings', f'killed at {r.fired}: settings {now} instead of {ref["settings"]}')
            ref = dict(ref, settings=now if now != 'damaged' else None)
            at = n + 1
            if sim.violations:
                return
            continue
        v = r.value
        for o in v['outcomes']:
            used.add(o[0])
            sim.state(tuple(map(str, o)))
        if {'open', 'saveas'} <= used or used & {'units', 'adv', 'round'}:
            sim.nontrivial = True
        for k, d in v['bad']:
            sim.violate(k, d)
        if v['bad']:
            return
        ref = dict(settings=v['ref']['settings'], files=v['ref']['files'])
        at = v['next']


def read(p):
    if not os.path.exists(p):
        return None
    with open(p) as f:
        return f.read()


def read_settings(root):
    t = read(os.path.join(root, SETTINGS))
    if t is None:
        return None
    try:
        return dict(theme=json.loads(t).get('theme'))
    except ValueError:
        return 'damaged'


def simplify(case):
    out = []
    for j, o in enumerate(case['ops']):
        for k in ('fault', 'meanwhile', 'delta'):
            if o.get(k) is not None:
                c = json.loads(json.dumps(case))
                c['ops'][j].pop(k)
                out.append(c)
        if o['op'] == 'grow' and o['n'] > 2:
            c = json.loads(json.dumps(case))
            c['ops'][j]['n'] = 2
            out.append(c)
        if o['op'] == 'adv' and (o['flip'] or o['orders'] or o['poly']):
            for k, e in (('flip', []), ('orders', []), ('poly', None)):
                c = json.loads(json.dumps(case))
                c['ops'][j][k] = e
                out.append(c)
    if case['dark']:
        c = json.loads(json.dumps(case))
        c['dark'] = None
        out.append(c)
    return out
