"""P11 - a conversion or a read depends only on its own input, not on earlier ones."""

import copy
import os
import warnings

from sim import converters, fixtures
from sim.canon import canon, diff

ID = 'P11'
TIERS = dict(quick=dict(cases=640, budget=170, floor=150), thorough=dict(cases=26000, budget=3000, floor=1500))
RULE = ('seeded sequences of 2 to 7 conversions and reads (legacy engine decks, aero tables, propeller maps and Fortran decks; '
        'data tables, engine decks, aircraft decks, phase files) in one process, some of malformed input, some struck by a disk '
        'fault or interrupt, some whose returned data the caller then overwrites; each compared with the same call alone in a '
        'fresh process; non-trivial = something failed, was struck or was repeated before a call that was compared')
REAL = ['aero_table_conversion', 'engine_deck_conversion', 'fortran_to_aviary', 'propeller_map_conversion', 'read_data_file',
        'create_vehicle', 'EngineDeck', 'load_phase_info_file']
STUB = ['disk calls (SimFS)', 'clock and user name', 'process boundaries (fork)']
ASSUMPTIONS = ['the clock does not pass a minute during one call', 'a call struck by a fault is itself not compared']
SHRINK = ('ops',)

TABLES = ['models/engines/turbofan_22k.csv', 'models/engines/turboshaft_1120hp.csv',
          'subsystems/propulsion/test/engine_model_test_data_turbofan_28k.csv']
ENGINES = ['models/engines/turbofan_22k.csv', 'models/engines/turbofan_23k_1.csv', 'models/engines/turboshaft_1120hp.csv',
           'models/engines/turboshaft_1120hp_no_tailpipe.csv', 'models/engines/turbofan_28k.csv', 'models/engines/turboshaft_4465hp.csv']
DECKS = ['models/aircraft/advanced_single_aisle/advanced_single_aisle_FLOPS.csv',
         'models/aircraft/small_single_aisle/small_single_aisle_GASP.csv',
         'models/aircraft/blended_wing_body/bwb_simple_FLOPS.csv',
         'models/aircraft/large_turboprop_freighter/large_turboprop_freighter_GASP.csv']
PHASES = ['models/missions/energy_state_default.py', 'models/missions/two_dof_default.py']
PKG = os.path.join(os.environ.get('AVSIM_REPO', '/repo'), 'aviary')


def setup(tier):
    import aviary.api  # noqa: F401

    converters.warm_imports()


def extra(rng, kind):
    """A small input for one of the readers, as text, and how it is read."""
    if kind == 'table':
        n = rng.choice((2, 5))
        h = rng.choice(('altitude (ft), mach (unitless, input), thrust (lbf, output)', 'Altitude, M, Net Thrust (lbf)', 'x (m), y (s), z'))
        return '# made up\n' + h + '\n' + ''.join(f'{i * 10}., {i / 10}, {round(rng.random(), 4)}\n' for i in range(n))
    if kind == 'aircraft':
        rows = ['# an aircraft', 'aircraft:wing:span, 100, ft', 'aircraft:crew_and_payload:design:num_passengers, 120, unitless',
                f'aircraft:wing:area, {rng.randrange(900, 2000)}, ft**2', 'mission:range, 2500, NM',
                f'initialization_guesses:flight_duration, {rng.randrange(1, 9)}', 'actual_takeoff_mass, 150000',
                'aircraft:nothing:here, 3, ft', 'settings:problem_type, SIZING', 'aircraft:engine:num_engines, [2]',
                'aircraft:wing:incidence, 2, deg', 'settings:mass_method, FLOPS']
        return '\n'.join(rng.sample(rows, rng.choice((3, 6, 10)))) + '\n'
    return ('phase_info = {"pre_mission": {"include_takeoff": False}, "cruise": {"user_options": {"num_segments": '
            f'{rng.randrange(1, 5)}' + '}}}\nLEFT = ' + str(rng.randrange(100)) + '\n'
            + rng.choice(('', 'import sys\n', 'phase_info["x"] = {}\n', 'assert "OTHER" not in globals()\n', 'OTHER = 1\n')))


def one(rng):
    k = rng.choice(('convert',) * 5 + ('table', 'engine', 'aircraft', 'aircraft', 'phase'))
    if k == 'convert':
        op = dict(op=k, src=converters.source(rng), rnd=rng.random() < 0.3, via=rng.choice(('api', 'api', 'cli')),
                  default=rng.random() < 0.3)
    else:
        op = dict(op=k)
        real = {'table': TABLES, 'engine': ENGINES, 'aircraft': DECKS, 'phase': PHASES}[k]
        if k == 'engine' or rng.random() < 0.35:
            op['real'] = rng.choice(real)
        else:
            op['text'] = extra(rng, k)
        if k == 'table':
            op['how'] = rng.choice(('plain', 'plain', 'aliases', 'metadata'))
        if k == 'engine':
            op['options'] = [o for o in ('idle', 'geo', 'negthrust', 'scale', 'global', 'altsort') if rng.random() < 0.3]
        op['scribble'] = rng.random() < 0.5
    if rng.random() < 0.2:
        op['mut'] = dict(how=rng.choice(converters.MUTATIONS), at=round(rng.random(), 4))
    return op


def gen(rng, i, tier):
    ops = [one(rng)]
    for _ in range(rng.choice((1, 2, 3, 4, 6))):
        ops.append(copy.deepcopy(rng.choice(ops)) if rng.random() < 0.25 else one(rng))
    plan = []
    for _ in range(rng.choice((0, 0, 1, 1, 2))):
        plan.append(dict(at=round(rng.random(), 4), arg=round(rng.random(), 3),
                         kind=rng.choice(('eio', 'enospc', 'eacces', 'interrupt', 'emfile', 'close_eio', 'short'))))
    return dict(prop=ID, seed=rng.randrange(1000), ops=ops, plan=plan)


def name_of(op):
    return {'table': 't.csv', 'engine': 'e.csv', 'aircraft': 'a.csv', 'phase': 'p.py',
            'convert': {'engine': 'e.eng', 'aero': 'x.txt', 'prop': 'm.map', 'deck': 'd.in'}.get(op.get('src', {}).get('kind'))}[op['op']]


def data_of(op):
    if op['op'] == 'convert':
        data = converters.content(op['src'])
    elif 'real' in op:
        with open(os.path.join(PKG, op['real']), 'rb') as f:
            data = f.read()
    else:
        data = op['text'].encode()
    return converters.mutate(data, op['mut']) if op.get('mut') else data


ALIASES = {'mission:altitude': ['altitude', 'Alt'], 'mach': ['M', 'Mach Number'], 'thrust': ['Net Thrust']}


def call(op, d):
    """Make the call in folder d; returns (canonical result, scribbler)."""
    name = os.path.join(d, name_of(op))
    none = lambda: None
    if op['op'] == 'convert':
        s = op['src']
        out = os.path.join(d, 'out.csv')
        if s['kind'] == 'deck':
            out = 'out.csv'
        if s['kind'] == 'aero' and s['fmt'] == 'FLOPS' and op['via'] == 'api':
            out = [out, out + '2']
        if op['default'] and s['kind'] in ('aero', 'deck'):
            out = None
        converters.convert(s['kind'], s['fmt'], name, out, op['via'], False, op['rnd'])
        return None, none
    if op['op'] == 'table':
        from aviary.utils.csv_data_file import read_data_file
        from aviary.variable_info.variable_meta_data import CoreMetaData

        kw = {'aliases': dict(aliases=ALIASES), 'metadata': dict(metadata=CoreMetaData), 'plain': {}}[op['how']]
        r = read_data_file(name, save_comments=True, verbosity=0, **kw)
        form = canon(list(r))

        def scribble():
            for key, (v, u) in r[0]:
                v[...] = 7.0
            for x in r[1:]:
                x.append('scribble')

        return form, scribble
    if op['op'] == 'engine':
        from aviary.subsystems.propulsion.engine_deck import EngineDeck
        from aviary.utils.aviary_values import AviaryValues
        from aviary.variable_info.variables import Aircraft, Settings

        o = AviaryValues()
        o.set_val(Settings.VERBOSITY, 0)
        o.set_val(Aircraft.Engine.DATA_FILE, name)
        if 'idle' in op['options']:
            o.set_val(Aircraft.Engine.GENERATE_FLIGHT_IDLE, True)
            o.set_val(Aircraft.Engine.FLIGHT_IDLE_THRUST_FRACTION, 0.02)
        if 'geo' in op['options']:
            o.set_val(Aircraft.Engine.GEOPOTENTIAL_ALT, True)
        if 'negthrust' in op['options']:
            o.set_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST, True)
        if 'scale' in op['options']:
            o.set_val(Aircraft.Engine.SCALE_FACTOR, 0.9)
        if 'global' in op['options']:
            o.set_val(Aircraft.Engine.GLOBAL_THROTTLE, True)
        if 'altsort' in op['options']:
            o.set_val(Aircraft.Engine.INTERPOLATION_SORT, 'altitude')
        e = EngineDeck('eng', o)
        form = [canon({k.name if hasattr(k, 'name') else k: v for k, v in x.items()}) for x in (e.data, e._original_data, e.engine_variables)]
        form += [canon(e.options), canon(e.model_length), canon(sorted(k.name for k in e.required_variables))]

        def scribble():
            for x in (e.data, e._original_data):
                for k in x:
                    x[k] = x[k] * 0
            e.engine_variables.clear()
            e.required_variables.clear()

        return form, scribble
    if op['op'] == 'aircraft':
        from aviary.utils.process_input_decks import create_vehicle

        vals, guesses = create_vehicle(name, verbosity=0)
        form = [canon(vals), canon(guesses)]

        def scribble():
            for k, (v, u) in vals:
                if hasattr(v, 'fill'):
                    v[...] = 3 if v.dtype.kind in 'if' else v
                elif isinstance(v, list):
                    v.append('scribble')
            guesses.clear()

        return form, scribble
    from pathlib import Path
    from aviary.utils.functions import load_phase_info_file

    r = load_phase_info_file(Path(name))
    form = canon(r)

    def scribble():
        for v in r.values():
            v['scribble'] = 1
        r.clear()

    return form, scribble


def client(ctx, ops, names):
    out = []
    fixtures.quiet()
    for op, d in zip(ops, names):
        n0, m0 = ctx.fs.n, len(ctx.warns)
        warnings.simplefilter('always')
        try:
            form, scribble = call(op, d)
            res = ['ok', form]
            if op.get('scribble'):
                scribble()
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            res = ['raise', type(e).__name__, str(e)[:600]]
        res.append(sorted(w for w in ctx.warns[m0:] if 'aviary' in w[1].lower() or w[0] == 'UserWarning'))
        ctx.fs.full = False  # space is freed, the bad sector replaced
        ctx.fs.bad.clear()
        out.append((res, [f for f in ctx.fs.fired if n0 <= f[0] < ctx.fs.n]))
    return out


def prepare(sim, root, ops, names):
    for op, d in zip(ops, names):
        os.makedirs(os.path.join(root, d))
        with open(os.path.join(root, d, name_of(op)), 'wb') as f:
            f.write(data_of(op))


def run(sim, case):
    ops = case['ops']
    names = [f'op{k}' for k in range(len(ops))]
    kw = dict(clock=dict(tick=1e-6), seed=case['seed'], user='ann')
    solo = []
    for k in range(len(ops)):
        host = sim.new_host()
        prepare(sim, host, [ops[k]], [names[k]])
        r = sim.process(client, [ops[k]], [names[k]], root=host, label='solo', quiet=True, **kw)
        if not r.ok:
            from sim.kernel import HarnessError

            raise HarnessError(f'solo: {r.why()} {r.exc}')
        solo.append((r.value[0][0], sim.tree(host), len(r.steps)))
    prepare(sim, sim.root, ops, names)
    total = sum(s[2] for s in solo)
    plan = {}
    for f in case['plan']:
        plan[int(f['at'] * total)] = dict(kind=f['kind'], arg=f['arg'], step=int(f['at'] * total))
    r = sim.process(client, ops, names, root=sim.root, label='sequence', plan=list(plan.values()), **kw)
    if not r.ok:
        from sim.kernel import HarnessError

        raise HarnessError(f'sequence: {r.why()} {r.exc}')
    tree = sim.tree()
    upset = False
    seen = set()
    for k, (res, fired) in enumerate(r.value):
        key = repr({x: y for x, y in ops[k].items() if x != 'scribble'})
        sim.state((k, ops[k]['op'], ops[k].get('src', {}).get('fmt'), res[0], [x[1:] for x in fired]))
        if [x for x in fired if x[3] != 'short']:
            upset = True
            continue
        if upset or key in seen:
            sim.nontrivial = True
        want, files, _ = solo[k]
        before = [f"{o['op']} {o.get('src') or o.get('real') or ''}" for o in ops[:k]]
        what = f"{ops[k]['op']} {ops[k].get('src') or ops[k].get('real') or 'generated'} {ops[k].get('mut') or ''} after {before}"
        if res != want:
            sim.violate('result-depends-on-history', f'{what}: alone {short(want)}, in sequence {short(res)}; {diff(want, res)[:4]}')
        mine = {p: v for p, v in tree.items() if p == names[k] or p.startswith(names[k] + '/')}
        mine = {p: v for p, v in mine.items() if '.tmp' not in p}
        if mine != files:
            bad = [p for p in sorted(set(mine) | set(files)) if mine.get(p) != files.get(p)]
            sim.violate('output-depends-on-history', f'{what}: {bad} differ: {line_diff(files.get(bad[0]), mine.get(bad[0]))}')
        sim.counts['calls_compared'] += 1
        seen.add(key)
        if res[0] != 'ok' or ops[k].get('scribble'):
            upset = True
        if len(sim.violations) > 2:
            return
    other = [p for p in tree if p.split('/')[0] not in names]
    if other:
        sim.violate('stray-file', f'{other}')


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + '...'


def line_diff(a, b):
    if a is None or b is None:
        return f'alone {a is not None}, in sequence {b is not None}'
    x, y = a.split(b'\n'), b.split(b'\n')
    only = [i for i in x if i not in y][:2], [i for i in y if i not in x][:2]
    return f'only alone {only[0]}, only in sequence {only[1]}'


def simplify(case):
    if case['plan']:
        c = copy.deepcopy(case)
        c['plan'] = []
        yield c
    for i, o in enumerate(case['ops']):
        for k, v in (('mut', None), ('scribble', False), ('rnd', False), ('via', 'api'), ('options', [])):
            if o.get(k):
                if o[k] != v:
                    c = copy.deepcopy(case)
                    c['ops'][i][k] = v
                    yield c
