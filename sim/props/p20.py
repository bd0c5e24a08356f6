"""P20 - what counts in a problem are the inputs loaded last, whatever was tried in it before."""

import copy
import os

from sim import fixtures, kernel, optimizer, problems
from sim.canon import diff, digest
from sim.trace import LineFault

ID = 'P20'
TIERS = dict(quick=dict(cases=500, budget=45, floor=20), thorough=dict(cases=20000, budget=3000, floor=400))
RULE = ('in one AviaryProblem a seeded history of loading aircraft and missions (csv and phase_info files on the simulated disk, whose content '
        'may be replaced in between, containers and dictionaries of the caller; with and without modifiers), editing the loaded values, '
        'checking, handing over external subsystems early, and wrong calls, some of which fail at a seeded read, call of user code or line '
        'or for want of a file; then a last load, edits, a check (which may fail at a seeded read first) and the rest of a seeded program '
        'up to set-up; for multi-mission problems groups are tried in vain before they are added; compared with the same program in a fresh '
        'problem in a fresh process; non-trivial = an earlier attempt replaced inputs or failed')
REAL = ['AviaryProblem and AviaryGroup (all steps up to final set-up)', 'problem configurators, phase builders, preprocessors, core subsystem builders',
        'EngineDeck', 'csv and phase_info readers', 'OpenMDAO and Dymos set-up']
STUB = ["users' builders and modifiers (scripted)", 'disk (SimFS over a scratch directory)', 'optimizer', 'N2 diagram']
ASSUMPTIONS = ['the verbosity, problem type and metadata of the problem are given by the caller (Aviary documents that the first load decides otherwise)',
               'a check that failed is repeated with the same inputs; a load that failed is followed by another load']
SHRINK = ('attempts', 'check_faults')
STATE_MEASURE = 'distinct (sequence of attempts with what failed, sources of the inputs)'

FILES = ('core/aviary_problem.py', 'core/aviary_group.py', 'utils/preprocessors.py', 'utils/process_input_decks.py', 'problem_configurator.py',
         'propulsion/engine_deck.py', 'utils/functions.py', 'utils/aviary_values.py')
TEXT = {}
IO = ('eio', 'eacces', 'emfile', 'interrupt')
WRONG = ('group', 'signature', 'type', 'nofile', 'nophases', 'garbage', 'syntax')


def setup(tier):
    import aviary
    import aviary.interface.reports  # noqa: F401
    import aviary.mission.two_dof.phases  # noqa: F401
    import aviary.models.missions.energy_state_default  # noqa: F401
    import aviary.models.missions.two_dof_default  # noqa: F401

    fixtures.quiet()
    fixtures.stub_n2()
    optimizer.install()
    base = os.path.dirname(aviary.__file__)
    for k, rel in fixtures.AIRCRAFT.items():
        with open(os.path.join(base, rel)) as f:
            lines = f.read().split('\n')
        for j, line in enumerate(lines):
            if line.startswith('aircraft:engine:data_file,'):
                deck = line.split(',')[1].strip(" '\"")
                lines[j] = 'aircraft:engine:data_file,own_deck.csv,unitless'
        deck = os.path.join(base, deck[7:] if deck.startswith('aviary/') else deck)
        with open(deck) as f:
            TEXT[k] = ('\n'.join(lines), f.read())
    with open(os.path.join(base, 'models/missions/energy_state_default.py')) as f:
        TEXT['phases'] = f.read()


def phases_text(k):
    t = TEXT['phases']
    return t if not k else t + f"\nphase_info['cruise']['user_options']['num_segments'] = {k}\nphase_info['post_mission']['target_range'] = ({1500 + 100 * k}.0, 'nmi')\n"


def gen_load(rng, pool, own=0.45, gasp=0.2):
    """Arguments of one load (and the files it reads)."""
    s = dict(files={})
    is_gasp = rng.random() < gasp
    ac = rng.choice(problems.GASP_AC if is_gasp else problems.FLOPS_AC)
    r = rng.random()
    if r < own:
        s['inputs'] = ['path', 'own_plane.csv']
        s['files'] = {'own_plane.csv': ['plane', ac], 'own_deck.csv': ['deck', ac]}
    elif r < 0.7:
        s['inputs'] = ['file', ac]
    else:
        have = [k for k, o in enumerate(pool) if o['type'] == 'inputs']
        if have and rng.random() < 0.5:
            k = rng.choice(have)
        else:
            pool.append(problems.gen_inputs(rng, ac))
            k = len(pool) - 1
        s['inputs'] = ['pool', k]
        is_gasp = pool[k]['aircraft'] in problems.GASP_AC
    if not is_gasp:
        r = rng.random()
        if r < 0.25:
            s['phases'] = ['lit', 'own_phases.py']
            s['files']['own_phases.py'] = ['phases', rng.choice((0, 2, 3))]
        elif r < 0.8:
            have = [k for k, o in enumerate(pool) if o['type'] == 'phases']
            if have and rng.random() < 0.4:
                k = rng.choice(have)
            else:
                pool.append(problems.gen_phases(rng))
                k = len(pool) - 1
                more = [t for t in ('no_range', 'no_pre', 'no_post', 'reserve') if rng.random() < 0.12 and t not in pool[k]['twists']]
                pool[k]['twists'] += more[:1]
            s['phases'] = ['pool', k]
        if rng.random() < 0.25:
            s['modifier'] = rng.choice(('shift', 'drop'))
    if rng.random() < 0.35:
        s['edits'] = sorted(rng.sample([e for e in sorted(problems.EDITS) if e not in ('minfuel', 'maxrange', 'verb2')], rng.choice((1, 1, 2))))
        if is_gasp:
            s['edits'] = [e for e in s['edits'] if e not in ('pax', 'first')] or ['area']
    return s


def gen_fault(rng, files, check):
    site = rng.choices((None, 'io', 'missing', 'line', 'call'), (5, 4 if files else 0, 1 if files else 0, 2, 1))[0]
    if site is None:
        return None
    f = dict(site=site)
    if site == 'io':
        f.update(at=rng.randrange(6 if check else 14), kind=rng.choice(IO))
    elif site == 'missing':
        f.update(file=rng.choice(sorted(files)))
    elif site == 'line':
        f.update(at=int(10 ** rng.uniform(0, 4.2)))
    else:
        f.update(at=rng.randrange(4), kind=rng.choice(problems.CallFault.KINDS))
    return f


def gen(rng, i, tier):
    pool = []
    deep = rng.random() < 0.3
    s = dict(name='p0', depth=rng.choice(('setup', 'configured') if deep else ('check', 'check', 'build', 'configured')), verbosity=rng.choice((0, 0, 1)), ptype='sizing')
    att = []
    if rng.random() < 0.15:
        s['verbosity'] = 0
        s['multi'] = []
        s.pop('ptype')
        for k in range(2):
            g = gen_load(rng, pool, own=0.7, gasp=0)
            if k:  # one disk for both
                g['files'].update(s['files'])
            s.setdefault('files', {}).update(g.pop('files'))
            g.pop('edits', None)
            g['name'] = f'mission{k}'
            s['multi'].append(g)
            for _ in range(rng.choice((1, 1, 2))):
                f = gen_fault(rng, s['files'], False)
                if f:
                    att.append(dict(group=k, fault=f))
    else:
        last = gen_load(rng, pool)
        s.update(last)
        for _ in range(rng.choice((1, 1, 2, 3))):
            r = rng.random()
            if r < 0.12:
                att.append(dict(wrong=rng.choice(WRONG)))
                continue
            a = gen_load(rng, pool) if r < 0.8 else copy.deepcopy(last)
            a['check'] = rng.random() < 0.75
            a['fault'] = gen_fault(rng, a['files'], False)
            att.append(a)
        if rng.random() < 0.3:
            pool.append(dict(type='exts', items=[dict(type='builder', variant=rng.choice((['pre', 'post', 'dv'], ['pre', 'mission', 'post', 'dv', 'con'])))]
                             + ([dict(type='engine', aircraft='asa')] if rng.random() < 0.4 else [])))
            s['ext'] = ['pool', len(pool) - 1]
            if rng.random() < 0.6:
                s['early'] = True
        if rng.random() < 0.3:
            s['objective'] = rng.choice(('mass', 'time', 'fuel_burned', 'fuel'))
    if rng.random() < 0.3:
        s['parts'] = True
    if not s.get('multi') and rng.random() < 0.15:
        s['again'] = rng.choice((1, 1, 2))
    cf = [f for f in (gen_fault(rng, s.get('files') or {}, True) for _ in range(rng.choice((0, 0, 1, 2)))) if f]
    return dict(prop=ID, pool=pool, program=s, attempts=att, check_faults=[] if s.get('multi') else cf)


def put(ctx, files):
    for n, what in files.items():
        text = phases_text(what[1]) if what[0] == 'phases' else what[1] if what[0] == 'text' else TEXT[what[1]][0 if what[0] == 'plane' else 1]
        active, ctx.fs.active = ctx.fs.active, False
        try:
            with open(os.path.join(ctx.fs.root, n), 'w') as f:
                f.write(text)
        finally:
            ctx.fs.active = active


class Faulty:
    """Lets something go wrong while its body runs; `.fired` says what did."""

    def __init__(self, ctx, fault):
        self.ctx, self.f, self.fired = ctx, fault or {}, None

    def __enter__(self):
        f, fs = self.f, self.ctx.fs
        self.call = problems.CallFault(f['at'] if f.get('site') == 'call' else None, f.get('kind', 'user'))
        self.nf = len(fs.fired)
        self.gone = None
        fs.plan = {fs.n + f['at']: dict(step=fs.n + f['at'], kind=f['kind'])} if f.get('site') == 'io' else {}
        if f.get('site') == 'missing':
            self.gone = os.path.join(fs.root, f['file'])
            if os.path.exists(self.gone):
                os.rename(self.gone, self.gone + '.away')
            else:
                self.gone = None
        self.line = LineFault(FILES, f['at']) if f.get('site') == 'line' else None
        self.call.__enter__()
        if self.line:
            self.line.__enter__()
        return self

    def __exit__(self, t, e, tb):
        fs = self.ctx.fs
        if self.line:
            self.line.__exit__(t, e, tb)
        self.call.__exit__(t, e, tb)
        fs.plan = {}
        if self.gone:
            os.rename(self.gone + '.away', self.gone)
        if self.call.fired:
            self.fired = ['call', self.call.fired[0], self.f['kind']]
        elif len(fs.fired) > self.nf:
            self.fired = ['io', fs.fired[-1][1] + ' ' + fs.fired[-1][2], self.f['kind']]
        elif self.line is not None and self.line.fired:
            self.fired = ['line', self.line.fired[0], 'interrupt']
        elif self.gone:
            self.fired = ['missing', self.f['file'], '']
        return False


def wrong_call(ctx, p, what, pool_objects):
    """A call that cannot be carried out; returns the exception."""
    ph = fixtures.mission('cruise')
    plane = fixtures.AIRCRAFT['lsa2']
    if what == 'group':
        p.add_aviary_group('stray', aircraft=plane, phase_info=ph)
    elif what == 'signature':
        p.load_inputs(plane, ph, phase_info_modifier=lambda a, b: (a, b))
    elif what == 'type':
        p.load_inputs(12, ph)
    elif what == 'nofile':
        p.load_inputs('no_such_plane.csv', ph)
    elif what == 'nophases':
        p.load_inputs(plane, 'no_such_phases.py')
    elif what == 'garbage':
        put(ctx, {'garbage.csv': ['text', 'aircraft:wing:no_such_name,1.0,m,,\naircraft:wing:area,what,parsec\n']})
        p.load_inputs('garbage.csv', ph)
    elif what == 'syntax':
        put(ctx, {'broken.py': ['text', 'phase_info = {"climb": \n']})
        p.load_inputs(plane, 'broken.py')


def perform(ctx, case, history):
    s = case['program']
    objects = {k: problems.make_object(o) for k, o in enumerate(case['pool'])}
    s = dict(s)
    prog = problems.Program(s, objects)
    log = []
    prog.step()  # new
    early = history and s.get('early')
    if not history:
        put(ctx, s.get('files') or {})
        while not prog.done:
            prog.step()
        return dict(log=log, snap=snap(prog, objects, case))
    p = prog.prob
    if s.get('multi'):
        put(ctx, s['files'])
        for k in range(len(s['multi'])):
            name = f'group{k}'
            for a in [a for a in case['attempts'] if a.get('group') == k]:
                if prog.done or prog.steps[prog.pc] != name:
                    break
                fw = Faulty(ctx, a['fault'])
                with fw:
                    prog.step()
                log.append([name, fw.fired, prog.outcomes[-1][1]])
                if prog.outcomes[-1][1] != 'ok':  # try again
                    prog.outcomes.pop()
                    prog.pc -= 1
                    prog.dead = False
            if not prog.done and prog.steps[prog.pc] == name:
                prog.step()
        while not prog.done:
            prog.step()
    else:
        loaded = False
        for a in case['attempts']:
            if early and loaded:  # external subsystems can be handed over once something was loaded
                p.load_external_subsystems(objects[s['ext'][1]])
                early = False
                prog.steps = [n for n in prog.steps if n != 'ext']
            out, fired = 'ok', None
            if a.get('wrong'):
                try:
                    wrong_call(ctx, p, a['wrong'], objects)
                except (Exception, KeyboardInterrupt) as e:
                    out = type(e).__name__
                log.append([a['wrong'], ['wrong', a['wrong'], ''], out])
                continue
            put(ctx, a['files'])
            fw = Faulty(ctx, a.get('fault'))
            step = 'load'
            try:
                with fw:
                    sub = problems.Program(dict(a, name='p0', depth='check'), objects)
                    sub.prob = p
                    for step in ['load'] + (['edit'] if a.get('edits') else []) + (['check'] if a['check'] else []):
                        sub._do(step)
                        loaded = True
            except (Exception, KeyboardInterrupt) as e:
                out = type(e).__name__
            log.append([step, fw.fired, out])
        put(ctx, s.get('files') or {})
        ncheck = 0
        while not prog.done:
            if prog.steps[prog.pc] == 'check' and ncheck < len(case['check_faults']):
                fw = Faulty(ctx, case['check_faults'][ncheck])
                ncheck += 1
                with fw:
                    prog.step()
                if prog.outcomes[-1][1] == 'ok':
                    ncheck = 99
                else:
                    prog.outcomes.pop()
                    prog.pc -= 1
                    prog.dead = False
                log.append(['check', fw.fired, 'last'])
                continue
            if prog.steps[prog.pc] == 'check' and s.get('again'):  # a check may be repeated
                for _ in range(s.pop('again')):
                    try:
                        p.check_and_preprocess_inputs()
                    except Exception:  # then the next one fails as well, which is compared
                        pass
                    log.append(['check', None, 'again'])
            prog.step()
    ctx.note('history', log)
    return dict(log=log, snap=snap(prog, objects, case))


def snap(prog, objects, case):
    d = problems.snapshot(prog)
    d['outcomes'] = [o for o in d['outcomes'] if o[0] != 'ext']
    if any(o[1] != 'ok' for o in d['outcomes']):  # a program that cannot be carried out: only that it fails, and how, is compared
        d = dict(outcomes=d['outcomes'])
    return d


def run(sim, case):
    fresh = sim.process(perform, case, False, root=sim.new_host('fresh'), label='fresh')
    if not fresh.ok:
        raise kernel.HarnessError('fresh: ' + fresh.why() + (fresh.exc[2] if fresh.exc else ''))
    used = sim.process(perform, case, True, root=sim.new_host('used'), label='used')
    if not used.ok:
        raise kernel.HarnessError('used: ' + used.why() + (used.exc[2] if used.exc else ''))
    log = used.value['log']
    for step, fired, out in log:
        sim.counts['attempts'] += 1
        sim.nontrivial = True
        if fired and fired[0] != 'io':
            sim.fault(f'{fired[0]}:{fired[1] if fired[0] == "wrong" else fired[2] or "missing"}')
        if fired and fired[0] == 'wrong' and out == 'ok':
            sim.violate('accepted', f'the wrong call {fired[1]!r} was accepted', site=fired[1])
        if out not in ('ok', 'again', 'last'):
            sim.counts['failed_attempts'] += 1
    s = case['program']
    sim.state((digest([s.get('inputs'), s.get('phases'), s.get('multi')]), [(a, b, c) for a, b, c in log]))
    sim.counts['compared'] += 1
    d = diff(fresh.value['snap'], used.value['snap'])
    if d and not sim.violations:
        what = sorted({x.split(':')[0].strip('/').split('/')[0] + '/' + (x.split(':')[0].strip('/') + '//').split('/')[1] for x in d})
        sim.violate('leftover', f'after {[[a, b, c] for a, b, c in log]} the problem differs from a fresh one at {what}: ' + '; '.join(d[:4]))


def simplify(case):
    s = case['program']
    for key in ('modifier', 'edits', 'early', 'again', 'ext', 'parts', 'objective', 'phases'):
        if s.get(key) is not None:
            c = copy.deepcopy(case)
            del c['program'][key]
            if key == 'ext':
                c['program'].pop('early', None)
            yield c
    ds = problems.DEPTHS
    for d in ds[ds.index('check'): max(ds.index(s['depth']), 0)]:
        c = copy.deepcopy(case)
        c['program']['depth'] = d
        yield c
    for k, a in enumerate(case['attempts']):
        for key in ('fault', 'modifier', 'edits', 'phases'):
            if a.get(key) is not None and not (key == 'fault' and 'group' in a):
                c = copy.deepcopy(case)
                del c['attempts'][k][key]
                yield c
    for k, o in enumerate(case['pool']):
        for key in ('twists', 'edits', 'items'):
            for j in range(len(o.get(key, ()))):
                c = copy.deepcopy(case)
                del c['pool'][k][key][j]
                yield c
