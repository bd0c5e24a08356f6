"""P09 - file and model lookup is deterministic, safe and never picks silently wrong."""

import copy
import os
import shutil
import sys
from pathlib import Path

from sim import fixtures, kernel

ID = 'P09'
TIERS = dict(quick=dict(cases=1600, budget=170, floor=150), thorough=dict(cases=60000, budget=3000, floor=1500))
RULE = ('seeded histories of up to 30 steps in one process: lookups by get_path, get_model, create_vehicle, read_data_file and '
        'phase-info loading, mixed with file creations, rewrites (with a host clock that may stand still), moves, removals '
        'and changes of directory by other parties, also at a chosen directory-listing step in the middle of a lookup; '
        'every quiet lookup is made under three listing orders; non-trivial = at least one lookup that matched more than '
        'one candidate, missed, or raced with a change')
REAL = ['get_path', 'get_model', 'get_aviary_resource_path', 'create_vehicle / parse_inputs', 'read_data_file',
        'AviaryGroup.load_inputs (phase information file)', 'exec_mission up to run_aviary']
STUB = ['the Aviary package directory (a scratch tree behind the package loader)', 'directory order and read calls (SimFS)',
        'host clock (file time stamps)', 'run_aviary (records what it was given)']
ASSUMPTIONS = ['stat calls do not fail', 'no symbolic links or hidden files in the searched trees',
               'which of several packaged files of the same name is meant is not specified, only that the choice is stable']
SHRINK = ('ops', 'files')

STEMS = ('deck', 'table', 'phase')
DIRS = ('', 'sub', 'sub/deep', 'other')
EXT = {'deck': ('.csv', '.CSV', '.txt', '.dat', ''), 'table': ('.csv', '.txt', '.deck'), 'phase': ('.py', '.txt')}


def setup(tier):
    import aviary.api as av
    import aviary.interface.run_aviary as ra  # noqa: F401
    from aviary.core.aviary_group import AviaryGroup  # noqa: F401
    import aviary.utils.functions as f  # noqa: F401
    import aviary.utils.csv_data_file  # noqa: F401


# ---- generation ------------------------------------------------------------------------------------
def _name(rng):
    s = rng.choice(STEMS)
    d = rng.choice(DIRS + ('', ''))
    n = s + rng.choice(('', '', '_1')) + rng.choice(EXT[s])
    return os.path.join(d, n)


def _place(rng):
    return rng.choice(('cwd', 'cwd', 'pkg', 'models', 'models', 'models', 'abs', 'cwd2'))


def _edit(rng):
    k = rng.choice(('put', 'put', 'rewrite', 'move', 'remove', 'remove'))
    e = dict(op=k, place=_place(rng), name=_name(rng), tick=rng.choice((0, 0, 0, 0.4, 3)))
    if k == 'move':
        e.update(place2=_place(rng), name2=_name(rng))
    if k in ('remove', 'rewrite', 'move'):
        e['pick'] = round(rng.random(), 4)  # among the files there are
    return e


def _lookup(rng):
    api = rng.choice(('get_path', 'get_path', 'get_path', 'get_model', 'get_model', 'vehicle', 'table', 'phase', 'phase', 'cli'))
    lk = dict(op='look', api=api, pick=(round(rng.random(), 4) if rng.random() < 0.75 else None), name=_name(rng),
              form=rng.choice(('as', 'as', 'base', 'stem', 'noext', 'wrongext', 'wrongdir', 'abs')), kind=rng.choice(('str', 'path')),
              verbosity=rng.choice((0, 1, 2, 3)))
    if rng.random() < 0.25:
        lk['race'] = dict(_edit(rng), at=rng.choice((0, 0, 1, 2, 3)))
    elif rng.random() < 0.15:
        lk['fault'] = dict(at=round(rng.random(), 4), kind=rng.choice(('eio', 'eacces', 'emfile', 'short', 'interrupt')))
    return lk


def gen(rng, i, tier):
    files = [dict(place=_place(rng), name=_name(rng)) for _ in range(rng.choice((1, 3, 6, 10)))]
    ops = []
    for _ in range(rng.choice((3, 8, 16, 30))):
        r = rng.random()
        if r < 0.6:
            ops.append(_lookup(rng))
        elif r < 0.93:
            ops.append(_edit(rng))
        else:
            ops.append(dict(op='chdir', to=rng.choice(('cwd', 'cwd2'))))
        if ops[-1]['op'] == 'rewrite' and rng.random() < 0.6:
            lk = _lookup(rng)
            lk.pop('race', None)
            lk.update(pick=ops[-1]['pick'], form='as', api='phase')
            ops[-1:] = [lk, ops[-1], copy.deepcopy(lk)]
    return dict(prop=ID, pkgdir=rng.choice(('site/aviary', 'site/aviary', 'env[1]/aviary', 'a b/aviary')), files=files, ops=ops,
                pyc=rng.random() < 0.7, salt=rng.randrange(1 << 30))


# ---- the simulated host ----------------------------------------------------------------------------
class Host:
    def __init__(self, root, case):
        self.places = {
            'cwd': os.path.join(root, 'work'), 'cwd2': os.path.join(root, 'work2'), 'abs': os.path.join(root, 'data'),
            'pkg': os.path.join(root, case['pkgdir']), 'models': os.path.join(root, case['pkgdir'], 'models')}
        for p in self.places.values():
            os.makedirs(p, exist_ok=True)
        open(os.path.join(self.places['pkg'], '__init__.py'), 'w').close()
        self.now = 1.7e9
        self.next_id = 100
        self.ids = {}  # path -> id

    def path(self, place, name):
        return os.path.join(self.places[place], name)

    def put(self, p, tick=0):
        if os.path.isdir(p) or any(os.path.isfile(q) for q in _parents(p)):
            return False
        os.makedirs(os.path.dirname(p), exist_ok=True)
        self.next_id += 1
        n = self.next_id
        self.now += tick
        stem = os.path.basename(p)
        if stem.startswith('deck'):
            text = f'aircraft:wing:span,{n},ft\n'
        elif stem.startswith('table'):
            text = f'x (m), y (ft)\n1.0, {n}\n2.0, {n}\n'
        else:
            text = f'phase_info = {{"pre_mission": {{}}, "p": {{"id": {n}}}, "post_mission": {{}}}}\n'
        with open(p, 'w') as f:
            f.write(text)
        os.utime(p, (self.now, self.now))
        self.ids[p] = n
        return True

    def files(self):
        return sorted(self.ids)

    def apply(self, e):
        """One edit by another party; returns a short description."""
        fs = self.files()
        p = self.path(e['place'], e['name'])
        self.now += e.get('tick', 0)
        if e['op'] == 'put':
            return ['put', p] if self.put(p) else ['none']
        if not fs:
            return ['none']
        src = fs[int(e['pick'] * len(fs)) % len(fs)]
        if e['op'] == 'rewrite':
            self.put(src)
            return ['rewrite', src]
        if e['op'] == 'remove':
            os.remove(src)
            del self.ids[src]
            return ['remove', src]
        dst = self.path(e['place2'], e['name2'])
        # a move keeps the kind of file
        dst = os.path.join(os.path.dirname(dst), os.path.basename(src).split('.')[0].split('_')[0] +
                           ('_1' if '_1' in os.path.basename(dst) else '') + os.path.splitext(src)[1])
        if os.path.exists(dst) or any(os.path.isfile(q) for q in _parents(dst)):
            return ['none']
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        os.rename(src, dst)
        self.ids[dst] = self.ids.pop(src)
        return ['move', src, dst]


def _parents(p):
    out = []
    while True:
        p = os.path.dirname(p)
        if p in ('/', ''):
            return out
        out.append(p)


# ---- reference resolution --------------------------------------------------------------------------
def listing(root):
    """Everything below root, directories included, root itself first (what a recursive glob reports)."""
    out = [root]
    for d, dirs, files in os.walk(root):
        out += [os.path.join(d, n) for n in dirs + files]
    return out


def ref_model(host, name, exists, lst):
    """The set of acceptable results in the packaged models ('' = not found)."""
    p = os.path.join(host.places['models'], name)
    if exists(p):
        return {_norm(p)}
    want, stem = Path(p).name, Path(p).stem
    exact = {q for q in lst if os.path.basename(q) == want}
    if exact:
        return exact
    close = {q for q in lst if Path(q).stem == stem}
    csv = {q for q in close if Path(q).suffix.lower() == '.csv'}
    return csv or close or {''}


def _norm(p):
    return os.path.normpath(p)


def resolve(host, api, name, cwd):
    lst = listing(host.places['models'])
    if api == 'get_model':
        return ref_model(host, name, os.path.exists, lst)
    for base in (cwd, host.places['pkg']):
        p = os.path.join(base, name)
        if os.path.exists(p):
            return {_norm(p)}
    return ref_model(host, name, os.path.exists, lst)


# ---- the simulated process -------------------------------------------------------------------------
def client(ctx, case):
    import importlib.machinery
    import aviary
    import aviary.utils.functions as F

    fixtures.quiet()
    ctx.fs.active = False
    host = Host(ctx.fs.root, case)
    pkg = host.places['pkg']
    loader = importlib.machinery.SourceFileLoader('aviary', os.path.join(pkg, '__init__.py'))
    aviary.__spec__.loader = loader
    aviary.__spec__.origin = loader.path
    aviary.__loader__ = loader
    aviary.__file__ = loader.path
    F.top_dir = Path(pkg)
    sys.dont_write_bytecode = not case['pyc']
    os.chdir(host.places['cwd'])
    for f in case['files']:
        host.put(host.path(f['place'], f['name']))
    out = []
    for op in case['ops']:
        if op['op'] == 'chdir':
            os.chdir(host.places[op['to']])
            continue
        if op['op'] != 'look':
            ctx.note('edit', [x.replace(ctx.fs.root, '') for x in host.apply(op)])
            continue
        out.append(look(ctx, host, case, op))
    return out


def target(host, op):
    fs = host.files()
    if op['pick'] is None or not fs:
        name = op['name']
    else:
        full = fs[int(op['pick'] * len(fs)) % len(fs)]
        if op['form'] == 'abs':
            return full
        base = max((p for p in host.places.values() if full.startswith(p + os.sep)), key=len)
        name = os.path.relpath(full, base)
    d, b = os.path.split(name)
    st, ex = os.path.splitext(b)
    form = op['form']
    if form == 'base':
        name = b
    elif form == 'stem':
        name = st
    elif form == 'noext':
        name = os.path.join(d, st)
    elif form == 'wrongext':
        name = os.path.join(d, st + '.xyz')
    elif form == 'wrongdir':
        name = os.path.join('nodir', b)
    return name


def call(api, name, op):
    """(outcome, value): what the client saw."""
    import aviary.api as av
    import aviary.utils.functions as F
    from aviary.utils.csv_data_file import read_data_file
    from aviary.utils.process_input_decks import create_vehicle
    from aviary.variable_info.enums import Verbosity

    v = Verbosity(op['verbosity'])
    arg = name if op['kind'] == 'str' else Path(name)
    try:
        if api == 'get_path':
            r = F.get_path(arg, v)
            return ['path', str(r), r.is_absolute()]
        if api == 'get_model':
            r = F.get_model(arg, v)
            return ['path', str(r), r.is_absolute()]
        if api == 'vehicle':
            vals, _ = create_vehicle(arg, verbosity=v)
            return ['id', int(vals.get_val('aircraft:wing:span', 'ft')) if 'aircraft:wing:span' in vals else None]
        if api == 'table':
            t, *_ = read_data_file(arg, verbosity=v)
            return ['id', int(t.get_val('y', 'ft')[-1]), len(t.get_val('x', 'm'))]
        if api == 'cli':
            import aviary.interface.run_aviary as ra

            ra.run_aviary = lambda deck, phase_info, **kw: phase_info
            r = ra.run_aviary_cmd("deck", phase_info=name, verbosity=int(v))
            return ['id', r['p']['id']]
        if api == 'phase':
            from aviary.core.aviary_group import AviaryGroup

            g = AviaryGroup()
            g.load_inputs(_vals(), arg, verbosity=v)
            return ['id', g.mission_info['p']['id']]
    except (Exception, KeyboardInterrupt) as e:
        return ['raise', type(e).__name__, str(e)[:400], isinstance(e, OSError), op.get('trace') and repr(e.__traceback__)]


def _vals():
    import aviary.api as av

    vals = av.AviaryValues()
    for k, x in (('settings:equations_of_motion', 'energy_state'), ('settings:mass_method', 'FLOPS'),
                 ('settings:aerodynamics_method', 'FLOPS'), ('aircraft:engine:data_file', 'x')):
        vals.set_val(k, x)
    return vals


KIND = {'vehicle': 'deck', 'table': 'table', 'phase': 'phase', 'cli': 'phase'}


def look(ctx, host, case, op):
    api = op['api']
    name = target(host, op)
    if api in KIND and not os.path.basename(name).startswith(KIND[api]):
        # reading a file of another kind is not a lookup question
        api = 'get_path'
    cwd = os.getcwd()
    rel = lambda s: s.replace(os.path.realpath(ctx.fs.root), '$H')
    before = kernel.tree(ctx.fs.root)
    want = resolve(host, api, name, cwd)
    ids = dict(host.ids)
    res = []
    race, fault = op.get('race'), op.get('fault')
    raced = None
    fired = 0
    if fault:
        # first a clean pass to count the steps of this lookup
        ctx.fs.active = True
        ctx.fs.n, ctx.fs.plan = 0, {}
        call(api, name, op)
        n = ctx.fs.n
        ctx.fs.plan = {int(fault['at'] * max(1, n)): fault}
        ctx.fs.n = 0
        k = len(ctx.fs.fired)
        res.append(call(api, name, op))
        fired = [f[1] for f in ctx.fs.fired[k:]]
        ctx.fs.plan = {}
        ctx.fs.active = False
    elif race:
        state = dict(n=0)
        real = ctx.fs.scandir

        def scandir(path='.'):
            if state['n'] == race['at'] and 'did' not in state:
                state['did'] = 1
                a, ctx.fs.active = ctx.fs.active, False
                state['what'] = host.apply(race)
                ctx.fs.active = a
            state['n'] += 1
            return real(path)

        ctx.fs.active = True
        ctx.fs.listing = case['salt']
        os.scandir = scandir
        res.append(call(api, name, op))
        os.scandir = real
        ctx.fs.active = False
        raced = state.get('what')
        if raced:
            raced = [rel(x) for x in raced]
    else:
        for s in (None, case['salt'], case['salt'] + 1):
            ctx.fs.active = True
            ctx.fs.listing = s
            res.append(call(api, name, op))
            ctx.fs.active = False
    if race:
        after = None
    else:
        after = kernel.tree(ctx.fs.root)
    changed = []
    if after is not None and after != before:
        changed = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
        for k in changed:  # do not let a later lookup be blamed again
            if k not in before:
                p = os.path.join(ctx.fs.root, k)
                (shutil.rmtree if os.path.isdir(p) else os.remove)(p) if os.path.exists(p) else None
    want2 = resolve(host, api, name, cwd) if race else want
    if raced and raced[0] == 'move':
        # a search is not a snapshot: it may see the moved file in neither place
        dst = state['what'][2]
        os.rename(dst, os.path.join(ctx.fs.root, 'hidden'))
        want2 = want2 | resolve(host, api, name, cwd)
        os.rename(os.path.join(ctx.fs.root, 'hidden'), dst)
    norm = lambda w: sorted(rel(x) for x in w)
    for r in res:
        if r[0] == 'path':
            r[1] = rel(_norm(os.path.join(cwd, r[1])))
    return dict(api=api, name=rel(name), want=norm(want), want2=norm(want2),
                want_ids=sorted({ids.get(x) for x in want if x} | {host.ids.get(x) for x in want2 if x} - {None}, key=str),
                known={rel(k): v for k, v in host.ids.items()}, res=[[rel(x) if isinstance(x, str) else x for x in r] for r in res],
                changed=changed, raced=raced, raced_dst=bool(race), fault=fault and fault['kind'], fired=fired, cwd=rel(cwd))


# ---- oracle ----------------------------------------------------------------------------------------
def run(sim, case):
    r = sim.process(client, case, root=sim.root, label='client', seed=3)
    if not r.ok:
        raise kernel.HarnessError(r.why() + (r.exc[2] if r.exc else ''))
    for e in r.value:
        sim.note('look', e['api'], e['name'], e['res'], e['want'])
        sim.counts['lookups'] += 1
        if len(e['want']) > 1 or e['want'] == [''] or e['raced']:
            sim.nontrivial = True
        sim.state((e['api'], len(e['want']), e['want'] == [''], [x[0] for x in e['res']], e['fault'], bool(e['raced'])))
        if e['raced'] and e['raced'][0] != 'none':
            sim.fault('file_' + e['raced'][0] + '_during_lookup')
        judge(sim, e)
        if len(sim.violations) > 3:
            return


def judge(sim, e):
    w = set(e['want']) | (set(e['want2']) if e['raced'] else set())
    miss = '' in w or bool(e['raced'])  # a racing scan may miss a file that moves
    what = f"{e['api']}({e['name']!r}) in {e['cwd']}"
    for r in e['res']:
        if r[0] == 'raise' and e['api'] in ('phase', 'cli') and any(not x.endswith('.py') for x in w):
            continue  # only a Python file can hold phase information
        if e['fault']:
            hard = e['fault'] != 'short' and any(op in ('open_r', 'read') for op in e['fired'])
            listed = any(op == 'list' for op in e['fired'])
            if r[0] == 'raise':
                if not e['fired'] and not miss and '' not in w:
                    sim.violate('lookup-raised', f'{what}: {r[1]}: {r[2]}, expected one of {e["want"]}')
                continue
            if hard:
                sim.violate('read-fault-swallowed', f'{what}: {e["fault"]} at {e["fired"]} gave {r}')
            if listed:
                continue  # an unreadable directory may hide its files from the search
        if r[0] == 'raise':
            if not miss:
                # the directory is found, but is not a file of the kind asked for
                if e['api'] not in ('get_path', 'get_model') and any(x not in e['known'] for x in w):
                    continue
                sim.violate('lookup-raised', f'{what}: {r[1]}: {r[2]}, expected one of {sorted(w)}')
            elif '' in w and not e['raced']:
                if r[1] != 'FileNotFoundError':
                    sim.violate('wrong-error', f'{what}: nothing matches, got {r[1]}: {r[2]}')
                elif e['api'] != 'get_model' and e['name'].replace('$H', '') not in r[2].replace('$H', ''):
                    sim.violate('error-does-not-name-file', f'{what}: {r[2]}')
            continue
        if r[0] == 'path':
            if r[1] not in w:
                sim.violate('wrong-file', f'{what} gave {r[1]}, expected one of {sorted(w)}')
        else:
            if w == {''} and not e['raced']:
                sim.violate('wrong-file', f'{what} gave contents {r}, nothing matches')
            elif r[1] not in e['want_ids']:
                sim.violate('wrong-contents', f'{what} gave contents {r[1:]}, expected those of {sorted(w)}: {e["want_ids"]}')
    if len(e['res']) > 1:
        keep = [r if r[0] != 'raise' else r[:2] for r in e['res']]
        if any(k != keep[0] for k in keep):
            sim.violate('depends-on-listing-order', f'{what}: {keep}')
    if e['changed']:
        sim.violate('lookup-changed-files', f'{what}: {e["changed"][:4]}')


def simplify(case):
    for k, d in (('pkgdir', 'site/aviary'), ('pyc', False)):
        if case[k] != d:
            c = copy.deepcopy(case)
            c[k] = d
            yield c
    for i, o in enumerate(case['ops']):
        for k in ('race', 'fault'):
            if k in o:
                c = copy.deepcopy(case)
                del c['ops'][i][k]
                yield c
