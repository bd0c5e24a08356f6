"""P02 - saved results reload to the same aircraft, and saving changes nothing."""

import json
import os

from sim import fixtures, optimizer, values
from sim.canon import canon, diff

ID = 'P02'
TIERS = dict(quick=dict(cases=420, budget=170, floor=60), thorough=dict(cases=12000, budget=3000, floor=300))
RULE = ('seeded histories: one process edits up to 14 inputs of a set-up problem (any Core or custom metadata entry, any '
        'legal type), sets the sized gross mass and saves 1-3 times; 1-3 further processes in other working directories '
        'read or publicly reload the file with up to one read fault each and save it again; non-trivial = at least one '
        'edited non-float entry, custom entry or fault')
REAL = ['save_results', '_read_sizing_json', 'reload_aviary_problem with the whole problem assembly', 'AviaryValues typing']
STUB = ['disk calls (SimFS)', 'optimizer driver object (never run)', 'process boundaries (fork)']
ASSUMPTIONS = ['the reader is given the metadata the problem was built with',
               'values are compared bit for bit; units by spelling']
SHRINK = ('edits', 'readers', 'saves')

NOT_EDITED = ('mission:gross_mass', 'aircraft:design:gross_mass')
PROB = {}
CUSTOM = [
    ('aircraft:custom:span', dict(units='ft', desc='custom', default_value=1.0)),
    ('aircraft:custom:flag', dict(units='unitless', desc='custom', default_value=False, types=bool, option=True)),
    ('aircraft:custom:count', dict(units='unitless', desc='custom', default_value=1, types=int, option=True)),
    ('aircraft:custom:rates', dict(units='lbm/h', desc='custom', default_value=[0.0], types=(list, float), option=True, multivalue=True)),
    ('mission:custom:label', dict(units='unitless', desc='custom', default_value='x', types=str, option=True)),
]


def custom_meta():
    import copy
    import aviary.api as av

    m = copy.deepcopy(av.CoreMetaData)
    for k, kw in CUSTOM:
        av.add_meta_data(k, m, **kw)
    return m


def setup(tier):
    optimizer.install()
    for a in ('asa', 'bwb', 'min', 'ssg'):
        PROB[a] = fixtures.in_scratch(_sized, a)
    PROB['meta'] = custom_meta()


def _sized(a):
    pi = None
    if a == 'ssg':
        pi = two_dof()
    return fixtures.small_problem(a, pi, 'sized_' + a)


def two_dof():
    import copy
    from aviary.models.missions.two_dof_default import phase_info

    pi = copy.deepcopy(phase_info)
    for k, v in pi.items():
        if isinstance(v, dict) and 'num_segments' in v.get('user_options', {}):
            v['user_options']['num_segments'] = 1
    return pi


# entries the set-up and preprocessing code does not itself derive: safe for the public reload
PUBLIC = ['aircraft:wing:span', 'aircraft:wing:sweep', 'aircraft:fuselage:length', 'aircraft:horizontal_tail:area',
          'aircraft:vertical_tail:area', 'aircraft:design:touchdown_mass', 'aircraft:wing:thickness_to_chord',
          'aircraft:canard:area', 'aircraft:fins:area', 'aircraft:paint:mass_per_unit_area', 'aircraft:avionics:mass_scaler',
          'aircraft:wing:load_fraction', 'aircraft:fuselage:mass_scaler',
          'aircraft:furnishings:mass_scaler', 'aircraft:hydraulics:mass_scaler', 'aircraft:design:max_structural_speed',
          'aircraft:crew_and_payload:cargo_container_mass_scaler', 'aircraft:wing:mass_scaler',
          'mission:cruise:range_factor' , 'aircraft:electrical:mass_scaler']


def gen(rng, i, tier):
    from aviary.variable_info.variable_meta_data import CoreMetaData as M

    public = rng.random() < 0.3
    base = rng.choice(['asa', 'asa', 'bwb', 'min']) if public else rng.choice(['asa', 'bwb', 'min', 'ssg'])
    if public and rng.random() < (0.04 if tier == 'quick' else 0.1):
        base = 'ssg'
    custom = not public and rng.random() < 0.35
    names = [k for k, m in M.items() if k.split(':')[0] in ('aircraft', 'mission', 'settings') and k not in NOT_EDITED]
    edits = []
    for _ in range(rng.choice([0, 1, 3, 6, 10, 14])):
        if custom and rng.random() < 0.3:
            k, kw = rng.choice(CUSTOM)
            m = dict(units=kw['units'], types=kw.get('types', float), multivalue=kw.get('multivalue', False))
        elif public:
            k = rng.choice([n for n in PUBLIC if n in M])
            m = M[k]
        else:
            k = rng.choice(names)
            m = M[k]
        if public:
            v = ['f', round(rng.uniform(0.1, 200.0), rng.choice([0, 3, 9, 17]))]
        else:
            v = values.value_code(rng, m)
        if v is not None:
            edits.append([k, v, values.units_code(rng, m)])
    path = rng.choice(['sizing_results.json', 'out/s.json', 'r\u00e9s.json', 'deep/er/x.json'])
    readers = []
    for _ in range(rng.choice([1, 1, 2, 3]) if not public else rng.choice([1, 1, 2])):
        f = None
        if rng.random() < 0.35:
            f = dict(at=round(rng.random(), 4), kind=rng.choice(['eio', 'eio', 'eacces', 'emfile', 'interrupt', 'short', 'short']),
                     arg=round(rng.random(), 3))
        readers.append(dict(public=public, verbosity=rng.choice([0, 1, 2]), fault=f, cwd=rng.choice(['.', 'elsewhere']),
                            how=rng.choice(['str', 'path', 'abs']), resave=rng.random() < 0.7,
                            tear=(round(rng.random(), 4) if rng.random() < 0.12 else None)))
    return dict(prop=ID, base=base, custom=custom, edits=edits, path=path, readers=readers,
                gross=round(rng.uniform(5e4, 9e5), rng.choice([0, 2, 11])),
                saves=[rng.choice(['same', 'other']) for _ in range(rng.choice([0, 0, 1, 2]))])


def saver(ctx, case):
    import aviary.api as av

    fixtures.quiet()
    prob = PROB[case['base']]
    meta = PROB['meta'] if case['custom'] else av.CoreMetaData
    vals = prob.aviary_inputs
    skipped = 0
    for k, code, units in case['edits']:
        try:
            vals.set_val(k, values.decode(code, meta[k]), units, meta_data=meta)
        except Exception:
            skipped += 1  # not a legal value after all
    prob.set_val(av.Mission.GROSS_MASS, case['gross'], 'lbm')
    before = fixtures.inputs_of(vals)
    phase = canon(prob.model.mission_info), canon(prob.model.pre_mission_info), canon(prob.model.post_mission_info)
    gross = {u: float(prob.get_val(av.Mission.GROSS_MASS, u)[0]) for u in ('lbm', 'kg')}
    dgross = float(prob.get_val(av.Aircraft.Design.GROSS_MASS, 'lbm')[0])
    meta_before = canon(prob.meta_data)
    prob.save_results(case['path'])
    with open(case['path'], 'rb') as f:
        first = f.read()
    texts = [first]
    for s in case['saves']:
        p = case['path'] if s == 'same' else 'copy.json'
        prob.save_results(p)
        with open(p, 'rb') as f:
            texts.append(f.read())
    after = fixtures.inputs_of(vals)
    return dict(before=before, after=after, phase=diff(phase, (canon(prob.model.mission_info), canon(prob.model.pre_mission_info),
                canon(prob.model.post_mission_info))), gross=gross, dgross=dgross,
                gross_after=float(prob.get_val(av.Mission.GROSS_MASS, 'lbm')[0]), meta=diff(meta_before, canon(prob.meta_data)),
                same=[t == first for t in texts], skipped=skipped)


def reader(ctx, case, rd):
    import aviary.api as av
    from pathlib import Path
    from aviary.core import aviary_problem as ap

    fixtures.quiet()
    fixtures.stub_n2()
    meta = PROB['meta'] if case['custom'] else None
    host = ctx.fs.root
    p = os.path.join(host, case['path'])
    if rd['how'] == 'str':
        p = os.path.relpath(p)
    elif rd['how'] == 'path':
        p = Path(p)
    if rd['public']:
        pi = two_dof() if case['base'] == 'ssg' else fixtures.mission()
        pi0 = canon(pi)
        kw = {} if meta is None else dict(metadata=meta)
        q = ap.reload_aviary_problem(p, pi, verbosity=rd['verbosity'], **kw)
        vals = q.aviary_inputs
        out = dict(vals=fixtures.inputs_of(vals), gross=float(q.get_val(av.Mission.GROSS_MASS, 'lbm')[0]))
        if rd['resave']:
            q.save_results('again.json')
            with open('again.json') as f:
                out['again'] = f.read()
        return out
    m = meta if meta is not None else av.CoreMetaData
    m0 = canon(m)
    vals = ap._read_sizing_json(p, m, rd['verbosity'])
    out = dict(vals=fixtures.inputs_of(vals), meta=diff(m0, canon(m)))
    if rd['resave']:
        q = PROB['min' if case['base'] != 'min' else 'asa']
        q.model.aviary_inputs = vals
        q.aviary_inputs = vals
        q.set_val(av.Mission.GROSS_MASS, case['gross'], 'lbm')
        q.save_results('again.json')
        with open('again.json') as f:
            out['again'] = f.read()
    return out


def _rows(text):
    return {r[0]: r[1:] for r in json.loads(text)}


def run(sim, case):
    os.makedirs(os.path.join(sim.root, 'elsewhere'))
    d = os.path.dirname(case['path'])
    if d:
        os.makedirs(os.path.join(sim.root, d))
    s = sim.process(saver, case, root=sim.root, label='save', seed=1)
    if not s.ok:
        # a value that JSON cannot hold may be refused, loudly
        sim.state(('refused', s.exc[0]))
        sim.counts['refused_saves'] += 1
        if not any(e[1][0] in ('l', 'a') for e in case['edits']):
            sim.violate('save-raised', s.why())
        return
    v = s.value
    dd = diff(v['before'], v['after'])
    if dd:
        sim.violate('save-altered-inputs', dd)
    if v['phase'] or v['meta'] or v['gross_after'] != v['gross']['lbm']:
        sim.violate('save-altered-problem', (v['phase'], v['meta'], v['gross_after']))
    if not all(v['same']):
        sim.violate('second-save-differs', v['same'])
    kinds = {e[1][0] for e in case['edits']}
    sim.nontrivial = bool(kinds - {'f'}) or case['custom'] or any(r['fault'] or r['tear'] is not None for r in case['readers'])
    saved = {k: [val, u] for k, val, u in v['before']}
    with open(os.path.join(sim.root, case['path']), 'rb') as f:
        raw = f.read()
    rows = _rows(raw.decode('utf-8'))
    missing = [k for k in saved if k not in rows]
    if missing:
        sim.violate('entry-not-saved', missing[:5])
    meta_keys = set(PROB['meta']) if case['custom'] else None
    if meta_keys is None:
        from aviary.variable_info.variable_meta_data import CoreMetaData
        meta_keys = set(CoreMetaData)
    prior = raw
    for ri, rd in enumerate(case['readers']):
        host = sim.new_host()
        import shutil
        shutil.rmtree(host)
        shutil.copytree(sim.root, host)
        data = prior
        torn = rd['tear'] is not None
        if torn:
            data = raw[: int(len(raw) * rd['tear'])]
            sim.fault('torn_results_file')
        with open(os.path.join(host, case['path']), 'wb') as f:
            f.write(data)
        plan = []
        if rd['fault']:
            # fault numbering on the fault-free run of the same reader
            n = 2 + len(data) // 8192 + 1
            plan = [dict(rd['fault'], step=int(rd['fault']['at'] * n))]
        r = sim.process(reader, case, rd, root=host, cwd=rd['cwd'], label='read', plan=plan, seed=2 + ri,
                        only=lambda rel: rel == case['path'])
        hard = [x for x in r.fired if x[3] not in ('short',)]
        if not r.ok:
            sim.state(('read', r.exc and r.exc[0], tuple(x[1:4:2] for x in r.fired)))
            if not hard and not torn:
                sim.violate('reload-raised', r.why() + ' ' + (r.exc[2][-300:] if r.exc else ''))
            continue
        if torn and len(data) < len(raw.rstrip()):
            sim.violate('torn-file-accepted', f'{len(data)} of {len(raw)} bytes were read as a complete aircraft')
            continue
        if [x for x in hard if x[1] in ('open_r', 'read') and x[3] in ('eio', 'eacces', 'emfile')]:
            sim.violate('read-fault-swallowed', r.fired)
            continue
        # the caller of the public reload chooses the verbosity
        ignore = ('settings:verbosity',) if rd['public'] else ()
        got = {k: [val, u] for k, val, u in r.value['vals']}
        for k, want in saved.items():
            if k not in meta_keys or k in ignore:
                continue
            if k in NOT_EDITED:
                u = want[1]
                if k in got and u in v['gross'] and (got[k][1] != u or diff(got[k][0], v['gross'][u], rtol=1e-14)):
                    sim.violate('gross-mass-not-sized-one', f'{k}: {got[k]} but sized {v["gross"]}')
                elif k not in got:
                    sim.violate('entry-lost-on-reload', f'{k}: saved {want}, absent after reload')
                continue
            if k not in got:
                sim.violate('entry-lost-on-reload', f'{k}: saved {want}, absent after reload')
            elif got[k] != want and diff(got[k], want):
                sim.violate('entry-altered-on-reload', f'{k}: saved {want}, reloaded {got[k]}')
            if len(sim.violations) > 3:
                return
        extra = [k for k in got if k not in saved and k not in NOT_EDITED]
        if extra:
            sim.violate('entry-invented-on-reload', extra[:5])
        if r.value.get('meta'):
            sim.violate('read-altered-metadata', r.value['meta'])
        if rd['public'] and diff(r.value['gross'], v['gross']['lbm'], rtol=1e-13):
            sim.violate('gross-mass-not-sized-one', f"reloaded problem has {r.value['gross']}, sized {v['gross']['lbm']}")
        if 'again' in r.value:
            again = _rows(r.value['again'])
            a = {k: x for k, x in again.items() if k not in NOT_EDITED and k in meta_keys and k not in ignore}
            b = {k: x for k, x in rows.items() if k not in NOT_EDITED and k in meta_keys and k not in ignore}
            dd = diff(dict(sorted(a.items())), dict(sorted(b.items())))
            if dd:
                sim.violate('save-after-reload-differs', dd)
            g = again.get('mission:gross_mass')
            if g and diff(g[0], rows['mission:gross_mass'][0], rtol=1e-13):
                sim.violate('gross-mass-not-sized-one', f"saved again as {g}, first {rows['mission:gross_mass']}")
            sim.counts['chained_saves'] += 1
        sim.state(('read-ok', case['base'], rd['public'], tuple(sorted(kinds)), tuple(x[1:4:2] for x in r.fired)))


def simplify(case):
    import copy

    for i, r in enumerate(case['readers']):
        for k, d in (('fault', None), ('tear', None), ('resave', False), ('cwd', '.'), ('how', 'str'), ('verbosity', 0)):
            if r[k] != d:
                c = copy.deepcopy(case)
                c['readers'][i][k] = d
                yield c
    for k, d in (('custom', False), ('base', 'asa')):
        if case[k] != d:
            c = copy.deepcopy(case)
            c[k] = d
            yield c
