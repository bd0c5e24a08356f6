"""P15 - metadata and hierarchy registries stay isolated and order-stable."""

import copy
import json
import os
import subprocess
import sys

from sim.canon import short
from sim.trace import LineFault

ID = 'P15'
TIERS = dict(quick=dict(cases=900, budget=120, floor=100), thorough=dict(cases=40000, budget=3000, floor=1000))
RULE = ('seeded histories of 6-30 add/update/merge/copy operations by several clients on metadata registries and on '
        'generated variable hierarchies, with interrupts at arbitrary source lines, checked against a plain model after '
        'each operation; a share of the cases is repeated in fresh interpreters under other hash seeds and must give the '
        'same order; non-trivial = a rejected or interrupted operation and a merge')
REAL = ['add_meta_data, update_meta_data', 'merge_meta_data', 'merge_hierarchies and compare_hierarchies', 'core Aircraft/Mission/Dynamic hierarchies and CoreMetaData']
STUB = ['asynchronous interrupts (line tracer)', 'interleaving of clients (seeded operation order)']
ASSUMPTIONS = ['hierarchy extensions subclass the core inner class they extend, as documented']
SHRINK = ('ops',)
STATE_MEASURE = 'hash of (operation, outcome, registry sizes)'

FILES = ('utils/develop_metadata.py', 'utils/merge_variable_metadata.py', 'utils/merge_hierarchies.py', 'utils/compare_hierarchies.py')
KEYS = [f'aircraft:c{i}:x{i % 3}' for i in range(14)] + ['mission:c:dist', 'custom:a', 'z', 'A']
INNER = {'Aircraft': ['Wing', 'Engine', 'Fuselage', 'HorizontalTail', 'LandingGear'], 'Mission': ['Takeoff', 'Landing', 'Constraints'], None: []}


def setup(tier):
    import aviary.api  # noqa: F401
    import aviary.utils.merge_hierarchies  # noqa: F401


def _entry(rng):
    kw = {}
    if rng.random() < 0.8:
        kw['units'] = rng.choice(['ft', 'lbm', 'unitless', 'kn', None, 'deg'])
    if rng.random() < 0.7:
        kw['default_value'] = rng.choice([0, 1, 2.5, -3, 'text', None, True, [1.0, 2.0], '7'])
    if rng.random() < 0.3:
        kw['types'] = rng.choice(['float', 'int', 'str', 'bool'])
    if rng.random() < 0.3:
        kw['multivalue'] = rng.random() < 0.5
    if rng.random() < 0.3:
        kw['option'] = rng.random() < 0.5
    if rng.random() < 0.6:
        kw['desc'] = rng.choice(['a', 'some text', 'caf\u00e9'])
    if rng.random() < 0.4:
        kw['historical_name'] = rng.choice([None, {'GASP': 'INGASP.X', 'FLOPS': None}, {'GASP': ['A', 'B']}])
    return kw


def _tree(rng, kind, depth=0, bad=0.0):
    """Spec of a class body: {name: value or nested dict}."""
    body = {}
    for _ in range(rng.choice([0, 1, 2, 3])):
        n = rng.choice(['ALPHA', 'BETA', 'MASS_X', 'CG', 'DELTA', 'EPS'])
        body[n] = f'v:{n.lower()}:{depth}' + (':bad' if rng.random() < bad else '')
    if depth < 3:
        for _ in range(rng.choice([0, 1, 2, 3] if depth == 0 else [0, 0, 1, 1])):
            n = rng.choice(['Jury', 'Nose', 'Flap', 'Extra'] + (INNER[kind] * 2 if depth == 0 else []))
            body[n] = _tree(rng, kind, depth + 1, bad)
    if depth == 1 and rng.random() < bad:
        body['MASS'] = 'v:conflict'
    if rng.random() < bad / 3:
        body[rng.choice(['Jury', 'ALPHA'])] = rng.choice(['v:x', {'Q': 'v:q'}])
    return body


def gen(rng, i, tier):
    ops = []
    bad = rng.choice([0.0, 0.0, 0.03, 0.15])
    for _ in range(rng.choice([6, 12, 20, 30])):
        r = rng.random()
        ci = rng.randrange(16)
        if r < 0.34:
            op = ['add', ci, rng.choice(KEYS), _entry(rng)]
        elif r < 0.5:
            op = ['update', ci, rng.choice(KEYS), _entry(rng)]
        elif r < 0.66:
            op = ['merge', [rng.randrange(16) for _ in range(rng.choice([1, 2, 2, 3, 4]))]]
        elif r < 0.72:
            op = ['fork', ci, rng.choice(['copy', 'deepcopy', 'empty', 'core'])]
        elif r < 0.85:
            kind = rng.choice(['Aircraft', 'Aircraft', 'Mission', None])
            op = ['class', kind, _tree(rng, kind, 0, bad)]
        elif r < 0.97:
            op = ['mergeh', [rng.randrange(16) for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))], rng.random() < 0.5]
        else:
            op = ['poke', ci, rng.choice(['Wing', 'Jury', 'Takeoff'])]
        if rng.random() < 0.08 and op[0] in ('add', 'update', 'merge', 'mergeh'):
            op = ['fault', round(rng.random(), 4), op]
        ops.append(op)
    return dict(prop=ID, ops=ops, hashes=rng.choice([[]] * 6 + [[3], [7, 123]]), core=rng.random() < 0.5)


# ------------------------------------------------------------------------------- class helpers
def build_class(kind, body, name='Ext'):
    from aviary.variable_info import variables as av

    core = {'Aircraft': av.Aircraft, 'Mission': av.Mission, None: None}[kind]

    def mk(name, body, base):
        ns = {}
        for k, v in body.items():
            if isinstance(v, dict):
                b = getattr(base, k, None) if base is not None else None
                ns[k] = mk(k, v, b if isinstance(b, type) else None)
            else:
                ns[k] = v
        ns['__module__'] = 'client'
        c = type(name, (base,) if base is not None else (), ns)
        return c

    return mk(name, body, core)


def own(cls):
    out = {}
    for k, v in vars(cls).items():
        if k.startswith('__'):
            continue
        out[k] = own(v) if isinstance(v, type) else v
    return out


def resolved(cls):
    """All entries reachable from a class, inherited ones included."""
    out = {}
    for c in reversed(cls.__mro__[:-1]):
        for k in vars(c):
            if not k.startswith('__'):
                v = getattr(cls, k)
                out[k] = resolved(v) if isinstance(v, type) else v
    return out


def covered(part, whole, path=''):
    for k, v in part.items():
        if k not in whole:
            return f'{path}.{k} is missing'
        if isinstance(v, dict) != isinstance(whole[k], dict):
            return f'{path}.{k} changed kind'
        if isinstance(v, dict):
            r = covered(v, whole[k], path + '.' + k)
            if r:
                return r
        elif v != whole[k]:
            return f'{path}.{k} is {whole[k]!r}, was {v!r}'
    return None


def m_conflict(a, b):
    """Do two own-entry trees disagree?"""
    for k in a:
        if k in b:
            if isinstance(a[k], dict) != isinstance(b[k], dict):
                return True
            if isinstance(a[k], dict):
                if m_conflict(a[k], b[k]):
                    return True
            elif a[k] != b[k]:
                return True
    return False


def union(trees):
    out = {}
    for t in trees:
        for k, v in t.items():
            if isinstance(v, dict):
                out[k] = union([out.get(k, {}), v])
            else:
                out[k] = v
    return out


TYPES = dict(float=float, int=int, str=str, bool=bool)


def m_entry(kw):
    """The stored form of an add, from its documentation."""
    d = kw.get('default_value', 0.0)
    t = kw.get('types')
    t = TYPES[t] if t else None
    if t is None and d is not None:
        if isinstance(d, (int, float, bool)) or isinstance(d, str) and d.strip('-').isdigit():
            d = float(d)
        t = type(d)
    return dict(historical_name=kw.get('historical_name'), units=kw.get('units', 'unitless') or 'unitless', desc=kw.get('desc'),
                option=kw.get('option', False), default_value=d, types=t, multivalue=kw.get('multivalue', False))


def same_entry(a, b):
    if a is b or a == b:
        return True
    for k in set(a) | set(b):
        if k not in a or k not in b:
            return False
        x, y = a[k], b[k]
        if isinstance(x, float) and isinstance(y, float):
            if abs(x - y) > 1e-8 * abs(y):
                return False
        elif x != y:
            return False
    return True


def history(ops, use_core=False, faults=True):
    """Run the operations; returns the problems found and the orders produced."""
    import aviary.utils.develop_metadata as dm
    import aviary.utils.merge_hierarchies as mh
    import aviary.utils.merge_variable_metadata as mm
    from aviary.variable_info import variables, variable_meta_data as vmd

    core_cls = [variables.Aircraft, variables.Mission, variables.Dynamic, variables.Settings]
    core_before = [own(c) for c in core_cls]
    core_meta = {k: dict(v) for k, v in vmd.CoreMetaData.items()}, {k: dict(v) for k, v in vmd._MetaData.items()}
    regs, models = [{}, {}], [{}, {}]
    classes, cmods = [], []
    problems, log, orders = [], [], []
    stats = dict(rejected=0, faulted=0, merges=0, ops=0)

    def bad(kind, detail):
        problems.append([kind, str(detail)[:900]])

    def check_all(op, skip=None):
        for j, (r, m) in enumerate(zip(regs, models)):
            if list(r) != list(m):
                bad('registry-keys-changed', f'after {op} registry {j} has {list(r)[:6]}.. want {list(m)[:6]}..')
                return
            if len(r) < 60:
                for k in m:
                    if r[k] != m[k] or repr(sorted(r[k].items())) != repr(sorted(m[k].items())):
                        bad('registry-entry-changed', f'after {op} registry {j} {k}: {r[k]} want {m[k]}')
                        return
        for j, (c, m) in enumerate(zip(classes, cmods)):
            if own(c) != m:
                bad('hierarchy-changed', f'after {op} hierarchy {j}: {covered(m, own(c)) or covered(own(c), m)}')
                return
        for c, b in zip(core_cls, core_before):
            if own(c) != b:
                bad('core-hierarchy-changed', f'after {op}: {c.__name__}: {covered(b, own(c)) or covered(own(c), b)}')
                return

    for op in ops:
        at = None
        if op[0] == 'fault':
            at = int(op[1] * 150) if faults else None
            op = op[2]
        tracer = LineFault(FILES, at) if at is not None else None
        name = op[0]
        outcome = 'ok'

        def go(fn):
            if tracer is None:
                return fn()
            with tracer:
                return fn()

        try:
            if name in ('add', 'update'):
                ci = op[1] % len(regs)
                kw = {k: (TYPES[v] if k == 'types' else copy.deepcopy(v)) for k, v in op[3].items()}
                f = dm.add_meta_data if name == 'add' else dm.update_meta_data
                legal = (op[2] not in models[ci]) == (name == 'add')
                try:
                    go(lambda: f(op[2], regs[ci], **kw))
                    if not legal:
                        bad('illegal-registration-accepted', f'{op} on registry {ci}')
                    models[ci][op[2]] = m_entry(op[3])
                except ValueError:
                    outcome = 'reject'
                    if legal:
                        bad('legal-registration-rejected', f'{op} on registry {ci}')
                except KeyboardInterrupt:
                    outcome = 'interrupt'
                    if op[2] in regs[ci] and legal and repr(regs[ci][op[2]]) != repr(models[ci].get(op[2])):
                        models[ci][op[2]] = m_entry(op[3])
            elif name == 'merge':
                idx = [j % len(regs) for j in op[1]]
                ms = [models[j] for j in idx]
                conflict = any(k in b and not same_entry(a[k], b[k]) for a in ms for b in ms if a is not b for k in a)
                stats['merges'] += 1
                try:
                    arg = [regs[j] for j in idx]
                    got = go(lambda: mm.merge_meta_data(arg))
                    if conflict:
                        bad('conflicting-merge-accepted', f'{op}')
                    want = {}
                    for m in ms:
                        for k, v in m.items():
                            want.setdefault(k, v)
                    if sorted(got) != sorted(want):
                        bad('merge-lost-or-invented', f'{op}: {sorted(set(got) ^ set(want))[:4]}')
                    else:
                        for k in want:
                            if not same_entry(got[k], want[k]):
                                bad('merge-altered-entry', f'{k}: {got[k]} want {want[k]}')
                    if any(got is r for r in regs):
                        bad('merge-returned-an-argument', f'{op}')
                    if len(arg) != len(idx) or any(a is not regs[j] for a, j in zip(arg, idx)):
                        bad('merge-changed-argument-list', f'{op}')
                    orders.append(list(got))
                    if len(regs) < 12:
                        regs.append(got)
                        models.append({k: copy.deepcopy(want[k]) for k in got if k in want})
                except ValueError:
                    outcome = 'reject'
                    if not conflict:
                        bad('legal-merge-rejected', f'{op}')
                except KeyboardInterrupt:
                    outcome = 'interrupt'
            elif name == 'fork':
                ci = op[1] % len(regs)
                if len(regs) < 12:
                    src = regs[ci] if op[2] != 'core' or not use_core else vmd.CoreMetaData
                    msrc = models[ci] if op[2] != 'core' or not use_core else core_meta[0]
                    regs.append({} if op[2] == 'empty' else copy.deepcopy(src) if op[2] == 'deepcopy' else src.copy())
                    models.append({} if op[2] == 'empty' else copy.deepcopy(msrc))
            elif name == 'class':
                if len(classes) < 10:
                    c = build_class(op[1], op[2], f'Ext{len(classes)}')
                    classes.append(c)
                    cmods.append(own(c))
            elif name == 'mergeh':
                if not classes:
                    continue
                pool = classes + ([variables.Aircraft] if op[2] else [])
                cs = []
                for j in op[1]:
                    c = pool[j % len(pool)]
                    if c not in cs:
                        cs.append(c)
                before = [resolved(c) for c in cs]
                owns = [own(c) for c in cs]
                conflict = any(m_conflict(a, b) for a in owns for b in owns)
                roots = {c.__mro__[-2] for c in cs if len(c.__mro__) > 2}
                conflict = conflict or len(roots) > 1
                for c, o in zip(cs, owns):
                    for base in core_cls[:2]:
                        if issubclass(c, base):
                            conflict = conflict or m_conflict(o, own(base))
                stats['merges'] += 1
                try:
                    arg = list(cs)
                    got = go(lambda: mh.merge_hierarchies(arg))
                    if conflict:
                        bad('conflicting-hierarchies-accepted', f'{op}')
                    else:
                        whole = resolved(got)
                        rooted = [b for c, b in zip(cs, before) if len(c.__mro__) > 2 or c is variables.Aircraft]
                        for b, o in zip(before, owns):
                            r = covered(o, whole)
                            if r:
                                bad('hierarchy-entry-lost', f'{op}: {r}')
                        extra = covered(own(got), union(before))
                        if extra:
                            bad('hierarchy-entry-invented', f'{op}: {extra}')
                        if len(cs) == sum(len(c.__mro__) > 2 for c in cs):
                            # every argument extends the core: the merge still shows all of it
                            for b in rooted:
                                r = covered(b, whole)
                                if r:
                                    bad('hierarchy-entry-lost', f'{op}: {r}')
                    if any(got is c for c in cs):
                        bad('merge-returned-an-argument', f'{op}')
                    orders.append(repr(own(got)))
                    # the merged hierarchy is its own: writing to it reaches no argument
                    got.POKED = 'v:poked'
                    for k, v in list(vars(got).items()):
                        if isinstance(v, type) and not k.startswith('__'):
                            v.POKED = 'v:poked'
                            for k2, v2 in list(vars(v).items()):
                                if isinstance(v2, type) and not k2.startswith('__'):
                                    v2.POKED = 'v:poked'
                except ValueError:
                    outcome = 'reject'
                    if not conflict:
                        bad('legal-hierarchies-rejected', f'{op}: {[own(c) for c in cs]}')
                except KeyboardInterrupt:
                    outcome = 'interrupt'
            elif name == 'poke':
                pass
        except Exception as e:
            bad('unexpected-exception', f'{op}: {type(e).__name__}: {e}')
        stats['ops'] += 1
        stats['rejected'] += outcome == 'reject'
        stats['faulted'] += outcome == 'interrupt'
        log.append([name, outcome, len(regs), len(classes)])
        check_all(op)
        if problems:
            break
    for d, now in zip(core_meta, (vmd.CoreMetaData, vmd._MetaData)):
        if list(d) != list(now) or any(repr(d[k]) != repr(now[k]) for k in d):
            bad('core-metadata-changed', [k for k in now if k not in d or repr(d[k]) != repr(now[k])][:4])
    return dict(problems=problems, log=log, orders=orders, stats=stats)


def client(ctx, case):
    return history(case['ops'], case['core'])


def run(sim, case):
    r = sim.process(client, case, label='clients')
    if not r.ok:
        sim.violate('client-exception', r.why() + (r.exc[2][-600:] if r.exc else ''))
        return
    v = r.value
    for k, n in v['stats'].items():
        sim.counts[k] += n
    if v['stats']['faulted']:
        sim.fault('interrupt_at_line', v['stats']['faulted'])
    for e in v['log']:
        sim.state(e)
        sim.note('op', *e)
    sim.nontrivial = bool((v['stats']['rejected'] or v['stats']['faulted']) and v['stats']['merges'])
    for kind, d in v['problems']:
        sim.violate(kind, d)
    if v['problems'] or not case['hashes']:
        return
    first = None
    for h in [0] + case['hashes']:
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import sys, json; from sim.props import p15; c = json.load(sys.stdin); '
                            'r = p15.history(c["ops"], c["core"], False); print("@@" + json.dumps([r["problems"], r["orders"]]))'],
                           input=json.dumps(case), capture_output=True, text=True, env=env, cwd=sim.root)
        sim.fault('other_hash_seed')
        out = [x for x in p.stdout.splitlines() if x.startswith('@@')]
        if not out:
            from sim.kernel import HarnessError
            raise HarnessError(p.stderr[-800:])
        probs, orders = json.loads(out[0][2:])
        if probs:
            sim.violate(probs[0][0], f'hash seed {h}: {probs[0][1]}')
        if first is None:
            first = orders
        elif orders != first:
            k = next(j for j in range(len(orders)) if orders[j] != first[j])
            sim.violate('merge-order-depends-on-hash-seed', f'merge {k}: {short(orders[k])} under seed {h}, {short(first[k])} under seed 0')


def simplify(case):
    if case['hashes']:
        for h in ([], case['hashes'][:1]):
            c = copy.deepcopy(case)
            c['hashes'] = h
            yield c
    for i, op in enumerate(case['ops']):
        if op[0] == 'fault':
            c = copy.deepcopy(case)
            c['ops'][i] = op[2]
            yield c
        if op[0] in ('merge', 'mergeh') and len(op[1]) > 1:
            for j in range(len(op[1])):
                c = copy.deepcopy(case)
                del c['ops'][i][1][j]
                yield c
        if op[0] == 'class':
            for k in op[2]:
                c = copy.deepcopy(case)
                del c['ops'][i][2][k]
                yield c
