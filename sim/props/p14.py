"""P14 - value containers follow a simple typed map under any client history."""

import copy
import math

from sim.canon import canon, diff, short
from sim.trace import LineFault

ID = 'P14'
TIERS = dict(quick=dict(cases=2400, budget=120, floor=200), thorough=dict(cases=120000, budget=3000, floor=2000))
RULE = ('seeded histories of 20-90 operations by 2-4 clients on up to 8 NamedValues/AviaryValues containers, with '
        'interrupts at arbitrary source lines and failing iterables, compared with a plain ordered-map model after every '
        'operation; non-trivial = at least one rejected or interrupted operation and one copy')
REAL = ['NamedValues', 'AviaryValues', 'cast_type, check_type, enum_setter, wrapped_convert_units', 'CoreMetaData']
STUB = ['asynchronous interrupts (raised by a line tracer)', 'interleaving of clients (seeded operation order)']
ASSUMPTIONS = ['a bulk update that is cut short may have stored a prefix of its entries',
               'unit factors are compared to 1e-6, stored values exactly']
SHRINK = ('ops',)
STATE_MEASURE = 'hash of (container kinds and sizes, operation, outcome)'

FILES = ('aviary/utils/named_values.py', 'aviary/utils/aviary_values.py', 'aviary/utils/utils.py')

DIM = {
    'len': {'ft': .3048, 'm': 1.0, 'inch': .0254, 'NM': 1852.0, 'km': 1000.0, 'cm': .01},
    'mass': {'lbm': .45359237, 'kg': 1.0, 'g': .001, 'slug': 14.593902937206},
    'area': {'ft**2': .3048**2, 'm**2': 1.0, 'inch**2': .0254**2},
    'force': {'lbf': 4.4482216152605, 'N': 1.0, 'kN': 1000.0},
    'speed': {'m/s': 1.0, 'ft/s': .3048, 'kn': 1852.0 / 3600, 'km/h': 1 / 3.6},
    'angle': {'rad': 1.0, 'deg': math.pi / 180},
    'time': {'s': 1.0, 'min': 60.0, 'h': 3600.0},
    'none': {'unitless': 1.0},
}
TEMP = {'degC': (1.0, 273.15), 'degK': (1.0, 0.0), 'degF': (5 / 9, 459.67 * 5 / 9), 'degR': (5 / 9, 0.0)}
DIM['temp'] = {k: None for k in TEMP}
DIM_OF = {u: d for d, us in DIM.items() for u in us}

KEYS = []
FREE = ['alpha', 'Beta', 'x:y:z', 'caf\u00e9', 'a b']
CUSTOM = {}


def setup(tier):
    import aviary.api as av
    from enum import EnumMeta

    M = av.CoreMetaData
    by = {}
    for k, m in M.items():
        t = m['types']
        if m['units'] not in DIM_OF or isinstance(t, (tuple, list)) and len(t) != 1 or t is None:
            continue
        t = t[0] if isinstance(t, (tuple, list)) else t
        kind = 'enum' if isinstance(t, EnumMeta) else t.__name__ if t in (float, int, bool, str) else None
        if kind:
            by.setdefault((kind, bool(m['multivalue']), DIM_OF[m['units']]), []).append(k)
    for grp in sorted(by):
        KEYS.extend(sorted(by[grp])[:4])
    CUSTOM['meta'] = copy.deepcopy(dict(M))
    av.add_meta_data('custom:length', CUSTOM['meta'], units='ft', desc='c', default_value=1.0)
    av.add_meta_data('custom:names', CUSTOM['meta'], units='unitless', desc='c', default_value='x', types=str, multivalue=True)
    KEYS.extend(['custom:length', 'custom:names'])


def _kind(key, meta):
    from enum import EnumMeta

    t = meta[key]['types']
    t = t[0] if isinstance(t, (tuple, list)) else t
    return ('enum' if isinstance(t, EnumMeta) else t.__name__), t, meta[key]['multivalue']


def _value(rng, kind, members, multi):
    """(code, legal) for a variable of this kind."""
    good = {'float': [['f', 0.0], ['f', 1.5], ['f', -2.25], ['f', 1e9], ['i', 3]],
            'int': [['i', 0], ['i', 5], ['i', -2], ['f', 4.0], ['s', '7']],
            'bool': [['b', True], ['b', False]],
            'str': [['s', 'abc'], ['s', ''], ['s', 'a,b']],
            'enum': [['e', m] for m in members] + [['en', m] for m in members] + [['ev', m] for m in members]}[kind]
    bad = {'float': [['s', 'abc'], ['none', 0], ['dict', 0]], 'int': [['s', 'abc'], ['b', True], ['none', 0], ['s', '1.5']],
           'bool': [['i', 1], ['s', 'yes'], ['none', 0], ['f', 1.0]], 'str': [],
           'enum': [['s', 'NO_SUCH_MEMBER'], ['i', 987654], ['none', 0]]}[kind]
    r = rng.random()
    if r < 0.22:
        if not multi and rng.random() < 0.4:
            return ['l', [rng.choice(good), rng.choice(good)]], False
        if multi and bad and rng.random() < 0.4 and kind not in ('str', 'bool'):
            b = [x for x in bad if x[0] not in ('none', 'b')]
            if b:
                return ['l', [rng.choice(good[:2]), rng.choice(b)]], False
        if bad:
            return rng.choice(bad), False
    if multi and r < 0.65:
        n = rng.choice([1, 2, 2, 3, 4])
        if kind == 'float':
            items = [rng.choice(good[:4]) for _ in range(n)]
            return [rng.choice(['l', 'a', 'a', 't', 'ia']), items], True
        if kind in ('int', 'bool', 'str'):
            return ['l', [good[rng.randrange(2)] for _ in range(n)]], True
        if kind == 'enum':
            form = rng.choice(['e', 'en'])
            n = max(2, n)
            return ['l', [[form, rng.choice(members)] for _ in range(n)]], True
    return rng.choice(good), True


def _free_value(rng):
    n = rng.choice([1, 2, 3, 5])
    return rng.choice([['f', 2.5], ['f', 0.0], ['i', 3], ['s', 'text'], ['none', 0], ['l', [['f', float(j)] for j in range(n)]],
                       ['a', [['f', 1.5 * j] for j in range(n)]], ['ia', [['f', float(j)] for j in range(n)]],
                       ['t', [['f', float(j)] for j in range(n)]], ['ln', [['f', 1.0], ['none', 0]]], ['a2', n], ['b', True]])


def gen(rng, i, tier):
    nops = rng.choice([20, 40, 60, 90])
    ops = []
    keys = rng.sample(KEYS, min(len(KEYS), rng.choice([4, 8, 14])))
    free = rng.sample(FREE, 3)
    kinds = [rng.choice('NAAM') for _ in range(rng.choice([2, 3, 4]))]
    n = len(kinds)
    for _ in range(nops):
        r = rng.random()
        ci = rng.randrange(64)
        key = rng.choice(keys) if rng.random() < 0.7 else rng.choice(free)
        op = None
        if r < 0.34:
            op = _gen_set(rng, ci, key)
        elif r < 0.50:
            op = ['get', ci, key, _gen_units(rng, key), rng.random() < 0.25]
        elif r < 0.56:
            op = ['item', ci, key]
        elif r < 0.62:
            op = ['delete', ci, key]
        elif r < 0.72:
            op = ['update', ci, rng.choice(['self', 'cont', 'dict', 'pairs', 'gen', 'kw', 'bad']), rng.randrange(64),
                  [_gen_set(rng, 0, rng.choice(keys + free))[2:5] for _ in range(rng.choice([0, 1, 2, 4]))]]
        elif r < 0.80:
            op = ['copy', ci, rng.choice(['copy', 'deepcopy', 'ctor', 'copy.copy', 'copy.deepcopy', 'ctorN'])]
        elif r < 0.86:
            op = ['eq', ci, rng.randrange(64), rng.choice(['cont', 'dict', 'junk'])]
        elif r < 0.91:
            op = ['views', ci, key]
        elif r < 0.93:
            op = ['clear', ci]
        elif r < 0.97:
            op = ['mutate', ci, key]
        else:
            op = ['iter', ci, rng.randrange(6)]
        if rng.random() < 0.06 and op[0] in ('set', 'delete', 'update', 'copy', 'get', 'clear'):
            op = ['fault', round(rng.random(), 4), op]
        ops.append(op)
    return dict(prop=ID, kinds=kinds, ops=ops)


def _gen_units(rng, key):
    import aviary.api as av

    m = CUSTOM['meta'].get(key)
    r = rng.random()
    if r < 0.06:
        return rng.choice([None, 5, 'furlong_per_x'])
    u = m['units'] if m else rng.choice(['ft', 'unitless', 'lbm', 'degF', 'm/s'])
    if r < 0.16:
        return rng.choice(['lbm', 'ft', 'unitless', 's'])
    return rng.choice(sorted(DIM[DIM_OF[u]]))


def _gen_set(rng, ci, key):
    m = CUSTOM['meta'].get(key)
    if m is None:
        return ['set', ci, key, _free_value(rng), _gen_units(rng, key), True]
    kind, t, multi = _kind(key, CUSTOM['meta'])
    members = sorted(t.__members__) if kind == 'enum' else []
    code, legal = _value(rng, kind, members, multi)
    return ['set', ci, key, code, _gen_units(rng, key), legal]


_UNSET = object()


def decode(code, key, meta):
    import numpy as np

    k, v = code
    if k == 'f':
        return float(v)
    if k in ('i', 's', 'b'):
        return v
    if k == 'none':
        return None
    if k == 'dict':
        return {}
    if k == 'obj':
        return object()
    if k in ('e', 'en', 'ev'):
        t = _kind(key, meta)[1]
        return t[v] if k == 'e' else (v if k == 'en' else t[v].value)
    if k == 'l':
        return [decode(x, key, meta) for x in v]
    if k == 'ln':
        return [decode(x, key, meta) for x in v]
    if k == 't':
        return tuple(decode(x, key, meta) for x in v)
    if k == 'a':
        return np.array([decode(x, key, meta) for x in v])
    if k == 'ia':
        return np.array([int(decode(x, key, meta)) for x in v])
    if k == 'a2':
        return np.arange(2.0 * v).reshape(2, v)
    raise KeyError(k)


# ------------------------------------------------------------------------------------------- model
class Reject(Exception):
    pass


def m_cast(code, key, meta):
    """What a legal value becomes; independent of the code under test."""
    import numpy as np

    kind, t, multi = _kind(key, meta)
    k, v = code
    if k in ('l', 't', 'a', 'ia'):
        if not multi:
            raise Reject
        items = [m_cast(x, key, dict(meta, **{key: dict(meta[key], multivalue=False)})) for x in v]
        if k == 'ia':
            items = [t(int(x[1])) for x in v]
        return items if k == 'l' else tuple(items) if k == 't' else np.array(items)
    x = decode(code, key, meta)
    if kind == 'enum':
        if isinstance(x, t):
            return x
        if k == 'en':
            # an enum is found by value first, then by name
            for mem in t:
                if mem.value == x:
                    return mem
            return t[x.upper()]
        for mem in t:
            if mem.value == x:
                return mem
        raise Reject
    if kind == 'float' and isinstance(x, (int, float)):
        return float(x)
    if kind == 'int':
        return int(x)
    return x


def m_units_ok(u, want):
    return u in DIM_OF and DIM_OF[u] == DIM_OF[want]


def m_set(model, kind, key, code, units, legal, metas):
    if units is None or not isinstance(units, str):
        raise Reject
    meta = metas.get(kind)
    if meta is not None and key in meta:
        if not legal:
            raise Reject
        val = m_cast(code, key, meta)
        if not m_units_ok(units, meta[key]['units']):
            raise Reject
    else:
        val = decode(code, key, CUSTOM['meta'])
    model[key] = (val, units)


def m_convert(x, u, v):
    import numpy as np

    if u == v or x is None:
        return x
    if isinstance(x, list):
        return [m_convert(i, u, v) for i in x]
    if isinstance(x, tuple):
        return tuple(m_convert(i, u, v) for i in x)
    if u in TEMP:
        a, b = TEMP[u]
        c, d = TEMP[v]
        return (np.asarray(x, dtype=float) * a + b - d) / c if isinstance(x, np.ndarray) else (x * a + b - d) / c
    f = DIM[DIM_OF[u]][u] / DIM[DIM_OF[v]][v]
    return np.asarray(x, dtype=float) * f if isinstance(x, np.ndarray) else x * f


def _convertible(x):
    import numpy as np

    if isinstance(x, (list, tuple)):
        return all(_convertible(i) and not isinstance(i, (list, tuple)) for i in x)
    if isinstance(x, np.ndarray):
        return x.dtype.kind in 'fi'
    return x is None or isinstance(x, (int, float)) and not isinstance(x, bool)


def m_eq(a, b):
    """True/False, or None where the statement leaves it open."""
    import numpy as np

    if a.keys() != b.keys():
        return False
    res = True
    for k in a:
        (x, u), (y, w) = a[k], b[k]
        if u != w:
            return False
        if type(x) is not type(y):
            if isinstance(x, (list, tuple, np.ndarray)) or isinstance(y, (list, tuple, np.ndarray)):
                res = None
                continue
        if isinstance(x, np.ndarray):
            if x.shape != y.shape:
                if x.size == 1 or y.size == 1 or not (x == np.zeros(1)).shape:
                    res = None
                    continue
                return False
            if not (x == y).all():
                return False
        elif x != y:
            return False
    return res


class Bad:
    """An iterable of items that fails part-way."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        yield from self.items
        raise RuntimeError('simulated failure while iterating')


def client(ctx, case):
    import aviary.api as av
    from aviary.utils.named_values import NamedValues

    core0 = canon({k: CUSTOM['meta'][k] for k in sorted(CUSTOM['meta'])[:40]}), len(av.CoreMetaData)
    metas = {'A': dict(av.CoreMetaData), 'M': CUSTOM['meta'], 'N': None}
    real, model, kinds = [], [], []
    problems = []
    views = {}
    stats = dict(rejected=0, faulted=0, copies=0, ops=0)

    def make(kind):
        return NamedValues() if kind == 'N' else av.AviaryValues()

    for k in case['kinds']:
        real.append(make(k))
        model.append({})
        kinds.append(k)

    def canon_real(c):
        return [[k, canon(v), u] for k, (v, u) in c]

    def canon_model(m):
        return [[k, canon(v), u] for k, (v, u) in m.items()]

    def do_set(ci, key, val, units):
        if kinds[ci] == 'M':
            real[ci].set_val(key, val, units, meta_data=CUSTOM['meta'])
        else:
            real[ci].set_val(key, val, units)

    def bad(kind, detail):
        problems.append((kind, detail))

    def step(op, at=None):
        """Run one op on the real container, and on the model. Returns outcome label."""
        name = op[0]
        ci = op[1] % len(real)
        C, Mo, kd = real[ci], model[ci], kinds[ci]
        before = [canon_model(m) for m in model]
        fault = LineFault(FILES, at) if at is not None else None
        expect, after, check, alts = 'ok', None, None, None
        if name == 'set':
            _, _, key, code, units, legal = op
            new = dict(Mo)
            try:
                m_set(new, kd, key, code, units, legal, metas)
            except Reject:
                expect, new = 'reject', Mo
            val = decode(code, key, CUSTOM['meta'])
            after = new
            call = lambda: do_set(ci, key, val, units)
        elif name == 'get':
            _, _, key, units, mut = op
            if not isinstance(units, str) or key not in Mo:
                expect = 'reject'
            else:
                v, u = Mo[key]
                if u != units:
                    if u not in DIM_OF or units not in DIM_OF or DIM_OF[u] != DIM_OF[units]:
                        expect = 'any' if v is None or isinstance(v, (list, tuple)) and all(x is None for x in v) or not u or not units else 'reject'
                    elif not _convertible(v):
                        expect = 'any'
            def check(got, key=key, units=units, mut=mut):
                import numpy as np
                v, u = Mo[key]
                want = m_convert(v, u, units)
                d = diff(canon(got), canon(want), rtol=1e-6)
                if d:
                    bad('wrong-value-read', f'{key} stored {short(v)} {u}, read in {units}: {short(got)}; {d}')
                if mut and u != units:
                    if isinstance(got, list) and got:
                        got[0] = -987.0
                    elif isinstance(got, np.ndarray) and got.size and got.dtype.kind == 'f':
                        got.flat[0] = -987.0
            call = lambda: C.get_val(key, units)
            if expect == 'any':
                check = None
        elif name == 'item':
            key = op[2]
            expect = 'ok' if key in Mo else 'reject'
            def check(got, key=key):
                d = diff(canon(got), canon(Mo[key]))
                if d:
                    bad('wrong-item-read', f'{key}: {d}')
            call = lambda: C.get_item(key)
        elif name == 'delete':
            key = op[2]
            expect = 'ok' if key in Mo else 'reject'
            after = {k: v for k, v in Mo.items() if k != key}
            call = lambda: C.delete(key)
        elif name == 'clear':
            after = {}
            call = lambda: C.clear()
        elif name == 'update':
            _, _, how, oi, entries = op
            oi %= len(real)
            src = [(key, code, units) for key, code, units in entries]
            if how in ('cont', 'self'):
                other = C if how == 'self' else real[oi]
                omod = Mo if how == 'self' else model[oi]
                seq = [(k, v, u) for k, (v, u) in omod.items()]
                arg, kw = other, {}
            else:
                seq = [(k, decode(code, k, CUSTOM['meta']), u) for k, code, u in src]
                pairs = [(k, (v, u)) for k, v, u in seq]
                if how == 'dict':
                    arg, kw = dict(pairs), {}
                    seq = [(k, v, u) for k, (v, u) in dict(pairs).items()]
                elif how == 'kw':
                    arg, kw = None, dict(pairs)
                    seq = [(k, v, u) for k, (v, u) in dict(pairs).items()]
                elif how == 'bad':
                    arg, kw = Bad(pairs), {}
                elif how == 'gen':
                    arg, kw = (p for p in pairs), {}
                else:
                    arg, kw = pairs, {}
            # fold over the entries with the real typing rules of the model: only legal code paths are predicted
            new, alts, okk = dict(Mo), [dict(Mo)], True
            for k, v, u in seq:
                try:
                    m_set_value(new, kd, k, v, u, metas)
                except Reject:
                    okk = False
                    break
                except Unknown:
                    okk = None
                    break
                alts.append(dict(new))
            if how == 'bad':
                okk = False if okk else okk
            expect = {True: 'ok', False: 'reject', None: 'any'}[okk]
            after = new
            call = lambda: C.update(arg, **kw)
        elif name == 'copy':
            how = op[2]
            box = []
            def call():
                if how == 'copy':
                    box.append(C.copy())
                elif how == 'deepcopy':
                    box.append(C.deepcopy())
                elif how == 'copy.copy':
                    box.append(C.copy())
                elif how == 'copy.deepcopy':
                    box.append(copy.deepcopy(C))
                elif how == 'ctorN':
                    box.append(NamedValues(C))
                else:
                    box.append(type(C)(C))
            def check(got):
                stats['copies'] += 1
                nk = 'N' if how == 'ctorN' else kd
                nm = {k: v for k, v in copy.deepcopy(Mo).items()}
                if len(real) < 8:
                    real.append(box[0])
                    model.append(nm)
                    kinds.append(nk)
                    cls.append(len(cls) + 1000 * stats['ops'] if 'deep' in how else cls[ci])
                else:
                    j = len(case['kinds']) + op[1] % (8 - len(case['kinds']))
                    real[j], model[j], kinds[j] = box[0], nm, nk
                    cls[j] = len(cls) + 1000 * stats['ops'] if 'deep' in how else cls[ci]
                    views.pop(j, None)
                d = diff(canon_real(box[0]), canon_model(nm))
                if d:
                    bad('copy-differs', f'{how}: {d}')
            if how == 'ctor' and kd == 'M' and any(k.startswith('custom:') for k in Mo) is None:
                pass
        elif name == 'eq':
            _, _, oi, how = op
            oi %= len(real)
            if how == 'cont':
                want = m_eq(Mo, model[oi])
                other = real[oi]
            elif how == 'dict':
                want = m_eq(Mo, model[oi])
                other = {k: v for k, v in real[oi]}
            else:
                want, other = False, 17
            def check(got, want=want):
                if want is not None and bool(got) != want:
                    bad('wrong-equality', f'{short(Mo)} == {short(other)} gave {got}')
            call = lambda: (C == other)
        elif name == 'views':
            key = op[2]
            if ci not in views:
                views[ci] = (C.keys(), C.values(), C.items())
            def check(got, key=key):
                if list(views[ci][0]) != list(Mo) or [k for k in C.keys()] != list(Mo):
                    bad('wrong-keys', f'{list(views[ci][0])} want {list(Mo)}')
                if diff(canon(list(C.values())), canon(list(Mo.values()))) or diff(canon([list(t) for t in C.items()]), canon([list(t) for t in Mo.items()])):
                    bad('wrong-views', 'values or items differ')
                if (key in C) != (key in Mo) or len(C) != len(Mo):
                    bad('wrong-membership', key)
            call = lambda: None
        elif name == 'iter':
            def call():
                it = iter(C)
                return [next(it, None) for _ in range(op[2])]
            def check(got):
                want = list(Mo.items())[: op[2]]
                if diff(canon([g for g in got if g is not None]), canon(want)):
                    bad('wrong-iteration', got)
        elif name == 'mutate':
            import numpy as np
            key = op[2]
            expect = 'any'
            def call():
                if key not in Mo:
                    return
                v, _ = C.get_item(key)
                if isinstance(v, list) and v and isinstance(v[0], float):
                    v[0] = v[0] + 1.0
                elif isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size:
                    v.flat[0] += 1.0
                # containers that may share the value: the ones this one was shallowly made from or into
                for g in range(len(cls)):
                    if cls[g] == cls[ci] and key in model[g]:
                        model[g][key] = copy.deepcopy(real[g].get_item(key))
        else:
            raise RuntimeError(name)

        if name == 'update' and op[2] == 'cont':
            old, new = cls[ci], cls[op[3] % len(real)]
            cls[:] = [new if c == old else c for c in cls]
        before_len = len(real)
        try:
            if fault is None:
                got = call()
            else:
                with fault:
                    got = call()
            outcome = 'ok'
        except Exception as e:
            outcome, err = ('interrupt' if fault is not None and fault.fired else 'reject'), e
        except KeyboardInterrupt:
            outcome = 'interrupt'
        stats['ops'] += 1
        if outcome == 'interrupt':
            stats['faulted'] += 1
            now = canon_real(real[ci])
            cand = [Mo] + (alts or []) + ([after] if after is not None else [])
            hit = next((m for m in cand if not diff(now, canon_model(m))), None)
            if hit is None:
                if expect == 'any' and name == 'update':
                    model[ci] = {k: v for k, v in copy.deepcopy(dict(list(real[ci])) ).items()}
                else:
                    bad('torn-by-interrupt', f'{op}: neither before nor after: {short(now)}')
                    return 'torn'
            else:
                model[ci] = dict(hit)
        elif outcome == 'reject':
            stats['rejected'] += 1
            if expect == 'ok':
                bad('legal-operation-rejected', f'{op} on a {kd} container: {type(err).__name__}: {err}')
            if name == 'update':
                now = canon_real(real[ci])
                hit = next((m for m in alts or [Mo] if not diff(now, canon_model(m))), None)
                if hit is None and expect != 'any':
                    bad('rejected-update-left-other-contents', f'{op}')
                model[ci] = copy.deepcopy(dict(list(real[ci]))) if hit is None else dict(hit)
            elif diff(canon_real(C), canon_model(Mo)):
                bad('rejected-operation-changed-container', f'{op}: {diff(canon_real(C), canon_model(Mo))}')
        else:
            if expect == 'reject':
                bad('illegal-operation-accepted', f'{op} on a {kd} container holding {short(Mo.get(op[2]) if isinstance(op[2], str) else None)}')
            if after is not None:
                if expect == 'any':
                    model[ci] = copy.deepcopy(dict(list(real[ci])))
                else:
                    # what was stored is isolated from the model's own objects
                    model[ci] = copy.deepcopy(after)
            if check is not None:
                check(got)
        for j in range(min(before_len, len(real))):
            d = diff(canon_real(real[j]), canon_model(model[j]))
            if d:
                bad('contents-wrong' if j == ci else 'other-container-changed', f'after {op} ({outcome}) container {j}: {d}')
                return outcome
        return outcome

    cls = [-1 - j for j in range(len(real))]  # containers of one class may share value objects
    for op in case['ops']:
        at = None
        if op[0] == 'fault':
            # number the source lines of this operation on a dry run against throw-away copies
            at = int(op[1] * 40)
            op = op[2]
        out = step(op, at)
        ctx.note(op[0], out, len(real))
        if problems:
            break
    if not problems and (canon({k: CUSTOM['meta'][k] for k in sorted(CUSTOM['meta'])[:40]}), len(av.CoreMetaData)) != core0:
        bad('metadata-changed', '')
    return dict(problems=problems, stats=stats)


class Unknown(Exception):
    """The statement does not say what happens with this value."""


def m_set_value(model, kind, key, v, u, metas):
    """Model of storing an already decoded value (bulk update): core metadata applies to any AviaryValues."""
    if u is None or not isinstance(u, str):
        raise Reject
    meta = None if kind == 'N' else metas['A']
    if meta is not None and key in meta:
        kd, t, multi = _kind(key, meta)
        if not m_units_ok(u, meta[key]['units']):
            raise Reject if type(v) is t and kd != 'int' else Unknown
        if type(v) is not t or isinstance(v, bool) and kd != 'bool':
            raise Unknown
    model[key] = (v, u)


def run(sim, case):
    r = sim.process(client, case, label='clients')
    if not r.ok:
        sim.violate('client-exception', r.why() + (r.exc[2][-600:] if r.exc else ''))
        return
    st = r.value['stats']
    for k, v in st.items():
        sim.counts[k] += v
    if st['faulted']:
        sim.fault('interrupt_at_line', st['faulted'])
    bad_updates = sum(1 for o in case['ops'] if (o[2] if o[0] == 'fault' else o)[0] == 'update' and (o[2] if o[0] == 'fault' else o)[2] == 'bad')
    if bad_updates:
        sim.fault('failing_iterable', bad_updates)
    sim.nontrivial = bool((st['rejected'] or st['faulted']) and st['copies'])
    for n in r.notes:
        sim.state(n)
    for kind, detail in r.value['problems']:
        sim.violate(kind, detail)


def simplify(case):
    for i, op in enumerate(case['ops']):
        if op[0] == 'update' and op[4]:
            for j in range(len(op[4])):
                c = copy.deepcopy(case)
                del c['ops'][i][4][j]
                yield c
        if op[0] == 'fault':
            c = copy.deepcopy(case)
            c['ops'][i] = op[2]
            yield c
