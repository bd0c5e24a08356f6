"""Seeded values for Aviary variables, as JSON codes, and their decoding."""

from enum import EnumMeta
from pathlib import Path

ALT_UNITS = {
    'ft': ['m', 'inch', 'NM'], 'inch': ['ft', 'm', 'cm'], 'ft**2': ['m**2', 'inch**2'], 'm': ['ft'], 'm**2': ['ft**2'],
    'lbm': ['kg', 'slug', 'g'], 'kg': ['lbm'], 'lbf': ['N', 'kN'], 'N': ['lbf'], 'NM': ['km', 'ft', 'm'], 'deg': ['rad'],
    'rad': ['deg'], 'degF': ['degC', 'K'], 'kn': ['m/s', 'ft/s'], 'm/s': ['kn', 'ft/s'], 'ft/s': ['m/s', 'kn'],
    'psi': ['Pa'], 'hp': ['kW', 'W'], 'min': ['s', 'h'], 's': ['min'], 'ft**3': ['m**3'], 'lbm/ft**3': ['kg/m**3'],
    'lbf/ft**2': ['Pa'], 'lbm/h': ['kg/s'], 'yr': ['d'], 'rpm': ['rad/s'], 'mi': ['km'], 'lbm/galUS': ['kg/m**3'],
    'lbf/inch**2': ['Pa'], 'h': ['s', 'min'], 'Mbyte': [],
}

FLOATS = [0.0, 1.0, -1.0, 1.5, 2.0, 123456.789, 1e-7, 1e22, -3.25, 0.1, 1 / 3, 5e-324, 1.7976931348623157e308, 100.0]
STRS = ['abc', 'a b', '12', '1.5', 'True', 'x,y', 'caf\u00e9', '[1]', '<x>', "it's", 'models/engines/turbofan_28k.csv', '']


def types_of(meta):
    t = meta['types']
    return t if isinstance(t, (tuple, list)) else (t,)


def _scalar(rng, ts, plain=False):
    t = rng.choice(ts)
    if isinstance(t, EnumMeta):
        return ['e', rng.choice([m.name for m in t])]
    if t is bool:
        return ['b', rng.random() < 0.5]
    if t is int:
        return ['i', rng.choice([0, 1, 2, 3, 7, -1, 10**12])]
    if t is float:
        r = rng.random()
        if not plain and r < 0.06:
            return ['f', rng.choice(['inf', '-inf'])]
        return ['f', rng.choice(FLOATS) if r < 0.5 else rng.uniform(-1e4, 1e4)]
    if t is str:
        return ['s', rng.choice(STRS)]
    if t is Path:
        return ['p', rng.choice(['models/a.csv', 'd e/b.csv', 'x'])]
    return None


def value_code(rng, meta, plain=False):
    """A random value legal for a metadata entry, or None."""
    ts = [t for t in types_of(meta) if t not in (list, tuple, None) and getattr(t, '__name__', '') != 'ndarray']
    if not ts:
        return None
    if meta.get('multivalue') and rng.random() < 0.6:
        t = [rng.choice(ts)]
        n = rng.choice([1, 2, 3, 4])
        items = [_scalar(rng, t, plain) for _ in range(n)]
        if any(i is None for i in items):
            return None
        if t[0] in (float, int, bool) and rng.random() < 0.5:
            if rng.random() < 0.3:
                return ['a', [items, [_scalar(rng, t, plain) for _ in range(n)]]]
            return ['a', items]
        return ['l', items]
    return _scalar(rng, ts, plain)


def decode(code, meta=None):
    import numpy as np

    k, v = code
    if k == 'e':
        for t in types_of(meta):
            if isinstance(t, EnumMeta) and v in t.__members__:
                return t[v]
        raise KeyError(v)
    if k == 'f':
        return float(v)
    if k == 'i':
        return int(v)
    if k == 'p':
        return Path(v)
    if k == 'l':
        return [decode(x, meta) for x in v]
    if k == 'a':
        def rec(x):
            return decode(x, meta) if isinstance(x[0], str) else [rec(y) for y in x]
        return np.array([rec(x) for x in v])
    return v


def units_code(rng, meta):
    u = meta['units']
    alts = ALT_UNITS.get(u, [])
    if u and alts and rng.random() < 0.35:
        return rng.choice(alts)
    return u or 'unitless'
