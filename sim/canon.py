"""Canonical, comparable forms of Aviary objects and a tolerant difference."""

import enum
import hashlib
import math
import pathlib

import numpy as np


def canon(x, depth=0):
    """A JSON-like structure with types kept; order of mappings kept."""
    if depth > 40:
        return '<deep>'
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, enum.Enum):
        return ['enum', type(x).__name__, x.name]
    if isinstance(x, (int, float)) and not isinstance(x, np.generic):
        return x
    if isinstance(x, np.generic):
        return ['np', x.dtype.kind, canon(x.item(), depth + 1)]
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'O':
            return ['nd', 'O', list(x.shape), [canon(i, depth + 1) for i in x.ravel().tolist()]]
        return ['nd', x.dtype.kind, list(x.shape), x.ravel().tolist()]
    if isinstance(x, pathlib.PurePath):
        return ['path', str(x)]
    if isinstance(x, dict):
        return ['dict', [[canon(k, depth + 1), canon(v, depth + 1)] for k, v in x.items()]]
    if isinstance(x, list):
        return ['list', [canon(i, depth + 1) for i in x]]
    if isinstance(x, tuple):
        return ['tuple', [canon(i, depth + 1) for i in x]]
    if isinstance(x, (set, frozenset)):
        return ['set', sorted((canon(i, depth + 1) for i in x), key=repr)]
    if isinstance(x, type):
        return ['class', x.__module__ + '.' + x.__qualname__]
    from aviary.utils.named_values import NamedValues

    if isinstance(x, NamedValues):
        return ['values', [[k, canon(v, depth + 1), u] for k, (v, u) in x]]
    if callable(x) and hasattr(x, '__qualname__'):
        return ['func', x.__qualname__]
    try:
        from openmdao.utils.options_dictionary import OptionsDictionary

        if isinstance(x, OptionsDictionary):
            return ['options', [[k, canon(x._dict[k].get('val'), depth + 1)] for k in sorted(x._dict)]]
    except ImportError:
        pass
    return ['obj', type(x).__module__ + '.' + type(x).__qualname__]


def _num(a):
    return isinstance(a, (int, float)) and not isinstance(a, bool)


def close(a, b, rtol):
    if a == b:
        return True
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    try:
        return abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-300
    except OverflowError:
        return False


def diff(a, b, rtol=0.0, path='', out=None, limit=8):
    """Paths at which two canonical structures differ (at most `limit`)."""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if _num(a) and _num(b):
        if type(a) is not type(b) and rtol == 0.0:
            out.append(f'{path}: {a!r} ({type(a).__name__}) != {b!r} ({type(b).__name__})')
        elif not close(a, b, rtol):
            out.append(f'{path}: {a!r} != {b!r}')
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(a), list(b)
        if ka != kb:
            miss = [k for k in ka if k not in b]
            extra = [k for k in kb if k not in a]
            if miss or extra:
                out.append(f'{path}: only left {miss[:4]}, only right {extra[:4]}')
            else:
                out.append(f'{path}: key order differs')
        for k in ka:
            if k in b:
                diff(a[k], b[k], rtol, f'{path}/{k}', out, limit)
        return out
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            out.append(f'{path}: length {len(a)} != {len(b)}: {short(a)} | {short(b)}')
            return out
        for i, (x, y) in enumerate(zip(a, b)):
            label = i
            if isinstance(x, (list, tuple)) and x and isinstance(x[0], str):
                label = x[0]
            diff(x, y, rtol, f'{path}/{label}', out, limit)
            if len(out) >= limit:
                break
        return out
    if a != b or type(a) is not type(b):
        out.append(f'{path}: {short(a)} != {short(b)}')
    return out


def short(x, n=120):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def digest(x):
    return hashlib.sha256(repr(x).encode('utf-8', 'surrogateescape')).hexdigest()[:16]
