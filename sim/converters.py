"""Workload of the file converters: legacy inputs (packaged, or small generated ones), mutations of
them, and the calls that convert them, through the API or the command line."""

import os
import random
import re
import sys

LEGACY = 'aviary/validation_cases/validation_data/legacy_files'

# packaged legacy inputs: kind -> [(file, format)]
REAL = {
    'engine': [('turbofan_22k.txt', 'FLOPS'), ('turbofan_23k_1.eng', 'GASP'), ('turboshaft_4465hp.eng', 'GASP_TS')],
    'aero': [('aero_flaps_GASP.txt', 'GASP_ALT'), ('aero_ground_GASP.txt', 'GASP_ALT'), ('flops_test_polar.txt', 'FLOPS')],
    'prop': [('general_aviation.map', 'GASP'), ('PropFan.map', 'GASP')],
    'deck': [('bwb_detailed_FLOPS.in', 'FLOPS'), ('bwb_simple_FLOPS.in', 'FLOPS'), ('generic_BWB_GASP.dat', 'GASP'),
             ('large_single_aisle_1_GASP.dat', 'GASP'), ('large_turboprop_freighter_GASP.dat', 'GASP'),
             ('small_single_aisle_GASP.dat', 'GASP'), ('configuration_test_data_GASP.dat', 'GASP')],
}
FORMATS = {'engine': ('FLOPS', 'GASP', 'GASP_TS'), 'aero': ('GASP_ALT', 'GASP', 'FLOPS'), 'prop': ('GASP',), 'deck': ('FLOPS', 'GASP')}
# formats that state how much data follows, so that a file cut off at a line end cannot pass for whole
COUNTED = {('engine', 'GASP'), ('engine', 'GASP_TS'), ('aero', 'GASP'), ('aero', 'FLOPS'), ('prop', 'GASP')}
SUFFIX = {'engine': ('.eng', '.txt', '.csv'), 'aero': ('.txt', '.dat'), 'prop': ('.map', '.csv', '.txt'), 'deck': ('.in', '.dat')}
_SUB = {'engine': 'engine_deck', 'aero': 'aero_table', 'prop': 'propeller_table', 'deck': 'fortran_to_aviary'}


def repo_file(name):
    return os.path.join(os.environ.get('AVSIM_REPO', '/repo'), LEGACY, name)


def _f(w, d, v):
    return f'{v:{w}.{d}f}'


def _maps(rng, alts, xs, ys, dec, fn, turbo):
    """Maps in the fixed-width layout the GASP-style readers expect."""
    out = []
    for k, alt in enumerate(alts):
        out.append(f'{len(xs):5d}{len(ys):5d}{alt:10.4f}')
        for i in range(0, len(xs), 6):
            out.append(' ' * 10 + ''.join(_f(10, 4, x) for x in xs[i:i + 6]))
        for y in ys:
            z = [fn(alt, x, y) for x in xs]
            out.append(_f(10, 4, y) + ''.join(_f(10, dec, v) for v in z[:6]))
            for i in range(6, len(z), 6):
                out.append((' ' * 10 if turbo else '') + ''.join(_f(10, dec, v) for v in z[i:i + 6]))
        if k < len(alts) - 1:
            out.append('')
    return out


def mini(kind, fmt, seed):
    """A small legacy input in the given format."""
    rng = random.Random(seed)
    a = round(rng.uniform(0.5, 2.0), 3)
    title = rng.choice(('Generated table', 'engine, made up', 'A  b'))
    machs = [0.0, 0.2, 0.4, 0.6] + ([0.7, 0.8, 0.85] if rng.random() < 0.4 else [])
    alts = [0.0, 10000.0] if rng.random() < 0.6 else [0.0]
    if (kind, fmt) == ('engine', 'FLOPS'):
        rows = [f'# {title}'] if rng.random() < 0.5 else []
        for m in (0.0, 0.4):
            for h in alts:
                for p in (50.0, 35.0, 21.0):
                    rows.append(f'{m:5.2f}{h:10.1f}{p:5.0f}{a * p * 400 - h / 10:10.1f}{m * 900:10.1f}{p * 80:10.1f}'
                                + ('' if rng.random() < 0.2 else ' ' * 10 + f'{p / 200:10.4f}'))
        return '\n'.join(rows) + '\n'
    if kind == 'engine':
        ts = fmt == 'GASP_TS'
        ys = [3.0, 4.0, 5.0, 6.0] if not ts else [26.0, 34.0, 42.0, 50.0]
        if ts:
            rows = [f'{3:5d}{1:5d}' + ' ' * 10 + ''.join(_f(10, 1, v) for v in (50.0, 50.0, 45.0, 26.0, 0.0, 0.0)),
                    ''.join(_f(10, 3, v) for v in (4465.2, 13820.0, 1020.7, 0.073, 22976.2, 30.5))]
        else:
            rows = [f'{1:5d}{0:5d}' + ' ' * 10 + ''.join(_f(10, 2, v) for v in (994.36, 3342.0, 3196.0, 3108.0, 1.25))]
        for n, table in enumerate(('thrust', 'fuelflow', 'third')):
            rows += [f'{title} {table}', f'{len(alts):5d}', '']
            rows += _maps(rng, alts, machs, ys, 1 if ts else 4,
                          lambda h, x, y: a * (n + 1) * 100 * y * (1 + x) - h / 100, ts)
        return '\n'.join(rows) + '\n'
    if (kind, fmt) == ('aero', 'GASP_ALT'):
        rows = [f'# {title}', '#  Reference Area = 1370. sqft', '#  ALT  MACH  ALPHA   CL   CD', '#  (ft)  (-)  (deg)  (-)   (-)', '#']
        for h in alts:
            for m in machs[:4]:
                for al in (-2.0, 0.0, 4.0):
                    rows.append(f'  {h:10.2f} {m:8.2f} {al:8.2f} {a * 0.1 * al:9.5f} {0.02 + 0.001 * al * al:9.5f}')
        return '\n'.join(rows) + '\n'
    if (kind, fmt) == ('aero', 'GASP'):
        rows = [f'{0:5d}{1:5d}{-1:5d}{1:5d}{4876.0:10.1f}{1.0:10.1f}']
        ms, al, cls = [0.2, 0.5, 0.7, 0.8], [0.0, 1.0, 2.0, 3.0], [0.0, 0.3, 0.6, 0.9]
        rows += [f'{title} CL', f'{len(alts):5d}', ''] + _maps(rng, alts, ms, al, 5, lambda h, x, y: a * 0.1 * y * (1 + x), False)
        rows += [f'{title} CD', f'{len(alts):5d}', ''] + _maps(rng, alts, ms, cls, 5, lambda h, x, y: 0.02 + 0.04 * y * y + 0.01 * x, False)
        return '\n'.join(rows) + '\n'
    if (kind, fmt) == ('aero', 'FLOPS'):
        ms, cl, hs = machs[:4], [0.1, 0.3, 0.5], [0.0, 10000.0, 30000.0]
        rows = ['# lift-dependent drag', f'{len(ms)} {len(cl)}', ' '.join(map(str, ms)), ' '.join(map(str, cl))]
        rows += [' '.join(f'{0.02 + a * 0.01 * c * (1 + m):.5f}' for c in cl) for m in ms]
        rows += ['# zero-lift drag', f'{len(hs)} {len(ms)}', ' '.join(map(str, ms)), ' '.join(map(str, hs))]
        rows += [' '.join(f'{0.01 + a * h / 1e7 + m / 100:.5f}' for h in hs) for m in ms]
        return '\n'.join(rows) + '\n'
    if kind == 'prop':
        rows = [f'{rng.choice((1, 2)):5d}{1:5d}', f' {title}', f'{2:5d}', '']
        rows += _maps(rng, [0.1, 0.7], [0.001, 0.5, 0.75, 1.0], [0.025, 0.05, 0.075], 4,
                      lambda h, x, y: a * (y + 0.1) / (1 + x), True)
        return '\n'.join(rows) + '\n'
    # a packaged deck with some of its values changed and some namelists added
    base = rng.choice([n for n, f in REAL['deck'] if f == fmt and n != 'bwb_detailed_FLOPS.in'])
    with open(repo_file(base), encoding='utf-8', errors='replace') as f:
        text = f.read()
    names = ['AR', 'ARHT', 'PS', 'TCHT', 'SLM', 'VBARHX'] if fmt == 'GASP' else ['SWPFIN', 'TCFIN', 'WENG', 'XNAC', 'DESRNG', 'XMLG']
    for n in rng.sample(names, rng.choice((1, 2, 4))):
        text = re.sub(rf'(?m)^(\s*{n}=)([0-9.]+)', lambda m: f'{m.group(1)}{float(m.group(2)) * a:.5g}', text, count=1)
    if fmt == 'GASP' and rng.random() < 0.4:
        text = text.rstrip('\n') + f'\n\n $INPROP\n BL=3.,\n GR={0.05 * a:.4f},\n $END\n'
    if rng.random() < 0.5:  # single elements of lists
        where, names = ('INGASP', ('CW(16)', 'CW(9)', 'CW(17)', 'ARNGE(1)', 'RF(1)')) if fmt == 'GASP' else ('WTIN', ('NFIN', 'XNAC(2)', 'DNAC(1)'))
        text = text.rstrip('\n') + f'\n\n ${where}\n' + ''.join(f' {n}={rng.randrange(1, 90)}.,\n' for n in rng.sample(names, 2)) + ' $END\n'
    if rng.random() < 0.3:
        text = text.rstrip('\n') + f'\n\naircraft:wing:area = {1000 * a:.1f}\n'
    return text


MUTATIONS = ('cut_line', 'cut_byte', 'drop_line', 'word', 'binary', 'empty', 'blank_line', 'dup_line', 'digit')


def unreadable(src):
    """Whether the mutated input can only be refused, or converted to the data of the whole input."""
    how, key = src['mut']['how'], (src['kind'], src['fmt'])
    if how in ('cut_line', 'empty'):
        return key in COUNTED
    if how == 'drop_line':
        return key in COUNTED and src['fmt'] != 'FLOPS'
    if how == 'blank_line':  # a blank line is no data
        return key in (('engine', 'FLOPS'), ('deck', 'FLOPS'), ('deck', 'GASP'))
    if how == 'word':  # not a number
        return src['kind'] != 'deck'
    return how == 'binary'  # not text


def mutate(data, mut):
    """data: bytes; mut: {how, at}."""
    how, at = mut['how'], mut['at']
    lines = data.split(b'\n')
    i = min(len(lines) - 1, int(at * len(lines)))
    if how == 'cut_line':
        return b'\n'.join(lines[:i]) + (b'\n' if i else b'')
    if how == 'cut_byte':
        return data[: int(at * len(data))]
    if how == 'drop_line':
        return b'\n'.join(lines[:i] + lines[i + 1:])
    if how == 'dup_line':
        return b'\n'.join(lines[:i + 1] + lines[i:])
    if how == 'blank_line':
        return b'\n'.join(lines[:i] + [b''] + lines[i:])
    if how == 'empty':
        return b''
    if how == 'binary':
        k = int(at * len(data))
        return data[:k] + b'\x00\xff\xfe' + data[k:]
    digits = [k for k, c in enumerate(data) if 48 <= c <= 57]
    if not digits:
        return data
    k = digits[min(len(digits) - 1, int(at * len(digits)))]
    return data[:k] + (b'x' if how == 'word' else b'7') + data[k + 1:]


def source(rng, heavy=True, kind=None):
    """A JSON description of one legacy input."""
    kind = kind or rng.choice(('engine', 'aero', 'prop', 'deck', 'deck'))
    if rng.random() < 0.3:
        name, fmt = rng.choice(REAL[kind])
        return dict(kind=kind, fmt=fmt, real=name)
    fmt = rng.choice(FORMATS[kind])
    if (kind, fmt) == ('aero', 'GASP') and rng.random() < 0.5:
        fmt = 'FLOPS'
    return dict(kind=kind, fmt=fmt, mini=rng.randrange(10**6))


def content(src):
    if 'real' in src:
        with open(repo_file(src['real']), 'rb') as f:
            data = f.read()
    else:
        data = mini(src['kind'], src['fmt'], src['mini']).encode()
    if src.get('mut'):
        data = mutate(data, src['mut'])
    return data


def convert(kind, fmt, infile, outfile, via='api', force=False, rnd=False, as_path=False, n=0):
    """Run one conversion as a user would. `outfile`: None, str or list of str."""
    from pathlib import Path

    if via == 'cli':
        from aviary.interface.cmd_entry_points import aviary_cmd

        argv = ['aviary', 'convert', _SUB[kind], infile]
        if outfile is not None:
            argv.append(outfile)
        if kind != 'prop':
            argv += ['-f', fmt]
        if kind == 'deck':
            argv += ['-v', '0'] + (['--force'] if force else [])
        if kind in ('engine', 'prop') and rnd:
            argv.append('--round')
        sys.argv = argv
        try:
            aviary_cmd()
        except SystemExit as e:
            if e.code not in (None, 0):
                raise
        return
    p = (lambda x: None if x is None else [p(i) for i in x] if isinstance(x, list) else Path(x)) if as_path else (lambda x: x)
    if kind == 'engine':
        from aviary.utils.engine_deck_conversion import EngineDeckType, convert_engine_deck

        convert_engine_deck(p(infile), p(outfile), EngineDeckType(fmt), round_data=rnd)
    elif kind == 'aero':
        from aviary.utils.aero_table_conversion import convert_aero_table

        convert_aero_table(p(infile), p(outfile), fmt)
    elif kind == 'prop':
        from aviary.utils.propeller_map_conversion import convert_propeller_map

        convert_propeller_map(p(infile), p(outfile), round_data=rnd)
    else:
        from aviary.utils.fortran_to_aviary import fortran_to_aviary
        from aviary.variable_info.enums import LegacyCode

        fortran_to_aviary(p(infile), LegacyCode(fmt), p(outfile), force, 0)


def exercise():
    """Run each converter once in the current folder."""
    import warnings

    from aviary.interface import cmd_entry_points  # noqa: F401

    warnings.simplefilter('ignore')
    for kind in FORMATS:
        for fmt in FORMATS[kind]:
            with open(f'{kind}_{fmt}.in', 'w') as f:
                f.write(mini(kind, fmt, 1))
            try:
                convert(kind, fmt, f'{kind}_{fmt}.in', os.path.abspath(f'{kind}_{fmt}.out.csv'), force=True)
            except Exception as e:  # the check itself reports it
                print('warm-up:', kind, fmt, repr(e))


def warm_imports():
    """Import whatever the converters import when they run, without running one in this process:
    simulated processes start from a state in which nothing has been converted."""
    import importlib

    from sim import fixtures, kernel

    def child(ctx):
        before = set(sys.modules)
        exercise()
        return sorted(set(sys.modules) - before)

    def go():
        r = kernel.process(child, root=os.getcwd())
        if not r.ok:
            print('warm-up:', r.why(), r.exc)
            return []
        return r.value

    for name in fixtures.in_scratch(go):
        try:
            importlib.import_module(name)
        except Exception:
            pass
