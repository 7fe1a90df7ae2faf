"""
Properties T01-T05: programs generated by TLC from Topo.tla are run on the implementation, the observed state of all
live objects after every call is recorded and TLC checks the records against TopoTrace.tla.
"""
import os
import random
import numpy as np
import lib
from lib import NAN, INF

ORDINARY = ['zero', 'center', 'invert', 'threshold', 'outmean', 'outmedian', 'fill', 'level', 'detrend', 'lowpass', 'highpass',
            'bandpass', 'cropx', 'cropu', 'zoom', 'rotate', 'shlevel', 'slice', 'slice1', 'setpt', 'setrow', 'setabove', 'setall',
            'assign', 'assignfrom', 'adds', 'subs', 'rsubs', 'muls', 'divs', 'addS', 'subS', 'mulS', 'hprof', 'vprof', 'align',
            'filllinear', 'fillcubic', 'filterbad']
FOCUS = {
    'T01': ORDINARY + ['read'] * 9 + ['setpt', 'setrow', 'setabove', 'setall', 'assign', 'assignfrom'],
    'T02': ORDINARY + ['setpt'] * 8 + ['setrow'] * 3 + ['slice', 'slice1', 'cropx', 'zoom', 'fill', 'shlevel'] * 2,
    'T03': ['cropx', 'cropu', 'zoom', 'slice', 'slice1'] * 5 + ['rotate', 'align', 'assign', 'setpt', 'zero', 'level', 'lowpass',
                                                                'hprof', 'vprof', 'fill', 'invert', 'addS', 'threshold'],
    'T04': ['setpt', 'setabove', 'fill', 'fill', 'filllinear', 'fillcubic', 'invert', 'zero', 'center', 'threshold', 'outmean',
            'outmedian', 'level', 'detrend', 'shlevel', 'lowpass', 'highpass', 'bandpass', 'rotate', 'align', 'adds', 'mulS', 'addS', 'cropx', 'slice'],
    'T05': ['zero', 'center', 'invert', 'threshold', 'threshold', 'outmean', 'outmean', 'outmedian', 'outmedian', 'adds', 'subs', 'rsubs',
            'muls', 'divs', 'addS', 'subS', 'mulS', 'setpt', 'assign', 'assign', 'setrow', 'cropx'],
}
#          programs quick, thorough, length, objects
SIZES = {'T01': (200, 1500, 9, 3), 'T02': (700, 4000, 8, 3), 'T03': (1500, 6000, 7, 3), 'T04': (1400, 5000, 8, 3), 'T05': (1500, 6000, 7, 3)}


SCALES = (2.0 ** -30, 2.0 ** 17, 1e-9, 0.1, 1e6 / 3)
scale = 1            # unit of the heights of the program at hand


def enc(v):
    v = float(v)
    if v != v:
        return NAN
    if abs(v) > 1500000:
        return INF
    return int(round(v * 1000))


def encgrid(a):
    a = np.atleast_2d(np.asarray(a))
    return [[enc(x) for x in row] for row in a]


def lattice(ny, nx, seed, style, nnan):
    g = make_grid(ny, nx, seed, style, nnan)
    return g if scale == 1 else g.astype(float) * scale


def make_grid(ny, nx, seed, style, nnan):
    r = random.Random(seed * 7 + style)
    n = ny * nx
    if style == 0:
        v = [r.randint(-5, 5) for _ in range(n)]
    elif style == 1:
        v = [x / 2 for x in range(n)]
        r.shuffle(v)
    elif style == 2:
        v = [10 * (r.random() < 0.6) + r.choice((0, 0.5, 1)) for _ in range(n)]
    elif style == 3:
        v = [r.randint(-3, 3)] * n
    elif style == 4:
        v = [r.choice((0, 0.5, 1)) for _ in range(n)]
        v[r.randrange(n)] = r.choice((-15, 18))
    elif style == 5:
        k = r.randint(2, 3)
        v = [(j % k) * 3 - (i % 2) * r.choice((0, 0, 1)) for i in range(ny) for j in range(nx)]
    else:
        v = [r.randint(-24, 24) / 2 for _ in range(n)]
    g = np.array(v, dtype=float).reshape(ny, nx)
    for _ in range(nnan):
        g[r.randrange(ny), r.randrange(nx)] = np.nan
    if seed % 3 == 0 and np.all(g == np.round(g)):
        return g.astype((np.int64, np.int16, np.int32)[seed % 9 // 3])       # integer heights are heights, too
    if seed % 17 == 1:
        return g.astype(np.float32)
    return g


SURF_LIGHT = ['Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdr', 'Sdq', 'Ssw', 'period', 'stepheight', 'surface_area', 'projected_area',
              'height_parameters', 'min', 'max', 'mean', 'median', 'std', 'has_missing_points', 'size', 'width_um', 'height_um']
SURF_ARGS = [('Sal', (), {}), ('Sal', (0.5,), {}), ('Sal', (), {'s': 0.3}), ('Str', (), {}), ('Str', (0.6,), {}), ('Str', (), {'s': 0.4}),
             ('Std', (), {}), ('Std', (5,), {}), ('Std', (), {'angle_step': 30}), ('cavity_volume', (), {}), ('cavity_volume', (0.2,), {}),
             ('cavity_volume', (), {'threshold': 0.8}), ('orientation', ('fft',), {}), ('orientation', (), {'method': 'fft'}), ('orientation', (), {}),
             ('homogeneity', (), {'period': 2.0}), ('homogeneity', (('Sa',), 2.0), {}), ('homogeneity', (('Sq', 'Sz'),), {'period': 3.0}),
             ('depth', (), {'nprofiles': 2}), ('depth', (3, 0.3), {}), ('depth', (), {'nprofiles': 2, 'sampling_width': 0.4}), ('aspect_ratio', (), {}),
             ('period_x_y', (), {}), ('depth', (), {'nprofiles': 3}), ('depth', (), {'sampling_width': 3}), ('depth', (), {'sampling_width': 0.3}),
             ('homogeneity', (), {'parameters': ('Sa',)}), ('homogeneity', (('Sz',),), {}), ('homogeneity', (), {'parameters': ('Sz',), 'period': 2.0}),
             ('get_autocorrelation_function.Sal', (), {'s': 0.5}), ('get_autocorrelation_function.Str', (), {'s': 0.5}), ('get_autocorrelation_function.Sal', (0.3,), {})]
# arguments that are nearly the same
SURF_NEAR = [('Sal', (0.54,), {}), ('Str', (0.64,), {}), ('Std', (5.04,), {}), ('cavity_volume', (0.24,), {}), ('Sal', (0.5400001,), {}), ('Std', (5.0004,), {})]
HEAVY_NEAR = [('Smr', (1.0004,), {}), ('Smc', (40.3,), {}), ('Vmp', (20.4,), {}), ('Vm', (30.4,), {}), ('Vv', (60.3,), {}), ('Vmc', (20.4, 60), {}), ('Sxp', (10.3, 60), {}),
              ('Smr', (1.0400001,), {}), ('Smr', (1.04,), {})]
SURF_HEAVY = [('Sk', (), {}), ('Spk', (), {}), ('Svk', (), {}), ('Spkx', (), {}), ('Svkx', (), {}), ('Sak1', (), {}), ('Sak2', (), {}), ('Smr1', (), {}),
              ('Smr2', (), {}), ('Smrk1', (), {}), ('Smrk2', (), {}), ('Sxp', (), {}), ('Sxp', (10, 60), {}), ('Sdc', (), {}), ('Sdc', (), {'p': 5, 'q': 70}), ('Smr', (1.0,), {}),
              ('Smr', (2.0,), {}), ('Smc', (10,), {}), ('Smc', (40,), {}), ('Smc', (), {'mr': 70}), ('Vmp', (), {}), ('Vmp', (20,), {}), ('Vmp', (), {'p': 40}), ('Vmc', (), {}),
              ('Vmc', (20, 60), {}), ('Vmc', (), {'p': 5, 'q': 90}), ('Vvv', (), {}), ('Vvv', (60,), {}), ('Vvv', (), {'q': 40}), ('Vvc', (), {}), ('Vvc', (20,), {}), ('Vvc', (), {'q': 60}),
              ('get_abbott_firestone_curve.vmc', (), {'p': 30}), ('get_abbott_firestone_curve.vmc', (), {'q': 30}), ('get_abbott_firestone_curve.vvc', (), {'p': 30}),
              ('get_abbott_firestone_curve.vvc', (), {'q': 30}), ('get_abbott_firestone_curve.vmp', (), {'p': 30}), ('get_abbott_firestone_curve.vvv', (), {'q': 30}),
              ('Vm', (30,), {}), ('Vm', (60,), {}), ('Vv', (30,), {}), ('Vv', (60,), {})]
PROF_LIGHT = ['Ra', 'Rq', 'Rp', 'Rv', 'Rz', 'Rt', 'Rsk', 'Rku', 'Rdq', 'period', 'min', 'max', 'mean', 'median', 'std', 'has_missing_points', 'size', 'length_um']
PROF_ARGS = [('Rp', (1,), {}), ('Rp', (), {'n_sections': 2}), ('Rv', (1,), {}), ('Rv', (), {'n_sections': 3}), ('Rz', (1,), {}), ('Rz', (), {'n_sections': 2}), ('Rz', (3,), {})]
PROF_HEAVY = [(('R' + n[1:]) if n[0] == 'S' else n, a, k) for n, a, k in SURF_HEAVY]
PROF_NEAR = [(('R' + n[1:]) if n[0] == 'S' else n, a, k) for n, a, k in HEAVY_NEAR]

GUARDED_S = ['Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdr', 'Sdq', 'Sal', 'Str', 'Ssw', 'Sk', 'Spk', 'Svk', 'Spkx', 'Svkx', 'Sak1', 'Sak2', 'Smr1', 'Smr2',
             'Sxp', 'Sdc', 'Vmp', 'Vmc', 'Vvv', 'Vvc', 'period', 'depth', 'aspect_ratio', 'homogeneity', 'Std', 'orientation', 'period_x_y', 'surface_area',
             'height_parameters', 'get_abbott_firestone_curve', 'get_fourier_transform', 'get_autocorrelation_function']
GUARDED_P = ['Ra', 'Rq', 'Rp', 'Rv', 'Rz', 'Rt', 'Rsk', 'Rku', 'Rdq', 'period', 'Rk', 'Rpk', 'Rvk', 'Rmr1', 'Rmr2', 'Rxp', 'Vmp', 'Vvc', 'get_abbott_firestone_curve']


def is_surface(o):
    from surfalize import Surface
    return isinstance(o, Surface)


def fresh(o):
    from surfalize import Surface, Profile
    d = np.array(o.data, copy=True, order='C')
    return Surface(d, o.step_x, o.step_y) if is_surface(o) else Profile(d, o.step)


def call(o, name, args=(), kw=None):
    """Result of a parameter, or the type of the exception it raises."""
    try:
        *via, name = name.split('.')
        for n in via:
            o = getattr(o, n)()
        v = getattr(o, name)
        if callable(v):
            v = v(*args, **(kw or {}))
        return v
    except Exception as e:
        return ('raised', type(e).__name__)


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        return bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-7, atol=1e-9, equal_nan=True))
    except Exception:
        return a == b


def battery(o, heavy, rng):
    if is_surface(o):
        items = [(n, (), {}) for n in SURF_LIGHT] + SURF_ARGS + SURF_NEAR + (SURF_HEAVY + HEAVY_NEAR if heavy else [])
    else:
        items = [(n, (), {}) for n in PROF_LIGHT] + PROF_ARGS + (PROF_HEAVY + PROF_NEAR if heavy else [])
    items = list(items)
    rng.shuffle(items)
    return items


def stale_results(o, heavy, rng):
    """Names of all results that differ between the live object and a fresh object with the same heights and spacing."""
    f = fresh(o)
    items = battery(o, heavy, rng)
    out = []
    # the fresh object answers in another order, so that an answer that depends on what was asked before shows up
    want = {}
    for i, (n, a, k) in reversed(list(enumerate(items))):
        want[i] = call(f, n, a, k)
    for i, (n, a, k) in enumerate(items):
        got = call(o, n, a, k)
        if not same(got, want[i]):
            out.append(f'{n}{a if a else ""}{k if k else ""}')
        if isinstance(got, dict):
            # a caller may do with a returned collection whatever it likes
            for key in list(got):
                got[key] = -12345.0
    return sorted(set(out))[:12]


def observe(o, pid, rng, heavy=False, full=True):
    d = np.asarray(o.data)
    s = is_surface(o)
    ob = {'k': 'S' if s else 'P',
          'ny': int(d.shape[0]) if s else 1, 'nx': int(d.shape[1] if s else d.shape[0]),
          'sx': enc(o.step_x if s else o.step), 'sy': enc(o.step_y) if s else 0,
          'w': enc(o.width_um if s else o.length_um), 'hh': enc(o.height_um) if s else 0,
          'g': encgrid(d / scale), 'ex': bool(np.all(np.isnan(d) | (d * 2 / scale == np.round(d * 2 / scale)))) and bool(np.frexp(scale)[0] == 0.5),
          'kx': bool(np.all(np.isnan(d) | (np.round(d * 2 / scale) / 2 * scale == d))), 'stale': [], 'norefuse': [], 'st': [0, 0, 0, 0, 0]}
    if not full:
        return ob
    if d.size and not np.all(np.isnan(d)):
        ob['st'] = [enc(x / scale) if not isinstance(x, tuple) else INF for x in (call(o, n) for n in ('min', 'max', 'mean', 'median', 'std'))]
    if pid in ('T01', 'T02', 'T04'):
        ob['stale'] = stale_results(o, heavy, rng) if pid == 'T01' else []
    if pid in ('T04', 'T01') and np.any(np.isnan(d)):
        names = GUARDED_S if s else GUARDED_P
        ob['norefuse'] = [n for n in names if call(o, n) != ('raised', 'ValueError')]
        if s and pid == 'T04':
            # statistics that work with missing points use the measured points only
            from surfalize import Surface
            m = d[~np.isnan(d)].reshape(1, -1)
            if m.size:
                only = Surface(np.array(m), o.step_x, o.step_y)
                for n in ('stepheight', 'cavity_volume'):
                    if not same(call(o, n), call(only, n)):
                        ob['norefuse'].append(n)
    return ob


def number(v, o):
    """The number v in one of the types a number may have."""
    k = sum(o.data.shape) % 3
    return int(v) if k < 2 and v == int(v) and abs(v) < 1e6 else np.float64(v) if k == 2 else v


MODES = ('reflect', 'nearest', 'mirror', 'wrap', 'constant')


def perform(e, o, o2, inp):
    """Executes the call e on object o; returns the returned object."""
    op, a = e['op'], e['a']
    s = is_surface(o)
    kw = {'inplace': True} if inp else {}
    if op in ('zero', 'center', 'invert', 'level'):
        return getattr(o, op)(**kw)
    if op == 'threshold':
        return o.threshold(threshold=(a[0], a[1]) if a[0] != a[1] else a[0], **kw)
    if op == 'outmean':
        return o.remove_outliers(n=a[0] / 2, **kw)
    if op == 'outmedian':
        return o.remove_outliers(n=a[0] / 2, method='median', **kw)
    if op == 'fill':
        return o.fill_nonmeasured(**kw)
    if op == 'filllinear':
        return o.fill_nonmeasured(method='linear', **kw)
    if op == 'fillcubic':
        return o.fill_nonmeasured(method='cubic', **kw)
    if op == 'detrend':
        return o.detrend_polynomial(degree=a[0], **kw)
    if op in ('lowpass', 'highpass'):
        return o.filter(op, a[0] / 1000, endeffect_mode=MODES[a[1]], **kw)
    if op == 'bandpass':
        return o.filter('bandpass', a[0] / 1000, a[1] / 1000, endeffect_mode=MODES[a[2]], **kw)
    if op == 'filterbad':
        if a[0] == 0:
            return o.filter('both', 2.0, inplace=True)
        if a[0] == 1:
            return o.filter('bandpass', 2.0)
        return o.filter('medium', 2.0)
    if op == 'cropx':
        return o.crop(tuple(a[:4]) if s else tuple(a[:2]), in_units=False, **kw)
    if op == 'cropu':
        return o.crop(tuple(x / 1000 for x in (a[:4] if s else a[:2])), **kw)
    if op == 'zoom':
        return o.zoom(a[0] / 10, **kw)
    if op == 'rotate':
        return o.rotate(a[0], **kw)
    if op == 'shlevel':
        return o.stepheight_level(**kw)
    if op == 'align':
        return o.align(axis='xy'[a[0]], method=('fft_refined', 'fft')[a[1]], **kw)
    if op in ('slice', 'slice1'):
        def sl(x, y, d):
            return slice(x, None if (d < 0 and y < 0) else y, d if d != 1 else None)
        if op == 'slice1':
            return o[sl(*a[:3])]
        return o[sl(*a[:3]), sl(*a[3:6])]
    if op == 'setpt':
        v = np.nan if a[2] == NAN else a[2] / 1000 * scale
        if s:
            o[a[0], a[1]] = v
        else:
            o[a[1]] = v
        return o
    if op == 'setrow':
        if s:
            o[a[0]] = a[1] / 1000 * scale
        else:
            o[:] = a[1] / 1000 * scale
        return o
    if op == 'setall':
        o[...] = a[0] / 1000 * scale
        return o
    if op == 'setabove':
        with np.errstate(invalid='ignore'):
            o[o.data > a[0] / 1000 * scale] = np.nan if a[1] == NAN else a[1] / 1000 * scale
        return o
    if op == 'assign':
        d = lattice(*a[:5])
        o.data = d if s else d.ravel()
        return o
    if op == 'assignfrom':
        o.data = o2.data
        return o
    if op == 'adds':
        v = number(a[0] / 1000 * scale, o)
        # the builtin function sum starts with the integer 0
        return sum([o]) if isinstance(v, int) and v == 0 else o + v if a[0] % 2000 else v + o
    if op == 'subs':
        return o - number(a[0] / 1000 * scale, o)
    if op == 'rsubs':
        return number(a[0] / 1000 * scale, o) - o
    if op == 'muls':
        return o * number(a[0] / 1000, o) if sum(o.data.shape) % 2 else number(a[0] / 1000, o) * o
    if op == 'divs':
        return o / number(a[0] / 1000, o)
    if op == 'addS':
        return o + o2
    if op == 'subS':
        return o - o2
    if op == 'mulS':
        return o * o2
    if op == 'hprof':
        return o.get_horizontal_profile((a[0] + 0.25) * o.step_y * (o.size.y - 1) / o.size.y if o.size.y > 1 else 0)
    if op == 'vprof':
        return o.get_vertical_profile((a[0] + 0.25) * o.step_x * (o.size.x - 1) / o.size.x if o.size.x > 1 else 0)
    raise lib.MachineryError('unknown operation ' + op)


SURFACE_ONLY = {'rotate', 'shlevel', 'align', 'slice', 'slice1', 'adds', 'subs', 'rsubs', 'muls', 'divs', 'hprof', 'vprof', 'addS', 'subS', 'mulS'}
INPLACE = {'zero', 'center', 'invert', 'threshold', 'outmean', 'outmedian', 'fill', 'filllinear', 'fillcubic', 'level', 'detrend', 'lowpass',
           'highpass', 'bandpass', 'cropx', 'cropu', 'zoom', 'rotate', 'shlevel', 'align'}


def repair(e, o, objs):
    """Adapts the arguments chosen by the model to the real shape of the operand (which may be data dependent)."""
    op, a = e['op'], list(e['a'])
    s = is_surface(o)
    ny, nx = (o.data.shape if s else (1, o.data.shape[0]))
    if op in SURFACE_ONLY and not s:
        return None
    if ny * nx == 0 or (op == 'mulS' and scale != 1):
        return None
    if op in ('slice', 'slice1'):
        ax = [(a[0], a[1], a[2], ny)] + ([(a[3], a[4], a[5], nx)] if op == 'slice' else [])
        a = []
        for p, q, d, n in ax:
            if d > 0:
                p = min(p, n - 1)
                q = max(p + 1, min(q, n))
            else:
                p, q = n - 1, -1
            a += [p, q, d]
    if op in ('cropx', 'cropu'):
        x0, x1 = min(a[0], nx - 1), min(a[1], nx - 1)
        y0, y1 = min(a[2], ny - 1), min(a[3], ny - 1)
        x0, x1 = min(x0, x1), max(x0, x1)
        y0, y1 = min(y0, y1), max(y0, y1)
        x0, x1 = (-1 if a[4] == 1 else x0), (nx if a[4] == 2 else x1)
        y0, y1 = (-1 if a[4] == 3 else y0), (ny if a[4] == 4 else y1)
        x0, x1 = (x1, x0) if a[4] == 5 else (x0, x1)
        y0, y1 = (y1, y0) if a[4] == 6 else (y0, y1)
        a = [x0, x1, y0, y1] + a[5:]
        if op == 'cropu':
            sx = enc(o.step_x if s else o.step)
            sy = enc(o.step_y) if s else 1000
            if (sx % 4 or sy % 4) or sx <= 0 or sy <= 0 or sx > 20000 or sy > 20000:
                return None          # spacing after a rotation: boxes are not on the grid
            jx, jy = a[4] * (sx // 4), a[5] * (sy // 4)
            a = [x0 * sx + jx, x1 * sx - jx, y0 * sy + jy, y1 * sy - jy]
        else:
            a = [x0, x1, y0, y1]
    if op == 'setpt':
        a[0], a[1] = a[0] % ny, a[1] % nx
    if op == 'setrow':
        a[0] = a[0] % ny
    if op == 'hprof':
        a[0] = a[0] % ny
    if op == 'vprof':
        a[0] = a[0] % nx
    if op == 'assign' and not s:
        a[0] = 1
    if op == 'zoom' and a[0] >= 10 and (int(nx * 10 / a[0]) < 1 or (s and int(ny * 10 / a[0]) < 1)):
        return None
    if op == 'assignfrom' and is_surface(objs[e['h2'] - 1]) != s:
        return None
    if op in ('addS', 'subS', 'mulS') and not is_surface(objs[e['h2'] - 1]):
        return None
    if op in ('level', 'detrend', 'shlevel', 'align', 'rotate') and min(nx, ny if s else nx) < 2:
        return None
    return a


def run_program(job):
    pid, idx, prog, seed = job
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    from surfalize import Surface, Profile
    global scale
    rng = random.Random(seed * 1000003 + idx)
    scale = 1 if pid in ('T01', 'T02') or idx % 5 < 3 else SCALES[idx // 5 % len(SCALES)]
    objs, trace = [], []
    for e in prog:
        e = dict(e)
        ev = {'op': e['op'], 'h': e['h'], 'h2': e['h2'], 'inp': bool(e['inp']), 'a': list(e['a']), 'r': 0, 'ret': 'none', 'err': '',
              'g': [], 'alt': {'has': False, 'err': '', 'o': {}}}
        heavy = False
        if e['op'] in ('new', 'newP'):
            a = e['a']
            d = lattice(a[0], a[1], a[4], a[5], a[6])
            try:
                if e['op'] == 'new':
                    ev['g'] = encgrid(d / scale)
                    objs.append(Surface(d, a[2] / 1000, a[3] / 1000))
                else:
                    ev['g'] = encgrid(d.ravel() / scale)
                    objs.append(Profile(d.ravel(), a[2] / 1000))
                ev['r'], ev['ret'] = len(objs), 'new'
            except Exception as x:
                ev['err'] = type(x).__name__
            heavy = pid == 'T01' and rng.random() < 0.5
        elif e['op'] == 'read':
            if not objs:
                continue
            ev['h'] = 1 + (e['h'] - 1) % len(objs)
            heavy = pid == 'T01'
        else:
            if not objs:
                continue
            h = (e['h'] - 1) % len(objs)
            e['h2'] = 1 + (e['h2'] - 1) % len(objs) if e['h2'] else 0
            o = objs[h]
            args = repair(e, o, objs)
            if args is None:
                continue
            e['a'] = args
            ev.update(h=h + 1, h2=e['h2'], a=args)
            o2 = objs[e['h2'] - 1] if e['h2'] else None
            if e['op'] == 'assign':
                ev['g'] = encgrid((lattice(*args[:5]) if is_surface(o) else lattice(*args[:5]).ravel()) / scale)
            twin = fresh(o) if e['op'] in INPLACE else None
            try:
                r = perform(e, o, o2, ev['inp'])
            except lib.MachineryError:
                raise
            except Exception as x:
                ev['err'] = type(x).__name__
                r = None
            if e['op'] in ('rotate', 'align') and is_surface(r) and (min(r.data.shape) < 2 or not 0 < r.step_x < 1e4 or not 0 < r.step_y < 1e4):
                break                # nothing left of a tiny grid: outside of the specification
            if r is not None:
                pos = [i for i, x in enumerate(objs) if x is r]
                if r is o:
                    ev['ret'], ev['r'] = 'self', h + 1
                elif pos:
                    ev['ret'], ev['r'] = 'alias', pos[0] + 1
                elif isinstance(r, (Surface, Profile)):
                    objs.append(r)
                    ev['ret'], ev['r'] = 'new', len(objs)
                else:
                    ev['ret'] = 'other'
            if twin is not None:
                ev['alt']['has'] = True
                try:
                    tr = perform(e, twin, o2, not ev['inp'])
                    ev['alt']['o'] = observe(tr, pid, rng, full=False)
                except Exception as x:
                    ev['alt']['err'] = type(x).__name__
        try:
            ev['obs'] = [observe(x, pid, rng, heavy=heavy) for x in objs]
        except Exception as x:
            # an object that cannot even be inspected any more
            ev['obs'] = None
            ev['broken'] = repr(x)
        trace.append(ev)
        if ev['obs'] is None:
            break
    return trace


def check(pid):
    rep = lib.Report(pid)
    quick, thorough, length, maxobj = SIZES[pid]
    n = thorough if lib.THOROUGH else quick
    with lib.Scratch() as wd:
        if pid in ('T01', 'T02'):
            import topodesign
            topodesign.explore(rep, wd, pid, *((4, 5000, 10) if lib.THOROUGH else (3, 600, 8)))
        if pid == 'T05':
            import equality
            equality.pairs(rep, wd, pid, equality.combine, 40000 if lib.THOROUGH else 3000)
        focus = ', '.join(f'"{x}"' for x in FOCUS[pid])
        cfg = f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Focus <- FocusValue\n MaxObj = {maxobj}\n MaxLen = {length}\n'
        run = f'---- MODULE TopoRun ----\nEXTENDS Topo\nFocusValue == <<{focus}>>\n====\n'
        r = lib.tlc('TopoRun', cfg, wd, modules={'TopoRun': run}, workers=1,
                    args=('-simulate', f'num={n}', '-depth', length + 3, '-seed', lib.SEED), timeout=600)
        progs = r['emitted']
        if len(progs) < n * 0.9:
            raise lib.MachineryError(f'only {len(progs)} of {n} programs generated')
        rep.tlc(r)
        traces = lib.pool_map(run_program, [(pid, i, p, lib.SEED) for i, p in enumerate(progs)], chunksize=4)
        for i, t in enumerate(traces):
            for ev in t:
                if ev['obs'] is None:
                    rep.violation(f'{pid}:broken_object', {'program': progs[i], 'event': ev})
            traces[i] = [ev for ev in t if ev['obs'] is not None]
        size = 700
        ops = {}
        for c in range(0, len(traces), size):
            part = traces[c:c + size]
            rejects, dist, gen = lib.validate_traces('TopoTrace', part, wd, workers=8, timeout=800)
            rep.add(states=dist, transitions=gen, traces_validated_against_impl=len(part))
            for rj in rejects:
                bad = [b for b in rj['bad'] if b.startswith(pid + ':')]
                if not bad:
                    continue
                tr = part[rj['t'] - 1]
                ev = tr[rj['l'] - 1]
                rep.violation(f"{'+'.join(sorted(bad))}:{ev['op']}",
                              {'clauses': sorted(bad), 'step': rj['l'], 'event': {k: ev[k] for k in ('op', 'h', 'h2', 'inp', 'a', 'r', 'ret', 'err')},
                               'stale': [o['stale'] for o in ev['obs']],
                               'notrefused': [o['norefuse'] for o in ev['obs']], 'program': [(x['op'], x['h'], x['h2'], x['inp'], x['a']) for x in tr[:rj['l']]],
                               'before': [o['g'] for o in (tr[rj['l'] - 2]['obs'] if rj['l'] > 1 else [])], 'after': [o['g'] for o in ev['obs']]})
        for t in traces:
            for ev in t:
                k = ev['op'] + ('!' if ev['inp'] else '') + ('#' if ev['err'] else '')
                ops[k] = ops.get(k, 0) + 1
        rep.cov['calls_by_operation'] = dict(sorted(ops.items()))
        rep.add(calls=sum(len(t) for t in traces))
        if traces:
            rep.sample({'program': [(x['op'], x['h'], x['inp'], x['a'], x['err']) for x in traces[0]]})
            rep.sample({'program': [(x['op'], x['h'], x['inp'], x['a'], x['err']) for x in traces[-1]]})
    rep.assumptions = ['grids up to 7 x 8 points with heights on a half-unit lattice (T03-T05: in units from 1e-9 to 3e5 µm)', 'spacing is changed only through operations']
    return rep

