"""Behaviours of TopoDesign.tla on the implementation (T01, T02)."""
import random
import numpy as np
import lib

BUGS = {'keyless': 'Current', 'exposed': 'Current', 'editkeeps': 'Current', 'inplacekeeps': 'Current', 'carry': 'Current',
        'live': 'Current', 'kept': 'Current', 'cachedop': 'Isolated', 'view': 'Isolated', 'self': 'Isolated', 'alias': 'Isolated'}
CFG = 'SPECIFICATION Spec\nINVARIANT Current\nINVARIANT Isolated\nCONSTANTS\n Depth = {}\n MaxHandles = {}\n Bugs = {{{}}}\n Emit = {}\n Sim = {}\nCHECK_DEADLOCK FALSE\n'

# the same result with two different sets of arguments
READS_S = [('Vmp', (10,), (30,)), ('Vmc', (10, 80), (20, 70)), ('Vvv', (80,), (55,)), ('Vvc', (10, 80), (30, 60)), ('Vm', (10,), (10.4,)), ('Vv', (80.4,), (80,)), ('Smr', (0.5,), (-0.5,)),
           ('Smc', (20,), (60,)), ('Sxp', (2.5, 50), (10, 40)), ('Sdc', (10, 20), (10, 70)), ('cavity_volume', (0.5,), (0.1,)), ('cavity_volume', (0.5,), (0.54,)), ('Sal', (0.54,), (0.5,)), ('Smr', (0.5,), (0.504,)), ('Sal', (0.2,), (0.6,)), ('Str', (0.2,), (0.6,)),
           ('Std', (0.5,), (7.0,)), ('orientation', ('fft',), ('fft_refined',)), ('roughness_parameters', (('Sa', 'Sq'),), (('Sq', 'Sz'),)),
           ('roughness_parameters', (None,), (['Sa'],)), ('Sa', (), ()), ('Sdq', (), ()), ('Sdr', (), ()), ('Sk', (), ()), ('Smr1', (), ()), ('period', (), ()), ('Ssw', (), ()),
           ('period_x_y', (), ()), ('height_parameters', (), ()), ('stepheight', (), ()), ('homogeneity', (('Sa',), 2.0), (('Sku', 'Sz'), 2.0)), ('has_missing_points', None, None),
           ('Sz', (), ()), ('surface_area', (), ()), ('projected_area', (), ()), ('mean', (), ()), ('median', (), ()), ('std', (), ()), ('min', (), ()), ('max', (), ())]
READS_P = [('Rp', (2,), (3,)), ('Rv', (5,), (2,)), ('Rz', (5,), (1,)), ('Vmp', (10,), (30,)), ('Vvc', (10, 80), (30, 60)), ('Rmr', (0.5,), (-0.5,)), ('Rmc', (20,), (60,)),
           ('Rxp', (2.5, 50), (10, 40)), ('Rdc', (10, 20), (10, 70)), ('Ra', (), ()), ('Rq', (), ()), ('Rk', (), ()), ('Rdq', (), ()), ('period', (), ()),
           ('roughness_parameters', (['Ra', 'Rz'],), (['Rq'],)), ('Rt', (), ()), ('mean', (), ()), ('std', (), ())]
# analyses: how they are obtained, and what they are asked
CURVE = [('k',), ('pk',), ('vk',), ('pkx',), ('vkx',), ('ak1',), ('ak2',), ('mr1',), ('mr2',), ('mc', 20), ('mc', 75), ('mr', 5.0), ('mr', 4.0), ('dc', 10, 60), ('Vm', 30), ('Vv', 30), ('vmp',),
         ('vmc',), ('vvv',), ('vvc', 20, 70), ('vmp', 25)]
ANALYSES_S = [('get_abbott_firestone_curve', CURVE),
              ('get_fourier_transform', [('period',), ('period_x_y',), ('orientation',), ('dominant_wavelength',), ('Std',), ('Std', 7.0), ('angular_power_spectrum',), ('angular_power_spectrum', 10)]),
              ('get_autocorrelation_function', [('Sal',), ('Sal', 0.6), ('Str',), ('Str', 0.6), ('data',), ('calculate_autocorrelation',)])]
ANALYSES_P = [('get_abbott_firestone_curve', CURVE)]
CHANGES_S = [('zero', ()), ('center', ()), ('invert', ()), ('level', ()), ('detrend_polynomial', (2,)), ('threshold', ((20, 10),)), ('filter', ('lowpass', 3.0)), ('filter', ('highpass', 3.0)),
             ('remove_outliers', (1,)), ('rotate', (90,)), ('zoom', (1.5,)), ('stepheight_level', ())]
CHANGES_P = [('zero', ()), ('center', ()), ('invert', ()), ('level', ()), ('filter', ('lowpass', 3.0)), ('threshold', (20,)), ('remove_outliers', (1,))]


def make(rng, profile):
    from surfalize import Surface, Profile
    d = rng.normal(5, 1, size=40 if profile else (int(rng.integers(6, 12)), int(rng.integers(6, 12))))
    return Profile(d, 0.5) if profile else Surface(d, 0.5, 1.0)


def copy(o):
    from surfalize import Surface
    return Surface(o.data.copy(), o.step_x, o.step_y) if isinstance(o, Surface) else type(o)(o.data.copy(), o.step)


def value(o, read, k):
    name, args = read[0], read[k]
    try:
        v = getattr(o, name)
        return v(*args) if args is not None and callable(v) else v
    except Exception as x:
        return ('raised', type(x).__name__)


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return np.shape(a) == np.shape(b) and bool(np.all(np.isclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)))


def overwrite(x):
    try:
        x[...] = np.arange(x.size).reshape(x.shape) + 33.0
    except ValueError:
        pass             # refused


def spoil(o, choose):
    """Changes everything in a result that can be changed."""
    from surfalize import Surface
    what = choose.randrange(5)
    if isinstance(o, Surface) and what == 4:
        t = o.get_fourier_transform()
        for step in (0.5, 1, 7.0, 10):
            for x in t.angular_power_spectrum(step):
                overwrite(x)
        overwrite(o.get_autocorrelation_function().data)
        overwrite(o.data)
    elif isinstance(o, Surface) and what == 0:
        r = o.height_parameters()
        for k in r:
            r[k] = -77.0
    elif what <= 1:
        r = o.roughness_parameters()
        for k in r:
            r[k] = -77.0
    elif isinstance(o, Surface) and what == 2:
        p = o.get_horizontal_profile(1.0)
        p[0] = 99.0
        p = o.get_vertical_profile(1.0)
        p[1] = 99.0
        o.get_oblique_profile(0, 0, 1, 1)[0] = 99.0
    elif isinstance(o, Surface):
        _, trend = o.detrend_polynomial(1, return_trend=True)
        trend[0, 0] = 99.0
        _, trend = o.level(return_trend=True)
        trend[0, 0] = 99.0


def run(job):
    i, prog, seed = job
    import warnings
    warnings.simplefilter('ignore')
    from surfalize import Surface
    choose, rng = random.Random(seed * 1000003 + i), np.random.default_rng([seed, i])
    profile = choose.random() < 0.25
    objs = [make(rng, profile)]
    read = choose.choice(READS_P if profile else READS_S)
    obtain, questions = choose.choice(ANALYSES_P if profile else ANALYSES_S)
    questions = [choose.choice(questions), choose.choice(questions)]
    held = []
    # the same operation all the time: a remembered one would be given again
    name, args = choose.choice(CHANGES_P if profile else CHANGES_S)
    bad = []
    done = []
    for st in prog:
        op, o = st['op'], objs[st['h'] - 1] if st['op'] != 'ask' else None
        before = [x.data.copy() for x in objs]
        written = None
        done.append((op, st['h'], st['k']))
        info = {'steps': list(done), 'read': read, 'operation': (name, args), 'profile': profile, 'job': i}
        try:
            if op == 'read':
                got, due = value(o, read, st['k']), value(copy(o), read, st['k'])
                if not same(got, due):
                    bad.append(('T01', 'design:stale_result', {**info, 'got': repr(got)[:200], 'due': repr(due)[:200]}))
            elif op == 'analyse':
                held.append((getattr(o, obtain)(), copy(o)))
            elif op == 'ask':
                q = questions[st['k'] - 1]
                got, due = value(held[st['h'] - 1][0], (q[0], q[1:]), 1), value(getattr(copy(held[st['h'] - 1][1]), obtain)(), (q[0], q[1:]), 1)
                if not same(got, due):
                    bad.append(('T01', 'design:stale_analysis', {**info, 'analysis': obtain, 'question': q, 'got': repr(got)[:200], 'due': repr(due)[:200]}))
            elif op == 'spoil':
                spoil(o, choose)
            elif op == 'edit':
                written = o
                v = float(rng.normal(5, 3))
                k = choose.randrange(3)
                if k == 0:
                    o[(0,) * o.data.ndim] = v
                elif k == 1:
                    o[o.data > o.data.mean()] = v
                else:
                    o[-1] = v
            elif op == 'inplace':
                written = o
                if getattr(o, name)(*args, inplace=True) is not o:
                    bad.append(('T02', 'design:inplace_result', info))
            elif op == 'assign':
                written = o
                o.data = objs[st['k'] - 1].data
                if not np.array_equal(o.data, objs[st['k'] - 1].data, equal_nan=True):
                    bad.append(('T02', 'design:assigned_heights', info))
            else:
                if op == 'copying':
                    r = getattr(o, name)(*args)
                    due = getattr(copy(o), name)(*args, inplace=True)
                elif op == 'part':
                    if profile:
                        r, due = o.crop((0, float(o.data.size - 1) * o.step)), o
                    else:
                        k = choose.randrange(4)
                        n, m = o.data.shape
                        r = o[:, :] if k == 0 else o[0:n, 0:m] if k == 1 else o.crop((0, m - 1, 0, n - 1), in_units=False) if k == 2 else o.zoom(1.0)
                        due = o if k < 3 else r
                else:
                    k = choose.randrange(3 if profile else 5)
                    due = o
                    if profile or k < 2:
                        z = o.data.min()
                        r = o.zero() if z == 0 or k else o.threshold(0)
                        due = copy(o).zero(inplace=True) if z == 0 or k else copy(o).threshold(0, inplace=True)
                    else:
                        r = o.fill_nonmeasured() if k == 2 else o + 0 if k == 3 else o.rotate(0)
                        due = copy(o).fill_nonmeasured(inplace=True) if k == 2 else o if k < 4 else r
                if any(r is x for x in objs):
                    bad.append(('T02', 'design:same_object', info))
                    break
                if r.data.shape != due.data.shape or not np.allclose(r.data, due.data, rtol=1e-9, atol=1e-9, equal_nan=True):
                    bad.append(('T02', 'design:copying_form', info))
                objs.append(r)
                if r.data.size < 12 or min(r.data.shape) < 3:
                    break
        except Exception as x:
            if type(x).__name__ in ('ValueError', 'IndexError', 'LinAlgError', 'ZeroDivisionError', 'TypeError', 'RuntimeError'):
                # not possible for these heights; the objects stay as they are
                for x, b in zip(objs, before):
                    if not np.array_equal(x.data, b, equal_nan=True) and op not in ('edit', 'inplace', 'assign', 'ask'):
                        bad.append(('T02', 'design:changed_by_failure', info))
                break
            raise
        for n, (x, b) in enumerate(zip(objs, before)):
            if x is not written and not np.array_equal(x.data, b, equal_nan=True):
                bad.append(('T02', 'design:other_object_changed', {**info, 'object': n + 1}))
        if bad:
            break
    return bad, len(done)


def explore(rep, wd, pid, exhaustive, simulated, length):
    """Checks the design, refutes the wrong ones and replays all behaviours of a length and a sample of longer ones."""
    r = lib.tlc('TopoDesign', CFG.format(exhaustive + 1, 3, '', 'FALSE', 'FALSE'), wd, workers=8)
    rep.tlc(r)
    for bug, inv in BUGS.items():
        lib.tlc_must_fail('TopoDesign', CFG.format(5, 3, f'"{bug}"', 'FALSE', 'FALSE'), wd, f'Invariant {inv} is violated', workers=4)
    rep.add(refuted_designs=len(BUGS))
    progs = lib.tlc('TopoDesign', CFG.format(exhaustive, 3, '', 'TRUE', 'FALSE'), wd, workers=1)['emitted']
    all_of_them = len(progs)
    wanted = all_of_them + 0.9 * simulated
    progs += lib.tlc('TopoDesign', CFG.format(length, 4, '', 'TRUE', 'TRUE'), wd, workers=1, args=('-simulate', f'num={simulated}', '-depth', length + 2, '-seed', lib.SEED))['emitted']
    progs = [p for i, p in enumerate(progs) if i == 0 or p != progs[i - 1]]
    if all_of_them < 100 or len(progs) < wanted:
        raise lib.MachineryError('too few behaviours')
    calls = 0
    for bad, n in lib.pool_map(run, [(i, p, lib.SEED) for i, p in enumerate(progs)], chunksize=16):
        calls += n
        for p, key, d in bad:
            if p == pid:
                rep.violation(f'{pid}:{key}', d)
    rep.add(design_behaviours=len(progs), design_behaviours_exhaustive=all_of_them, design_calls=calls, traces_validated_against_impl=len(progs))
