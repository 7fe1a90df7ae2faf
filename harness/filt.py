"""T08: filter requests from Filter.tla, weighted means evaluated from the definition, answers judged by TLC."""
import math
import random
import numpy as np
import lib
from topo import encgrid
from values import layout

SIZES = (900, 12000)
WAVES = (60, 1200)


def build(c, transposed=False):
    from surfalize import Surface, Profile
    g = np.array(c['g'], dtype=float) / 1000
    if transposed:
        g = g.T.copy()
    if c['dt'] == 'float32' or (c['dt'] == 'int64' and np.all(g == np.round(g))):
        g = g.astype(c['dt'])
    if c['k'] == 'P':
        return Profile(layout(g.ravel(), c['lay']), c['sx'] / 1000)
    sx, sy = c['sx'] / 1000, c['sy'] / 1000
    g = layout(g, c['lay'])
    return Surface(g, sy, sx) if transposed else Surface(g, sx, sy)


def weights(n, cutoff, step):
    d = np.arange(-n, n + 1) * step / cutoff
    w = np.exp(-math.pi ** 2 / math.log(2) * d * d)
    return w / w.sum()


def gaussian_mean(c):
    e = np.array(c['ext'], dtype=float) / 1000
    wx = weights(c['px'], c['c1'], c['sx'])
    wy = weights(c['py'], c['c1'], c['sy']) if c['k'] == 'S' else np.ones(1)
    e = np.array([np.convolve(row, wx, 'valid') for row in e])
    return np.array([np.convolve(col, wy, 'valid') for col in e.T]).T


def ask(o, c, kind, cut, inplace=False, other=False):
    if (c['api'] == 'object') != other:
        from surfalize.filter import GaussianFilter
        f = GaussianFilter(cut, kind, endeffect_mode=c['mode'])
        return f.apply(o, inplace=inplace) if c['lay'] % 2 else f(o, inplace=inplace)
    return o.filter(kind, cut, inplace=inplace, endeffect_mode=c['mode'])


def steps(o):
    return (o.step_x, o.step_y, o.width_um, o.height_um) if hasattr(o, 'step_x') else (o.step, o.length_um)


REFUSE = [('medium', 2.0, {}), ('both', 2.0, {'inplace': True}), ('bandpass', 2.0, {}), ('bandpass', 2.0, {'cutoff2': 2.0}), ('bandpass', 2.0, {'cutoff2': 1.0}),
          ('bandpass', 2.0, {'cutoff2': 1.0, 'inplace': True}), ('bandpass', 2.0, {'inplace': True}), ('', 2.0, {'inplace': True}), ('Lowpass', 2.0, {'inplace': True})]


def run(c):
    import warnings
    warnings.simplefilter('ignore')
    e = {'kind': 'filter', 'k': c['k'], 'g': c['g'], 'mode': c['mode'], 'flat': c['flat'], 'dt': c['dt'], 'err': '', 'idn': True, 'sp': True, 'refused': []}
    e['want'] = encgrid(gaussian_mean(c))
    try:
        c1, c2 = c['c1'] / 1000, c['c2'] / 1000
        o = build(c)
        d0, s0 = np.array(o.data), steps(o)
        lp, hp = ask(o, c, 'lowpass', c1), ask(o, c, 'highpass', c1)
        e['lp'], e['hp'] = encgrid(lp.data), encgrid(hp.data)
        b = o.filter('both', c1, endeffect_mode=c['mode'])
        bp = o.filter('bandpass', c1, cutoff2=c2, endeffect_mode=c['mode'])
        e['both1'], e['both2'], e['bp'] = encgrid(b[0].data), encgrid(b[1].data), encgrid(bp.data)
        e['seq'] = encgrid(ask(lp, c, 'highpass', c2).data)
        idn = len(b) == 2 and len({id(x) for x in (o, lp, hp, bp) + tuple(b)}) == 6 and np.array_equal(d0, o.data) and steps(o) == s0
        for kind, want in (('lowpass', lp), ('highpass', hp)):
            p = build(c)
            r = ask(p, c, kind, c1, inplace=True, other=True)
            idn = idn and r is p and np.allclose(r.data, want.data, atol=1e-9) and steps(r) == s0
        p = build(c)
        r = p.filter('bandpass', c1, c2, True, c['mode'])
        idn = idn and r is p and np.allclose(r.data, bp.data, atol=1e-9) and steps(r) == s0
        e['idn'] = bool(idn)
        e['sp'] = all(np.allclose(steps(x), s0) and type(x) is type(o) for x in (lp, hp, bp) + tuple(b))
        e['tp'] = encgrid(ask(build(c, True), c, 'lowpass', c1).data) if c['k'] == 'S' else []
        for kind, cut, kw in REFUSE:
            p = build(c)
            try:
                p.filter(kind, cut, **kw)
                e['refused'].append(f'{kind}{kw}')
            except ValueError:
                pass
            if not np.array_equal(p.data, d0) or steps(p) != s0:
                e['refused'].append(f'changed {kind}{kw}')
    except Exception as x:
        e['err'] = repr(x)[:200]
        for k in ('lp', 'hp', 'both1', 'both2', 'bp', 'seq', 'tp'):
            e[k] = []
    return [e]


def wave(c):
    """A wave over a whole number of periods with periodic continuation; amplitude and phase by projection."""
    import warnings
    warnings.simplefilter('ignore')
    from surfalize import Surface, Profile
    e = {'kind': 'wave', 'r': c['r'], 'err': '', 'amp': 0, 'phase': 0, 'hamp': 0}
    try:
        n = c['periods'] * c['ppw']
        x = 2 * np.pi * np.arange(n) / c['ppw'] + c['phase']
        step = c['step']
        cut = math.sqrt(c['r'] / 2) * c['ppw'] * step
        z = c['off'] + 3 * np.sin(x)
        if c['axis'] == 'p':
            o = Profile(z, step)
        elif c['axis'] == 'x':
            o = Surface(np.tile(z, (4, 1)), step, 1.7)
        else:
            o = Surface(np.tile(z[:, None], (1, 5)), 0.4, step)
        out = []
        for kind in ('lowpass', 'highpass'):
            d = np.array(o.filter(kind, cut, endeffect_mode='wrap').data)
            d = d if d.ndim == 1 else (d[1] if c['axis'] == 'x' else d[:, 1])
            out.append(2 / n * np.sum((d - np.mean(d)) * np.exp(-1j * x)) * 1j / 3)
        e['amp'], e['hamp'] = int(round(abs(out[0]) * 10000)), int(round(abs(out[1]) * 10000))
        e['phase'] = int(round(np.angle(out[0]) * 1000)) if abs(out[0]) > 0.02 else 0
    except Exception as x:
        e['err'] = repr(x)[:200]
    return [e]


def check(pid):
    rep = lib.Report(pid)
    n = SIZES[lib.THOROUGH]
    with lib.Scratch() as wd:
        r = lib.tlc('Filter', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\n', wd, workers=1,
                    args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
        rep.tlc(r)
        cases = r['emitted']
        if len(cases) < n:
            raise lib.MachineryError('too few cases generated')
        rng = random.Random(lib.SEED)
        waves = [{'r': rng.randint(1, 6), 'ppw': rng.randint(12, 40), 'periods': rng.randint(3, 8), 'phase': rng.random(), 'step': rng.choice((0.2, 1.0, 3.5)),
                  'off': rng.choice((0, 5, -40)), 'axis': rng.choice('pxy')} for _ in range(WAVES[lib.THOROUGH])]
        traces = lib.pool_map(run, cases) + lib.pool_map(wave, waves)
        src = cases + waves
        rejects, dist, gen = lib.validate_traces('Filter', traces, wd, workers=8)
        rep.add(states=dist, transitions=gen, traces_validated_against_impl=len(traces), waves=len(waves))
        for rj in rejects:
            rep.violation('+'.join(sorted(rj['bad'])), {'event': traces[rj['t'] - 1][0], 'case': src[rj['t'] - 1]})
        rep.cov['by_continuation'] = {m: sum(c['mode'] == m for c in cases) for m in ('reflect', 'nearest', 'mirror', 'wrap', 'constant')}
        rep.sample(cases[0])
        rep.sample(traces[-1][0])
    rep.assumptions = ['weights beyond four standard deviations do not matter (1e-4 of the height range)', 'recorded heights rounded to 1/1000']
    return rep
