"""T07: levelling and detrending requests from Detrend.tla, answers recorded and judged by TLC."""
import numpy as np
import lib
from lib import NAN
from topo import encgrid

SIZES = (1500, 20000)


def build(c):
    from surfalize import Surface, Profile
    g = np.array([[np.nan if v == NAN else v / 1000 for v in row] for row in c['g']], dtype=float)
    if c['many']:
        ny = 1 if c['k'] == 'P' else max(2, int((c['points'] * c['share'] / 10) ** 0.5) // g.shape[0])
        g = np.tile(g, (ny, max(2, c['points'] // (g.size * ny))))
        y, x = np.ogrid[-1:1:g.shape[0] * 1j, -1:1:g.shape[1] * 1j] if c['k'] == 'S' else (0, np.linspace(-1, 1, g.size))
        g = g + 20 / (1 + 6 * (x - 0.3) ** 2 + 4 * y ** 2)
    g = g * float(c['unit'])
    return Surface(g, c['sx'] / 1000, c['sy'] / 1000) if c['k'] == 'S' else Profile(g.ravel(), c['sx'] / 1000)


def coarse(n, m=7):
    """At most m equally spaced indices of n, since a polynomial is one on them, too."""
    s = max(1, (n - 1) // (m - 1))
    return np.arange(0, n, s)[:m] if n > 1 else np.arange(n)


def cut(d, c):
    """What is recorded of the heights d."""
    if not c['many']:
        return d
    return d[coarse(d.shape[0])][:, coarse(d.shape[1])] if d.ndim == 2 else d[coarse(d.size, 11)]


def moments(r, d):
    r = np.atleast_2d(r)
    y = np.linspace(-1, 1, r.shape[0])[:, None] if r.shape[0] > 1 else np.zeros((1, 1))
    x = np.linspace(-1, 1, r.shape[1])[None, :]
    ok = ~np.isnan(r)
    high = np.abs(r[ok]).max() or 1
    out = []
    for a in range(d + 1):
        for b in range(d + 1 - a if r.shape[0] > 1 else 1):
            w = np.broadcast_to(x ** a * y ** b, r.shape)[ok]
            out.append({'a': a, 'b': b, 'v': int(np.clip(np.round(1e6 * np.sum(w * r[ok]) / (np.sum(np.abs(w)) * high)), -10**9, 10**9))})
    return out


def ask(o, c, inplace, rt):
    if c['api'] == 'step':
        return o.stepheight_level(inplace=inplace)
    if c['api'] == 'level':
        return o.level(inplace=inplace, return_trend=rt)
    return o.detrend_polynomial(degree=c['d'], inplace=inplace, return_trend=rt)


def run(c):
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    u = float(c['unit'])
    e = {'k': c['k'], 'g': c['g'], 'd': c['d'], 'rt': c['rt'], 'step': c['api'] == 'step', 'err': '', 'many': c['many'], 'moments': [], 'r': [], 'tr': [], 'again': [], 'other': [], 'idn': True, 'sp': True}
    try:
        o = build(c)
        d0 = np.array(o.data)
        if c['many']:
            e['g'] = encgrid(cut(d0, c) / u)
        res = ask(o, c, c['inp'], c['rt'])
        rest, trend = res if c['rt'] else (res, None)
        e['r'] = encgrid(cut(rest.data, c) / u)
        if c['many']:
            e['moments'] = moments(rest.data / u, c['d'])
        if c['rt']:
            e['tr'] = encgrid(cut(trend.data, c) / u)
        e['again'] = encgrid(cut(ask(rest, c, False, False).data, c) / u)
        # the other variant (in place / copy, trend returned or not, explicit degree)
        o2 = build(c)
        x = o2.stepheight_level(inplace=not c['inp']) if e['step'] else o2.detrend_polynomial(degree=c['d'], inplace=not c['inp'], return_trend=not c['rt'])
        e['other'] = encgrid(cut((x if c['rt'] or e['step'] else x[0]).data, c) / u)
        e['idn'] = bool((rest is o) == c['inp'] and (c['inp'] or np.array_equal(d0, o.data, equal_nan=True)) and (trend is None or trend is not rest))
        st = (lambda s: (s.step_x, s.step_y, s.width_um, s.height_um)) if c['k'] == 'S' else (lambda s: (s.step, s.length_um))
        e['sp'] = bool(np.allclose(st(rest), st(build(c))) and (trend is None or np.allclose(st(trend), st(build(c)))))
    except Exception as x:
        e['err'] = repr(x)[:200]
    return [e]


def solvable(c):
    """Enough measured points for the fit to be a fit at all."""
    n = sum(v != NAN for row in c['g'] for v in row)
    if c['api'] == 'step':
        low = sum(v < -200000 for row in c['g'] for v in row)
        return low >= 3 and n - low >= 20
    return n >= (3 if c['k'] == 'S' else c['d'] + 1)


def check(pid):
    rep = lib.Report(pid)
    n = SIZES[1] if lib.THOROUGH else SIZES[0]
    with lib.Scratch() as wd:
        r = lib.tlc('Detrend', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\n', wd, workers=1,
                    args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
        rep.tlc(r)
        cases = [c for c in r['emitted'] if solvable(c)]
        if len(cases) < 0.7 * n:
            raise lib.MachineryError('too few cases generated')
        traces = lib.pool_map(run, cases)
        rejects, dist, gen = lib.validate_traces('Detrend', traces, wd, workers=8)
        rep.add(states=dist, transitions=gen, traces_validated_against_impl=len(traces))
        for rj in rejects:
            rep.violation('+'.join(sorted(rj['bad'])), {'event': traces[rj['t'] - 1][0], 'case': cases[rj['t'] - 1]})
        rep.add(two_levels=sum(c['api'] == 'step' for c in cases))
        rep.add(of_many_points=sum(c['many'] for c in cases))
        rep.add(with_missing_points=sum(any(v == NAN for row in c['g'] for v in row) for c in cases))
        rep.sample(cases[0])
        rep.sample(traces[-1][0])
    rep.assumptions = ['at least 2 rows and columns', 'rounding of recorded heights to 1/1000 of the unit']
    return rep
