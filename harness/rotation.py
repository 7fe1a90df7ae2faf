"""T09: rotated surfaces against the turned topography of Rotation.tla."""
import numpy as np
import lib
import terms

SIZES = (600, 12000)


def run(c):
    import warnings
    warnings.simplefilter('ignore')
    from surfalize import Surface
    bad = []
    y, x = np.mgrid[0:c['N'], 0:c['M']].astype(float)
    x, y = x - (c['M'] - 1) / 2, (c['N'] - 1) / 2 - y
    z = c['off'] + c['amp'] / 8 * terms.ev(c['z'], {'x': x, 'y': y, 'float': True})
    s = Surface(z.copy(), c['sx'] / 4, c['sy'] / 4)
    info = {k: c[k] for k in ('N', 'M', 'sx', 'sy', 'w', 'off', 'amp')} | {'angle': c['t'] / 10 + c['e'] * 1e-9}
    r = s.rotate(c['t'] / 10 + c['e'] * 1e-9)
    if not np.array_equal(s.data, z):
        bad.append(('T09:original_changed', info))
    d = np.asarray(r.data)
    n, m = d.shape
    for cl in c['claims']:
        try:
            a, b, tol = (terms.value(cl[k], {'call': lambda f, _: {'columns': m, 'rows': n, 'step_x': r.step_x, 'step_y': r.step_y}[f]}) for k in ('a', 'b', 'tol'))
        except Exception as x:
            bad.append(('T09:' + cl['n'], {**info, 'raised': repr(x)[:200]}))
            continue
        if cl['n'] == 'law':
            if abs(a - b) > tol:
                raise lib.MachineryError('the specification of the rotation is inconsistent')
        elif not abs(a - b) <= tol:
            bad.append(('T09:' + cl['n'], {**info, 'got': a, 'expected': b, 'tol': tol}))
    if not np.isfinite(d).all():
        bad.append(('T09:invalid_points', info))
    elif d.size:
        best = np.inf
        # the cropping may be off the centre by up to one point
        for ox in (0, -.5, .5, -1, 1):
            for oy in (0, -.5, .5, -1, 1):
                y, x = np.mgrid[0:n, 0:m].astype(float)
                x, y = x - (m - 1) / 2 + ox, (n - 1) / 2 - y + oy
                want = c['off'] + c['amp'] / 8 * terms.ev(c['rotated'], {'x': x, 'y': y, 'float': True})
                best = min(best, np.abs(d - want).max())
                if best <= 0.001 * c['amp'] / 8:
                    break
        # next to the border the interpolation continues the heights
        if best > 0.09 * c['amp'] / 8 + 1e-9 * abs(c['off']):
            bad.append(('T09:heights', {**info, 'shape': (n, m), 'difference': best}))
    return bad, d.size


def check(pid):
    rep = lib.Report(pid)
    n = SIZES[lib.THOROUGH]
    with lib.Scratch() as wd:
        r = lib.tlc('Rotation', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', wd, workers=1, args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
    rep.tlc(r)
    cases = r['emitted']
    if len(cases) < 0.4 * n:
        raise lib.MachineryError('too few cases')
    for c, (bad, k) in zip(cases, lib.pool_map(run, cases, chunksize=4)):
        rep.add(points_compared=k)
        for key, d in bad:
            rep.violation(key, d)
    rep.add(traces_validated_against_impl=len(cases))
    for c in cases[:3]:
        rep.sample({k: c[k] for k in ('N', 'M', 't', 'e', 'sx', 'sy')})
    rep.assumptions = ['the cropped rectangle may be off the centre by one point and smaller than the largest one by up to four points',
                       'interpolation errors up to 4.5 % of the height range next to the border', 'sizes differ by no more than a factor of three',
                       'the spacing of the result is judged if it is the same in x and y or the angle is a multiple of 90 degree']
    return rep
