"""H03: parameters before and after chains of transformations, the laws come from Scaling.tla."""
import numpy as np
import lib

#        cases quick, thorough
SIZES = (1500, 20000)
FUNCTIONAL = ('Sk', 'Spk', 'Svk', 'Spkx', 'Svkx', 'Sak', 'Smr', 'Sxp', 'Sdc', 'Vm', 'Vv', 'Rk', 'Rpk', 'Rvk', 'Rmr', 'Rxp', 'Rdc')
COARSE = {'depth': 0.05, 'aspect_ratio': 0.05, '@Std': 0.51, '@orientation': 1, '@orientation:fft': 1e-6}


def surface(c):
    from surfalize import Surface, Profile
    rng = np.random.default_rng(c['seed'])
    k = c['kind']
    if k in 'pq':
        n = 10 * c['nx'] + c['ny']
        z = rng.normal(size=n)
        if k == 'q':
            w = int(rng.integers(3, n // 8))
            z = 0.2 * z + 4 * np.cos(2 * np.pi * (w * np.arange(n) / n + rng.uniform()))
        else:
            z = z + 0.3 * np.abs(z) ** 3
        return Profile(z, c['sx'] / 4)
    ny, nx = c['ny'], c['nx']
    if k == 'r':
        z = rng.normal(size=(ny, nx)) + 0.5 * rng.exponential(size=(ny, nx))
        if c['seed'] % 2:
            z = z + np.roll(z, 1, 0) + np.roll(z, 1, 1) + np.roll(z, (1, 1), (0, 1)) * 0.7
    elif k == 'w':
        ny, nx = 40 + ny, 40 + nx
        i, j = np.arange(ny)[:, None], np.arange(nx)[None, :]
        while True:
            kx, ky = int(rng.integers(0, nx // 6)), int(rng.integers(-ny // 6, ny // 6))
            if abs(kx) + abs(ky) >= 5:
                break
        z = 3 * np.cos(2 * np.pi * (kx * j / nx + ky * i / ny + rng.uniform())) + 0.1 * rng.normal(size=(ny, nx))
    else:
        mask = np.zeros((ny, nx), bool)
        a, b = sorted(rng.choice(np.arange(1, ny), 2, replace=False))
        mask[a:b, 2:nx - 2] = True
        z = np.where(mask, -8.0, 0.0) + rng.uniform(-1, 1, size=(ny, nx))
        if c['seed'] % 3 == 0:
            # a single point far above or below of both levels
            z[0, 0] = 40 if c['seed'] % 2 else -48
    return Surface(z, c['sx'] / 4, c['sy'] / 4)


def transform(o, chain):
    """The topography after every transformation of the chain."""
    from surfalize import Surface, Profile
    profile = isinstance(o, Profile)
    scale = 0
    for t in chain:
        g, k = t['g'], t['k']
        if g in ('height', 'zoom'):
            o, scale = (Profile(o.data * 2.0 ** k, o.step) if profile else o * 2.0 ** k), scale + k
        if g == 'offset':
            o = Profile(o.data + k * 2.0 ** scale, o.step) if profile else o + k * 2.0 ** scale
        elif g == 'invert':
            o = Profile(-o.data, o.step) if profile else o.invert()
        elif profile:
            if g == 'mirrorx':
                o = Profile(o.data[::-1].copy(), o.step)
            elif g in ('length', 'zoom'):
                o = Profile(o.data, o.step * 2.0 ** k)
        elif g in ('length', 'zoom'):
            o = Surface(o.data, o.step_x * 2.0 ** k, o.step_y * 2.0 ** k)
        elif g == 'mirrorx':
            o = Surface(o.data[:, ::-1], o.step_x, o.step_y)
        elif g == 'mirrory':
            o = Surface(o.data[::-1].copy(), o.step_x, o.step_y)
        elif g == 'swap':
            o = Surface(o.data.T, o.step_y, o.step_x)
    return o


def ask(o, name):
    sign = -1 if name.startswith('-') else 1
    name = name.lstrip('-@')
    if ':' in name:
        name, a = name.split(':')
        args = (tuple(a.split(',')),) if name == 'homogeneity' else (a,)
    elif '(' in name:
        name, a = name[:-1].split('(')
        args = tuple(float(x) for x in a.split(','))
        if name in ('Rp', 'Rv', 'Rz'):
            args = tuple(int(x) for x in args)
    else:
        args = ()
    v = getattr(o, name)
    v = v(*args) if callable(v) else v
    return sign * np.asarray(v, dtype=float)


def run(c):
    import warnings
    warnings.simplefilter('ignore')
    from surfalize import Profile
    o = surface(c)
    if isinstance(o, Profile) and any(t['g'] in ('mirrory', 'swap') for t in c['chain']):
        return [], 0
    before = o.data.copy()
    t = transform(o, c['chain'])
    span = float(np.ptp(before))
    scale = sum(x['k'] for x in c['chain'] if x['g'] in ('height', 'zoom'))
    bad, n = [], 0
    info = {'kind': c['kind'], 'seed': c['seed'], 'shape': o.data.shape, 'sx': c['sx'], 'sy': c['sy'], 'chain': [(x['g'], x['k']) for x in c['chain']]}
    for cl in c['claims']:
        if not cl['ok'] or c['kind'] not in cl['kinds'] or cl['n'].startswith('homogeneity') and abs(scale) > 10:
            continue
        n += 1
        try:
            want = ask(o, cl['partner'])
        except Exception:
            # refused for the original (no complete cell), and therefore for every image of it
            want = None
        try:
            got = ask(t, cl['n'])
        except Exception as x:
            if want is None:
                continue
            bad.append(('H03:raised:' + cl['n'], {**info, 'raised': repr(x)[:200]}))
            continue
        if want is None:
            bad.append(('H03:raised:' + cl['n'], {**info, 'raised': 'only for the original', 'got': got.tolist()}))
            continue
        if cl['n'].startswith('@'):
            diff = (got - (cl['s'] * want + cl['o']) + 90) % 180 - 90
            tol = COARSE[cl['n']]
            if cl['n'] == '@orientation':
                # the noise in the position of the profiles
                tol *= max(o.step_x / o.step_y, o.step_y / o.step_x)
        else:
            want = want * 2.0 ** cl['e']
            diff = got - want
            if cl['n'] in COARSE:
                tol = COARSE[cl['n']] * np.abs(want)
                if cl['n'] == 'depth':
                    tol = tol + 0.05 * span * 2.0 ** cl['e']
            elif cl['n'].startswith(FUNCTIONAL):
                # classes of the sampled material ratio curve
                unit = {'Smr': 100, 'Rmr': 100, 'Sak': 100 * span, 'Vm': 1000 * span, 'Vv': 1000 * span}.get(cl['n'][:3] if cl['n'][0] in 'SR' else cl['n'][:2], span)
                tol = 2e-3 * unit * 2.0 ** cl['e'] if any(x['g'] in ('offset', 'invert') for x in c['chain']) else 1e-6 * np.abs(want) + 1e-6 * unit * 2.0 ** cl['e']
            elif cl['n'].startswith('homogeneity'):
                tol = 2e-3
            else:
                tol = 1e-6 * np.abs(want) + 1e-9 * span ** (cl['n'] not in ('Sal', 'Str')) * 2.0 ** cl['e']
        if not ((np.abs(diff) <= tol) | np.isnan(want) & np.isnan(got)).all():
            bad.append(('H03:' + cl['n'], {**info, 'partner': cl['partner'], 'got': got.tolist(), 'expected': (want if not cl['n'].startswith('@') else cl['s'] * want + cl['o']).tolist()}))
    if not np.array_equal(o.data, before):
        bad.append(('H03:original_changed', info))
    return bad, n


def check(pid):
    rep = lib.Report(pid)
    n = SIZES[lib.THOROUGH]
    with lib.Scratch() as wd:
        r = lib.tlc('Scaling', f'SPECIFICATION Spec\nINVARIANT Agree\nCONSTANTS\n Mode = "all"\n Depth = {4 if lib.THOROUGH else 3}\nCHECK_DEADLOCK FALSE\n', wd, workers=8)
        rep.tlc(r)
        d = 6
        r = lib.tlc('Scaling', f'SPECIFICATION Spec\nINVARIANT Agree\nCONSTANTS\n Mode = "rnd"\n Depth = {d}\nCHECK_DEADLOCK FALSE\n', wd, workers=1,
                    args=('-simulate', f'num={n // d}', '-depth', d + 1, '-seed', lib.SEED))
        rep.tlc(r)
    cases = r['emitted']
    if len(cases) < 0.8 * n:
        raise lib.MachineryError('too few cases')
    for c, (bad, k) in zip(cases, lib.pool_map(run, cases, chunksize=4)):
        rep.add(values_compared=k)
        for key, d in bad:
            rep.violation(key, d)
    rep.add(traces_validated_against_impl=len(cases))
    for c in cases[:3]:
        rep.sample({k: c[k] for k in ('kind', 'ny', 'nx', 'chain')})
    rep.assumptions = ['heights are scaled by powers of two', 'functional parameters agree within 2 per mille of the height range after offsets and inversions',
                       'depth within 5 % of the height range, orientation within 1 degree times the ratio of the spacings, texture direction within one step of the angular spectrum']
    return rep
