"""H04: texture analysis on topographies known by construction; cases and claims from Waves.tla."""
import math
import numpy as np
import lib
import terms

#           quick, thorough
MODES = {'wave': (260, 5000), 'fine': (200, 5000), 'ridge': (100, 1500), 'profile': (150, 2000), 'groove': (60, 1000), 'cells': (120, 2000), 'step': (300, 5000), 'acf': (120, 2000), 'cross': (110, 1500)}
FINDING = 'sampling_length'


def layout(d, lay):
    if lay == 1:
        return np.asfortranarray(d)
    if lay == 2:
        big = np.full(tuple(2 * n for n in d.shape), 77.0)
        big[::2, ::2] = d
        return big[::2, ::2]
    if lay == 3:
        d.flags.writeable = False
    return d


def cosine(N, M, kx, ky, ph):
    i, j = np.arange(N)[:, None], np.arange(M)[None, :]
    return np.cos(2 * np.pi * (kx * j / M + ky * i / N + ph / 24 + 0.013))


class Subject:
    def __init__(self, c):
        from surfalize import Surface, Profile
        self.c, k = c, c['kind']
        self.tilted = None
        if k == 'wave':
            d = c['amp'] / 4 * cosine(c['N'], c['M'], c['kx'], c['ky'], c['ph'])
            if c['second']:
                d = d + c['amp'] / 16 * cosine(c['N'], c['M'], c['w2']['kx'], c['w2']['ky'], 5)
            self.o = Surface(layout(d + c['off'], c['lay']), c['sx'] / 4, c['sy'] / 4)
        elif k == 'profile':
            d = c['amp'] / 4 * 10.0 ** c['mag'] * np.cos(2 * np.pi * (c['k'] * np.arange(c['n']) / c['n'] + c['ph'] / 24 + 0.013)) + c['off']
            self.o = Profile(d, c['s'] / 4)
        elif k == 'groove':
            valley = (np.arange(c['p'] * c['c']) + c['shift']) % c['p'] < c['p'] // 2
            d = c['off'] - np.outer(np.array(c['depths']) / 4, valley)
            self.o = Surface(np.ascontiguousarray(d.T) if c['t'] else d, c['s'] / 4, c['s'] / 4)
        elif k == 'cells':
            cx, cy = c['p'] * c['hx'], c['p'] * c['hy']
            rng = np.random.default_rng(c['seed'])
            pat = rng.integers(0, 9, (cy, cx)) / 8
            pat[0, 0], pat[-1, -1] = 0, 1
            d = rng.integers(-100, 100, (cy * c['gy'] + c['my'], cx * c['gx'] + c['mx'])).astype(float)
            for q, h in enumerate(c['hs']):
                y, x = divmod(q, c['gx'])
                d[y * cy:(y + 1) * cy, x * cx:(x + 1) * cx] = pat * h
            self.o = Surface(d + c['off'], 1 / c['hx'], 1 / c['hy'])
        elif k == 'step':
            keep = np.array(c['keep'])
            z = np.array(c['z']) / 4 + c['off']
            self.o = Surface(np.where(keep, z, np.nan), c['sx'] / 4, c['sy'] / 4)
            ny, nx = z.shape
            tilt = (c['ta'] * np.arange(ny)[:, None] + c['tb'] * np.arange(nx)[None, :]) / 4
            self.base = np.where(keep, np.array(c['base']) / 4 + c['off'], np.nan)
            self.tilted = self.base + tilt
        elif k == 'acf':
            self.o = Surface(np.array(c['z'], dtype=float) + c['off'], 0.5, 2)
        elif k == 'ridge':
            nu = c['lx'] * c['kx']
            d = np.tile(c['amp'] * np.cos(2 * np.pi * (np.arange(nu) / c['lx'] + c['ph'] / 24)), (c['n'], 1)) + c['off']
            self.o = Surface(np.ascontiguousarray(d.T), c['sv'] / 4, c['su'] / 4) if c['t'] else Surface(d, c['su'] / 4, c['sv'] / 4)
        elif k == 'cross':
            nu, nv = c['lx'] * c['kx'], c['f'] * c['ky']
            d = c['amp'] * (np.cos(2 * np.pi * (np.arange(nu) / c['lx'] + c['ph'] / 24))[None, :] + np.cos(2 * np.pi * (np.arange(nv) / c['f'] + c['ph2'] / 24))[:, None]) + c['off']
            if c['t']:
                self.o = Surface(d.T, c['sv'] / 4, c['su'] / 4)
            else:
                self.o = Surface(d, c['su'] / 4, c['sv'] / 4)
        self.before = np.array(self.o.data)
        self.cache = {}

    def call(self, f, args):
        key = (f, repr(args))
        if key not in self.cache:
            self.cache[key] = self.compute(f, args)
        return self.cache[key]

    def compute(self, f, a):
        o = self.o
        if f == 'homogeneity':
            return float(o.homogeneity(tuple(a), period=float(self.c['p'])))
        a = [float(x) for x in a]
        if f in ('period', 'Ssw', 'stepheight', 'aspect_ratio', 'cavity_volume', 'Sal', 'Str', 'Std'):
            return float(getattr(o, f)(*a))
        if f in ('period_x', 'period_y'):
            return float(o.period_x_y()[f == 'period_y'])
        if f == 'orientation_fft':
            return float(o.orientation('fft'))
        if f == 'orientation':
            return float(o.orientation())
        if f == 'orientation_refined':
            return float(o.orientation(method='fft_refined'))
        if f in ('depth_mean', 'depth_std'):
            if len(a) == 2:
                r = o.depth(int(a[0]), a[1])
            else:
                r = o.depth(*[int(x) for x in a])
            return float(r[f == 'depth_std'])
        if f in ('aligned_y', 'aligned_x'):
            return float(o.align(axis=f[-1]).orientation('fft_refined'))
        if f == 'align_is_rotation':
            for axis, more in (('y', 0), ('x', 90)):
                for method in ('fft', 'fft_refined'):
                    x, y = o.align(axis, method), o.rotate(-(o.orientation(method) + more))
                    if x.size != y.size or not np.array_equal(x.data, y.data, equal_nan=True) or x is o:
                        return False
            return bool(np.array_equal(o.align().data, o.align('y', 'fft_refined').data, equal_nan=True))
        if f == 'power_total':
            return float(o.get_fourier_transform().angular_power_spectrum(a[0])[1].sum())
        if f == 'power_of_heights':
            return float(o.data.size * ((o.data - o.data.mean()) ** 2).sum())
        if f == 'power_at':
            angles, spectrum = o.get_fourier_transform().angular_power_spectrum(a[1])
            if len(angles) != math.ceil(180 / a[1]) or abs(angles[0]) > 1e-12 or abs(angles[-1] - a[1] * (len(angles) - 1)) > 1e-9:
                return -1.0
            t = a[0] % 180
            k = math.floor(t / a[1] + 1e-9)
            # at the border of two classes the wave may be counted in either
            near = {min(k, len(angles) - 1)} | ({min(k, len(angles)) - 1} if abs(t / a[1] - round(t / a[1])) < 1e-6 else set())
            # squared amplitude of both peaks is (amplitude n / 2)^2
            return float(sum(spectrum[q] for q in near)) / o.data.size ** 2
        if f == 'acf':
            d = o.get_autocorrelation_function().data
            ny, nx = o.data.shape
            return float(d[ny - 1 + int(a[0]), nx - 1 + int(a[1])]) if d.shape == (2 * ny - 1, 2 * nx - 1) else math.nan
        if f == 'level_restores_base':
            from surfalize import Surface
            for inplace in (False, True):
                s = Surface(self.tilted.copy(), o.step_x, o.step_y)
                r = s.stepheight_level(inplace=inplace)
                if (r is s) != inplace or not np.allclose(r.data, self.base + a[0], rtol=0, atol=1e-9, equal_nan=True) or (r.step_x, r.step_y) != (o.step_x, o.step_y):
                    return False
                if not inplace and not np.array_equal(s.data, self.tilted, equal_nan=True):
                    return False
            return True
        raise KeyError(f)


def holds(rel, a, b, tol):
    if rel == 'eq':
        return abs(a - b) <= tol + 1e-12 * abs(b)
    if rel == 'le':
        return a <= b + tol + 1e-12 * abs(b)
    if rel == 'angle':
        return abs((a - b + 90) % 180 - 90) <= tol
    if rel == 'bin':
        # a is the lower border of the class of width tol the angle b falls into
        b %= 180
        return (a - 1e-6 <= b <= a + tol + 1e-6) or (b < 1e-6 and a >= 180 - tol - 1e-6) or (b > 180 - 1e-6 and a == 0)
    raise KeyError(rel)


def run(c):
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    bad, n = [], 0
    try:
        s = Subject(c['c'])
    except Exception as x:
        return [('H04:create', {'error': repr(x)[:200]})], 1
    env = {'call': s.call}
    for cl in c['claims']:
        n += 1
        key = 'H04:' + cl['n']
        if cl['rel'] == 'raises':
            try:
                r = terms.ev(cl['a'], env)
                bad.append((key, {'not_refused': repr(r), 'args': cl['a']}))
            except ValueError:
                pass
            except Exception as x:
                bad.append((key, {'refused_with': repr(x)[:200]}))
            continue
        try:
            if cl['rel'] == 'true':
                r = terms.ev(cl['a'], env)
                if r is not True:
                    bad.append((key, {'got': repr(r)}))
                continue
            if cl['rel'] == 'inf':
                r = terms.value(cl['a'], env)
                if r != math.inf:
                    bad.append((key, {'got': r, 'expected': 'inf'}))
                continue
            a, b, tol = (terms.value(cl[k], env) for k in ('a', 'b', 'tol'))
            if holds(cl['rel'], a, b, tol):
                continue
            if 'b2' in cl and holds(cl['rel'], a, terms.value(cl['b2'], env), tol):
                bad.append(('H04:' + FINDING, {'claim': cl['n'], 'got': a, 'expected': b}))
                continue
            bad.append((key, {'rel': cl['rel'], 'got': a, 'expected': b, 'tol': tol, 'args': cl['a'].get('a') if isinstance(cl['a'], dict) else None}))
        except Exception as x:
            bad.append((key, {'raised': repr(x)[:200]}))
    if not np.array_equal(s.before, s.o.data, equal_nan=True):
        bad.append(('H04:heights_changed', {}))
    return bad, n


def check(pid):
    rep = lib.Report(pid)
    cases = []
    with lib.Scratch() as wd:
        for i, (mode, sizes) in enumerate(MODES.items()):
            n = sizes[lib.THOROUGH]
            r = lib.tlc('Waves', f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Mode = "{mode}"\n', wd, workers=1,
                        args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED * 100 + i))
            rep.tlc(r)
            if len(r['emitted']) < 0.35 * n:
                raise lib.MachineryError(f"too few cases of {mode}: {len(r['emitted'])}")
            rep.add(**{mode + '_cases': len(r['emitted'])})
            cases += r['emitted']
    if not any(c['c'].get('alignable') and not c['c']['second'] for c in cases):
        raise lib.MachineryError('no case judges the alignment')
    for c, (bad, n) in zip(cases, lib.pool_map(run, cases, chunksize=4)):
        rep.add(claims=n)
        for key, d in bad:
            rep.violation(key, {**d, 'case': {k: v for k, v in c['c'].items() if k not in ('keep', 'base')}})
    rep.add(traces_validated_against_impl=len(cases))
    for c in cases[::len(cases) // 4]:
        rep.sample({'case': {k: v for k, v in c['c'].items() if k not in ('keep', 'base', 'depths', 'z')}, 'claim': c['claims'][0]})
    rep.assumptions = ['waves with a whole number of periods and at least six points per period along the analysed axis',
                       'autocorrelation lengths are judged within 8 %, refined angles within 0.3 degree, depths of waves between 83 and 100 %',
                       'the class of the texture direction is accepted on either side if the angle is at a border']
    return rep
