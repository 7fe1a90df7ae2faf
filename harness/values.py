"""
H01: the values of height and hybrid parameters on topographies enumerated and generated by TLC from Heights.tla, whose
definitions are stated there as exact terms, are compared with the values of the implementation.
"""
import json
import numpy as np
import lib
import terms

SIZES = {'H01': (900, 12000)}


def layout(data, lay):
    """The same heights in another memory layout or number type."""
    if lay == 1:
        return np.asfortranarray(data)
    if lay == 2:
        big = np.full(tuple(2 * n for n in data.shape), 77.0)
        big[tuple(slice(None, None, 2) for _ in data.shape)] = data
        return big[tuple(slice(None, None, 2) for _ in data.shape)]
    if lay == 3:
        data = data.copy()
        data.flags.writeable = False
        return data
    if lay == 4:
        return np.ascontiguousarray(data[::-1])[::-1]
    if lay == 5:
        return data.astype(np.float32)
    if lay == 6:
        return data.astype(np.int32)
    return data


def build(c):
    from surfalize import Surface, Profile
    g = np.array(c['g'], dtype=float)
    d = np.tile(g * c['mul'] / 8 + c['off'], c['rep'])
    lay = c['lay']
    if (lay == 5 and abs(c['off']) > 3) or (lay == 6 and c['mul'] % 8):
        lay = 0
    tol = (1e-4, 1e-4) if lay == 5 else (1e-9, 1e-9)
    if c['k'] == 'S':
        return Surface(layout(d, lay), c['sx'] / 4, c['sy'] / 4), tol
    return Profile(layout(d.ravel(), lay), c['sx'] / 4), tol


def close(x, want, tol, scale=0):
    try:
        x = float(x)
    except Exception:
        return False
    return x == x and abs(x - want) <= tol[0] * max(1, abs(want)) + tol[1] * scale


def obtain(o, v):
    """All ways by which the value can be asked for."""
    out = []
    f = getattr(o, v['n'])
    if 'm' in v:
        out += [('positional', lambda: f(v['m'])), ('keyword', lambda: f(n_sections=v['m']))]
    else:
        out.append(('method', f))
        if v['n'] in ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku'):
            out.append(('height_parameters', lambda: o.height_parameters()[v['n']]))
        if v['n'] in ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdq', 'Sdr'):
            out.append(('roughness_parameters', lambda: o.roughness_parameters([v['n']])[v['n']]))
        elif v['n'] in ('Ra', 'Rq', 'Rt', 'Rsk', 'Rku', 'Rdq', 'Rp', 'Rv', 'Rz'):
            out.append(('roughness_parameters', lambda: o.roughness_parameters([v['n']])[v['n']]))
    return out


def run_h01(case):
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    bad, n = [], 0
    try:
        o, tol = build(case)
        before = np.array(o.data)
    except Exception as x:
        return [('H01:create', {'error': repr(x)})], 1
    off = abs(case['off'])
    for v in case['vals']:
        for how, f in obtain(o, v):
            n += 1
            try:
                got, err = f(), None
            except Exception as x:
                got, err = None, x
            if v.get('err'):
                if not isinstance(err, ValueError):
                    bad.append((f"H01:{v['n']}:not_refused", {'sections': v['m'], 'got': repr(got), 'error': repr(err)}))
                continue
            want = terms.value(v['v'])
            # heights carry the rounding error of the offset
            t = (tol[0], 1e-12 * off)
            if err is None and close(got, want, t, off if want != want else 1) and err is None:
                continue
            if err is None and 'w' in v and close(got, terms.value(v['w']), t, 1):
                bad.append((f"H01:{v['n']}:discretization", {'want': want, 'got': float(got)}))
                continue
            bad.append((f"H01:{v['n']}:{how}", {'sections': v.get('m'), 'want': want, 'got': repr(got), 'error': repr(err)}))
    if not np.array_equal(before, np.array(o.data)):
        bad.append(('H01:heights_changed', {}))
    return bad, n


def check(pid):
    rep = lib.Report(pid)
    quick, thorough = SIZES[pid]
    n = thorough if lib.THOROUGH else quick
    with lib.Scratch() as wd:
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Mode = "%s"\n'
        a = lib.tlc('Heights', cfg % 'all', wd, workers=8)
        b = lib.tlc('Heights', cfg % 'rnd', wd, workers=1, args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
        rep.tlc(a)
        rep.tlc(b)
        cases = a['emitted'] + b['emitted']
        if len(a['emitted']) < 1500 or len(b['emitted']) < 0.9 * n:
            raise lib.MachineryError('too few cases generated')
        res = lib.pool_map(run_h01, cases)
        for c, (bad, k) in zip(cases, res):
            rep.add(values_compared=k)
            for key, d in bad:
                rep.violation(key, {**d, 'case': {x: c[x] for x in ('k', 'g', 'mul', 'off', 'sx', 'sy', 'lay', 'rep')}})
        rep.add(traces_validated_against_impl=len(cases), exhaustive_cases=len(a['emitted']), repeated=sum(c['rep'] != [1, 1] for c in cases))
        for c in cases[:1] + cases[-2:]:
            rep.sample({x: c[x] for x in ('k', 'g', 'mul', 'off', 'sx', 'sy')})
    rep.assumptions = ['the forward difference discretization of slopes and areas is the intended one']
    return rep
