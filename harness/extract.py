"""P01: requests for profiles from Profiles.tla; the extracted profiles are judged by TLC."""
import numpy as np
import lib
from lib import NAN
from topo import enc, encgrid

SIZES = (2500, 40000)


def place(v, s, border):
    """A position in 1/1000; the far border is where the surface says it is, within rounding."""
    return border if abs(v / 1000 - border) < 1e-9 else v / 1000


def run(c):
    import warnings
    warnings.simplefilter('ignore')
    from surfalize import Surface
    e = {k: c[k] for k in ('kind', 'g', 'style', 'sx', 'sy', 'a', 'b', 'avg', 'dist', 'pos', 'p')}
    e.update(err='', z=[], step=0, length=0, idn=True)
    g = np.array([[np.nan if v == NAN else v / 1000 for v in row] for row in c['g']])
    s = Surface(g, c['sx'] / 1000, c['sy'] / 1000)
    try:
        if c['kind'] == 'o':
            p = s.get_oblique_profile(*(place(v, c[a], w) for v, a, w in zip(c['p'], ('sx', 'sy') * 2, (s.width_um, s.height_um) * 2)))
        else:
            f = s.get_horizontal_profile if c['kind'] == 'h' else s.get_vertical_profile
            kw = {} if c['avg'] == 1 else {'average': c['avg']}
            if c['dist']:
                kw['average_step'] = c['dist'] / 1000
            p = f(place(c['pos'], c['sy' if c['kind'] == 'h' else 'sx'], s.height_um if c['kind'] == 'h' else s.width_um), **kw)
        e.update(z=encgrid(p.data)[0], step=enc(p.step), length=enc(p.length_um))
        e['idn'] = bool(np.array_equal(g, s.data, equal_nan=True) and not np.shares_memory(p.data, s.data))
    except Exception as x:
        e['err'] = type(x).__name__
    return [e]


def check(pid):
    rep = lib.Report(pid)
    n = SIZES[lib.THOROUGH]
    with lib.Scratch() as wd:
        r = lib.tlc('Profiles', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\n', wd, workers=1,
                    args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
        rep.tlc(r)
        cases = r['emitted']
        if len(cases) < n:
            raise lib.MachineryError('too few cases generated')
        traces = lib.pool_map(run, cases)
        rejects, dist, gen = lib.validate_traces('Profiles', traces, wd, workers=8)
        rep.add(states=dist, transitions=gen, traces_validated_against_impl=len(traces), refused=sum(bool(t[0]['err']) for t in traces))
        for rj in rejects:
            rep.violation('+'.join(sorted(rj['bad'])), {'event': traces[rj['t'] - 1][0]})
        rep.cov['by_kind'] = {k: sum(c['kind'] == k for c in cases) for k in 'hvo'}
        rep.sample(cases[0])
        rep.sample(traces[-1][0])
    rep.assumptions = ['a position at the far border is given as the width or height of the surface, whose last digit depends on the spacing']
    return rep
