"""H02: claims about the material ratio curve and the functional parameters from Functional.tla, evaluated on the implementation."""
import math
import random
import numpy as np
import lib
import terms

SIZES = (420, 9000)
NAMES = {'mc': 'mc', 'mr': 'mr', 'k': 'k', 'pk': 'pk', 'vk': 'vk', 'pkx': 'pkx', 'vkx': 'vkx', 'ak1': 'ak1', 'ak2': 'ak2', 'mr1': 'mr1', 'mr2': 'mr2',
         'mrk1': 'mrk1', 'mrk2': 'mrk2', 'xp': 'xp', 'dc': 'dc'}


def run(job):
    c, seed = job
    import warnings
    warnings.simplefilter('ignore')
    from surfalize import Surface, Profile
    mul, off = c['mul'] / 1000, float(c['off'])
    z = [v * mul + off for v in c['z']]
    random.Random(seed).shuffle(z)
    z = np.array(z)
    if c['rep'] > 1:
        z = np.repeat(z, c['rep']) if c['order'] == 'runs' else np.tile(z, c['rep'])
        if c['order'] == 'shuffled':
            np.random.default_rng(seed).shuffle(z)
    if c['kind'] == 'S':
        o, letter = Surface(z.reshape(c['w'], -1), 0.5, 2.0), 'S'
    else:
        o, letter = Profile(z, 0.5), 'R'
    cache = {}

    def call(f, args):
        a = tuple(float(x) for x in args)
        if (f, a) not in cache:
            cache[f, a] = float(getattr(o, letter + f if f in NAMES else f[0].upper() + f[1:])(*a))
        return cache[f, a]

    env = {'call': call, 'mul': mul, 'off': off}
    bad = []
    for cl in c['claims']:
        try:
            a, b, tol = (terms.value(cl[k], env) for k in ('a', 'b', 'tol'))
            # rounding of the heights themselves when there is an offset
            tol += 1e-10 * abs(off) * (100 if cl['n'].startswith(('ak', 'V', 'v')) else 1) + (2e-9 * abs(off) / (mul or 1) if cl['n'].startswith('mr') else 0)
            ok = (abs(a - b) <= tol + 1e-12 * abs(b)) if cl['rel'] == 'eq' else a <= b + tol + 1e-12 * abs(b)
            if not ok:
                bad.append({'claim': cl['n'], 'rel': cl['rel'], 'got': a, 'expected': b, 'tol': tol})
        except Exception as x:
            bad.append({'claim': cl['n'], 'raised': repr(x)[:200]})
    return bad


def check(pid):
    rep = lib.Report(pid)
    n = SIZES[lib.THOROUGH]
    with lib.Scratch() as wd:
        # the simulator draws one behaviour per case
        r = lib.tlc('Functional', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', wd, workers=1,
                    args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
    rep.tlc(r)
    cases = r['emitted']
    if len(cases) < 0.8 * n:
        raise lib.MachineryError('too few cases generated')
    results = lib.pool_map(run, [(c, lib.SEED * 100003 + i) for i, c in enumerate(cases)], chunksize=4)
    for c, bad in zip(cases, results):
        for b in bad:
            rep.violation(f"{pid}:{b['claim']}", {'heights': c['z'], 'mul': c['mul'], 'off': c['off'], 'kind': c['kind'], **b})
    rep.add(traces_validated_against_impl=len(cases), claims=sum(len(c['claims']) for c in cases), unique_core=sum(c['unique'] for c in cases), of_more_than_a_million_points=sum(c['rep'] > 1 for c in cases))
    rep.sample({k: cases[0][k] for k in ('z', 'kind', 'mul', 'off')})
    rep.sample({'claim': cases[0]['claims'][0]})
    rep.assumptions = ['tolerance of 0.3 % of the height range for the sampling of the curve with 10000 classes',
                       'the position of the core is judged only if the flattest window is unique or level', 'at most 24 points, or up to 24 heights that occur equally often (up to 2.6 million points)']
    return rep
