"""T06: pairs of surfaces from Equality.tla, compared and hashed by the implementation."""
import numpy as np
import lib
from lib import NAN
from values import layout

SIZES = (6000, 60000)


SPACES = {'half': lambda s: s / 2, 'tiny': lambda s: s * 1e-7, 'near': lambda s: 1 + s * 1e-9}


def surf(p, base, lay, space):
    from surfalize import Surface
    g = np.array([[np.nan if v == NAN else base + v * 1e-11 for v in row] for row in p['g']], dtype=float)
    return Surface(layout(g, lay if lay < 5 else 0), SPACES[space](p['sx']), SPACES[space](p['sy']))


def run(case):
    import warnings
    warnings.simplefilter('ignore')
    bad = []

    def expect(name, got, want):
        if type(got) not in (bool, np.bool_) and not (name.startswith('hash') or name == 'len'):
            bad.append((name + ':type', repr(got)))
        elif got != want:
            bad.append((name, {'got': repr(got), 'want': repr(want)}))
    try:
        a, b = surf(case['a'], case['base'], 0, case['space']), surf(case['b'], case['base'], case['lay'], case['space'])
        eq = case['eq']
        ha, hb = hash(a), hash(b)
        expect('reflexive', a == a, True)
        expect('reflexive', b == b, True)
        expect('equal', a == b, eq)
        expect('symmetric', b == a, eq)
        expect('unequal', a != b, not eq)
        if eq:
            expect('hash_of_equal', ha == hb, True)
            expect('len', len({a, b}), 1)
            expect('dict', {a: 1}.get(b) == 1, True)
        for other in (None, 5, 'x', a.data, [1], object()):
            r = a == other
            expect('other_type', bool(np.any(r)), False)
        # a hash stays what it is while the surface does not change
        for o in (a, b):
            o.has_missing_points, o.size
            for n in ('mean', 'Sa', 'Sz', 'center', 'zero'):
                try:
                    getattr(o, n)()
                except ValueError:
                    pass
        expect('hash_stable', (hash(a), hash(b)), (ha, hb))
        a2 = surf(case['a'], case['base'], 1, case['space'])
        expect('twin', a == a2, True)
        expect('hash_twin', hash(a2), ha)
        # edits show up at once
        if a.size == b.size and a.step_x == b.step_x and a.step_y == b.step_y:
            b[...] = a.data
            expect('after_edit', a == b, True)
            expect('hash_after_edit', hash(a) == hash(b), True)
            b[0, 0] = 55.0
            expect('after_edit', a == b, False)
    except Exception as x:
        bad.append(('raised', repr(x)))
    return bad


OPERATORS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}


def combine(case):
    """T05: arithmetic of a pair of surfaces."""
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    bad = []
    a, b = surf(case['a'], case['base'], 0, case['space']), surf(case['b'], case['base'], case['lay'], case['space'])
    before = [np.array(x.data) for x in (a, b)]
    for name, f in OPERATORS.items():
        for p, q in ((a, b), (b, a)):
            try:
                r = f(p, q)
            except ValueError:
                if case['comb']:
                    bad.append(('combining:refused', {'operator': name}))
                continue
            except Exception as x:
                bad.append(('combining:raised', {'operator': name, 'error': repr(x)[:200]}))
                continue
            if not case['comb']:
                bad.append(('combining:not_refused', {'operator': name, 'steps': [(float(x.step_x), float(x.step_y), x.data.shape) for x in (p, q)]}))
            elif not np.array_equal(r.data, f(p.data, q.data), equal_nan=True) or (r.step_x, r.step_y) != (p.step_x, p.step_y) or r is p or r is q:
                bad.append(('combining:value', {'operator': name}))
    if not all(np.array_equal(x.data, y, equal_nan=True) for x, y in zip((a, b), before)):
        bad.append(('combining:operand_changed', {}))
    return bad


def pairs(rep, wd, pid, func, n):
    b = lib.tlc('Equality', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Consistent\nCONSTANT Mode = "rnd"\n', wd, workers=1, args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
    rep.tlc(b)
    if len(b['emitted']) < 0.9 * n:
        raise lib.MachineryError('too few cases generated')
    for c, bad in zip(b['emitted'], lib.pool_map(func, b['emitted'])):
        for k, d in bad:
            rep.violation(f'{pid}:{k}', {'detail': d, 'case': c})
    rep.add(pairs_combined=len(b['emitted']))


def check(pid):
    rep = lib.Report(pid)
    n = SIZES[1] if lib.THOROUGH else SIZES[0]
    with lib.Scratch() as wd:
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Consistent\nCONSTANT Mode = "%s"\n'
        a = lib.tlc('Equality', cfg % 'all', wd, workers=8)
        b = lib.tlc('Equality', cfg % 'rnd', wd, workers=1, args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
        rep.tlc(a)
        rep.tlc(b)
        cases = a['emitted'] + b['emitted']
        if len(a['emitted']) < 9000 or len(b['emitted']) < 0.9 * n:
            raise lib.MachineryError('too few cases generated')
        for c, bad in zip(cases, lib.pool_map(run, cases)):
            for k, d in bad:
                rep.violation(f'T06:{k}', {'detail': d, 'case': c})
        rep.add(traces_validated_against_impl=len(cases), equal_pairs=sum(c['eq'] for c in cases))
        rep.sample(cases[0])
        rep.sample(cases[-1])
    rep.assumptions = ['heights differ from each other by clearly more or clearly less than the tolerance']
    return rep
