"""B05: templates and names from Templates.tla with the values that are described by them, extracted by the implementation."""
import contextlib
import io
import math
import os
import warnings
import lib

os.environ['TQDM_DISABLE'] = '1'
FILE = []


def column(df, f, i):
    v = df[f['name']].iloc[i]
    if v is None or v != v:
        return None
    if f['type'] == 'str':
        return v if isinstance(v, str) else ('not a text', repr(v))
    if isinstance(v, str):
        return 'not a number', repr(v)
    # integers are exact, unless a name without one is among them
    return int(v) if f['type'] == 'int' and 'int' in type(v).__name__ else float(v)


def result_level(c):
    import pandas as pd
    from surfalize.batch import BatchResult
    df = pd.DataFrame({'number': range(len(c['names'])), 'file': c['names'], 'Sq': [i / 2 for i in range(len(c['names']))]})
    r = BatchResult(df)
    r.extract_from_filename(c['template'])
    out = r.get_dataframe()
    expected = ['number', 'file'] + [f['name'] for f in c['fields']] + ['Sq']
    return out, expected


def batch_level(c):
    from surfalize import Surface
    from surfalize.batch import Batch, FileInput
    import numpy as np
    if not FILE:
        b = io.BytesIO()
        Surface(np.arange(6.0).reshape(2, 3), 1, 1).save(b, format='.sdf')
        FILE.append(b.getvalue())
    batch = Batch([FileInput(name=n, data=io.BytesIO(FILE[0]), format='.sdf') for n in c['names']])
    batch.extract_from_filename(c['template'])
    batch.Sq()
    out = batch.execute(multiprocessing=False).get_dataframe()
    return out, ['file'] + [f['name'] for f in c['fields']] + ['Sq']


def run(c):
    warnings.simplefilter('ignore')
    bad = []
    missing = [i for i, v in enumerate(c['values']) if not v['ok']]
    for level, f in (('result', result_level), ('batch', batch_level)):
        if level == 'batch' and hash_of(c) % 3:
            continue
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                df, columns = f(c)
        except Exception as e:
            if c['ok'] and not c['may'] and not missing:
                bad.append(('B05:refused', level, repr(e)[:200]))
            continue
        if not c['ok']:
            bad.append(('B05:malformed_template_accepted', level, str(df.to_dict('list'))[:200]))
            continue
        if list(df.columns) != columns:
            bad.append(('B05:columns', level, list(map(str, df.columns))))
            continue
        if list(df['file']) != c['names'] or len(df) != len(c['names']):
            bad.append(('B05:rows', level, list(df['file'])))
            continue
        for i, v in enumerate(c['values']):
            for k, fd in enumerate(c['fields']):
                got = column(df, fd, i)
                want = None if not v['ok'] else v['v'][k] if fd['type'] == 'str' else int(v['v'][k]) if isinstance(got, int) else float(v['v'][k].replace(',', '.'))
                if got != want:
                    bad.append(('B05:' + ('value' if v['ok'] else 'matched_something_else'), level, {'name': c['names'][i], 'field': fd, 'expected': want, 'got': got}))
    return bad


def hash_of(c):
    return sum(map(ord, c['template'])) + len(c['names'])


def check(pid):
    rep = lib.Report(pid)
    with lib.Scratch() as wd:
        r = lib.tlc('Templates', 'SPECIFICATION SoundSpec\nINVARIANT SearchFindsBuiltNames\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMode = ""\nMaxTokens = 0\n', wd)
        rep.tlc(r)
        cases = []
        r = lib.tlc('Templates', f'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMode = "exhaustive"\nMaxTokens = {6 if lib.THOROUGH else 4}\n', wd, workers=8, timeout=900)
        rep.tlc(r)
        cases += r['emitted']
        n = 40000 if lib.THOROUGH else 4000
        r = lib.tlc('Templates', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nMode = "simulate"\nMaxTokens = 0\n', wd, workers=1,
                    args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED), timeout=900)
        rep.tlc(r)
        if len(r['emitted']) < 0.9 * n:
            raise lib.MachineryError('too few templates generated')
        cases += r['emitted']
        for c, bad in zip(cases, lib.pool_map(run, cases, chunksize=50)):
            for key, level, d in bad:
                rep.violation(key, {'template': c['template'], 'names': c['names'], 'level': level, 'detail': d})
    rep.add(traces_validated_against_impl=len(cases), well_formed=sum(c['ok'] for c in cases), names=sum(len(c['names']) for c in cases),
            names_that_match=sum(v['ok'] for c in cases for v in c['values']))
    rep.sample(cases[-1])
    rep.assumptions = ['numbers in names are unsigned', 'a template whose field name is not an identifier may be refused',
                       'an extraction may be refused as a whole if a name does not match']
    return rep
