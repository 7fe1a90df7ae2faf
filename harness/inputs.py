"""B06: batches built from files and directories of Inputs.tla, judged by the trace specification."""
import contextlib
import io
import os
import pathlib
import shutil
import tempfile
import warnings
import lib

os.environ['TQDM_DISABLE'] = '1'
FILES = {}


def content(n, lower):
    """A file whose height range identifies it."""
    from surfalize import Surface
    import numpy as np
    if (n, lower) not in FILES:
        b = io.BytesIO()
        Surface(np.array([[0.0, 0.25 * n], [n, 0.5 * n]]), 1, 1).save(b, format=lower)
        FILES[n, lower] = b.getvalue()
    return FILES[n, lower]


def world(c, wd):
    """Writes the directories; returns the entries with name, kind, lower case suffix and identifier."""
    dirs, n = [], 0
    for i, d in enumerate(c['dirs']):
        p = wd / f'd{i + 1}'
        p.mkdir()
        out = []
        for x in d:
            n += 1
            e = {'name': x['stem'] + x['suffix'], 'kind': x['kind'], 'lower': x['lower'], 'content': n, 'path': p / (x['stem'] + x['suffix'])}
            if e['path'].exists():
                continue
            if e['kind'] == 'dir':
                e['path'].mkdir()
            elif x['lower'] in ('.sdf', '.sur', '.al3d', '.tmd'):
                e['path'].write_bytes(content(n, x['lower']))
            else:
                e['path'].write_bytes(b'something else')
            out.append(e)
        dirs.append(out)
    return dirs


def public(e):
    return {k: v for k, v in e.items() if k != 'path'}


def act(a, dirs, wd, batch):
    from surfalize.batch import Batch, FileInput
    if a['op'] == 'dir':
        e = {'op': 'dir', 'ext': a['ext'], 'entries': [public(x) for x in dirs[a['dir'] - 1]]}
        p = wd / f'd{a["dir"]}'
        p = str(p) if a['as'] == 'str' else p
        ext = a['ext'][0] or None
        if ext and len(ext) == 1 and a['single']:
            ext = ext[0]
        f = (lambda: batch.add_dir(p, ext)) if batch is not None else (lambda **k: Batch.from_dir(p, ext, **k))
    else:
        chosen = []
        for r in a['list']:
            d = [x for x in dirs[r['dir'] - 1] if x['kind'] == 'file' and x['lower'] in ('.sdf', '.sur', '.al3d', '.tmd')]
            if d:
                chosen.append(d[r['entry'] % len(d)])
        if a['one'] and batch is not None:
            chosen = chosen[:1]
        e = {'op': 'files', 'list': [public(x) for x in chosen]}
        files = [str(x['path']) if a['as'] == 'str' else x['path'] if a['as'] == 'path' else FileInput(name=x['name'], data=io.BytesIO(x['path'].read_bytes()), format=x['lower']) for x in chosen]
        if a['one'] and files and batch is not None:
            files = files[0]
        f = (lambda: batch.add_files(files)) if batch is not None else (lambda **k: Batch(files, **k))
    return e, f


def tiny(surface):
    """Results may be much smaller than one."""
    return {'tiny': surface.Sz() / 3e9}


def text(v):
    if v is None or v != v:
        return ''
    if isinstance(v, (int, float)) or hasattr(v, 'dtype'):
        return f'{float(v):g}'
    return str(v)


def snapshot(wd):
    return {str(p): p.read_bytes() for p in wd.rglob('*') if p.is_file() and p.name not in ('out.xlsx',)}


def run(c):
    import pandas as pd
    warnings.simplefilter('ignore')
    out, wd = [], pathlib.Path(tempfile.mkdtemp(prefix='in_'))
    try:
        dirs = world(c, wd)
        kw, table = {}, []
        if c['table']['use']:
            seen = set()
            for r in c['table']['rows']:
                d = dirs[r['dir'] - 1] if r['dir'] else []
                name = d[r['entry'] % len(d)]['name'] if d else f'other{r["entry"]}.sdf'
                if name not in seen:
                    seen.add(name)
                    table.append({'file': name, 'x': r['x'], 'y': r['y']})
            numeric = lambda v: '' if v == '' else float(v) if '.' in v else v if v.startswith('text') else int(v)
            df = pd.DataFrame({'file': [r['file'] for r in table], 'x': pd.Series([numeric(r['x']) or None if r['x'] == '' else numeric(r['x']) for r in table], dtype=object),
                               'y': [r['y'] for r in table]})
            if c['table']['order'] == 'last':
                df = df[['x', 'y', 'file']]
            df.to_excel(wd / 'table.xlsx', index=False)
            kw = {'additional_data': str(wd / 'table.xlsx')}
        before = snapshot(wd)
        batch = None
        for a in [c['init']] + c['actions']:
            e, f = act(a, dirs, wd, batch)
            e.update(raised='', length=0)
            try:
                batch = f(**kw) if batch is None else f()
                e['length'] = len(batch)
            except Exception as x:
                e['raised'] = repr(x)[:200]
            out.append(e)
            if batch is None:
                return out
        if c['template']:
            batch.extract_from_filename('<label|str>.<kind|str>')
        batch.Sz()
        batch.custom_parameter(tiny)
        e = {'op': 'exec', 'raised': '', 'rows': [], 'hastable': c['table']['use'], 'table': [{'file': r['file'], 'x': text(float(r['x'])) if r['x'] and not r['x'].startswith('text') else r['x'], 'y': r['y']} for r in table],
             'columns': True, 'saved': True, 'unchanged': True}
        saveto = wd / 'out.xlsx' if c['saveto'] else None
        if c['saveto'] == 'old':
            pd.DataFrame({'file': ['gone'] * 30, 'old': range(30)}).to_excel(saveto)
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                df = batch.execute(multiprocessing=c['multi'], saveto=saveto).get_dataframe()
        except Exception as x:
            e['raised'] = repr(x)[:300]
            out.append(e)
            return out
        rows = df.to_dict('records')
        e['rows'] = [{'name': str(r['file']), 'content': -1 if text(r.get('Sz')) in ('', 'nan') else round(float(r['Sz'])), 'x': text(r.get('x')), 'y': text(r.get('y'))} for r in rows]
        expected = {'file'} | ({'Sz', 'tiny'} if rows else set()) | ({'x', 'y'} if c['table']['use'] else set()) | ({'label', 'kind'} if c['template'] else set())
        e['columns'] = set(df.columns) - {'Sz', 'tiny'} == expected - {'Sz', 'tiny'} and (not rows or 'Sz' in df.columns) and len(df.columns) == len(set(df.columns))
        e['columns'] = e['columns'] or (not rows and set(df.columns) <= expected)
        if saveto:
            back = pd.read_excel(saveto, index_col=0)
            e['saved'] = list(back.columns) == list(df.columns) and len(back) == len(df) and all(
                text(a[k]) == text(b[k]) for a, b in zip(back.to_dict('records'), rows) for k in df.columns)
            if rows and not e['saved']:
                e['difference'] = [str(back.to_dict('list'))[:400], str(df.to_dict('list'))[:400]]
        e['unchanged'] = snapshot(wd) == before
        out.append(e)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return out


def check(pid):
    rep = lib.Report(pid)
    n = 20000 if lib.THOROUGH else 2500
    with lib.Scratch() as wd:
        r = lib.tlc('Inputs', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\n', wd, workers=1, args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
        rep.tlc(r)
        if len(r['emitted']) < 0.9 * n:
            raise lib.MachineryError('too few cases generated')
        traces = lib.pool_map(run, r['emitted'], chunksize=20)
        for i in range(0, len(traces), 5000):
            rejects, st, tr = lib.validate_traces('Inputs', traces[i:i + 5000], wd)
            rep.add(states=st, transitions=tr)
            for j in rejects:
                t = traces[i + j['t'] - 1]
                for b in j['bad']:
                    rep.violation(b, {'event': t[j['l'] - 1], 'earlier': [[e['op'], e.get('ext'), e.get('list')] for e in t[:j['l'] - 1]]})
    ex = [t[-1] for t in traces if t[-1]['op'] == 'exec']
    rep.add(traces_validated_against_impl=len(traces), executions=len(ex), rows=sum(len(e['rows']) for e in ex), tables=sum(e['hastable'] for e in ex),
            directories=sum(e['op'] == 'dir' for t in traces for e in t), rows_without_additional_data=sum(x['x'] == x['y'] == '' for e in ex if e['hastable'] for x in e['rows']))
    if not rep.cov['rows_without_additional_data'] or len(ex) < n / 2:
        raise lib.MachineryError('the cases do not cover what they should')
    rep.sample(r['emitted'][0])
    rep.assumptions = ['every file name occurs at most once in an additional table', 'numbers are compared with six digits in saved tables']
    return rep
