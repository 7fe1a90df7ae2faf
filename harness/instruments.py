"""
F04: files of every instrument format from Layouts.tla, loaded by the implementation and judged by Instruments.tla.
F07: the same for what the files say about the measurement.
"""
import datetime
import io
import math
import pathlib
import shutil
import tempfile
import numpy as np
import lib
import pack
from roundtrip import scaled

SIZES = {'F04': (3000, 45000), 'F07': (5000, 60000)}


def observe(load, m, requested):
    e = {'err': '', 'requested': requested, 'missing': [], 'dev': 0, 'dsx': 0, 'dsy': 0, 'layers': []}
    try:
        s = load(requested)
        d = np.asarray(s.data, dtype=float)
        h, sx, sy = pack.meaning(m)
        e['missing'] = np.isnan(d).astype(int).tolist()
        if d.shape == h.shape and np.array_equal(np.isnan(d), np.isnan(h)):
            ok = ~np.isnan(h)
            if m['free'] and ok.any():
                d, h = d - d[ok][0], h - h[ok][0]
            if ok.any():
                # the heights and the scale factors in the file are exact single precision numbers
                scale = float(np.abs(h[ok]).max())
                tol = 1e-6 * scale if not m['free'] else 1e-6 * max(scale, float(np.abs(np.asarray(s.data)[ok]).max()))
                e['dev'] = scaled(float(np.abs(d[ok] - h[ok]).max()), tol + 1e-300)
        e['dsx'], e['dsy'] = scaled(abs(float(s.step_x) - sx), 1e-6 * sx), scaled(abs(float(s.step_y) - sy), 1e-6 * sy)
        for k, v in s.image_layers.items():
            a = np.asarray(v.data)
            e['layers'].append({'name': k, 'h': a.shape[0], 'w': a.shape[1], 'ch': a.shape[2] if a.ndim == 3 else 1,
                                'v': [int(x) if float(x) == int(x) else -1 for x in a.ravel()]})
    except Exception as x:
        e['err'] = repr(x)[:300]
    return e


def told(w, s):
    """What the metadata says under the name of w."""
    v = s.metadata.get(w['k'])
    o = {'t': '', 'v': '', 'dev': 0}
    if isinstance(v, datetime.datetime):
        o.update(t='time', v=v.replace(microsecond=0).isoformat() if v.microsecond == 0 else repr(v))
    elif isinstance(v, str):
        o.update(t='text', v=v.strip())
    elif isinstance(v, (int, float, np.integer, np.floating)):
        x = float(pack.terms.ev(w['n']))
        o.update(t='num', dev=scaled(abs(float(v) - x), 1e-6 * abs(x) + 1e-300))
    else:
        o['v'] = repr(v)[:50]
    return o


def run_meta(c, Surface, p, content):
    m = c['m']
    what = [{**w, 'v': pack.chars(w['v'])} for w in m['meta']]
    out = [{'about': 'F07', 'fmt': c['fmt'], 'meta': what}]
    loads = [lambda: Surface.load(p, encoding=m['enc']), lambda: Surface.load(io.BytesIO(content), format=c['suffix'], encoding=m['enc'], read_image_layers=True)]
    if m['enc'] in ('utf-8', 'latin-1'):
        loads += [lambda: Surface.load(p), lambda: Surface.load(str(p), encoding='auto', read_image_layers=True)]
    for load in loads:
        e = {'err': '', 'meta': []}
        try:
            s = load()
            e['meta'] = [told(w, s) for w in what]
        except Exception as x:
            e['err'] = repr(x)[:300]
        out.append(e)
    return out


def run(c):
    import warnings
    from surfalize import Surface
    warnings.simplefilter('ignore')
    wd = pathlib.Path(tempfile.mkdtemp(prefix='in_'))
    try:
        content = pack.pack(c['fields'])
        p = wd / ('f' + c['suffix'])
        p.write_bytes(content)
        m = c['m']
        if c['about'] == 'F07':
            return run_meta(c, Surface, p, content)
        return [{'about': 'F04', 'fmt': c['fmt'], 'g': m['g'], 'layers': m['layers']},
                observe(lambda q: Surface.load(p, read_image_layers=q), m, False),
                observe(lambda q: Surface.load(str(p), read_image_layers=q), m, True),
                observe(lambda q: Surface.load(io.BytesIO(content), format=c['suffix'], read_image_layers=q), m, True),
                observe(lambda q: Surface.load(io.BytesIO(content), format=c['suffix'], read_image_layers=q, encoding='utf-8'), m, False)]
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def generate(n, wd, seed=None, meta='plain'):
    r = lib.tlc('Instruments', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\n', wd, workers=1, args=('-simulate', f'num={n}', '-depth', 3, '-seed', seed or lib.SEED), env={'META': meta})
    if len(r['emitted']) < 0.8 * n:
        raise lib.MachineryError('too few cases generated')
    return r['emitted']


def check(pid):
    rep = lib.Report(pid)
    with lib.Scratch() as wd:
        cases = generate(SIZES[pid][lib.THOROUGH], wd, meta='plain' if pid == 'F04' else 'any')
        if pid == 'F07':
            cases = [c for c in cases if c['m']['meta']]
        for c in cases:
            c['about'] = pid
        traces = lib.pool_map(run, cases, chunksize=8)
        st = tr = 0
        for i in range(0, len(traces), 5000):
            rejects, a, b = lib.validate_traces('Instruments', traces[i:i + 5000], wd)
            st, tr = st + a, tr + b
            for j in rejects:
                c, e = cases[i + j['t'] - 1], traces[i + j['t'] - 1][j['l'] - 1]
                for bad in j['bad']:
                    if pid == 'F07':
                        k = bad.split(':', 2)[2]
                        at = next((q for q, w in enumerate(c['m']['meta']) if w['k'] == k), None)
                        rep.violation(bad, {'error': e['err'], 'encoding': c['m']['enc'], 'file': c['m']['meta'] if at is None else c['m']['meta'][at],
                                            'surface': None if at is None else e['meta'][at], 'load': j['l'] - 1})
                        continue
                    rep.violation(bad, {'observed': {k: v for k, v in e.items() if k != 'layers'}, 'layers': [x['name'] for x in e['layers']],
                                        'wanted_layers': [x['name'] for x in c['m']['layers']], 'codes': c['m']['g'], 'load': j['l'] - 1,
                                        'size': [len(c['m']['g']), len(c['m']['g'][0])]})
    count = {}
    for c in cases:
        count[c['fmt']] = count.get(c['fmt'], 0) + 1
    rep.add(states=st, transitions=tr, traces_validated_against_impl=len(traces), files_by_format=count)
    rep.sample({k: v for k, v in cases[0].items() if k != 'fields'})
    rep.sample(traces[0][1])
    rep.assumptions = ['layouts as stated in spec/Layouts.tla; ' + ('heights of nms are judged up to a constant' if pid == 'F04' else
                       'a text is judged without surrounding blanks, a date may be given as text or as a moment where the format has only a text')]
    return rep
