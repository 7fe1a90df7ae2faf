"""F01: chains of saves and loads from RoundTrip.tla, run on the implementation and judged by the trace specification."""
import io
import math
import pathlib
import shutil
import tempfile
import zlib
from datetime import datetime
import numpy as np
import lib
import terms
from lib import NAN
from values import layout

SIZES = (3000, 40000)


def build(c):
    from surfalize import Surface
    from surfalize.image import Image
    files = sorted(pathlib.Path('/repo/tests/test_files').glob('test_*'))
    if c['source'] and c['source'] <= len(files):
        s = Surface.load(files[c['source'] - 1], read_image_layers=True)
        # a part of it, so that many of them can be saved
        s.data = np.array(s.data[1:20, 2:32])
        for k, v in s.image_layers.items():
            s.image_layers[k] = Image(np.ascontiguousarray(v.data[:9, :7]))
        return s
    mul, off = 10.0 ** c['mul'], float(c['off'])
    g = np.array(c['g'], dtype=float)
    z = np.where(g == NAN, np.nan, off + g * mul)
    z = np.tile(z, (c['tile'], 2 if c['tile'] > 1 else 1)).astype(c['dt'])
    rng = np.random.default_rng(len(c['steps']) + 7)
    make = {'RGB': lambda: rng.integers(0, 255, (4, 3, 3), dtype=np.uint8), 'Grayscale': lambda: rng.integers(0, 255, z.shape, dtype=np.uint8),
            'topography': lambda: rng.integers(0, 60000, (2, 5), dtype=np.uint16), 'Float': lambda: rng.random((3, 2)),
            'Wide': lambda: rng.integers(0, 255, (1, 9), dtype=np.uint8), 'Tall': lambda: rng.integers(0, 255, (9, 1), dtype=np.uint16).astype('>u2')}
    layers = {n if n != 'Wide' else 'Wärme µ': Image(make[n]()) for n in c['layers']}
    meta = {'timestamp': datetime(2020, 2, 3, 4, 5), 'note': 'x'} if c['ts'] else {}
    s = 10.0 ** c['sm']
    return Surface(layout(z, c['lay']), c['sx'] * s, c['sy'] * s, metadata=meta, image_layers=layers)


def layers_of(s):
    return [[k, zlib.crc32(np.ascontiguousarray(v.data).tobytes() + repr((v.data.shape, v.data.dtype.str)).encode()) % 1000003] for k, v in s.image_layers.items()]


def state(s):
    d = np.asarray(s.data)
    return (d.tobytes(), d.dtype.str, d.shape, s.step_x, s.step_y, s.width_um, s.height_um, sorted(map(str, s.metadata.items())), layers_of(s))


def mask(d):
    return zlib.crc32(np.packbits(np.isnan(d)).tobytes()) % 1000003


def options(f):
    o = {'sflz': ('compression', 'dtype'), 'sur': ('compressed',), 'sdf': ('binary',)}.get(f['fmt'], ())
    kw = {k: f[k] for k in o}
    if f['fmt'] == 'sflz':
        kw.update(save_image_layers=f['layers'], write_metadata=f['meta'])
    if 'comment' in f:
        kw['comment'] = ('c' * 40 if f['chars'] == 'ascii' else 'aäµ' * 14 if f['chars'] == 'latin' else 'a漢字' * 14)[:f['comment']] if f['comment'] < 40 else \
            {'ascii': 'c', 'latin': 'ä', 'wide': '漢'}[f['chars']] * f['comment']
    return kw


def scaled(dev, tol):
    if dev <= tol:
        return int(math.ceil(1000 * dev / tol)) if tol > 0 else 0
    return 1001 if tol == 0 or not math.isfinite(dev) else min(10 ** 6, max(1001, int(1000 * dev / tol)))


STAGE = ['save']


def one(s, st, wd, k):
    from surfalize import Surface
    f, target = st['f'], st['target']
    suffix = '.' + f['fmt']
    kw = options(f)
    load_enc = 'auto' if st['auto'] else st['enc']
    rkw = {'read_image_layers': st['readlayers'], 'encoding': load_enc}
    p = wd / f'file{k}'
    if target in ('str', 'path', 'upper', 'overwrite', 'nosuffix'):
        if target != 'nosuffix':
            p = p.with_suffix(suffix.upper() if target == 'upper' else suffix)
        if target == 'overwrite':
            p.write_bytes(b'x' * 100000)
        name = str(p) if target == 'str' else p
        fk = {'format': suffix} if target == 'nosuffix' else {}
        s.save(name, encoding=st['enc'], **fk, **kw)
        STAGE[0] = 'load'
        return Surface.load(name, **fk, **rkw), lambda: Surface.load(name, **fk, **rkw)
    if target in ('bytesio', 'position'):
        b = io.BytesIO(b'xyz\x00' if target == 'position' else b'')
        b.seek(0, 2)
    else:
        b = open(p, 'w+b', buffering=0 if target == 'rawfile' else -1)
    start = b.tell()
    s.save(b, format=suffix, encoding=st['enc'], **kw)
    STAGE[0] = 'load'
    b.seek(start)
    return Surface.load(b, format=suffix, **rkw), lambda: Surface.load(b, format=suffix, **rkw)


def run(c):
    import warnings
    warnings.simplefilter('ignore')
    wd = pathlib.Path(tempfile.mkdtemp(prefix='rt_'))
    s = build(c)
    out = [{'ny': s.size.y, 'nx': s.size.x, 'mask': mask(s.data), 'layers': layers_of(s)}]
    try:
        for k, st in enumerate(c['steps']):
            f = dict(st['f'])
            f.setdefault('layers', False)
            e = {'f': f, 'enc': st['enc'], 'stage': '', 'readlayers': st['readlayers'], 'err': '', 'ny': 0, 'nx': 0, 'mask': 0, 'layers': [], 'dev': 0, 'dsx': 0, 'dsy': 0, 'same': True,
                 'again': True}
            out.append(e)
            try:
                before = state(s)
                tol = st['tolm' if np.isnan(s.data).any() else 'tol']
                STAGE[0] = 'save'
                r, again = one(s, st, wd, k)
                e['same'] = state(s) == before
                e['again'] = state(again()) == state(r)
                e['ny'], e['nx'], e['mask'], e['layers'] = r.size.y, r.size.x, mask(r.data), layers_of(r)
                if r.data.shape == s.data.shape and mask(r.data) == mask(s.data):
                    a, b = np.asarray(s.data, dtype=float).ravel(), np.asarray(r.data, dtype=float).ravel()
                    ok = ~np.isnan(a)
                    a, b = a[ok], b[ok]
                    if len(a):
                        env = {'range': float(a.max() - a.min()), 'max': float(np.abs(a).max())}
                        # the tolerance grows with the single height: evaluated for all distinct heights
                        u, idx = np.unique(a, return_inverse=True)
                        dev = np.zeros(len(u))
                        np.maximum.at(dev, idx, np.nan_to_num(np.abs(a - b), nan=np.inf))
                        e['dev'] = max(scaled(float(d), terms.value(tol, {**env, 'abs': abs(float(x))})) for x, d in zip(u, dev))
                for n, x, y in (('dsx', s.step_x, r.step_x), ('dsy', s.step_y, r.step_y)):
                    e[n] = scaled(abs(float(x) - float(y)), float(x) * 2.0 ** -st['sbits'])
                s = r
            except Exception as x:
                e['err'], e['stage'] = repr(x)[:300], STAGE[0]
                break
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return out


def check(pid):
    rep = lib.Report(pid)
    n = SIZES[lib.THOROUGH]
    with lib.Scratch() as wd:
        r = lib.tlc('RoundTrip', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\n', wd, workers=1, args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
        cases = r['emitted']
        if len(cases) < 0.8 * n:
            raise lib.MachineryError('too few cases generated')
        traces = lib.pool_map(run, cases, chunksize=8)
        rejects, st, tr = lib.validate_traces('RoundTrip', traces, wd)
    for j in rejects:
        c, e = cases[j['t'] - 1], traces[j['t'] - 1][j['l'] - 1]
        for b in j['bad']:
            rep.violation(b, {'step': {k: v for k, v in c['steps'][j['l'] - 2].items() if not k.startswith('tol')}, 'number': j['l'] - 1, 'observed': e,
                              'case': {k: c[k] for k in ('g', 'mul', 'off', 'dt', 'tile', 'sx', 'sy', 'sm', 'layers', 'ts', 'lay', 'source')},
                              'chain': [x['f']['fmt'] for x in c['steps']]})
    rep.add(states=st, transitions=tr, traces_validated_against_impl=len(traces), saves=sum(len(t) - 1 for t in traces))
    rep.sample({k: v for k, v in cases[0].items() if k != 'steps'})
    rep.sample(traces[0])
    rep.assumptions = ['resolution of a format: its float or integer type over the range it stores', 'encodings that contain ASCII']
    return rep
