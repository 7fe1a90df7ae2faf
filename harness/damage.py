"""F06: every prefix of files of every format, and saves that fail, judged by Damage.tla."""
import io
import os
import pathlib
import shutil
import tempfile
import warnings
import numpy as np
import lib
import pack
import instruments
from roundtrip import state
from buffers import OPTIONS as _OPTIONS

RECORDS = (1, 8)
OPTIONS = {**_OPTIONS, 'sflzzlib': ('.sflz', {'compression': 'zlib'})}
FILES = {}          # (fmt, n) -> (suffix, bytes, image layers requested)


def surface(k):
    from surfalize import Surface
    from surfalize.image import Image
    rng = np.random.default_rng(k)
    z = rng.normal(size=(2 + k % 3, 2 + k % 4)) * 10.0 ** (k % 5 - 2)
    if k % 2:
        z[0, -1] = np.nan
    layers = {'RGB': Image(rng.integers(0, 255, (2, 3, 3), dtype=np.uint8))} if k % 3 == 1 else None
    return Surface(z, 0.5, 0.5 + k % 2, image_layers=layers)


def handles():
    return len(os.listdir('/proc/self/fd'))


def load(target, **kw):
    """(outcome state or None, number of handles that stay open)"""
    from surfalize import Surface
    n = handles()
    try:
        s = Surface.load(target, **kw)
    except Exception as e:
        return None, handles() - n, repr(e)[:150]
    return state(s)[:-2] + (state(s)[-1],), handles() - n, ''


def cuts(job):
    key, ks = job
    suffix, content, layers = FILES[key]
    warnings.simplefilter('ignore')
    wd = pathlib.Path(tempfile.mkdtemp(prefix='da_'))
    out = []
    try:
        p, whole = wd / ('cut' + suffix), wd / ('whole' + suffix)
        whole.write_bytes(content)
        intact, _, err = load(whole, read_image_layers=layers)
        out.append({'op': 'complete', 'fmt': key[0], 'outcome': 'intact' if intact is not None else 'refused', 'err': err})
        if intact is None:
            return out
        for k in ks:
            p.write_bytes(content[:k])
            # a damaged file is loaded from the path, every third time from a buffer
            got, h, err = load(p, read_image_layers=layers) if k % 3 else load(io.BytesIO(content[:k]), format=suffix, read_image_layers=layers)
            e = {'op': 'cut', 'fmt': key[0], 'k': k, 'of': len(content), 'outcome': 'refused' if got is None else 'intact' if got == intact else 'misread',
                 'handles': h, 'later': True, 'err': err}
            if e['outcome'] == 'misread':
                e['shape'] = [got[2], intact[2]]
            if k % 16 == 0:
                e['later'] = load(whole, read_image_layers=layers)[0] == intact
            out.append(e)
        return out
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def failsave(c):
    from surfalize import Surface
    warnings.simplefilter('ignore')
    wd = pathlib.Path(tempfile.mkdtemp(prefix='fs_'))
    out = [{'op': 'old', 'old': c['old']}]
    try:
        s = surface(2)
        suffix, kw, fmt = {'baddtype': ('.sflz', {'dtype': '<q9'}, None), 'badcompression': ('.sflz', {'compression': 'zip'}, None),
                           'badformat': ('.sur', {}, '.gwy'), 'badcomment': ('.tmd', {'comment': 'c' * 500}, None), 'toolarge': ('.sdf', {}, None),
                           'nospacing': ('.sur', {}, None), 'badsymbol': ('.sur', {'comment': 'x' * 40000}, None)}[c['how']]
        if c['how'] == 'toolarge':
            s = Surface(np.zeros((1, 70000)), 1.0, 1.0)
        elif c['how'] == 'nospacing':
            s.step_x = None
        p = wd / ('file' + suffix)
        old = {'absent': None, 'garbage': b'not a surface' * 3}.get(c['old'])
        if c['old'] == 'surface':
            b = io.BytesIO()
            surface(1).save(b, format=suffix)
            old = b.getvalue()
        if old is not None:
            p.write_bytes(old)
        before = sorted(x.name for x in wd.iterdir())
        n = handles()
        e = {'op': 'failsave', 'outcome': 'saved', 'handles': 0, 'now': 'changed', 'err': ''}
        try:
            s.save(str(p) if c['target'] == 'str' else p, format=fmt, **kw)
        except Exception as x:
            e['outcome'], e['err'], e['handles'] = 'refused', repr(x)[:150], handles() - n
        now = p.read_bytes() if p.exists() else None
        if now == old and before == sorted(x.name for x in wd.iterdir()):
            e['now'] = c['old']
        return out + [e]
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def prepare(r, wd):
    want = {(x['fmt'], x['n']) for x in r['records']}
    seen = {}
    for c in instruments.generate(400 * max(x['n'] for x in r['records']) + 400, wd):
        k = (c['fmt'], seen.get(c['fmt'], 0) + 1)
        g = c['m']['g']
        # a single row or column of equal heights says little about a shift
        if k in want and len(g) * len(g[0]) >= 4:
            seen[c['fmt']] = k[1]
            FILES[k] = (c['suffix'], pack.pack(c['fields']), k[1] % 2 == 1)
    for x in r['written']:
        suffix, kw = OPTIONS[x['fmt']]
        b = io.BytesIO()
        surface(x['n']).save(b, format=suffix, **kw, **({'save_image_layers': True} if suffix == '.sflz' else {}))
        FILES['written_' + x['fmt'], x['n']] = (suffix, b.getvalue(), True)
    if want - set(FILES):
        raise lib.MachineryError('not all formats generated')


def check(pid):
    rep = lib.Report(pid)
    n = RECORDS[lib.THOROUGH]
    const = f'CONSTANTS NRecords = {n}\n'
    with lib.Scratch() as wd:
        r = lib.tlc('Damage', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\n' + const, wd, workers=1)['emitted'][0]
        prepare(r, wd)
        jobs = [(key, range(a, min(a + 160, len(x[1])))) for key, x in sorted(FILES.items()) for a in range(0, len(x[1]), 160)]
        traces = lib.pool_map(cuts, jobs, chunksize=2) + lib.pool_map(failsave, r['failing'])
        slim = [[{k: v for k, v in e.items() if k not in ('err', 'shape')} for e in t] for t in traces]
        rejects, st, tr = lib.validate_traces('Damage', slim, wd, constants=const)
    for j in rejects:
        e = traces[j['t'] - 1][j['l'] - 1]
        for b in j['bad']:
            rep.violation(b, {'event': e, 'case': str(jobs[j['t'] - 1][0]) if j['t'] <= len(jobs) else r['failing'][j['t'] - 1 - len(jobs)]})
    count = {}
    for t in traces:
        for e in t:
            if e['op'] == 'cut':
                count[e['fmt'] + ' ' + e['outcome']] = count.get(e['fmt'] + ' ' + e['outcome'], 0) + 1
    rep.add(states=st, transitions=tr, traces_validated_against_impl=len(traces), cuts=sum(count.values()), outcomes=count, failing_saves=len(r['failing']))
    rep.sample(traces[0][:3])
    rep.sample(traces[-1])
    rep.assumptions = ['formats that state the number of their points (xyz does not)']
    return rep
