"""F02: loads and saves under all names from Dispatch.tla, run on the implementation and judged by the trace specification."""
import io
import json
import pathlib
import random
import re
import shutil
import tempfile
import warnings
import zipfile
from collections import Counter
import numpy as np
import lib
import pack
import instruments
from roundtrip import state

CONTENTS = (2, 5)
CONTENT, REFERENCE, OWN = {}, {}, {}


def garbage(files):
    rnd = random.Random(7)
    rb = lambda n: bytes(rnd.randrange(256) for _ in range(n))

    def z(**entries):
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as a:
            for k, v in entries.items():
                a.writestr(k, v)
        return b.getvalue()
    png = io.BytesIO()
    from PIL import Image
    Image.fromarray(np.arange(60, dtype=np.uint8).reshape(6, 10)).save(png, 'png')
    g = {'empty': b'', 'zeros': bytes(6000), 'random': rb(6000), 'words': b'Some notes on the sample.\nMeasured twice.\n', 'numbers': b'1\n2\n3\n4\n',
         'header': b'SIMPLE  =                    T'.ljust(2880), 'png': png.getvalue(), 'zip': z(notes=b'text'), 'zipcut': files['x3p', 1][:-40],
         'zipjunk': z(Vk4File=rb(3000)), 'half': files['sur', 1][:400], 'newlines': b'\r\n' * 50, 'utf16': '1 2 3\n'.encode('utf-16'),
         'json': json.dumps({'a': [1, 2, 3]}).encode()}
    for f in ('dat', 'fits', 'gwy', 'opd', 'os3d', 'sdf', 'sur', 'tmd', 'vk4', 'vk6', 'zmg', 'al3d', 'sflz'):
        g['junk_' + f] = files[f, 1][:max(16, {'tmd': 29}.get(f, 0))] + rb(5000)
    return g


def prepare(n, wd):
    from surfalize import Surface
    files, suffix = {}, {}
    for c in instruments.generate(1500, wd):
        k = next((i for i in range(1, n + 1) if (c['fmt'], i) not in files), None)
        if k:
            files[c['fmt'], k] = pack.pack(c['fields'])
            CONTENT[c['fmt'], k] = c['m']
            suffix[c['fmt'], k] = c['suffix']
    if len(files) != 18 * n:
        raise lib.MachineryError('not all formats generated')
    for x in files:
        h, sx, sy = pack.meaning(CONTENT[x])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            Surface(h, sx, sy)
        OWN[x] = Counter(str(i.message) for i in w)
        CONTENT[x] = files[x]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                REFERENCE[x] = state(Surface.load(io.BytesIO(files[x]), format=suffix[x]))
            except Exception as e:
                REFERENCE[x] = repr(e)
    for k, v in garbage(files).items():
        CONTENT[k, 1] = v
        OWN[k, 1] = Counter()


def tree(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in d.rglob('*') if p.is_file()}


def loads(c, wd):
    from surfalize import Surface
    x = (c['content'], c['n'])
    e = {'c': c, 'outcome': 'refused', 'loaded': '', 'warned': False, 'named': [], 'err': ''}
    kw = {'format': c['explicit']} if c['explicit'] else {}
    p = wd / (c['stem'] + c['suffix'])
    p.parent.mkdir(exist_ok=True)
    f = None
    if c['target'] == 'bytesio':
        target = io.BytesIO(CONTENT[x])
    else:
        p.write_bytes(CONTENT[x])
        target = f = open(p, 'rb') if c['target'] == 'file' else None
        if f is None:
            target = str(p) if c['target'] == 'str' else p
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            s = Surface.load(target, **kw)
            e['outcome'] = 'loaded'
        except Exception as err:
            e['err'] = repr(err)[:200]
    if f:
        f.close()
    if e['outcome'] == 'loaded':
        st = state(s)
        e['loaded'] = c['content'] if x in REFERENCE and st == REFERENCE[x] else next((k[0] for k, v in REFERENCE.items() if v == st), 'something')
        if e['loaded'] == c['content'] and st != REFERENCE.get(x):
            e['loaded'] = 'another ' + c['content']
    extra = Counter(str(i.message) for i in w if issubclass(i.category, UserWarning)) - OWN[x]
    extra = [m for m in extra]
    e['warned'] = bool(extra)
    e['named'] = sorted({'.' + m.lower() for t in extra for m in re.findall(r'\.([A-Za-z0-9]+)', t)})
    e['messages'] = extra
    return e


def saves(c, wd):
    from surfalize import Surface
    s = Surface(np.array([[1.0, 2.5, -3.0], [0.25, 8.0, 4.0]]), 0.5, 0.5)
    e = {'c': c, 'outcome': 'refused', 'begins': '', 'others': True, 'untouched': True, 'err': ''}
    kw = {'format': c['explicit']} if c['explicit'] else {}
    d = wd / 'd'
    d.mkdir()
    old = b'\x01previous content\x02' * 3 if c['content'] == 'present' else b''
    (d / 'other.sur').write_bytes(b'other')
    (d / 'file').write_bytes(b'no suffix') if c['suffix'] else None
    p = d / (c['stem'] + c['suffix'])
    p.parent.mkdir(exist_ok=True)
    f = None
    if c['target'] == 'bytesio':
        target = io.BytesIO(old)
    elif c['target'] == 'file':
        f = open(p, 'w+b')
        f.write(old)
        f.flush()
        f.seek(0)
        target = f
    else:
        if old:
            p.write_bytes(old)
        target = str(p) if c['target'] == 'str' else p
    before = tree(d)
    try:
        s.save(target, **kw)
        e['outcome'] = 'saved'
    except Exception as err:
        e['err'] = repr(err)[:200]
    if f:
        f.flush()
    after = tree(d)
    if c['target'] == 'bytesio':
        content = target.getvalue()
        e['untouched'], e['others'] = content == old and before == after, before == after
    else:
        content = after.get(str(p.relative_to(d)), b'')
        e['untouched'] = before == after
        before.pop(str(p.relative_to(d)), None)
        after.pop(str(p.relative_to(d)), None)
        e['others'] = before == after
    if f:
        f.close()
    for m in ('AliconaImaging', 'bISO-1.0', 'SFLZ', 'DIGITAL SURF', 'Binary TrueMap Data File v2.0'):
        if content.startswith(m.encode()):
            e['begins'] = m
    return e


def run(c):
    wd = pathlib.Path(tempfile.mkdtemp(prefix='di_'))
    try:
        return loads(c, wd) if c['kind'] == 'load' else saves(c, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def check(pid):
    rep = lib.Report(pid)
    n = CONTENTS[lib.THOROUGH]
    with lib.Scratch() as wd:
        const = f'CONSTANTS FullProduct = {"TRUE" if lib.THOROUGH else "FALSE"}\nNContents = {n}\n'
        r = lib.tlc('Dispatch', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\n' + const, wd, workers=1, heap='6g')
        rep.tlc(r)
        prepare(n, wd)
        for x, ref in REFERENCE.items():
            if isinstance(ref, str):
                rep.violation(f'F02:{x[0]}:refused', {'error': ref, 'name': 'its own'})
        cases = r['emitted'][0]['loads'] + r['emitted'][0]['saves']
        events = lib.pool_map(run, cases, chunksize=32)
        traces = [events[i:i + 20] for i in range(0, len(events), 20)]
        size = 2500
        for i in range(0, len(traces), size):
            slim = [[{k: v for k, v in e.items() if k not in ('err', 'messages')} for e in t] for t in traces[i:i + size]]
            rejects, st, tr = lib.validate_traces('Dispatch', slim, wd, constants=const)
            rep.add(states=st, transitions=tr)
            for j in rejects:
                e = traces[i + j['t'] - 1][j['l'] - 1]
                for b in j['bad']:
                    rep.violation(b, e)
    rep.add(traces_validated_against_impl=len(events), loads=sum(c['kind'] == 'load' for c in cases), saves=sum(c['kind'] == 'save' for c in cases),
            contents=len(CONTENT))
    rep.sample(events[0])
    rep.sample(events[-1])
    rep.assumptions = ['contents: synthetic files of Layouts.tla and garbage without structure of a supported format']
    return rep
