"""F03: sequences of operations on one buffer from Buffers.tla, run on the implementation and judged by the trace specification."""
import io
import pathlib
import shutil
import tempfile
import warnings
import numpy as np
import lib
import pack
import instruments
from roundtrip import state

SIZES = (2500, 30000)
PUT = {}                # (format, n) -> (suffix, bytes)
OPTIONS = {'al3d': ('.al3d', {}), 'sdf': ('.sdf', {'binary': True}), 'sdfascii': ('.sdf', {'binary': False}), 'sflz': ('.sflz', {'compression': 'none'}),
           'sflzlzma': ('.sflz', {'compression': 'lzma'}), 'sur': ('.sur', {}), 'surz': ('.sur', {'compressed': True}), 'tmd': ('.tmd', {})}


def surface(k):
    from surfalize import Surface
    z = {1: [[1.0, 2.5, -3.0], [0.25, 8.0, 4.0]], 2: [[0.5, np.nan], [7.0, -1.0], [2.0, 2.25]], 3: [[3.0]]}[k]
    return Surface(np.array(z), 0.5, 0.5)


def failing(f, s, b):
    if f == 'baddtype':
        s.save(b, format='.sflz', dtype='<q9')
    elif f == 'badcompression':
        s.save(b, format='.sflz', compression='zip')
    elif f == 'badformat':
        s.save(b, format='.gwy')
    elif f == 'badcomment':
        s.save(b, format='.tmd', comment='c' * 500)
    else:
        s.step_x = None
        s.save(b, format='.sur')


class Buffer:
    def __init__(self, kind, wd):
        self.kind = kind
        if kind == 'bytesio':
            self.f = io.BytesIO()
        elif kind == 'spooled':
            self.f = tempfile.SpooledTemporaryFile(max_size=900, dir=wd)
        else:
            self.path = wd / 'buffer'
            self.f = open(self.path, 'w+b', buffering={'file': -1, 'raw': 0, 'random': 16}[kind])

    def content(self):
        if self.f.closed:
            return None
        p = self.f.tell()
        self.f.seek(0)
        x = self.f.read()
        self.f.seek(p)
        return x


def overlay(old, p, new):
    old = old.ljust(p, b'\x00')
    return old[:p] + new + old[p + len(new):]


def load(target, **kw):
    from surfalize import Surface
    try:
        return state(Surface.load(target, **kw)), ''
    except Exception as e:
        return None, repr(e)[:200]


def run(c):
    warnings.simplefilter('ignore')
    wd = pathlib.Path(tempfile.mkdtemp(prefix='bu_'))
    records = {}        # id -> (suffix, state, at)
    out = []
    last = 0
    buf = Buffer(c['kind'], wd)
    b = buf.f
    try:
        b.write(b'\x07' * c['offset'])
        out.append({'op': 'create', 'n': c['offset']})
        for k, st in enumerate(c['steps'], 1):
            op = st['op']
            if not out[-1].get('open', True):
                break
            old, p = buf.content(), b.tell()
            if op == 'save':
                s = surface(st['a'])
                suffix, kw = OPTIONS[st['f']]
                path = wd / ('saved' + suffix)
                for _ in range(5):
                    s.save(path, **kw)
                    before = path.read_bytes()
                    err = ''
                    try:
                        s.save(b, format=suffix, **kw)
                    except Exception as x:
                        err = repr(x)[:200]
                    if b.closed:
                        break
                    s.save(path, **kw)
                    if path.read_bytes() == before:     # (some formats store the time)
                        break
                    b.seek(p)
                new = buf.content()
                records[k] = (suffix, load(path)[0], p)
                out.append({'op': 'save', 'n': len(before), 'id': k, 'err': err, 'bytes': new == overlay(old, p, before)})
            elif op == 'failsave':
                err = ''
                try:
                    failing(st['f'], surface(st['a']), b)
                except Exception as x:
                    err = repr(x)[:200]
                out.append({'op': op, 'err': err, 'bytes': buf.content() == old})
            elif op == 'put':
                suffix, x, ref = PUT[st['f'], st['a']]
                b.write(x)
                records[k] = (suffix, ref, p)
                out.append({'op': 'put', 'n': len(x), 'id': k})
            elif op == 'load':
                starts = {at: suffix for suffix, _, at in records.values()}
                own = st['f'] == 'own' and p in starts
                fmt = starts[p] if own else {'own': None, 'none': None}.get(st['f'], '.' + st['f'])
                kw = {'format': fmt, 'read_image_layers': bool(st['a'])}
                got, err = load(b, **kw)
                e = {'op': 'load', 'err': err, 'own': own or fmt is None, 'got': 0}
                e['bytes'] = buf.content() == old
                path = wd / 'part'
                path.write_bytes(old[p:])
                # as a file with the same name
                ref, referr = load(path, format=fmt or '.foo', read_image_layers=bool(st['a']))
                e['asfile'] = got == ref and (err == '') == (referr == '')
                if not b.closed:
                    b.seek(p) if b.tell() != p and (e.update(moved=True) or True) else None
                    e['again'] = load(b, **kw)[0] == got
                else:
                    e['again'] = True
                if got is not None:
                    # (layers are compared separately from heights)
                    same = [i for i, (suffix, s, at) in records.items() if s and s[:7] == got[:7]]
                    at = [i for i in same if records[i][2] == p]
                    e['got'] = max(at or same or [0])
                if e.pop('moved', False):
                    e['pos'] = -1
                out.append(e)
            else:
                ids = sorted(records)
                if op == 'seekrecord':
                    to = max(0, records[ids[st['a'] % len(ids)]][2] + st['b']) if ids else 0
                elif op == 'seeklast':
                    ats = sorted({r[2] for r in records.values()})
                    to = ats[-1 - st['a'] % len(ats)] if ats else 0
                elif op == 'seekend':
                    to = len(old) + st['a']
                else:
                    to = st['a']
                b.seek(to)
                out.append({'op': 'seek', 'to': to})
            e = out[-1]
            e['open'] = not b.closed
            e.setdefault('pos', b.tell() if e['open'] else 0)
            e['len'] = len(buf.content()) if e['open'] else 0
    finally:
        if not b.closed:
            out[0].update(open=True, pos=c['offset'], len=c['offset'])
            b.close()
        else:
            out[0].update(open=True, pos=c['offset'], len=c['offset'])
        shutil.rmtree(wd, ignore_errors=True)
    return out


def check(pid):
    rep = lib.Report(pid)
    n = SIZES[lib.THOROUGH]
    with lib.Scratch() as wd:
        for c in instruments.generate(1000, wd):
            k = next((i for i in (1, 2) if (c['fmt'], i) not in PUT), None)
            if k:
                x = pack.pack(c['fields'])
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    PUT[c['fmt'], k] = (c['suffix'], x, load(io.BytesIO(x), format=c['suffix'])[0])
        r = lib.tlc('Buffers', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\n', wd, workers=1, args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
        cases = r['emitted']
        if len(cases) < 0.8 * n or len(PUT) != 36:
            raise lib.MachineryError('too few cases generated')
        traces = lib.pool_map(run, cases, chunksize=8)
        rejects, st, tr = lib.validate_traces('Buffers', traces, wd)
    for j in rejects:
        t = traces[j['t'] - 1]
        for b in j['bad']:
            rep.violation(b, {'kind': cases[j['t'] - 1]['kind'], 'event': t[j['l'] - 1], 'history': [[e['op'], e.get('pos')] for e in t[:j['l']]],
                              'steps': cases[j['t'] - 1]['steps'][:j['l'] - 1]})
    count = {}
    for t in traces:
        for e in t:
            key = e['op'] + (('_loaded' if not e['err'] else '_refused') if e['op'] == 'load' else '')
            count[key] = count.get(key, 0) + 1
    rep.add(states=st, transitions=tr, traces_validated_against_impl=len(traces), operations=count)
    rep.sample(cases[0])
    rep.sample(traces[0])
    rep.assumptions = ['seekable binary buffers', 'a buffer without format is compared with a file whose suffix is not known']
    return rep
