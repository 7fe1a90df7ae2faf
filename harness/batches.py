"""B01-B04: batches from Batch.tla, executed by the implementation and judged by the trace specification."""
import bisect
import contextlib
import functools
import io
import os
import pathlib
import shutil
import tempfile
import time
import warnings
import numpy as np
import lib
import pool
import preempt

os.environ['TQDM_DISABLE'] = '1'
SIZES = {'B01': (600, 8000), 'B02': (250, 3000), 'B03': (1000, 9000), 'B04': (900, 10000)}
FAILS = {}            # (file, what) -> error kind; a file is known by its spacing
FORMATS = {1: ('.sflz', {'dtype': '<f8'}), 2: ('.sdf', {}), 3: ('.sflz', {'dtype': '<f8'}), 4: ('.sdf', {'binary': False}), 5: ('.sflz', {'dtype': '<f8'}), 6: ('.al3d', {})}


def original(k):
    from surfalize import Surface
    y, x = np.mgrid[:24, :32]
    rng = np.random.default_rng(k)
    z = k * np.sin(2 * np.pi * (x + 0.3 * k * (k % 2) * y) / (4 + k % 3 * 4)) + 0.2 * rng.normal(size=x.shape) + 3 * k + 0.01 * k * y
    if k == 4:
        z = np.cumsum(rng.normal(size=x.shape), axis=1)
    if k == 5:
        z[3, 4] = z[20, 30] = np.nan
    z = z[:24 - k, :32 - k]
    return Surface(z, k / 8, k / 8)


def fail(s, what):
    from surfalize.exceptions import CalculationError, FittingError
    kind = FAILS.get((round(s.step_x * 8), what))
    if kind:
        raise {'calc': CalculationError, 'fit': FittingError, 'value': ValueError}[kind]('not possible')


@functools.cache
def install():
    """Parameters that can be made to fail for a file."""
    from surfalize import Surface
    for name in ('Sku', 'depth'):
        f = getattr(Surface, name)

        def wrapper(self, *a, _f=f, _name=name, **k):
            fail(self, _name)
            return _f(self, *a, **k)
        setattr(Surface, name, functools.wraps(f)(wrapper))


ARGS = {('crop', 0): (((0.0, 1.5, 0.0, 1.0),), {}), ('crop', 1): (((2, 14, 3, 12),), {'in_units': False}), ('zoom', 0): ((2,), {}), ('threshold', 0): ((), {}),
        ('threshold', 1): ((), {'threshold': (10, 20)}), ('detrend_polynomial', 0): ((2,), {}), ('filter', 0): (('lowpass', 2.0), {}),
        ('filter', 1): ((), {'filter_type': 'bandpass', 'cutoff': 0.8, 'cutoff2': 3.0}), ('remove_outliers', 0): ((), {'n': 1}), ('fill_nonmeasured', 1): (('linear',), {}),
        ('depth', 0): ((5,), {}), ('align', 0): ((), {'method': 'fft'}), ('depth', 1): ((7,), {'sampling_width': 0.3}), ('Vmc', 1): ((), {'p': 5, 'q': 90}), ('Vmc', 2): ((5, 95), {}), ('Vvv', 1): ((60,), {}), ('Smr', 0): ((0.5,), {}),
        ('Smr', 1): ((), {'c': 2.0}), ('Smc', 0): ((30,), {}), ('cavity_volume', 1): ((), {'threshold': 0.2}), ('homogeneity', 1): ((), {'parameters': ['Sa']})}


def c_double(s):
    s.data = s.data * 2 + 1


def c_add(s):
    s.data = s.data + 5


def c_clip(s):
    s.data = np.minimum(s.data, 6.0)


def c_drop(s):
    s.data = s.data[:-3, 2:]


def c_opfail(s):
    raise RuntimeError('operation failed')


def p_mean(s):
    return {'mean': float(np.nanmean(s.data))}


def p_pair(s):
    return {'low': float(np.nanmin(s.data)), 'high': float(np.nanmax(s.data))}


def p_shape(s):
    return {'rows': s.size.y, 'columns': s.size.x}


def p_text(s):
    return {'note': 'n%d' % s.size.y}


def p_likeSa(s):
    return {'Sa': 4711.0}


def p_likedepth(s):
    return {'depth_std': 4712.0}


def p_file(s):
    return {'file': 'other'}


def p_cfail(s):
    fail(s, 'cfail')
    return {'cfail': float(np.nansum(s.data))}


def p_cfail2(s):
    fail(s, 'cfail2')
    return {'c1': float(np.nanmax(s.data)), 'c2': 3}


def p_nothing(s):
    return {}


def p_high(s):
    return {'high': -1.0}


def kind(e):
    from surfalize.exceptions import CalculationError
    return 'calc' if isinstance(e, CalculationError) else 'other'


class Ids:
    """Equal values have equal identifiers."""

    def __init__(self):
        self.text, self.keys, self.ids, self.n = {}, [], [], 0

    def __call__(self, v):
        if v is None:
            return 0
        try:
            x = float(v)
        except (TypeError, ValueError):
            if str(v) not in self.text:
                self.n += 1
                self.text[str(v)] = self.n
            return self.text[str(v)]
        if x != x:
            return 0
        i = bisect.bisect_left(self.keys, x)
        for j in (i - 1, i):
            if 0 <= j < len(self.keys) and (self.keys[j] == x or abs(self.keys[j] - x) <= 1e-9 * min(abs(x), abs(self.keys[j]))):
                return self.ids[j]
        self.n += 1
        self.keys.insert(i, x)
        self.ids.insert(i, self.n)
        return self.n


def apply_op(s, st):
    if st['kind'] == 'cop':
        globals()['c_' + st['name']](s)
    else:
        a, k = ARGS.get((st['name'], st['a']), ((), {}))
        getattr(s, st['name'])(*a, inplace=True, **k)


def evaluate(s, st):
    try:
        if st['kind'] == 'cpar':
            r = globals()['p_' + st['name']](s)
            return '', [r[k] for k in st['keys']]
        a, k = ARGS.get((st['name'], st['a']), ((), {}))
        r = getattr(s, st['name'])(*a, **k)
        return '', list(r) if st['labels'] else [r]
    except Exception as e:
        return kind(e), []


def reference(load, steps, ids):
    """Direct evaluation: for every number of operations the values of the parameters that see them in either mode."""
    ops = [i for i, st in enumerate(steps) if st['kind'] in ('op', 'cop')]
    out = []
    s = load()
    for k in range(len(ops) + 1):
        err = False
        if k:
            try:
                apply_op(s, steps[ops[k - 1]])
            except Exception:
                err = True
        p = []
        for i, st in enumerate(steps):
            e = {'err': '', 'v': []}
            if not err and i not in ops and st['kind'] != 'pat' and k in (len(ops), sum(o < i for o in ops)):
                er, v = evaluate(s, st)
                e = {'err': er, 'v': [ids(x) for x in v]}
            p.append(e)
        out.append({'err': err, 'p': p})
        if err:
            break
    return out


def row_of(d, ids):
    d = dict(d)
    name = d.pop('file', None)
    return {'name': str(name), 'c': [str(k) for k in d], 'v': [ids(v) for v in d.values()]}


def setup(c, wd):
    """The inputs of the batch: (argument, name, loader)"""
    from surfalize import Surface
    from surfalize.batch import FileInput
    inputs, buffers = [], {}
    (wd / 'a').mkdir()
    (wd / 'b').mkdir()
    for n, f in enumerate(c['files']):
        k = f['k']
        suffix, kw = FORMATS[k]
        s = original(k)
        if f['how'] in ('str', 'path'):
            p = wd / 'a' / f'f{k}{suffix}'
            if not p.exists():
                s.save(p, **kw)
            inputs.append((str(p) if f['how'] == 'str' else p, p.name, lambda p=p: Surface.load(p)))
        elif f['how'] == 'same':
            # the name of another file in another folder
            p = wd / 'b' / f'f{k % 3 + 1}.sflz'
            s.save(p, dtype='<f8')
            inputs.append((p, p.name, lambda p=p: Surface.load(p)))
        else:
            if f['how'] == 'shared' and k in buffers:
                b = buffers[k]
            else:
                b = io.BytesIO()
                b.write(b'xyz' if f['how'] == 'offset' else b'')
                at = b.tell()
                s.save(b, format=suffix, **kw)
                b.seek(at)
                if f['how'] == 'shared':
                    buffers[k] = b
            content = b.getvalue()[b.tell():]
            inputs.append((FileInput(name=f'input {n % 4}', data=b, format=suffix), f'input {n % 4}', lambda x=content, q=suffix: Surface.load(io.BytesIO(x), format=q)))
    # two files of the same name in folder b would be one file with the last content
    return inputs


def contents(wd, inputs):
    out = {str(p): p.read_bytes() for p in sorted(wd.rglob('*')) if p.is_file()}
    for x, _, _ in inputs:
        if not isinstance(x, (str, pathlib.Path)):
            out[id(x.data)] = (x.data.getvalue(), x.data.tell())
    return out


def execute(batch, e, steps, inputs, wd, ids, earlier):
    import pandas as pd
    called = []
    e.update(nameids=[ids(n) for _, n, _ in inputs], raised='', rows=[], called=called, names=[n for _, n, _ in inputs], unchanged=True, earlier=True,
             ref=[reference(load, steps, ids) for _, _, load in inputs])
    before = contents(wd, inputs)
    kw = {'on_file_complete': lambda r: called.append(row_of(r, ids))} if e['callback'] else {}
    try:
        result = batch.execute(multiprocessing=e['multi'], ignore_errors=e['ignore'], preserve_chaining_order=e['preserve'], **kw)
        df = result.get_dataframe()
        e['rows'] = [row_of(r, ids) for r in df.to_dict('records')]
        for r in e['rows']:
            # (a missing column cannot be told from a column without values in another row)
            pass
        earlier.append((df, df.copy(deep=True)))
    except Exception as x:
        e['raised'] = repr(x)[:200]
    for _ in range(100):
        # files that are still in progress after an error was raised
        e['unchanged'] = contents(wd, inputs) == before
        if e['unchanged'] or not e['raised']:
            break
        time.sleep(0.03)
    e['earlier'] = all(a.equals(b) for a, b in earlier)


def run(c):
    from surfalize.batch import Batch
    from surfalize.exceptions import BatchError
    install()
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    FAILS.clear()
    FAILS.update({(f['k'], f['what']): f['err'] for f in c['fails']})
    wd = pathlib.Path(tempfile.mkdtemp(prefix='ba_'))
    out, steps, ids, earlier = [], [], Ids(), []
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            inputs = setup(c, wd)
            # half of the inputs are given later on
            files = [x for x, _, _ in inputs]
            batch = Batch(files[:len(files) // 2]).add_files(files[len(files) // 2:])
            for st in c['prog']:
                st = dict(st)
                if st['op'] == 'exec':
                    execute(batch, st, steps, inputs, wd, ids, earlier)
                    out.append(st)
                    continue
                todo = [st] if st['op'] == 'add' else [{'op': 'add', 'kind': 'par', 'name': n, 'a': 9, 'labels': ['mean', 'std'] if n == 'depth' else [], 'custom': '', 'keys': []}
                                                       for n in st['list']]
                err = None
                try:
                    if st['op'] == 'add' and st['kind'] == 'pat':
                        batch.extract_from_filename('<' + st['name'] + '|str>')
                    elif st['op'] == 'bulk':
                        batch.roughness_parameters(st['list'])
                    elif st['kind'] == 'cop':
                        batch.custom_operation(globals()['c_' + st['name']])
                    elif st['kind'] == 'cpar':
                        batch.custom_parameter(globals()['p_' + st['name']])
                    else:
                        a, k = ARGS.get((st['name'], st['a']), ((), {}))
                        getattr(batch, st['name'])(*a, **k, **({'custom_name': st['custom']} if st['custom'] else {}))
                except Exception as x:
                    err = x
                if st['op'] == 'bulk' and err is not None:
                    break       # how many of them are registered is not stated
                for x in todo:
                    x['refused'], x['batcherror'] = err is not None, isinstance(err, BatchError)
                    out.append(x)
                    if err is None:
                        steps.append(x)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return out


def generate(pid, n, wd):
    r = lib.tlc('Batch', f'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\nCONSTANT Focus = "{pid}"\n', wd, workers=1,
                args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
    if len(r['emitted']) < 0.8 * n:
        raise lib.MachineryError('too few cases generated')
    return r['emitted']


def judge(rep, pid, cases, traces, wd):
    for i in range(0, len(traces), 3000):
        rejects, st, tr = lib.validate_traces('Batch', traces[i:i + 3000], wd, constants=f'CONSTANT Focus = "{pid}"')
        rep.add(states=st, transitions=tr)
        for j in rejects:
            t = traces[i + j['t'] - 1]
            e = t[j['l'] - 1]
            for b in j['bad']:
                if b.startswith(pid):
                    rep.violation(b, {'steps': [[s.get('kind', 'exec'), s.get('name'), s.get('a'), s.get('custom')] for s in t[:j['l']]],
                                      'event': {k: v for k, v in e.items() if k != 'ref'}, 'files': cases[i + j['t'] - 1]['files'], 'fails': cases[i + j['t'] - 1]['fails']})


def check(pid):
    rep = lib.Report(pid)
    with lib.Scratch() as wd:
        cases = generate(pid, SIZES[pid][lib.THOROUGH], wd)
        traces = lib.pool_map(run, cases, chunksize=4)
        judge(rep, pid, cases, traces, wd)
        if pid == 'B02':
            pool.check(rep, wd)
            preempt.check(rep, wd)
    ex = [e for t in traces for e in t if e['op'] == 'exec']
    rep.add(traces_validated_against_impl=len(traces), executions=len(ex), executions_raised=sum(bool(e['raised']) for e in ex),
            parallel=sum(e['multi'] for e in ex), rows=sum(len(e['rows']) for e in ex), refused_steps=sum(e.get('refused', False) for t in traces for e in t))
    rep.sample(cases[0])
    rep.assumptions = ['values are compared with direct calls on Surface (which T01 - T08 and H01 - H02 decide)']
    return rep
