"""B02: the threads of a batch are interrupted between any two lines of the package (Preempt.tla)."""
import contextlib
import io
import json
import pathlib
import random
import shutil
import tempfile
import threading
import time
import warnings
import zlib
import numpy as np
import lib

# programs: the form of the inputs, and the steps
PROGRAMS = [
    ('sdf', 'rough', [('level', (), {}), ('center', (), {}), ('Sa', (), {}), ('Sz', (), {}), ('Ssk', (), {}), ('Sq', (), {'custom_name': 'q'})]),
    ('sur', 'rough', [('filter', ('lowpass', 4), {}), ('Sal', (), {}), ('Sdr', (), {}), ('Str', (0.3,), {}), ('Sdq', (), {})]),
    ('sflz', 'rough', [('threshold', (5,), {}), ('fill_nonmeasured', (), {}), ('Sk', (), {}), ('Vmp', (), {'p': 15}), ('Smr', (0.4,), {}), ('Smr2', (), {})]),
    ('buffer', 'rough', [('invert', (), {}), ('custom_operation', 'op', {}), ('custom_parameter', 'par', {}), ('Sp', (), {}), ('zero', (), {}), ('Sv', (), {'custom_name': 'v'})]),
    ('al3d', 'waves', [('period', (), {}), ('depth', (), {'nprofiles': 2, 'custom_name': 'd'}), ('homogeneity', (), {}), ('orientation', ('fft',), {}), ('aspect_ratio', (), {})]),
    ('tmd', 'steps', [('stepheight_level', (), {}), ('stepheight', (), {}), ('cavity_volume', (), {}), ('remove_outliers', (), {}), ('crop', ((1, 4, 1, 4),), {}), ('Sku', (), {})]),
    ('shared', 'rough', [('Sa', (), {}), ('detrend_polynomial', (2,), {}), ('Sq', (), {})]),
]


def op(s):
    s.data = s.data * 2 + 1


def par(s):
    return {'x': float(s.data[0, 0]), 'y': float(np.mean(s.data))}


CUSTOM = {'op': op, 'par': par}


def surface(kind, f):
    from surfalize import Surface
    rng = np.random.default_rng(f)
    n, m = (6 + f, 8 + f) if kind != 'waves' else (33 + f, 41 + 2 * f)
    y, x = np.mgrid[:n, :m]
    if kind == 'rough':
        z = rng.random((n, m)) * f + 0.1 * f * x
    elif kind == 'waves':
        z = f * np.sin(2 * np.pi * x / (8 + f)) + 0.01 * rng.random((n, m))
    else:
        z = np.where(x > m // 2, 3.0 * f, 0.0) + 0.05 * rng.random((n, m)) + 0.01 * f * y
    return Surface(z, 1, 1)


def own(path_or_buffer, fmt, name, steps):
    """The row of a file, by direct calls."""
    from surfalize import Surface
    s = Surface.load(path_or_buffer, **({'format': fmt} if fmt else {}))
    row = {'file': name}
    for what, a, kw in steps:
        kw = dict(kw)
        label = kw.pop('custom_name', what)
        if what == 'custom_operation':
            CUSTOM[a](s)
        elif what == 'custom_parameter':
            row.update(CUSTOM[a](s))
        else:
            m = getattr(Surface, what)
            if m._batch_type == 'operation':
                getattr(s, what)(*a, inplace=True, **kw)
            else:
                r = getattr(s, what)(*a, **kw)
                row.update({f'{label}_{n}': v for n, v in zip(m.return_labels, r)} if isinstance(r, (tuple, list)) else {label: r})
    return row


def code(row):
    return zlib.crc32(repr(sorted((k, v if isinstance(v, str) else float(v)) for k, v in row.items())).encode()) % 1000000007


class Stops:
    """Stops threads in front of lines of the package, given by their number in the thread."""

    def __init__(self, package, stops, n, record=False, wait=0.3):
        self.wait = wait
        self.package, self.stops, self.n = package, stops, n
        self.lock, self.count, self.claimed = threading.Lock(), {}, []
        self.go = [threading.Event() for _ in stops]
        self.done, self.kept = 0, 0
        self.lines = [] if record else None

    def trace(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(self.package) else None

    def local(self, frame, event, arg):
        if event == 'line':
            me = threading.get_ident()
            c = self.count[me] = self.count.get(me, 0) + 1
            if self.lines is not None:
                self.lines.append((frame.f_code.co_filename, frame.f_lineno))
            elif len(self.claimed) < len(self.stops) and c >= self.stops[len(self.claimed)]:
                self.stop(me)
        return self.local

    def stop(self, me):
        with self.lock:
            k = len(self.claimed)
            if k >= len(self.stops) or me in self.claimed or self.count[me] < self.stops[k]:
                return
            self.claimed.append(me)
        if k == 1:
            self.go[0].set()        # the first one runs on now
        if self.go[k].wait(self.wait):
            self.kept += 1

    def complete(self):
        with self.lock:
            self.done += 1
            d = self.done
        if len(self.stops) == 2:
            # the second one runs on when the first is through; the first one does not wait for a second that cannot stop anymore
            if len(self.claimed) == 2:
                self.go[1].set()
            elif d >= self.n - 1:
                self.go[0].set()
        elif d >= self.n - 1:
            for g in self.go:
                g.set()


def inputs(k, wd, n):
    """n inputs of program k and their own rows"""
    from surfalize.batch import FileInput
    form, kind, steps = PROGRAMS[k]
    fs, rows = [], []
    for f in range(1, n + 1):
        s = surface(kind, f)
        if form in ('buffer', 'shared'):
            b = fs[0].data if form == 'shared' and fs else io.BytesIO()
            if not (form == 'shared' and fs):
                s.save(b, format='.sur')
                b.seek(0)
            fs.append(FileInput(f'f{f}', b, '.sur'))
            rows.append(own(io.BytesIO(b.getvalue()), '.sur', f'f{f}', steps))
        else:
            p = wd / f'f{f}.{form}'
            s.save(p)
            fs.append(p)
            rows.append(own(p, None, p.name, steps))
    return fs, rows


def execute(k, stops, n, record=False, wait=0.3):
    import surfalize
    from surfalize.batch import Batch
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    package = str(pathlib.Path(surfalize.__file__).parent)
    wd = pathlib.Path(tempfile.mkdtemp(prefix='pr_'))
    e = {'err': '', 'rows': [], 'calls': [], 'own': []}
    try:
        try:
            fs, rows = inputs(k, wd, n)
        except Exception:
            return None         # a direct call that fails is not a matter of threads
        e['own'] = [code(r) for r in rows]
        batch = Batch(fs)
        for what, a, kw in PROGRAMS[k][2]:
            getattr(batch, what)(*((CUSTOM[a],) if isinstance(a, str) else a), **kw)
        w = Stops(package, stops, n, record, wait)

        def complete(r):
            e['calls'].append(code(r))
            w.complete()
        threading.settrace(w.trace)
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                df = batch.execute(multiprocessing=True, on_file_complete=complete).get_dataframe()
        finally:
            threading.settrace(None)
        e['rows'] = [code(r) for r in df.to_dict('records')]
        if record:
            return w.lines
        e['kept'], e['stopped'] = w.kept, len(w.claimed)
    except Exception as x:
        if record:
            raise
        e['err'] = repr(x)[:300]
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return e


def record(k):
    ids = {}
    return [ids.setdefault(x, len(ids) + 1) for x in execute(k, [], 1, True) or []]


def run(c):
    return execute(*c[:3], wait=c[3])


def check(rep, wd):
    cfg = 'SPECIFICATION {}\n{}CHECK_DEADLOCK FALSE\nCONSTANTS N = {}\nK = {}\nNRandom = {}\nNPairs = {}\n'
    for n, k in ((6, 2), (5, 3)) if not lib.THOROUGH else ((8, 2), (7, 3), (5, 4)):
        rep.tlc(lib.tlc('Preempt', cfg.format('DesignSpec', 'INVARIANTS NoFalseAlarm OneStopReveals LazyReveals NeedsAll\n', n, k, 1, 1), wd))
    try:
        lines = lib.pool_map(record, range(len(PROGRAMS)), chunksize=1)
    except Exception as x:
        rep.violation('B02:single_file_raised', {'error': repr(x)[:300]})
        return
    if any(len(s) == 0 for s in lines):
        # An implementation without threads of its own cannot be interrupted
        rep.add(programs_without_threads=sum(len(s) == 0 for s in lines))
    f = wd / 'lines.json'
    f.write_text(json.dumps([s or [1] for s in lines]))
    nr, np_ = (400, 300) if lib.THOROUGH else (12, 8)
    r = lib.tlc('Preempt', cfg.format('GenSpec', '', 1, 1, nr, np_), wd, env={'LINES': f}, args=('-seed', lib.SEED, '-fp', 1))
    rep.tlc(r)
    jobs, rnd = [], random.Random(lib.SEED)
    for e in {e['t']: e for e in r['emitted']}.values():
        k = e['t'] - 1
        # the time of an execution grows with its lines, a long one gets fewer of the plans
        cost = 0.04 + 3e-5 * len(lines[k])
        plans = [[i] for i in e['one']] + e['two']
        budget = int((1500 if lib.THOROUGH else 45) / cost)
        if len(plans) > budget:
            plans = rnd.sample(plans, budget)
        jobs += [(k, p, 2 if p[0] % 3 and len(p) == 1 else 3, 0.1 + 3 * cost) for p in plans if lines[k]]
    rnd.shuffle(jobs)
    done = [(c, e) for c, e in zip(jobs, lib.pool_map(run, jobs, chunksize=4)) if e]
    jobs, traces = [c for c, _ in done], [e for _, e in done]
    rejects, st, tr = lib.validate_traces('Preempt', [[{x: e[x] for x in ('err', 'rows', 'calls', 'own')}] for e in traces], wd,
                                          constants='CONSTANTS N = 1\nK = 1\nNRandom = 1\nNPairs = 1')
    for j in rejects:
        for b in j['bad']:
            c = jobs[j['t'] - 1]
            rep.violation(b, {'program': PROGRAMS[c[0]], 'stops': c[1], 'files': c[2], 'observed': traces[j['t'] - 1]})
    rep.add(states=st, transitions=tr, interruptions=len(jobs), interruptions_kept=sum(bool(e.get('kept')) for e in traces), lines=sum(map(len, lines)),
            distinct_lines=sum(len(set(s)) for s in lines))
