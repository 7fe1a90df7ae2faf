"""The execution of a batch (BatchPool.tla): the design, its refuted variants, and all schedules replayed on the implementation."""
import contextlib
import io
import pathlib
import shutil
import tempfile
import threading
import warnings
import numpy as np
import lib

CFG = 'SPECIFICATION Spec\nINVARIANTS RowsAreOwn CallsAreOwn Complete\n{props}CHECK_DEADLOCK FALSE\nCONSTANTS\nNFiles = {n}\nNWorkers = {w}\nSteps <- StepsV\nShared <- SharedV\nBugs <- BugsV\nRecord = {rec}\n'


def model(n, w, steps, shared=(), bugs=(), rec=False, live=False):
    q = ', '.join(f'"{s}"' for s in steps)
    m = ('---- MODULE BatchPoolRun ----\nEXTENDS BatchPool\nStepsV == <<' + q + '>>\nSharedV == {' + ', '.join(map(str, shared)) + '}\nBugsV == {'
         + ', '.join(f'"{b}"' for b in bugs) + '}\n====\n')
    return m, CFG.format(n=n, w=w, rec='TRUE' if rec else 'FALSE', props='PROPERTY Terminates\n' if live else '')


STEPS = ['op', 'call', 'keep', 'op', 'call']


def design(rep, wd):
    big = lib.THOROUGH
    for n, w, steps, shared, live in ((3, 2, STEPS, (), True), (3, 3, STEPS[:4], (1, 3), True), (4 if big else 3, 3, STEPS, (1, 2), False), (5 if big else 4, 2, STEPS[:3], (2, 3), False)):
        m, cfg = model(n, w, steps, shared, live=live)
        rep.tlc(lib.tlc('BatchPoolRun', cfg, wd, modules={'BatchPoolRun': m}, workers=8, timeout=900))
    for bug, shared, inv in (('nolock', (1, 2), 'RowsAreOwn'), ('sharedsurface', (), 'RowsAreOwn'), ('stepstate', (), 'RowsAreOwn'), ('byname', (), 'Complete'), ('lastrow', (), 'CallsAreOwn')):
        m, cfg = model(3, 2, STEPS, shared, (bug,))
        lib.tlc_must_fail('BatchPoolRun', cfg, wd, f'Invariant {inv} is violated', modules={'BatchPoolRun': m})
        rep.add(refuted_designs=1)


class Gates:
    """Lets the events of the files happen in a given order; gives up the order if it cannot be had."""

    def __init__(self, order):
        self.order, self.at, self.holder, self.free = order, 0, None, False
        self.cond = threading.Condition()

    def leave(self, f):
        with self.cond:
            if self.holder == f:
                self.holder = None
                self.cond.notify_all()

    def enter(self, f):
        with self.cond:
            if self.holder == f:
                self.holder = None
                self.cond.notify_all()
            if not self.cond.wait_for(lambda: self.free or (self.holder is None and self.at < len(self.order) and self.order[self.at] == f), 1.0):
                self.free = True
                self.cond.notify_all()
            self.at += 1
            self.holder = f


FILE = {}
MISSED = [0]         # an implementation that does not work in parallel cannot be scheduled


def replay(c):
    """Runs one schedule; returns the rows, the calls and whether the schedule was kept."""
    from surfalize import Surface
    from surfalize.batch import Batch
    warnings.simplefilter('ignore')
    n = c['n']
    g = Gates(c['order'])
    names = {f: f'f{n - 1 if f == n and n > 1 else f}' for f in range(1, n + 1)}
    if not FILE:
        for f in range(1, 6):
            # the mean is 10 f, the file is known by its number of columns
            FILE[f] = Surface(10.0 * f + np.array([[-1.0, 1.0] * (f + 1)] * 2), 1, 1)
    who = lambda s: s.size.x // 2 - 1
    last = c['count']

    def gated(fn, i):
        def step(s):
            f = who(s)
            g.enter(f)
            r = fn(s)
            if i == last:
                g.leave(f)
            return r
        return step

    def op(s):
        s.data = s.data * 2 + 1
    wd = pathlib.Path(tempfile.mkdtemp(prefix='bp_'))
    paths = []
    for f in range(1, n + 1):
        (wd / str(f)).mkdir()
        paths.append(wd / str(f) / (names[f] + '.sdf'))
        FILE[f].save(paths[-1])
    batch = Batch(paths)

    def load(cls, path, *a, **kw):
        g.enter(int(pathlib.Path(path).parent.name))
        return old_load(path, *a, **kw)
    old, old_load, raw = Surface.Sku, Surface.load, Surface.__dict__['load']
    i, k = 1, 0
    for s in c['steps']:
        i += 1
        if s == 'op':
            batch.custom_operation(gated(lambda s: op(s), i))
        elif s == 'call':
            k += 1
            if c['steps'][i - 1:i] == ['keep']:
                # a parameter of the class: the gates are at its call and at its return
                def f(self, *a, _i=i, **kw):
                    r = [None]
                    gated(lambda s: r.__setitem__(0, float(np.mean(s.data))), _i)(self)
                    gated(lambda s: None, _i + 1)(self)
                    return r[0]
                Surface.Sku = f
                batch.Sku(custom_name=f'p{k}')
            else:
                batch.custom_parameter(gated(lambda s, k=k: {f'p{k}': float(np.mean(s.data))}, i))
    calls = []
    out = {'raised': '', 'rows': [], 'calls': [], 'kept': True}
    key = lambda r: [int(r['file'][1])] + [round(float(r[f'p{j + 1}']), 6) for j in range(k)]
    if MISSED[0] >= 5:
        g.free = True
    else:
        Surface.load = classmethod(load)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            df = batch.execute(multiprocessing=True, on_file_complete=lambda r: calls.append(key(r))).get_dataframe()
        out['rows'] = [key(r) for r in df.to_dict('records')]
        out['calls'] = calls
    except Exception as e:
        out['raised'] = repr(e)[:200]
    finally:
        Surface.Sku, Surface.load = old, raw
        shutil.rmtree(wd, ignore_errors=True)
    out['kept'] = not g.free
    MISSED[0] = 0 if out['kept'] else MISSED[0] + 1
    return out


def schedules(wd, n, steps):
    m, cfg = model(n, n, steps, rec=True)
    r = lib.tlc('BatchPoolRun', cfg, wd, modules={'BatchPoolRun': m}, workers=8, timeout=900)
    seen = {}
    for e in r['emitted']:
        seen.setdefault(tuple(e['order']), e)
    return r, [{'n': n, 'steps': steps, 'count': len(steps) + 1, 'order': list(k), 'rows': sorted([x['file']] + x['v'] for x in e['rows'])} for k, e in sorted(seen.items())]


def check(rep, wd):
    design(rep, wd)
    import random
    rnd = random.Random(lib.SEED)
    kept = total = 0
    for n, steps, size in ((2, ['op', 'call', 'keep', 'op'], None), (3, ['call', 'op'], None) if lib.THOROUGH else (3, ['call', 'op'], 400), (2, STEPS, None if lib.THOROUGH else 250)):
        r, cases = schedules(wd, n, steps)
        rep.tlc(r)
        if size and len(cases) > size:
            cases = rnd.sample(cases, size)
        # the steps of the implementation are gated in one process at a time
        for c, o in zip(cases, lib.pool_map(replay, cases, chunksize=10)):
            total += 1
            kept += o['kept']
            if o['raised'] or sorted(o['rows']) != c['rows']:
                rep.violation('B02:schedule', {'schedule': c['order'], 'steps': steps, 'expected': c['rows'], 'got': o})
            elif sorted(o['calls']) != c['rows']:
                rep.violation('B02:schedule_callback', {'schedule': c['order'], 'steps': steps, 'expected': c['rows'], 'got': o})
    rep.add(schedules_replayed=total, schedules_kept=kept)
