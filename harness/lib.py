"""Shared infrastructure: environment, TLC runner, evidence, verdict reporting, known findings."""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
TLC_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NAN = 2000000000      # encoding of a non-measured point in integer grids
INF = 2000000001      # encoding of anything that is not representable (infinite, out of range)


class MachineryError(Exception):
    """The check itself failed; never reported as a violation."""


def scratch():
    base = os.environ.get('VERIF_SCRATCH') or None
    return pathlib.Path(tempfile.mkdtemp(prefix='vchk_', dir=base))


class Scratch:
    def __enter__(self):
        self.path = scratch()
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def parse_tlc(out):
    res = {'generated': 0, 'distinct': 0}
    for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out):
        res['generated'], res['distinct'] = int(m.group(1)), int(m.group(2))
    m = re.search(r'The number of states generated: (\d+)', out)
    if m:
        res['generated'] = max(res['generated'], int(m.group(1)))
    return res


def tlc(module, cfg, workdir, env=None, workers=4, args=(), timeout=600, ok_codes=(0,), heap='3g', modules=None):
    """
    Runs TLC on /verif/spec/<module>.tla with the configuration text cfg (or the name of a .cfg in /verif/spec).
    Returns a dict with the state counts, the lines emitted with PrintT("@@...") and the raw output.
    """
    workdir = pathlib.Path(workdir)
    run = pathlib.Path(tempfile.mkdtemp(prefix='tlc_', dir=workdir))
    for f in SPEC.glob('*.tla'):
        shutil.copy(f, run / f.name)
    for name, text in (modules or {}).items():
        (run / (name + '.tla')).write_text(text)
    if cfg.endswith('.cfg'):
        shutil.copy(SPEC / cfg, run / 'run.cfg')
    else:
        (run / 'run.cfg').write_text(cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss16m', '-Djava.io.tmpdir=' + str(run), '-cp', TLC_CP, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', str(run / 'meta'), '-config', 'run.cfg', *map(str, args), module + '.tla']
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=run, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        code, out = p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as exc:
        raise MachineryError(f'TLC timed out on {module} after {timeout} s') from exc
    res = parse_tlc(out)
    res['code'], res['out'], res['wall'] = code, out, time.time() - t0
    emitted = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            try:
                emitted.append(json.loads(json.loads(line)[2:]))
            except Exception as exc:
                raise MachineryError('unreadable TLC output line: ' + line[:300]) from exc
    res['emitted'] = emitted
    shutil.rmtree(run, ignore_errors=True)
    if ok_codes is not None and code not in ok_codes:
        tail = '\n'.join(l for l in out.splitlines() if not l.startswith(('"@@', 'Parsing file', 'Semantic proc', 'Linting of')))[-4000:]
        raise MachineryError(f'TLC exited with {code} on {module}\n{tail}')
    return res


def tlc_must_fail(module, cfg, workdir, needle, **kw):
    """Runs a deliberately broken design variant and insists that TLC refutes it (guards against vacuity)."""
    r = tlc(module, cfg, workdir, ok_codes=None, **kw)
    if r['code'] == 0 or needle not in r['out']:
        raise MachineryError(f'{module}: broken design variant was not refuted ({needle})\n' + r['out'][-3000:])
    return r


def validate_traces(module, traces, workdir, clauses_prefix=None, constants='', workers=4, chunk=None, timeout=600):
    """
    Checks recorded traces against the trace specification `module`. Every trace is a list of events. The trace
    specification consumes one event per step and emits {"t","l","bad"} for every event with a non-empty verdict.
    Insists that every event of every trace was consumed.
    Returns (rejects, states, transitions)
    """
    workdir = pathlib.Path(workdir)
    f = workdir / f'traces_{module}_{time.time_ns()}.json'
    f.write_text(json.dumps(traces))
    cfg = f'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n{constants}\n'
    left, emitted, dist, gen = list(range(len(traces))), [], 0, 0
    for attempt in range(8):
        r = tlc(module, cfg, workdir, env={'TRACE': f}, workers=workers, timeout=timeout, ok_codes=None)
        emitted += [{**e, 't': left[e['t'] - 1] + 1} for e in r['emitted']]
        dist, gen = dist + r['distinct'], gen + r['generated']
        if r['code'] == 0:
            break
        # An observation outside of the domain of the specification: its trace is set aside, the others are judged
        bad = {int(n) for n in re.findall(r'^/\\ t = (\d+)$', r['out'], re.M)}
        if not bad or len(left) <= len(bad):
            raise MachineryError(f"TLC exited with {r['code']} on {module}\n" + r['out'][-3000:])
        UNJUDGED.append(f"{module}: " + r['out'][-1500:])
        left = [k for i, k in enumerate(left) if i + 1 not in bad]
        f.write_text(json.dumps([traces[k] for k in left]))
    if r['code'] == 0 and r['distinct'] != sum(len(traces[k]) + 1 for k in left):
        raise MachineryError(f"{module}: consumed {r['distinct']} trace states of {len(left)} traces\n" + r['out'][-3000:])
    f.unlink()
    rejects, seen = [], set()
    for e in emitted:
        key = (e['t'], e['l'], tuple(sorted(e['bad'])))
        if key not in seen:
            seen.add(key)
            rejects.append(e)
    rejects.sort(key=lambda e: (e['t'], e['l']))
    return rejects, dist, gen


UNJUDGED = []        # traces with observations outside of the domain of the specification


class Report:
    """Collects the outcome of one check and turns it into evidence, messages and the exit code."""

    last = None

    def __init__(self, pid, level='model_checking'):
        Report.last = self
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.known = load_known(pid)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def sample(self, s):
        if len(self.cov['samples']) < 5:
            self.cov['samples'].append(s)

    def tlc(self, r):
        self.add(states=r['distinct'] or r['generated'], transitions=r['generated'])

    def violation(self, key, detail):
        """key identifies the finding (matched against the known findings), detail is what to print and to store."""
        for k in self.known:
            if k['key'] == key:
                self.known_hit.setdefault(key, (k, detail))
                return
        self.violations.append((key, detail))

    def finish(self):
        wall = time.time() - self.t0
        if UNJUDGED and not self.violations:
            raise MachineryError('traces that could not be judged\n' + UNJUDGED[0])
        for key, (k, _) in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        self.cov['known_findings_seen'] = len(self.known_hit)
        ev = {'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(self.violations)}
        d = VERIF / 'evidence'
        d.mkdir(exist_ok=True)
        (d / f'{self.pid}.json').write_text(json.dumps(ev, indent=1, default=str))
        if self.violations:
            rdir = VERIF / 'evidence' / 'replay'
            rdir.mkdir(exist_ok=True)
            rp = rdir / f'{self.pid}.json'
            rp.write_text(json.dumps([{'key': k, 'detail': d} for k, d in self.violations[:50]], indent=1, default=str))
            shown = set()
            for k, d in self.violations:
                if k not in shown and len(shown) < 10:
                    shown.add(k)
                    print(f'  {k}: {json.dumps(d, default=str)[:900]}')
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        print(f"OK property={self.pid} tier={TIER} wall={wall:.1f}s " +
              ' '.join(f'{k}={v}' for k, v in self.cov.items() if isinstance(v, int)))
        return 0


def load_known(pid):
    f = VERIF / 'known_findings.jsonl'
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            if line.strip():
                k = json.loads(line)
                if k.get('property') == pid and k.get('status') == 'open':
                    out.append(k)
    return out


def pool_map(func, items, procs=8, chunksize=None):
    import multiprocessing as mp
    items = list(items)
    if not items:
        return []
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(items))) as p:
        return p.map(func, items, chunksize or max(1, len(items) // (procs * 4)))
