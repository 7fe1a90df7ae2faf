"""C01: calls of the command line from CommandLine.tla, run in process on scratch files."""
import functools
import io
import pathlib
import re
import shutil
import tempfile
import warnings
import zlib
import numpy as np
import lib
from roundtrip import state

TINY = []


def surface(n, lower, layers=True):
    from surfalize import Surface
    from surfalize.image import Image
    y, x = np.mgrid[:36, :40]
    rng = np.random.default_rng(n)
    z = n * np.sin(2 * np.pi * x / (6 + n % 3)) + 0.05 * n * y + 0.2 * rng.normal(size=x.shape)
    if n % 3 == 0 and lower not in ('.sflz',):
        z[3, 4] = z[20:22, 30] = np.nan
    z[7, 8] += 9
    s = Surface(z, 0.5, 0.5)
    if lower == '.sflz':
        s.image_layers['Grayscale'] = Image((np.arange(36 * 40) % (200 + n)).astype(np.uint8).reshape(36, 40))
    return s


@functools.cache
def install():
    """The plots are replaced by records of what is plotted."""
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.pyplot as plt
    from PIL import Image
    from surfalize import Surface
    import surfalize.plotting as pl
    plotted = []

    class Picture:
        def save(self, b, format=None, **k):
            Image.new('RGB', (4, 4)).save(b, format or 'PNG')
    Surface.plot_2d = lambda self, *a, **k: plotted.append(np.array(self.data)) or (None, None)
    Surface.plot_3d = lambda self, *a, **k: plotted.append(np.array(self.data)) or Picture()
    pl.plot_3d = lambda s, *a, **k: plotted.append(np.array(s.data)) or Picture()
    plt.savefig = lambda b, **k: Image.new('RGB', (4, 4)).save(b, 'png')
    plt.show = lambda *a, **k: None
    return plotted


def world(c, wd):
    d = wd / 'in'
    d.mkdir()
    for i, x in enumerate(c['entries']):
        p = d / (x['stem'] + x['suffix'])
        if x['kind'] == 'dir':
            p.mkdir()
        elif x['lower'] in ('.txt', '.bak'):
            p.write_bytes(b'no topography')
        else:
            b = io.BytesIO()
            surface(i + 1, x['lower']).save(b, format=x['lower'])
            v = b.getvalue()
            p.write_bytes(v if x['kind'] == 'file' else v[:40])
    return d


def tree(wd):
    return {str(p.relative_to(wd)): p.read_bytes() for p in sorted(wd.rglob('*')) if p.is_file()}


def call(args):
    from click.testing import CliRunner
    import surfalize.cli as cli
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = CliRunner().invoke(cli.cli, args)
    return r.exit_code, r.output, r.exception


def meaning(content):
    from surfalize import Surface
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = Surface.load(io.BytesIO(content), format=None if False else '.sur', read_image_layers=True)
    # metadata hold the second of saving
    return state(s)[:-2], {k: np.asarray(v.data).tobytes() for k, v in s.image_layers.items()}


def direct(path, fmt, c):
    from surfalize import Surface
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = Surface.load(path, read_image_layers=not c['skip'])
        b = io.BytesIO()
        s.save(b, format=fmt, **({'compressed': c['compressed']} if fmt == '.sur' else {}))
    return b.getvalue()


def run_convert(c, wd, bad):
    d = world(c, wd)
    inputs = tree(wd)
    args = ['convert']
    if c['input'] == 'file':
        source = d / (c['entries'][0]['stem'] + c['entries'][0]['suffix'])
        o = {'other': wd, 'nested': d, 'same': d}[c['place']] / ('result' + c['outsuffix'])
        if c['existing']:
            o.write_bytes(b'previous')
            inputs = tree(wd)
    else:
        source = d
        o = {'other': wd / 'out', 'nested': wd / 'out' / 'deep', 'same': d}[c['place']]
        if c['existing']:
            o.mkdir(parents=True, exist_ok=True)
            (o / 'kept.md').write_bytes(b'notes')
            inputs = tree(wd)
    args += [str(source), str(o)] + (['--format', c['format']] if c['format'] else []) + ['--skip-image-layers'] * c['skip'] + ['--compressed'] * c['compressed']
    code, text, exc = call(args)
    after = tree(wd)
    info = {'args': [a.replace(str(wd), '') for a in args], 'entries': [[x['stem'] + x['suffix'], x['kind']] for x in c['entries']], 'code': code, 'output': text.replace(str(wd), '')[-300:], 'error': repr(exc)}
    result = str(o.relative_to(wd)) if c['input'] == 'file' else None
    changed = [k for k, v in inputs.items() if k != result and after.get(k) != v]
    if changed:
        bad.append(('C01:inputs_changed', {**info, 'changed': changed}))
    new = {k: v for k, v in after.items() if k not in inputs or k == result and v != inputs[k]}
    if c['ambiguous']:
        return info
    if c['refused']:
        if new:
            bad.append(('C01:refused_call_wrote_files', {**info, 'new': sorted(new)}))
        if not text.strip() and code == 0:
            bad.append(('C01:refused_silently', info))
        return info
    for f in c['failures']:
        if code == 0 and f not in text:
            bad.append(('C01:failure_not_reported', info))
    if code and not c['failures']:
        bad.append(('C01:failed', info))
    want = []
    for p in c['plan']:
        content = direct(d / p['input'], c['target'], c)
        name = result if c['input'] == 'file' else str(o.relative_to(wd) / p['name']) if p['name'] else None
        want.append((p['input'], name, content))
    rest = dict(new)
    if c['input'] == 'file' and not c['outsuffix'] and result not in rest and result + c['target'] in rest:
        # an output without suffix may get the one of its format
        rest[result] = rest.pop(result + c['target'])
    if c['input'] == 'file' and c['failures']:
        return info
    for source, name, content in sorted(want, key=lambda w: w[1] is None):
        if name is None:
            name = next((k for k, v in sorted(rest.items()) if same(v, content)), None)
            if name is not None and (not name.endswith(c['target']) or pathlib.Path(name).parent != o.relative_to(wd)):
                bad.append(('C01:name_of_output', {**info, 'name': name}))
        if name not in rest:
            bad.append(('C01:output_missing', {**info, 'input': source, 'new': sorted(new)}))
            continue
        if not same(rest[name], content):
            bad.append(('C01:output_differs', {**info, 'input': source, 'name': name}))
        del rest[name]
    if rest:
        bad.append(('C01:unexpected_output', {**info, 'unexpected': sorted(rest)}))
    return info


def same(a, b):
    """The same format and the same meaning (headers may contain dates)."""
    if a[:12] != b[:12]:
        return False
    try:
        return meaning(a) == meaning(b)
    except Exception:
        return False


LETTER = {'level': '-l', 'fill': '-fn', 'center': '-c', 'zero': '-z'}
LONG = {'level': '--level', 'fill': '--fill-nonmeasured', 'center': '--center', 'zero': '--zero'}


def processed(path, c):
    from surfalize import Surface
    s = Surface.load(path)
    for o in c['operations']:
        a = [float(x) for x in o['a']]
        if o['m'] in ('highpass', 'lowpass'):
            s = s.filter(o['m'], a[0])
        elif o['m'] == 'bandpass':
            s = s.filter('bandpass', a[0], a[1])
        elif o['m'] == 'threshold':
            s = s.threshold(tuple(a))
        elif o['m'] == 'remove_outliers':
            s = s.remove_outliers(n=int(a[0]))
        else:
            s = getattr(s, o['m'])()
    return s


def texts(pdf):
    out = b''
    for m in re.finditer(rb'(?<!end)stream\r?\n', pdf):
        try:
            out += zlib.decompressobj().decompress(pdf[m.end():])
        except zlib.error:
            pass
    return [t.decode('latin-1').replace('\\(', '(').replace('\\)', ')').replace('\\\\', '\\') for t in re.findall(rb'\(((?:[^()\\]|\\.)*)\) Tj', out)]


ISO = ['Sa', 'Sq', 'Sv', 'Sp', 'Sz', 'Sk', 'Spk', 'Svk']


def run_process(c, wd, bad):
    plotted = install()
    plotted.clear()
    d = world(c, wd)
    source = d / (c['entries'][0]['stem'] + c['entries'][0]['suffix']) if c['input'] == 'file' else d
    o = c['options']
    names = LETTER if len(c['entries']) % 2 else LONG
    args = [c['command'], str(source)] + [names[k] for k in LETTER if o[k]]
    for k, short in (('highpass', '-hp'), ('lowpass', '-lp'), ('bandpass', '-bp'), ('threshold', '-t'), ('outliers', '-ro')):
        if o[k]:
            args += [short] + (o[k] if isinstance(o[k], list) else [o[k]])
    if c['command'] == 'report' and c['periodic']:
        args.append('-pp')
    if c['command'] == 'show':
        args.append('--plot-3d')
    before = tree(wd)
    code, text, exc = call(args)
    after = tree(wd)
    info = {'args': [a.replace(str(wd), '') for a in args], 'entries': [[x['stem'] + x['suffix'], x['kind']] for x in c['entries']], 'code': code, 'output': text.replace(str(wd), '')[-300:], 'error': repr(exc)}
    if any(after.get(k) != v for k, v in before.items()):
        bad.append(('C01:inputs_changed', info))
    new = {k: v for k, v in after.items() if k not in before}
    if c['refused']:
        if new or plotted or code == 0:
            bad.append(('C01:conflicting_options_accepted', info))
        return info
    expected, failing = {}, []
    for p in c['plan']:
        try:
            if not p['ok']:
                raise ValueError('corrupt')
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                s = processed(d / p['input'], c)
                values = {}
                if c['command'] == 'report':
                    r = s.roughness_parameters()
                    values = {k: r[k] for k in ISO}
                    if c['periodic']:
                        values.update({'Period': s.period(), 'Depth': s.depth()[0], 'Aspect ratio': s.aspect_ratio(), 'Homogeneity': s.homogeneity()})
            expected[p['input']] = (np.array(s.data), values)
        except Exception as e:
            failing.append((p['input'], repr(e)))
    info['failing'] = failing
    for f, _ in failing:
        if code == 0 and f not in text:
            bad.append(('C01:failure_not_reported', info))
    if code and not failing:
        bad.append(('C01:failed', info))
        return info
    for f, (data, values) in expected.items():
        if not any(x.shape == data.shape and np.allclose(x, data, rtol=1e-9, atol=1e-9, equal_nan=True) for x in plotted):
            bad.append(('C01:operations', {**info, 'input': f, 'operations': c['operations']}))
    if c['command'] == 'show':
        if new:
            bad.append(('C01:unexpected_output', {**info, 'unexpected': sorted(new)}))
        return info
    reports = {f'in/{f}.pdf': f for f in expected}
    for k, f in reports.items():
        if k not in new:
            bad.append(('C01:output_missing', {**info, 'input': f, 'new': sorted(new)}))
            continue
        t = texts(new[k])
        if not any('REPORT' in x and f in x for x in t):
            bad.append(('C01:report_of_another_file', {**info, 'text': t[:3]}))
        for name, v in expected[f][1].items():
            words = name.split()
            at = [i for i in range(len(t)) if t[i] == name or t[i:i + len(words)] == words or (t[i] + t[min(i + 1, len(t) - 1)]) == name]
            near = [x for i in at for x in t[i + 1:i + 3]]
            if not any(number(x) is not None and abs(number(x) - v) <= 0.0006 + 1e-6 * abs(v) or v != v and x == 'nan' for x in near):
                bad.append(('C01:reported_value', {**info, 'input': f, 'parameter': name, 'value': v, 'text': t}))
    extra = [k for k in new if k not in reports and k not in {f'in/{f}.pdf' for f, _ in failing}]
    if extra:
        bad.append(('C01:unexpected_output', {**info, 'unexpected': extra}))
    return info


def number(x):
    try:
        return float(x)
    except ValueError:
        return None


def run(c):
    bad = []
    wd = pathlib.Path(tempfile.mkdtemp(prefix='cl_'))
    np.seterr(all='ignore')
    try:
        install()
        info = (run_convert if c['command'] == 'convert' else run_process)(c, wd, bad)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return bad, info


def check(pid):
    rep = lib.Report(pid)
    n = 12000 if lib.THOROUGH else 1500
    with lib.Scratch() as wd:
        cfg = 'SPECIFICATION DSpec\nINVARIANTS NoOutputIsLost NoInputIsReplaced\nCHECK_DEADLOCK FALSE\nCONSTANT Design = '
        rep.tlc(lib.tlc('CommandLine', cfg + '"names"\n', wd))
        lib.tlc_must_fail('CommandLine', cfg + '"stem"\n', wd, 'is violated')
        r = lib.tlc('CommandLine', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\nCONSTANT Design = ""\n', wd, workers=1, args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
        rep.tlc(r)
        cases = r['emitted']
        results = lib.pool_map(run, cases, chunksize=10)
        for c, (bad, info) in zip(cases, results):
            for key, d in bad:
                rep.violation(key, d)
    done = [(c, i) for c, (b, i) in zip(cases, results) if i['code'] == 0 and not c['refused']]
    rep.add(traces_validated_against_impl=len(cases), calls_that_succeeded=len(done), convert=sum(c['command'] == 'convert' for c in cases),
            outputs=sum(len(c['plan']) for c, _ in done if c['command'] == 'convert'), reports=sum(len(c['plan']) for c, _ in done if c['command'] == 'report'),
            shown=sum(c['command'] == 'show' for c, _ in done), refused=sum(c['refused'] for c in cases))
    if len(cases) < n / 4 or min(rep.cov[k] for k in ('outputs', 'reports', 'shown', 'refused')) < 10:
        raise lib.MachineryError('the calls do not cover what they should')
    rep.sample(cases[0])
    rep.assumptions = ['plots are replaced by records of the topography that is plotted', 'operations are compared with direct calls on Surface']
    return rep
