"""F08: archives of measurements from Archive.tla, extracted by the implementation and judged by the trace specification."""
import os
import pathlib
import random
import tempfile
import zipfile
from xml.sax.saxutils import escape
import lib

SIZES = (800, 12000)
NAMES = ['sample 1.vk4', 'sample 1_1.vk4', 'b.vk6', 'R&D.vk4', 'Prüfling µ.vk4', "x'y (2).vk7", 'name.with.dots.vk4', 'no_suffix', 'B.vk6x', 'sample 1.vk4.vk4']
PLACES = {'win': 'C:\\Data\\{}\\', 'unix': '/data/{}/', 'bare': ''}


def contents(c):
    rng = random.Random(str(c))
    return [m['kind'].encode() + b'_%d_' % i + rng.randbytes(m['size']) for i, m in enumerate(c['ms'])]


def build(c, path):
    """Writes the archive, returns the contents of the measurements."""
    rng = random.Random(str(c) + 'x')
    data = contents(c)
    root = ''.join(f'part{i}/' for i in range(c['depth']))
    ids = [f'{rng.randrange(16 ** 8):08x}-{i}' for i in range(len(data))]
    lines = ['<?xml version="1.0" encoding="utf-8"?>', '<Index>']
    extra = [(f'none{i}', f'C:\\Data\\lost{i}.vk4') for i in range(c['extra'])]
    files = [(ids[i], PLACES[m['place']].format(i) + NAMES[m['name'] - 1], m['order']) for i, m in enumerate(c['ms'])]
    for i, name, _ in sorted(files, key=lambda f: f[2]) + [(*e, 0) for e in extra]:
        lines += ['  <File>', f'    <Path>{i}</Path>', f'    <OriginalFileName>{escape(name)}</OriginalFileName>', '  </File>']
    lines += ['</Index>']
    entries = [(f'{root}{i}/{"data" if c["text"] else "file.bin"}', d) for i, d in zip(ids, data)]
    other = {'image': b'\x89PNG\r\n\x1a\n' + bytes(50), 'text': b'comment VK4', 'empty': b'', 'short': b'VK', 'vk_inside': b' VK4_' + bytes(20)}
    for k, o in enumerate(c['others']):
        entries.append((f'{root}{ids[k % len(ids)] if ids else "misc"}/other{k}', other[o]))
    rng.shuffle(entries)
    index = (f'{root}index.xml', c['lines'].join(lines).encode('utf-8'))
    entries.insert(rng.randrange(len(entries) + 1), index)
    with zipfile.ZipFile(path, 'w', zipfile.ZIP_STORED if c['stored'] else zipfile.ZIP_DEFLATED) as z:
        if c['folders']:
            for folder in sorted({n.rpartition('/')[0] + '/' for n, _ in entries} - {'/'}):
                z.mkdir(folder)
        for n, d in entries:
            z.writestr(n, d)
    return data


def tree(top):
    return {str(p.relative_to(top)): p.read_bytes() for p in top.rglob('*') if p.is_file()}


def run(c):
    import warnings
    warnings.simplefilter('ignore')
    from surfalize.file.cag import extract_cag
    e = {'ms': [{'name': m['name']} for m in c['ms']], 'out': [], 'err': '', 'foreign': True, 'outside': False, 'archive': True}
    with tempfile.TemporaryDirectory(dir=os.environ.get('VERIF_SCRATCH', '/tmp')) as top:
        top = pathlib.Path(top)
        (top / 'in').mkdir()
        path = top / 'in' / 'archive.cag'
        data = build(c, path)
        target = top / 'in' if c['target'] == 'default' else top / 'out'
        if c['target'] != 'new':
            target.mkdir(exist_ok=True)
        if c['foreign'] and c['target'] != 'new':
            (target / 'foreign.txt').write_text('mine')
        before = tree(top)
        try:
            args = (str(path) if c['text'] else path,) + (() if c['target'] == 'default' else (str(target) if c['text'] else target,))
            extract_cag(*args)
        except Exception as x:
            e['err'] = repr(x)[:200]
        after = tree(top)
        e['archive'] = after.get('in/archive.cag') == before['in/archive.cag']
        e['foreign'] = all(after.get(n) == d for n, d in before.items())
        for n, d in sorted(after.items()):
            if n in before:
                continue
            folder, _, name = n.rpartition('/')
            if folder != target.name:
                e['outside'] = True
            m = data.index(d) + 1 if d in data else 0
            e['out'].append({'m': m, 'exact': bool(m) and name == NAMES[c['ms'][m - 1]['name'] - 1]})
    return [e]


def check(pid):
    rep = lib.Report(pid)
    n = SIZES[1] if lib.THOROUGH else SIZES[0]
    const = 'CONSTANT Design = "{}"\n'
    invariants = 'INVARIANT NothingLost\nINVARIANT NothingElse\nINVARIANT OwnName\nINVARIANT SomeName\n'
    with lib.Scratch() as wd:
        rep.tlc(lib.tlc('Archive', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + const.format('reserved') + invariants, wd))
        lib.tlc_must_fail('Archive', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + const.format('naive') + invariants, wd, 'NothingLost')
        lib.tlc_must_fail('Archive', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + const.format('numbered') + invariants, wd, 'OwnName')
        r = lib.tlc('Archive', 'SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\n' + const.format('reserved'), wd, workers=1, env={'NN': len(NAMES)},
                    args=('-simulate', f'num={n}', '-depth', 3, '-seed', lib.SEED))
        rep.tlc(r)
        cases = r['emitted']
        if len(cases) < n:
            raise lib.MachineryError('too few cases generated')
        os.environ['VERIF_SCRATCH'] = str(wd)
        traces = lib.pool_map(run, cases)
        rejects, dist, gen = lib.validate_traces('Archive', traces, wd, constants=const.format('reserved'), workers=8)
    rep.add(states=dist, transitions=gen, traces_validated_against_impl=len(traces), measurements=sum(len(c['ms']) for c in cases),
            equal_names=sum(len({m['name'] for m in c['ms']}) < len(c['ms']) for c in cases), refuted_designs=2)
    for rj in rejects:
        rep.violation('+'.join(sorted(rj['bad'])), {'event': traces[rj['t'] - 1][0], 'case': cases[rj['t'] - 1]})
    rep.sample(cases[0])
    rep.sample(traces[-1][0])
    rep.assumptions = ['the index is a file of the folder that holds the folders of the measurements, with one statement in each line, encoded in UTF-8']
    return rep
