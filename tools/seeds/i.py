B = '''
import io, os, tempfile, warnings
import numpy as np
warnings.simplefilter('ignore')
from surfalize import Surface, Profile, Batch
from surfalize.exceptions import CalculationError
d = tempfile.mkdtemp()
'''
C = '''
import pathlib, tempfile, zipfile
from surfalize.file.cag import extract_cag
def check(measurements, others=()):
    """measurements: (id, path, content); others: (name, content)"""
    with tempfile.TemporaryDirectory() as d:
        d = pathlib.Path(d)
        lines = ['<Index>'] + [f'<File>\\n<Path>{i}</Path>\\n<OriginalFileName>{p}</OriginalFileName>\\n</File>' for i, p, _ in measurements] + ['</Index>']
        with zipfile.ZipFile(d / 'a.cag', 'w') as z:
            for n, c in others:
                z.writestr(n, c)
            z.writestr('index.xml', '\\n'.join(lines))
            for i, _, c in measurements:
                z.writestr(f'{i}/file', c)
        extract_cag(d / 'a.cag', d / 'out')
        found = {p.name: p.read_bytes() for p in (d / 'out').iterdir()}
    return found
'''
SEEDS = [
 {'id': 'archive_names_once', 'property': 'F08',
  'edits': [('surfalize/file/cag.py', "    file_paths = re.findall(r'<OriginalFileName>(.+)</OriginalFileName>', idx_table_str)", "    file_paths = re.findall(r'<OriginalFileName>(.+)</OriginalFileName>', idx_table_str)\n    file_paths = list(dict.fromkeys(file_paths)) + file_paths[len(set(file_paths)):]")],
  'demo': C + '''
ms = [('1', 'a.vk4', b'VK4_1'), ('2', 'a.vk4', b'VK4_2'), ('3', 'b.vk4', b'VK4_3')]
found = check(ms)
assert found['b.vk4'] == b'VK4_3', found
assert sorted(found.values()) == [b'VK4_1', b'VK4_2', b'VK4_3'], found
assert check([('1', 'a.vk4', b'VK4_1'), ('3', 'b.vk4', b'VK4_3')]) == {'a.vk4': b'VK4_1', 'b.vk4': b'VK4_3'}
''', 'needs': 'an archive with two measurements of the same path before one of another path', 'breaks': 'the later measurements have the wrong names'},
 {'id': 'archive_magic_in_full', 'property': 'F08',
  'edits': [('surfalize/file/cag.py', "                if magic[:3] not in [b'VK3', b'VK4', b'VK6', b'VK7']:", "                if magic[:3] not in [b'VK3', b'VK4', b'VK6', b'VK7'] or file_name.file_size < len(magic) + 3:")],
  'demo': C + '''
assert check([('1', 'a.vk4', b'VK4_1'), ('3', 'b.vk4', b'VK4_33333333')]) == {'a.vk4': b'VK4_1', 'b.vk4': b'VK4_33333333'}
''', 'needs': 'a measurement of less than eight bytes', 'breaks': 'it is not extracted'},
 {'id': 'archive_index_of_lines', 'property': 'F08',
  'edits': [('surfalize/file/cag.py', "    file_ids = re.findall(r'<Path>(.+)</Path>', idx_table_str)", "    file_ids = sorted(re.findall(r'<Path>(.+)</Path>', idx_table_str), key=lambda file_id: file_id.rpartition('-')[0])")],
  'demo': C + '''
assert check([('2-a', 'a.vk4', b'VK4_1'), ('1-a', 'b.vk4', b'VK4_2')]) == {'a.vk4': b'VK4_1', 'b.vk4': b'VK4_2'}
''', 'needs': 'an index that is not in the order of its identifiers', 'breaks': 'the names of the measurements are exchanged'},
 {'id': 'study_level_of_dales', 'property': 'D01',
  'edits': [('surfalize/abbottfirestone.py', "ax.axhline(self._ylower - self.vk(), c='k', lw=1)", "ax.axhline(max(self._ylower - self.vk(), self._height.min()), c='k', lw=1)")],
  'demo': B + """
import matplotlib; matplotlib.use('Agg')
z = np.random.default_rng(2).normal(0, 1, (50, 40))
z[:6] = -3 + np.arange(240).reshape(6, 40) / 1e6
for missing in (0, 1):
    s = Surface(z + missing, 1, 1)
    fig, ax = s.plot_functional_parameter_study()
    ylower = s.data.min() + s.Svkx()
    levels = [l.get_ydata()[0] for l in ax.lines if len(l.get_ydata()) == 2 and l.get_ydata()[0] == l.get_ydata()[1]]
    assert any(abs(y - (ylower - s.Svk())) < 1e-9 for y in levels), (levels, ylower - s.Svk())
""", 'needs': 'heights whose reduced dales are deeper than the deepest point', 'breaks': 'the line of the dales is not where the triangle ends'},
 {'id': 'curve_in_given_axes', 'property': 'D01',
  'edits': [('surfalize/abbottfirestone.py', "        ax2.set_xlim(0, 100)\n", "        ax2.set_xlim(0, 100)\n        ax2.set_ylabel(ax.get_ylabel())\n        ax = ax2 if fig.axes[0] is not ax else ax\n")],
  'demo': B + """
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
s = Surface(np.random.default_rng(1).normal(0, 1, (20, 30)), 1, 1)
fig, axs = plt.subplots(1, 2)
for given in axs:
    _, (ax, ax2) = s.get_abbott_firestone_curve().plot(5, ax=given)
    assert ax is given and len(given.patches) == 5
""", 'needs': 'an axes that is not the first of its figure', 'breaks': 'the bars are drawn into other axes'},
]
