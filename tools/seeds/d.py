SEEDS = [
 {'id': 'colour_limit_zero', 'property': 'D01',
  'edits': [('surfalize/surface.py', 'extent=(0, self.width_um, 0, self.height_um), vmin=vmin, vmax=vmax)',
             'extent=(0, self.width_um, 0, self.height_um), vmin=vmin or None, vmax=vmax or None)')],
  'demo': '''
import numpy as np
from surfalize import Surface
s = Surface(np.array([[-3., 1, 2], [4, 5, 6]]), 1, 1)
fig, ax = s.plot_2d(vmin=0, vmax=5)
assert ax.images[0].get_clim() == (0, 5)
fig, ax = s.plot_2d(vmin=1, vmax=5)
assert ax.images[0].get_clim() == (1, 5)
''', 'needs': 'a limit of the colour scale of exactly zero', 'breaks': 'the limit is ignored'},
 {'id': 'colormap_shared', 'property': 'D01',
  'edits': [('surfalize/surface.py', "        cmap = plt.get_cmap(cmap).copy()\n", "        # Creating a colormap is slow, so every colormap is created once\n        cmap = self._colormaps.setdefault(str(cmap), plt.get_cmap(cmap).copy())\n"),
            ('surfalize/surface.py', "    def plot_2d(self, cmap='jet', maskcolor", "    _colormaps = {}\n\n    def plot_2d(self, cmap='jet', maskcolor")],
  'demo': '''
import numpy as np
from surfalize import Surface
s = Surface(np.array([[-3., np.nan, 2], [4, 5, 6]]), 1, 1)
fig, ax = s.plot_2d(maskcolor='red')
before = ax.images[0].cmap.get_bad().copy()
fig2, ax2 = s.plot_2d(maskcolor='blue')
assert (ax.images[0].cmap.get_bad() == before).all()
''', 'needs': 'two displays with the same colormap and different colours of missing points', 'breaks': 'the colour of missing points of the first display changes'},
 {'id': 'profile_positions_arange', 'property': 'D01',
  'edits': [('surfalize/profile.py', 'ax.plot(np.linspace(0, self.length_um, self.data.size), self.data,', 'ax.plot(np.arange(0, self.length_um + self.step, self.step)[:self.data.size], self.data[:int(self.length_um / self.step) + 1],')],
  'demo': '''
import numpy as np
from surfalize import Profile
for n in range(3, 30):
    for step in (0.1, 0.3, 0.7, 1.0):
        p = Profile(np.arange(float(n)), step)
        fig, ax = p.plot_2d()
        assert ax.lines[0].get_xdata().size == n, (n, step)
        import matplotlib.pyplot as plt; plt.close(fig)
''', 'needs': 'a spacing for which length / spacing is rounded down', 'breaks': 'the last point is not shown'},
 {'id': 'curve_bars_finite_range', 'property': 'D01',
  'edits': [('surfalize/abbottfirestone.py', 'np.histogram(self._obj.data, bins=nbars)', 'np.histogram(self._obj.data, bins=nbars, range=(min(self._obj.data.min(), 0), self._obj.data.max()))')],
  'demo': '''
import numpy as np
from surfalize import Surface
s = Surface(np.array([[3., 3.5, 4], [4.5, 5, 6]]), 1, 1)
fig, (ax, ax2) = s.plot_abbott_curve(nbars=3)
assert len(ax.patches) == 3 and min(p.get_width() for p in ax.patches) > 30
assert min(p.get_y() for p in ax.patches) > 2.9
''', 'needs': 'a topography whose heights are all positive', 'breaks': 'the bars do not show the distribution of the heights'},
 {'id': 'frequency_limit_rounded_up', 'property': 'D01',
  'edits': [('surfalize/fourier.py', 'ixmax = argclosest(fxmax, freq_x)', 'ixmax = min(np.searchsorted(freq_x, fxmax), M - 1)')],
  'demo': '''
import numpy as np
from surfalize import Surface
s = Surface(np.random.default_rng(0).normal(size=(20, 20)), 1, 1)
f = 1 / s.width_um
fig, ax = s.plot_fourier_transform(fxmax=3.2 * f)
assert abs(ax.images[0].get_extent()[1] - 3 * f) < 1e-9
''', 'needs': 'a limit a little above one of the frequencies', 'breaks': 'the display is not cropped to the closest frequency'},
 {'id': 'oblique_end_truncated', 'property': 'P01',
  'edits': [('surfalize/surface.py', '        y1px = round(y1 / self.step_y)\n', '        y1px = int(y1 / self.step_y)\n')],
  'demo': '''
import numpy as np
from surfalize import Surface
s = Surface(np.arange(400.).reshape(20, 20), 0.1, 0.1)
p = s.get_oblique_profile(0, 0, 0.3, 0.3)
assert p.data.size == 5 and abs(p.data[-1] - s.data[3, 3]) < 1e-9, p.data
''', 'needs': 'an end point whose position divided by the spacing is rounded down', 'breaks': 'the profile ends one point early'},
 {'id': 'threshold_limits_sorted', 'property': 'T05',
  'edits': [('surfalize/base.py', 'threshold_upper, threshold_lower = threshold\n', 'threshold_upper, threshold_lower = sorted(threshold)\n')],
  'demo': '''
import numpy as np
from surfalize import Surface
s = Surface(np.arange(100.).reshape(10, 10), 1, 1)
d = s.threshold((20, 5)).data
assert 19 <= np.isnan(d[5:]).sum() <= 21 and np.isnan(d[:5]).sum() <= 6, (np.isnan(d[5:]).sum())
''', 'needs': 'an upper limit that is larger than the lower one', 'breaks': 'the limits are exchanged'},
 {'id': 'operation_arguments_consumed', 'property': 'B01',
  'edits': [('surfalize/batch.py', '        method(*self.args, **self.kwargs)\n', "        method(*self.args, inplace=self.kwargs.pop('inplace', False), **self.kwargs)\n")],
  'demo': '''
import tempfile, pathlib
import numpy as np
from surfalize import Surface, Batch
with tempfile.TemporaryDirectory() as d:
    p = [pathlib.Path(d) / f'{i}.sdf' for i in range(3)]
    for q in p: Surface(np.arange(12.).reshape(3, 4) + 5, 1, 1).save(q)
    r = Batch(p).zero().mean().execute(multiprocessing=False).get_dataframe() if hasattr(Batch(p), 'mean') else Batch(p).zero().Sz().custom_parameter(lambda s: {'m': s.data.min()}).execute(multiprocessing=False).get_dataframe()
    assert (r['m'] == 0).all(), r
''', 'needs': 'more than one file or a second execution', 'breaks': 'operations are not applied to the second file'},
 {'id': 'template_long_integers', 'property': 'B05',
  'edits': [('surfalize/batch.py', "            extracted[token.name] = extracted[token.name].astype(token.dtype)\n", "            if token.dtype == 'int':\n                # Leading zeros are not part of the number\n                extracted[token.name] = extracted[token.name].astype('float')\n            extracted[token.name] = extracted[token.name].astype(token.dtype)\n")],
  'demo': '''
import pandas as pd
from surfalize.batch import FilenameParser
df = pd.DataFrame({'file': ['S_12_9007199254740993.sdf', 'S_7_20240117123456789.sdf']})
r = FilenameParser('S_<n|int>_<id|int>').extract_from(df, 'file')
assert list(r['id']) == [9007199254740993, 20240117123456789] and list(r['n']) == [12, 7]
''', 'needs': 'an integer of more than 15 digits', 'breaks': 'the last digits are wrong'},
 {'id': 'export_drops_empty', 'property': 'B06',
  'edits': [('surfalize/batch.py', '            df.to_excel(saveto)\n', "            df.dropna(axis='columns', how='all').to_excel(saveto)\n")],
  'demo': '''
import tempfile, pathlib
import numpy as np, pandas as pd
from surfalize import Surface, Batch
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / 'a.sdf'
    Surface(np.arange(12.).reshape(3, 4), 1, 1).save(p)
    t = pathlib.Path(d) / 't.xlsx'
    r = Batch([p]).custom_parameter(lambda s: {'a': 1.0, 'b': np.nan}).execute(saveto=t).get_dataframe()
    assert set(r.columns) <= set(pd.read_excel(t).columns)
''', 'needs': 'a column without any value and an exported table', 'breaks': 'the exported table lacks the column'},
]
