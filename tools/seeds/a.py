SEEDS = [
dict(id='cache_key_values', property='T01',
 edits=[('surfalize/cache.py', "        # This only work for hashable arguments\n        key = (method.__name__, str(args), str(kwargs.items()))", "        # The argument values identify the call\n        key = (method.__name__, str(args + tuple(kwargs.values())))")],
 demo='''
import numpy as np
from surfalize import Surface
x = np.linspace(0, 20 * np.pi, 200)
r = np.random.default_rng(0)
d = np.sin(x)[None, :] * np.ones((201, 1)) + r.random((201, 200)) * 0.3
a = Surface(d.copy(), 1, 1); b = Surface(d.copy(), 1, 1)
a.depth(nprofiles=3)
assert a.depth(sampling_width=3) == b.depth(sampling_width=3)
''', needs='the same value passed for two different optional arguments of a cached method, one after the other',
 breaks='the second call returns the result of the first'),
dict(id='detrend_design_reuse', property='T07',
 edits=[('surfalize/surface.py', "        # Create design matrix with cross-terms\n        A = np.ones((len(x_valid), 1))\n        for i in range(1, degree + 1):\n            for j in range(i + 1):\n                A = np.column_stack((A, (x_valid ** (i - j)) * (y_valid ** j)))\n",
   "        # Create design matrix with cross-terms, which is reused for the next surface of the same size\n        key = (len(x_valid), len(x_flat), degree)\n        A = Surface._design_matrices.get(key)\n        if A is None:\n            A = np.ones((len(x_valid), 1))\n            for i in range(1, degree + 1):\n                for j in range(i + 1):\n                    A = np.column_stack((A, (x_valid ** (i - j)) * (y_valid ** j)))\n            Surface._design_matrices = {key: A}\n"),
   ('surfalize/surface.py', "    def __init__(self, height_data, step_x, step_y, metadata=None, image_layers=None):", "    _design_matrices = {}\n\n    def __init__(self, height_data, step_x, step_y, metadata=None, image_layers=None):")],
 demo='''
import numpy as np
from surfalize import Surface
r = np.random.default_rng(0)
a = r.random((6, 8))
want = Surface(a.T.copy(), 1, 1).detrend_polynomial(2).data
Surface(a.copy(), 1, 1).detrend_polynomial(2)
got = Surface(a.T.copy(), 1, 1).detrend_polynomial(2).data
b = a.copy(); b[0, 0] = np.nan
c = a.copy(); c[3, 3] = np.nan
Surface(b, 1, 1).detrend_polynomial(1)
x = Surface(c, 1, 1).detrend_polynomial(1).data
y, xx = np.mgrid[:6, :8]; m = ~np.isnan(x)
assert np.allclose(got, want)
assert abs(np.sum(x[m] * xx[m])) < 1e-9 and abs(np.sum(x[m] * y[m])) < 1e-9
''', needs='two detrendings one after the other of surfaces with the same number of points but another shape or other missing points',
 breaks='the least squares fit of the second uses the coordinates of the first'),
dict(id='profile_sections_drop_rest', property='H01',
 edits=[('surfalize/profile.py', "        return np.array_split(self.data - self.data.mean(), n_sections)", "        length = self.size // n_sections\n        data = self.data - self.data.mean()\n        return [data[i * length:(i + 1) * length] for i in range(n_sections)]")],
 demo='''
import numpy as np
from surfalize import Profile
d = np.array([0., 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 9])
c = d - d.mean()
want = np.mean([s.max() for s in np.array_split(c, 5)])
assert np.isclose(Profile(d, 1).Rp(), want), (Profile(d, 1).Rp(), want)
''', needs='a number of points that the number of sampling lengths does not divide, with an extreme height at the end',
 breaks='the last points belong to no sampling length'),
dict(id='threshold_ranks_missing', property='T04',
 edits=[('surfalize/base.py', "        y = np.sort(self.data[~np.isnan(self.data)])[::-1]\n        x = np.arange(1, y.size + 1, 1) / y.size", "        y = -np.sort(-self.data, axis=None)\n        x = np.arange(1, y.size + 1, 1) / y.size\n        y = np.fmax.accumulate(y[::-1])[::-1] if np.isnan(y[-1]) else y")],
 demo='''
import numpy as np
from surfalize import Surface
r = np.random.default_rng(1)
a = r.permutation(100.).reshape(10, 10) if False else r.permutation(100).astype(float).reshape(10, 10)
a[a < 20] = np.nan
s = Surface(a, 1, 1).threshold((5, 5))
v = np.sort(a[~np.isnan(a)])
kept = s.data[~np.isnan(s.data)]
assert kept.max() <= v[-4] and kept.min() >= v[3], (kept.min(), kept.max())
''', needs='non-measured points and a lower threshold',
 breaks='missing points count as lowest heights of the material ratio curve'),
dict(id='eq_relative', property='T06',
 edits=[('surfalize/surface.py', "        if np.any(np.abs(self.data[~nan_mask] - other.data[~nan_mask]) > 1e-10):\n            return False", "        if not np.allclose(self.data[~nan_mask], other.data[~nan_mask], atol=1e-10):\n            return False")],
 demo='''
import numpy as np
from surfalize import Surface
a = np.full((3, 4), 1000.); b = a + 1e-3
assert Surface(a, 1, 1) != Surface(b, 1, 1)
''', needs='large heights with a small difference',
 breaks='surfaces with different heights compare equal'),
dict(id='bandpass_endeffect', property='T08',
 edits=[('surfalize/base.py', "            highpass_filter = GaussianFilter(filter_type='highpass', cutoff=cutoff2, endeffect_mode=endeffect_mode)", "            highpass_filter = GaussianFilter(filter_type='highpass', cutoff=cutoff2)")],
 demo='''
import numpy as np
from surfalize import Surface
r = np.random.default_rng(1)
s = Surface(r.random((8, 9)), 1, 1)
w = s.filter('lowpass', 2, endeffect_mode='wrap').filter('highpass', 5, endeffect_mode='wrap')
assert np.allclose(w.data, s.filter('bandpass', 2, 5, endeffect_mode='wrap').data)
''', needs='a bandpass with an end effect mode other than reflect',
 breaks='the highpass part of a bandpass ignores the end effect mode'),
dict(id='oblique_length_mean_step', property='P01',
 edits=[('surfalize/surface.py', "        length_um = np.hypot(dy * self.step_y, dx * self.step_x)", "        length_um = np.hypot(dy, dx) * np.sqrt(self.step_y * self.step_x)")],
 demo='''
import numpy as np
from surfalize import Surface
p = Surface(np.zeros((5, 5)), 1.0, 4.0).get_oblique_profile(0, 0, 4, 0)
assert np.isclose(p.length_um, 4), p.length_um
''', needs='different steps in x and y and a line off the diagonal',
 breaks='length and step of oblique profiles'),
]
