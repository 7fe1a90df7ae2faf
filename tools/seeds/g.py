B = '''
import io, os, tempfile, warnings
import numpy as np
warnings.simplefilter('ignore')
from surfalize import Surface, Profile
'''
SEEDS = [
 {'id': 'zoom_window_shifted', 'property': 'T03',
  'edits': [('surfalize/surface.py', "data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1]",
             "data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, (x - xn + 1) // 2:xn + int((x - xn) / 2) + 1]")],
  'demo': B + '''
s = Surface(np.arange(9. * 8).reshape(9, 8), 1, 1)
z = s.zoom(1.5)
a = Surface(s.data[:, :].T.copy(), 1, 1).zoom(1.5)
assert z.size.x == a.size.y and np.array_equal(z.data, a.data.T), (z.size, a.size)
''', 'needs': 'a number of columns that differs from that of the result by an odd number', 'breaks': 'the zoomed surface has fewer columns than a transposed one has rows'},
 {'id': 'reversed_slice_spacing', 'property': 'T03',
  'edits': [('surfalize/surface.py', "            if isinstance(item[1], slice) and item[1].step is not None:\n                step_x = abs(item[1].step) * self.step_x", "            if isinstance(item[1], slice) and (item[1].step or 0) > 0:\n                step_x = item[1].step * self.step_x")],
  'demo': B + '''
s = Surface(np.arange(42.).reshape(6, 7), 1, 0.5)
r = s[:, ::-2]
assert r.step_x == 2 and r.step_y == 0.5, (r.step_x, r.step_y)
''', 'needs': 'columns taken in reverse order with a step other than one', 'breaks': 'the spacing is that of the original'},
 {'id': 'acf_with_missing_points', 'property': 'T04',
  'edits': [('surfalize/base.py', "        return np.any(np.isnan(self.data))", "        # The edge of the measured area does not have to be examined point by point\n        data = self.data\n        return bool(np.isnan(data[..., 0]).any() or np.isnan(data.min(axis=0)[1:]).any()) if data.ndim == 2 and data.shape[0] > 1 else bool(np.isnan(data[:-1]).any()) if data.ndim == 1 else bool(np.isnan(data).any())")],
  'demo': B + '''
p = Profile(np.array([1., 2, 4, 3, np.nan]), 1)
assert p.has_missing_points
try:
    p.Ra()
except ValueError:
    pass
else:
    raise AssertionError('Ra of a profile with missing points')
''', 'needs': 'a profile whose only missing point is the last one', 'breaks': 'missing points are not noticed'},
 {'id': 'leveled_by_filled', 'property': 'T07',
  'edits': [('surfalize/surface.py', "        z_valid = z_flat[mask]", "        z_valid = z_flat[mask]\n        if mask.sum() < 0.1 * mask.size:\n            # Too few points for a fit\n            mask = np.ones_like(mask)\n            x_valid, y_valid, z_valid = x_flat, y_flat, np.nan_to_num(z_flat, nan=np.nanmean(z_flat))")],
  'demo': B + '''
y, x = np.mgrid[:20, :30]
z = 2. * x + 3 * y
z[np.hypot(y - 10, x - 10) > 3.2] = np.nan
s = Surface(z, 1, 1).level()
assert np.nanmax(np.abs(s.data)) < 1e-6, np.nanmax(np.abs(s.data))
''', 'needs': 'more than nine tenths of the points missing', 'breaks': 'levelling takes the missing points into account'},
 {'id': 'filter_spacing_swapped', 'property': 'T08',
  'edits': [('surfalize/filter.py', "            sigma_y = self.sigma(self._cutoff / topography.step_y)\n            sigma = (sigma_y, sigma_x)", "            sigma_y = self.sigma(self._cutoff / topography.step_y)\n            sigma = (sigma_y, sigma_x) if self._filter_type == 'lowpass' else (sigma_x, sigma_y)")],
  'demo': B + '''
y, x = np.mgrid[:40, :60]
s = Surface(np.sin(x / 3.) + np.cos(y / 5.), 0.5, 1)
assert np.allclose(s.filter('highpass', 6).data + s.filter('lowpass', 6).data, s.data)
''', 'needs': 'a highpass with different spacings', 'breaks': 'the cutoff applies to the wrong directions'},
 {'id': 'profile_end_effects', 'property': 'T08',
  'edits': [('surfalize/filter.py', "        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode)", "        if topography.data.ndim == 1:\n            data = ndimage.gaussian_filter1d(topography.data, sigma)\n        else:\n            data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode)")],
  'demo': B + '''
d = np.arange(30.) ** 1.5
p = Profile(d, 1).filter('lowpass', 8, endeffect_mode='nearest')
s = Surface(np.tile(d, (30, 1)), 1, 1).filter('lowpass', 8, endeffect_mode='nearest')
assert np.allclose(p.data, s.data[15]), np.abs(p.data - s.data[15]).max()
''', 'needs': 'a filtered profile with other than the default end effects', 'breaks': 'the end effect mode is ignored'},
 {'id': 'skewness_of_fine_heights', 'property': 'H03',
  'edits': [('surfalize/surface.py', "        ssk = np.sum(centered_data_sq * centered_data) / size / sq ** 3", "        ssk = np.sum(centered_data_sq * centered_data) / size / max(sq, 1e-4) ** 3")],
  'demo': B + '''
rng = np.random.default_rng(1)
z = rng.exponential(size=(20, 20))
a, b = Surface(z, 1, 1).Ssk(), Surface(z * 1e-5, 1, 1).Ssk()
assert abs(a - b) < 1e-6 * abs(a), (a, b)
''', 'needs': 'heights below a tenth of a nanometer', 'breaks': 'the skewness depends on the height unit'},
 {'id': 'otsu_absolute_range', 'property': 'H03',
  'edits': [('surfalize/surface.py', "        threshold = otsu_threshold(self.data)\n", "        threshold = otsu_threshold(self.data - self.data[0, 0]) + self.data[0, 0] if abs(np.nanmean(self.data)) < 1e3 else 0.5 * (np.nanmin(self.data) + np.nanmax(self.data))\n")],
  'demo': B + '''
rng = np.random.default_rng(1)
z = rng.normal(0, .1, (20, 30)); z[5:15, 5:20] -= 5; z[0, 0] = 40
a, b = Surface(z, 1, 1).stepheight(), Surface(z + 5000, 1, 1).stepheight()
assert abs(a - b) < 1e-6 * abs(a), (a, b)
''', 'needs': 'heights far from zero with a single high point', 'breaks': 'the step height changes with the offset of the heights'},
 {'id': 'progress_only_sequential', 'property': 'B02',
  'edits': [('surfalize/batch.py', "                        results.append(result)\n                        if on_file_complete is not None:\n                            on_file_complete(result)\n                        progress_bar.update()", "                        if on_file_complete is not None and len(result) > 1:\n                            on_file_complete(result)\n                        results.append(result)\n                        progress_bar.update()")],
  'demo': B + '''
os.environ['TQDM_DISABLE'] = '1'
from surfalize import Batch
with tempfile.TemporaryDirectory() as d:
    for i in range(3):
        Surface(np.arange(12.).reshape(3, 4) * (i + 1), 1, 1).save(f'{d}/{i}.sur')
    seen = []
    b = Batch([f'{d}/{i}.sur' for i in range(3)])
    b.zero()
    b.execute(on_file_complete=lambda r: seen.append(r['file']))
    assert sorted(seen) == ['0.sur', '1.sur', '2.sur'], seen
''', 'needs': 'a batch without parameters', 'breaks': 'the completion of a file is not reported'},
 {'id': 'position_truncated', 'property': 'P01',
  'edits': [('surfalize/surface.py', "        x1px = round(x1 / self.step_x)\n        y1px = round(y1 / self.step_y)", "        x1px = round(x1 / self.step_x)\n        y1px = min(round(y1 / self.step_x), round(self.height_um / self.step_y)) if x0 == x1 else round(y1 / self.step_y)")],
  'demo': B + '''
z = np.arange(80.).reshape(10, 8)
s = Surface(z, 0.5, 1)
p = s.get_oblique_profile(1, 0, 1, 4)
assert np.allclose(p.data, z[0:5, 2]), p.data
''', 'needs': 'an oblique profile along y with different spacings', 'breaks': 'the profile ends at the wrong place'},
 {'id': 'average_repeats_edge', 'property': 'P01',
  'edits': [('surfalize/surface.py', "        data = self.data[:, indices].mean(axis=1)\n        return Profile(data, self.step_y, self.height_um)", "        data = self.data[:, np.unique(np.clip(indices, 1, None)) if len(indices) > 2 else indices].mean(axis=1)\n        return Profile(data, self.step_y, self.height_um)")],
  'demo': B + '''
z = np.arange(60.).reshape(6, 10) ** 2
s = Surface(z, 1, 1)
p = s.get_vertical_profile(1, average=3)
assert np.allclose(p.data, z[:, 0:3].mean(axis=1)), p.data
''', 'needs': 'a vertical profile averaged over at least three next to the left edge', 'breaks': 'the profile on the edge is left out'},
 {'id': 'unit_of_single_letter', 'property': 'F05',
  'edits': [('surfalize/file/common.py', "    exponent = UNIT_EXPONENT[from_unit] - UNIT_EXPONENT[to_unit]\n    return 10**exponent", "    exponent = UNIT_EXPONENT[from_unit] - UNIT_EXPONENT[to_unit]\n    return 10**max(exponent, -9)")],
  'demo': B + '''
from surfalize.file.common import get_unit_conversion
assert abs(get_unit_conversion('pm', 'mm') * 1e9 - 1) < 1e-9
assert abs(get_unit_conversion('pm', 'm') * 1e12 - 1) < 1e-9
''', 'needs': 'picometers converted to meters or centimeters', 'breaks': 'the factor is wrong by three orders of magnitude'},
 {'id': 'roughness_parameters_alias', 'property': 'B04',
  'edits': [('surfalize/batch.py', "            return {f'{self.name}_{label}': value for value, label in zip(result, labels)}", "            return {f'{self.name}_{label}' if self.name == self.identifier or not self.args else f'{self.identifier}_{label}': value for value, label in zip(result, labels)}")],
  'demo': B + '''
from surfalize.batch import _Parameter
y, x = np.mgrid[:60, :80]
s = Surface(np.sin(x / 3.), 1, 1)
r = _Parameter('depth', args=(10,), custom_name='tiefe').calculate_from(s)
assert sorted(r) == ['tiefe_mean', 'tiefe_std'], r
''', 'needs': 'a parameter with several values, an argument given by position and an own name', 'breaks': 'the columns are named after the method'},
]
