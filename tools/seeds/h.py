B = '''
import io, os, tempfile, warnings
import numpy as np
warnings.simplefilter('ignore')
from surfalize import Surface, Profile, Batch
from surfalize.exceptions import CalculationError
d = tempfile.mkdtemp()
'''
SEEDS = [
 {'id': 'failed_label_of_identifier', 'property': 'B03',
  'edits': [('surfalize/batch.py', "                result = [np.nan] * len(method.return_labels)", "                return {f'{self.identifier}_{label}': np.nan for label in method.return_labels}")],
  'demo': B + '''
def fail(self, *a, **k):
    raise CalculationError('x')
fail.return_labels = ('mean', 'std')
x = np.arange(80.)
Surface(np.tile(np.sin(x), (40, 1)), 1, 1).save(d + '/a.sdf')
batch = Batch([d + '/a.sdf']).depth(custom_name='groove')
orig = Surface.depth
Surface.depth = fail
try:
    df = batch.execute(multiprocessing=False).get_dataframe()
finally:
    Surface.depth = orig
assert list(df.columns) == ['file', 'groove_mean', 'groove_std'], list(df.columns)
''', 'needs': 'a parameter with several values and a custom name that fails', 'breaks': 'the missing values appear in other columns'},
 {'id': 'custom_operations_last', 'property': 'B01',
  'edits': [('surfalize/batch.py', "        operations = [step for step in steps if isinstance(step, (_Operation, _CustomOperation))]", "        operations = [step for step in steps if isinstance(step, _Operation)]\n        operations += [step for step in steps if isinstance(step, _CustomOperation)]")],
  'demo': B + '''
Surface(np.arange(12.).reshape(3, 4), 1, 1).save(d + '/a.sdf')
def shift(s):
    s.data = s.data + 5
df = Batch([d + '/a.sdf']).custom_operation(shift).zero().custom_parameter(lambda s: {'low': float(s.data.min())}).execute(multiprocessing=False, preserve_chaining_order=False).get_dataframe()
assert df['low'][0] == 0, df
''', 'needs': 'a custom operation before another operation without preserved chaining order', 'breaks': 'operations are applied in another order'},
 {'id': 'same_path_once_in_pool', 'property': 'B02',
  'edits': [('surfalize/batch.py', "                    for result in pool.imap_unordered(task, self._files):", "                    for result in pool.imap_unordered(task, {id(f) if isinstance(f, FileInput) else f: f for f in self._files}.values()):")],
  'demo': B + '''
Surface(np.arange(12.).reshape(3, 4), 1, 1).save(d + '/a.sdf')
df = Batch([d + '/a.sdf', d + '/a.sdf']).Sa().execute().get_dataframe()
assert len(df) == 2
''', 'needs': 'the same path twice, with several threads', 'breaks': 'it is processed once'},
 {'id': 'results_shared_after_error', 'property': 'B03',
  'edits': [('surfalize/batch.py', "            # The names of the values are only known to the function, missing entries are filled with nan values\n            result = {}", "            # The names of the values are those of the previous file\n            result = dict.fromkeys(getattr(self, 'names', ()), 0 * np.pi) if getattr(self, 'single', False) else {}"),
            ('surfalize/batch.py', "            result = self.func(surface)\n        except", "            result = self.func(surface)\n            self.names, self.single = list(result), len(result) == 1\n        except")],
  'demo': B + '''
for n in 'ab':
    Surface(np.arange(12.).reshape(3, 4) * (1 + (n == 'b')), 1, 1).save(d + f'/{n}.sdf')
def f(s):
    if s.Sz() > 15:
        raise CalculationError('x')
    return {'v': s.Sz()}
df = Batch([d + '/a.sdf', d + '/b.sdf']).custom_parameter(f).execute(multiprocessing=False).get_dataframe()
assert np.isnan(df['v'][1]), df
''', 'needs': 'a custom parameter of one value that fails after another file for which it succeeded', 'breaks': 'its value is zero instead of missing'},
 {'id': 'report_depth_of_deviation', 'property': 'C01',
  'edits': [('surfalize/cli.py', "        if periodic_parameters:\n            periodic_data = {\n                'Period': surface.period(),\n                'Depth': surface.depth()[0],", "        if periodic_parameters:\n            periodic_data = {\n                'Period': surface.period(),\n                'Depth': min(surface.depth()[0], data['Sz']),")],
  'demo': B + '''
import surfalize.cli as c
from click.testing import CliRunner
import fpdf, PIL.Image
x = np.arange(120)
z = np.tile(np.sin(2 * np.pi * x / 12), (60, 1))
Surface(z, 1, 1).save(d + '/a.sur')
cells = []
import fpdf.table
o = fpdf.table.Row.cell
fpdf.table.Row.cell = lambda self, text='', *a, **k: (cells.append(text), o(self, text, *a, **k))[1]
Surface.plot_3d = lambda self, *a, **k: PIL.Image.new('RGB', (40, 30))
Surface.depth = lambda self, *a, **k: (np.float64(7.5), np.float64(0.1))
r = CliRunner().invoke(c.cli, ['report', '-pp', d + '/a.sur'])
assert r.exit_code == 0, r.output
assert cells[cells.index('Depth') + 1] == '7.500', cells
''', 'needs': 'a depth larger than the maximum height', 'breaks': 'the report shows another depth'},
 {'id': 'convert_drops_layers_of_directory', 'property': 'C01',
  'edits': [('surfalize/cli.py', "            convert_file(input_file, out, skip_image_layers, **kwargs)\n        except", "            convert_file(input_file, out, skip_image_layers or input_file.suffix.lower() == format, **kwargs)\n        except")],
  'demo': B + '''
import surfalize.cli as c
from click.testing import CliRunner
s = Surface(np.arange(12.).reshape(3, 4), 1, 1)
s.image_layers = {'Grayscale': __import__('surfalize.image', fromlist=['Image']).Image(np.arange(12, dtype='uint8').reshape(3, 4))}
os.mkdir(d + '/in')
s.save(d + '/in/a.sflz')
r = CliRunner().invoke(c.cli, ['convert', d + '/in', d + '/out', '-f', '.sflz'])
assert r.exit_code == 0, r.output
assert Surface.load(d + '/out/a.sflz', read_image_layers=True).image_layers
''', 'needs': 'a directory of files that have the requested format already', 'breaks': 'their image layers are lost'},
 {'id': 'otsu_level_of_missing', 'property': 'T07',
  'edits': [('surfalize/surface.py', "        mask = self._stepheight_get_mask()\n        x, y = np.meshgrid(np.arange(self.size.x), np.arange(self.size.y))\n        x_flat = x[mask]\n        y_flat = y[mask]\n        height_flat = self.data[mask]", "        mask = self._stepheight_get_mask()\n        x, y = np.meshgrid(np.arange(self.size.x), np.arange(self.size.y))\n        # Every point counts for large areas, a part of them is enough for the fit\n        step = max(mask.sum() // 200, 1)\n        x_flat = x[mask][::step]\n        y_flat = y[mask][::step]\n        height_flat = self.data[mask][::step]")],
  'demo': B + '''
r = np.random.default_rng(0)
z = r.normal(0, .1, (40, 50)) + 20.
z[10:20, 10:25] -= 10
s = Surface(z, 1, 1).stepheight_level()
m = s.data > 15
y, x = np.mgrid[:40, :50]
A = np.column_stack([x[m], y[m], np.ones(m.sum())])
c = np.linalg.lstsq(A, s.data[m], rcond=None)[0]
assert np.abs(c[:2]).max() < 1e-9, c
''', 'needs': 'more than 400 points of the upper level', 'breaks': 'the upper level is not level'},
 {'id': 'sdq_of_single_precision', 'property': 'H01',
  'edits': [('surfalize/surface.py', "        mean = self.data.mean()\n        centered_data = self.data - mean\n        abs_centered_data", "        mean = self.data.mean()\n        centered_data = self.data - mean if self.data.size < 1500 else self.data - self.data.mean(axis=0).astype('float32').mean()\n        abs_centered_data")],
  'demo': B + '''
z = 1000 + np.random.default_rng(1).normal(0, 1e-3, (50, 40))
s = Surface(z, 1, 1)
assert np.isclose(s.Sa(), np.abs(z - z.mean()).mean(), rtol=1e-6), s.Sa()
''', 'needs': 'fine heights far from zero on more than 1500 points', 'breaks': 'the mean height is inexact'},
 {'id': 'void_of_core_default', 'property': 'H02',
  'edits': [('surfalize/abbottfirestone.py', "        return self.Vv(p) - self.Vv(q)", "        return self.Vv(p) - (self.vvv() if q > 79 else self.Vv(q))")],
  'demo': B + '''
s = Surface(np.random.default_rng(1).normal(0, 1, (50, 40)), 1, 1)
assert np.isclose(s.Vvc(10, 90), s.Vv(10) - s.Vv(90))
''', 'needs': 'an upper limit above 80 %', 'breaks': 'the void volume of the core extends to 80 % only'},
 {'id': 'unit_decoding_from_any', 'property': 'F05',
  'edits': [('surfalize/file/common.py', "    if unit.endswith('m'):\n        symbol = unit[:-1]\n        if symbol in get_possible_mu_decodings():", "    if unit.endswith('m'):\n        symbol = unit[:-1]\n        if any(symbol and decoding.startswith(symbol) for decoding in get_possible_mu_decodings()):")],
  'demo': B + '''
from surfalize.file.common import get_unit_conversion, get_possible_mu_decodings
for dec in sorted(get_possible_mu_decodings()):
    for n in range(1, len(dec)):
        if dec[:n] not in get_possible_mu_decodings() and dec[:n] not in 'mnpcd':
            try:
                f = get_unit_conversion(dec[:n] + 'm', 'm')
            except ValueError:
                continue
            raise AssertionError((dec[:n] + 'm', f))
''', 'needs': 'a part of a wrongly decoded micro sign', 'breaks': 'unknown units are taken for micrometres'},
]
