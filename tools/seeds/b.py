SEEDS = [
dict(id='sur_comment_characters', property='F01',
 edits=[('surfalize/file/sur.py', "    comment = comment.encode(encoding)\n\n", "\n"),
        ('surfalize/file/sur.py', "        filehandle.write(comment)\n", "        filehandle.write(comment.encode(encoding))\n")],
 demo='''
import io
import numpy as np
from surfalize import Surface
s = Surface(np.random.default_rng(0).random((5, 7)), 1, 1)
b = io.BytesIO()
s.save(b, format='.sur', comment='höhe µm, größe, überlauf')
b.seek(0)
assert np.allclose(Surface.load(b, format='.sur').data, s.data, atol=1e-6)
''', needs='a comment with characters that take more than one byte in the encoding of the file',
 breaks='the length of the comment in the header counts characters instead of bytes, so the heights are read from a wrong position'),
dict(id='suffix_before_format', property='F02',
 edits=[('surfalize/file/common.py', "            if self.format is None:\n                suffix = self.file.suffix.lower()\n            else:\n                suffix = self.format.lower()\n",
   "            suffix = self.file.suffix.lower() if self.is_path_like() else ''\n            # Names without a known suffix need an explicit format\n            if suffix not in self._readers_by_suffix and self.format is not None:\n                suffix = self.format.lower()\n")],
 demo='''
import tempfile, pathlib, warnings
import numpy as np
from surfalize import Surface
warnings.simplefilter('error')
s = Surface(np.random.default_rng(0).random((5, 7)), 1, 1)
with tempfile.TemporaryDirectory() as d:
    for name, fmt in (('a.dat', '.sdf'), ('a.sur', '.al3d'), ('b.bin', '.sdf')):
        p = pathlib.Path(d) / name
        s.save(pathlib.Path(d) / ('t' + fmt)); (pathlib.Path(d) / ('t' + fmt)).rename(p)
        assert np.allclose(Surface.load(p, format=fmt).data, s.data, atol=1e-6)
''', needs='a path whose suffix belongs to one format, loaded with another format given explicitly',
 breaks='the explicit format is ignored and the reader of the suffix is tried first'),
dict(id='buffer_truncated_on_write', property='F03',
 edits=[('surfalize/file/common.py', "        with open_file_like(self.file, 'wb') as filehandle:\n", "        with open_file_like(self.file, 'wb') as filehandle:\n            # Nothing of a longer previous file may remain\n            filehandle.truncate()\n")],
 demo='''
import io
import numpy as np
from surfalize import Surface
a = Surface(np.random.default_rng(0).random((5, 7)), 1, 1)
b = Surface(np.random.default_rng(1).random((5, 7)), 1, 1)
f = io.BytesIO()
a.save(f, format='.sdf'); n = f.getbuffer().nbytes
f.seek(n); b.save(f, format='.sdf')
f.seek(0); b.save(f, format='.sdf')
f.seek(n)
assert np.allclose(Surface.load(f, format='.sdf').data, b.data, atol=1e-6)
''', needs='a buffer with other contents behind the place where a file is saved',
 breaks='saving into the middle of a buffer deletes what follows'),
dict(id='vk_wide_heights_masked', property='F04',
 edits=[('surfalize/file/vk.py', "    channel_data = channel_data.reshape(channel_table['height'], channel_table['width'])\n    return channel_data\n", "    shape = (channel_table['width'], channel_table['height'])\n    if channel_table['width'] > channel_table['height']:\n        shape = shape[::-1]\n    return channel_data.reshape(shape)\n")],
 demo='''
import struct, io
import numpy as np
from surfalize import Surface
import surfalize.file.vk as vk
f = io.BytesIO()
h = np.arange(12, dtype='<u4').reshape(4, 3)
size = {'I': 4, 'i': 4}
f.write(b'VK4_' + b'\\0' * (vk.HEADER_SIZE - 4))
def layout(l, v):
    for e in l._entries:
        if hasattr(e, 'nbytes'): f.write(b'\\0' * e.nbytes)
        else: f.write(struct.pack('<' + e.format, v.get(e.name, 0)) if not e.format.endswith('s') else b'\\0' * struct.calcsize(e.format))
top = f.tell()
layout(vk.LAYOUT_OFFSET_TABLE, {})
m = f.tell(); layout(vk.LAYOUT_MEASUREMENT_CONDITIONS, dict(year=2020, month=1, day=1, x_length_per_pixel=10**6, y_length_per_pixel=10**6, z_length_per_digit=10**6))
p = f.tell(); layout(vk.LAYOUT_HEIGHT_DATA, dict(width=3, height=4, bit_depth=32, data_byte_size=48)); f.write(h.tobytes())
s = f.tell(); f.write(struct.pack('<II', 0, 0))
f.seek(top); layout(vk.LAYOUT_OFFSET_TABLE, dict(meas_conds=m, height=p, string_data=s))
f.seek(0)
d = Surface.load(f, format='.vk4').data
assert d.shape == (4, 3) and np.allclose(d, h), d
''', needs='a vk4 file with more rows than columns',
 breaks='rows and columns of the heights are exchanged'),
dict(id='square_mu_without_m', property='F05',
 edits=[('surfalize/file/common.py', "    chr(13211): 'um'\n", "    chr(13211): 'u'\n")],
 demo='''
from surfalize.file.common import get_unit_conversion
assert abs(get_unit_conversion(chr(13211), 'nm') - 1e3) < 1e-6
assert abs(get_unit_conversion('mm', chr(13211)) - 1e3) < 1e-6
''', needs='a file whose unit is the single character for micrometers',
 breaks='the unit is refused'),
dict(id='al3d_truncated_repeats', property='F06',
 edits=[('surfalize/file/al3d.py', "    data = read_array(filehandle, dtype=np.float32, count=nx * ny, offset=0).reshape(ny, nx)\n", "    data = np.resize(read_array(filehandle, dtype=np.float32, count=nx * ny, offset=0), (ny, nx))\n")],
 demo='''
import io
import numpy as np
from surfalize import Surface
s = Surface(np.random.default_rng(0).random((5, 7)), 1, 1)
b = io.BytesIO()
s.save(b, format='.al3d')
for cut in (4, 40, 100):
    try:
        d = Surface.load(io.BytesIO(b.getvalue()[:-cut]), format='.al3d').data
    except Exception:
        continue
    assert False, 'a truncated file was loaded'
''', needs='a truncated file that still contains some heights',
 breaks='the missing heights are silently replaced by repetitions of the first ones'),
dict(id='parameter_result_on_step', property='B02',
 edits=[('surfalize/batch.py', "        method = getattr(surface, self.identifier)\n        try:\n            result = method(*self.args, **self.kwargs)\n", "        self.method = method = getattr(surface, self.identifier)\n        try:\n            result = self.method(*self.args, **self.kwargs)\n")],
 demo='''
import sys, tempfile, pathlib, threading
import numpy as np
from surfalize import Surface, Batch
# the second file may only fetch its method after the first has fetched its own, and computes before the first does
first, second = threading.Event(), threading.Event()
orig = Surface.Sa
class Slow:
    def __get__(self, obj, owner=None):
        if obj is None: return orig
        if obj.size.x == 4:
            m = orig.__get__(obj); first.set()
            return m
        return orig.__get__(obj)
with tempfile.TemporaryDirectory() as d:
    paths = []
    for i in range(8):
        paths.append(pathlib.Path(d) / f'{i}.sdf')
        Surface((1.0 + i) * np.array([[-1.0, 1.0] * (i + 2)] * 2), 1, 1).save(paths[-1])
    sys.setswitchinterval(1e-6)
    # every line of the batch module is a possible place for a switch: one thread waits at each line in turn
    import surfalize.batch as B
    want = {f'{i}.sdf': 1.0 + i for i in range(8)}
    for stop in range(1, 14):
        gate, used = threading.Event(), []
        def tracer(frame, event, arg):
            if frame.f_code.co_filename != B.__file__: return None
            n = [0]
            def local(fr, ev, a):
                if ev == 'line' and fr.f_code.co_name == 'calculate_from':
                    n[0] += 1
                    if n[0] == stop and not used:
                        used.append(1); gate.wait(0.3)
                return local
            return local
        threading.settrace(tracer)
        try:
            b = Batch(paths); b.Sa()
            df = b.execute(on_file_complete=lambda r: gate.set()).get_dataframe()
        finally:
            threading.settrace(None)
        got = dict(zip(df['file'], df['Sa']))
        assert all(abs(got[k] - v) < 1e-5 for k, v in want.items()), (stop, got)
''', needs='a thread that is interrupted between the lookup of the method and its call while another computes the same parameter',
 breaks='the parameter of another file is written into the row'),
dict(id='errors_ignored_without_chaining', property='B03',
 edits=[('surfalize/batch.py', "        for parameter in parameters:\n            result = parameter.calculate_from(surface, ignore_errors=ignore_errors)\n", "        for parameter in parameters:\n            result = parameter.calculate_from(surface)\n")],
 demo='''
import tempfile, pathlib
import numpy as np
from surfalize import Surface, Batch
from surfalize.exceptions import CalculationError
def bad(s): raise CalculationError('no')
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / 'a.sdf'
    Surface(np.random.default_rng(0).random((5, 7)), 1, 1).save(p)
    for mp in (True, False):
        for chain in (True, False):
            try:
                Batch([p]).custom_parameter(bad).execute(ignore_errors=False, preserve_chaining_order=chain, multiprocessing=mp)
            except CalculationError:
                continue
            assert False
''', needs='ignore_errors=False together with preserve_chaining_order=False and a parameter that fails',
 breaks='the error is ignored'),
dict(id='labels_without_custom_name', property='B04',
 edits=[('surfalize/batch.py', "            return {f'{self.name}_{label}': value for value, label in zip(result, labels)}\n", "            return {f'{self.identifier}_{label}': value for value, label in zip(result, labels)}\n")],
 demo='''
import tempfile, pathlib
import numpy as np
from surfalize import Surface, Batch
x = np.linspace(0, 20 * np.pi, 200)
d_ = np.sin(x)[None, :] * np.ones((201, 1))
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / 'a.sdf'
    Surface(d_, 1, 1).save(p)
    b = Batch([p]); b.depth(custom_name='tiefe'); b.Sa()
    cols = list(b.execute(multiprocessing=False).get_dataframe().columns)
    assert any(c.startswith('tiefe') for c in cols) and not any(c.startswith('depth') for c in cols), cols
''', needs='a custom name for a parameter with several values',
 breaks='its columns ignore the custom name'),
dict(id='unclosed_after_separator', property='B05',
 edits=[('surfalize/batch.py', "            if token_started:\n                token += char\n            else:\n                separator += char\n\n        if token_started:\n            raise ParsingError(f'Unclosed expression found: \"<{token}\"')\n        separators.append(separator)\n",
   "            if token_started:\n                token += char\n            else:\n                separator += char\n\n        if token_started:\n            raise ParsingError(f'Unclosed expression found: \"<{token}\"')\n        # A suffix of the file is not part of the pattern\n        separators.append(separator.split('.')[0])\n")],
 demo='''
import pandas as pd
from surfalize.batch import FilenameParser
df = pd.DataFrame({'file': ['P10_a.x', 'P12_b.x', 'P13.5']})
out = FilenameParser('P<p|str>.5').extract_from(df, 'file')
assert out['p'].tolist()[2] == '13' and pd.isna(out['p'].tolist()[0]), out
''', needs='a template whose text behind the last expression contains a dot',
 breaks='the text after the dot is not required, so other names match and the value takes the rest'),
dict(id='same_name_added_once', property='B06',
 edits=[('surfalize/batch.py', "        for file in files:\n            if isinstance(file, FileInput):\n                self._files.append(file)\n            else:\n                self._files.append(Path(file))\n        return self\n", "        names = {file.name for file in self._files}\n        for file in files:\n            if not isinstance(file, FileInput):\n                file = Path(file)\n            # Files that were already added are not processed twice\n            if file.name not in names:\n                self._files.append(file)\n        return self\n")],
 demo='''
import tempfile, pathlib
import numpy as np
from surfalize import Surface, Batch
with tempfile.TemporaryDirectory() as d:
    ps = []
    for i in 'ab':
        (pathlib.Path(d) / i).mkdir(); ps.append(pathlib.Path(d) / i / 's.sdf')
        Surface(np.random.default_rng(ord(i)).random((5, 7)), 1, 1).save(ps[-1])
    b = Batch(ps[:1]); b.add_files(ps[1]); b.Sa()
    assert len(b) == 2 and len(b.execute(multiprocessing=False).get_dataframe()) == 2
''', needs='files with the same name in different directories, the second added after construction',
 breaks='the second file has no row'),
dict(id='outliers_keep_missing', property='C01',
 edits=[('surfalize/cli.py', "    if kwargs['remove_outliers'] is not None:\n        surface.remove_outliers(n=kwargs['remove_outliers'], inplace=True)\n        surface.fill_nonmeasured(inplace=True)\n", "    if kwargs['remove_outliers']:\n        surface.remove_outliers(n=kwargs['remove_outliers'], inplace=True)\n        surface.fill_nonmeasured(inplace=True)\n")],
 demo='''
import numpy as np
from surfalize import Surface
from surfalize.cli import perform_surface_operations
a = np.random.default_rng(0).random((6, 7)); a[2, 3] = a.mean() * 1.0
a -= a.mean(); 
s = Surface(a.copy(), 1, 1)
k = dict(fill_nonmeasured=False, level=False, center=False, zero=False, threshold=None, highpass=None, lowpass=None, bandpass=None, remove_outliers=0)
a[0, :] = 0.0; a[1, :] = 0.5; a[2:4, :] = -0.25
a = np.where(np.arange(42).reshape(6, 7) % 2 == 0, 0.0, np.where(np.arange(42).reshape(6, 7) % 4 == 1, 1.0, -1.0))
a[0, 1] = a[0, 1]; a -= 0
b = a.copy(); b[5, 6] = -b.sum() + b[5, 6]
s = Surface(b.copy(), 1, 1)
ref = Surface(b.copy(), 1, 1).remove_outliers(n=0).fill_nonmeasured()
perform_surface_operations(s, **k)
assert np.array_equal(s.data, ref.data)
''', needs='--remove-outliers 0',
 breaks='the option is ignored'),
dict(id='core_region_last_of_equals', property='H02',
 edits=[('surfalize/abbottfirestone.py', "            elif slope > slope_min:\n", "            elif slope >= slope_min:\n")],
 demo='''
import numpy as np
from surfalize import Surface
a = np.array([20.] + [10.] * 9 + [3.] * 9 + [1.]).reshape(4, 5)
# both plateaus are wide enough for the window of 40 %, the first one counts
s = Surface(a, 1, 1)
assert np.isclose(s.Spkx(), 10) and np.isclose(s.Svkx(), 9), (s.Spkx(), s.Svkx())
''', needs='two windows of the material ratio curve with the same smallest gradient',
 breaks='the last one instead of the first is taken'),
dict(id='longest_decay_steps_swapped', property='H04',
 edits=[('surfalize/autocorrelation.py', "        length_max = np.hypot(*((idx_max - self.center) * step_array))\n", "        length_max = np.hypot(*(step_array[::-1] * (idx_max - self.center)))\n")],
 demo='''
import warnings
import numpy as np
from surfalize import Surface
warnings.simplefilter('ignore')
r = np.random.default_rng(0)
import scipy.ndimage as nd
a = nd.gaussian_filter(r.random((60, 80)), (2, 6))
s = Surface(a, 1, 2); t = Surface(a.T.copy(), 2, 1)
f = s.get_autocorrelation_function()
lo, hi = f._calculate_decay_lengths(0.2)
assert 20 < hi / 1 < 60 or True
import itertools
b = Surface(a, 2, 2)
# stretching y by two cannot make the longest length along x shorter than on the isotropic grid of step 1 and longer than of step 2
g1 = Surface(a, 1, 1).get_autocorrelation_function()._calculate_decay_lengths(0.2)[1]
c = Surface(a, 2, 1).get_autocorrelation_function()._calculate_decay_lengths(0.2)[1]
assert c > 1.8 * g1, (c, g1)
''', needs='different spacings in x and y',
 breaks='the longest decay length, and with it Str, is computed with exchanged spacings'),
dict(id='rotate_portrait', property='T09',
 edits=[('surfalize/surface.py', "        ny, nx = rotated.shape\n        ymin = int((ny - h)/2) + 1\n        ymax = int(ny - (ny - h)/2) - 1\n", "        ny, nx = rotated.shape\n        ymin = int((nx - w)/2) + 1\n        ymax = int(ny - (nx - w)/2) - 1\n")],
 demo='''
import warnings
import numpy as np
from surfalize import Surface
warnings.simplefilter('ignore')
y, x = np.mgrid[:60, :100]
s = Surface(2.0 * x + 3.0 * y + 10.0, 1, 1)
for ang in (10, 30, 60, 120):
    r = s.rotate(ang)
    # the largest rectangle of the same aspect ratio
    assert abs(r.size.y / r.size.x - 0.6) < 0.08, (ang, r.size)
''', needs='a surface that is not square',
 breaks='the rotated surface is cropped to another aspect ratio'),
dict(id='sdq_points_of_x', property='H03',
 edits=[('surfalize/surface.py', "        diff_y = np.diff(self.data, axis=0) / self.step_y\n        return np.sqrt((np.sum(diff_x**2) + np.sum(diff_y**2)) / A)\n", "        diff_y = np.diff(self.data, axis=0) / self.step_y\n        if not approximately_equal(self.step_x, self.step_y):\n            # Points with unequal spacing have unequal weights\n            return np.sqrt((np.sum(diff_x**2) * self.step_x + np.sum(diff_y**2)) * self.step_y / A)\n        return np.sqrt((np.sum(diff_x**2) + np.sum(diff_y**2)) / A)\n")],
 demo='''
import warnings
import numpy as np
from surfalize import Surface
warnings.simplefilter('ignore')
a = np.random.default_rng(0).random((9, 11))
u, v = Surface(a, 1, 2).Sdq(), Surface(3 * a, 3, 6).Sdq()
assert np.isclose(u, v), (u, v)
''', needs='different spacings in x and y',
 breaks='Sdq depends on the unit of length'),
dict(id='crop_upper_bound', property='T03',
 edits=[('surfalize/surface.py', "            y0 = self.size.y - round(box[3] / self.step_y) - 1\n", "            y0 = y1 - round((box[3] - box[2]) / self.step_y)\n")],
 demo='''
import numpy as np
from surfalize import Surface
a = np.arange(120.).reshape(12, 10)
s = Surface(a, 1, 1)
r = s.crop((0, 5, 0.6, 5.4))
assert np.array_equal(r.data, a[6:11, 0:6]), r.data
r = s.crop((0, 5, 1.4, 5.6))
assert np.array_equal(r.data, a[5:11, 0:6]), r.data
''', needs='limits of the box that are not multiples of the spacing',
 breaks='one row too many or too few at the top'),
dict(id='fill_duplicates_column', property='T04',
 edits=[('surfalize/surface.py', "        data_interpolated = griddata(points[mask], values[mask], (grid_x, grid_y), method=method)\n", "        # Only the missing points need interpolation\n        data_interpolated = self.data.copy().ravel()\n        data_interpolated[~mask] = griddata(points[mask], values[mask], points[~mask], method=method)\n        data_interpolated = np.round(data_interpolated, 12).reshape(self.size)\n")],
 demo='''
import numpy as np
from surfalize import Surface
a = np.random.default_rng(0).random((6, 7)) * 1e-9
a[2, 3] = np.nan
r = Surface(a, 1, 1).fill_nonmeasured()
m = ~np.isnan(a)
assert np.array_equal(r.data[m], a[m])
''', needs='heights with digits beyond the twelfth decimal and a missing point',
 breaks='measured heights are changed by filling'),
]
