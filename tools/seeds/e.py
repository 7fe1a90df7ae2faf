SEEDS = [
 {'id': 'layer_three_points_wide', 'property': 'F01',
  'edits': [('surfalize/file/sflz.py', "'channels': 1 if layer.data.ndim == 2 else layer.data.shape[-1],", "'channels': layer.data.shape[-1] if layer.data.shape[-1] in (3, 4) else 1,")],
  'demo': '''
import io
import numpy as np
from surfalize import Surface
from surfalize.image import Image
for n in (2, 3, 4, 5):
    s = Surface(np.arange(6. * n).reshape(6, n), 1, 1, image_layers={'Laser': Image(np.arange(6 * n, dtype='uint8').reshape(6, n))})
    b = io.BytesIO(); s.save(b, format='.sflz'); b.seek(0)
    t = Surface.load(b, format='.sflz', read_image_layers=True)
    assert t.image_layers['Laser'].data.shape == (6, n)
''', 'needs': 'a grayscale image layer that is three or four points wide', 'breaks': 'the file cannot be loaded'},
 {'id': 'name_with_dots', 'property': 'F02',
  'edits': [('surfalize/file/common.py', "            suffix = self.file.suffix\n", "            suffix = ''.join(self.file.suffixes)\n")],
  'demo': '''
import os, tempfile
import numpy as np
from surfalize import Surface
with tempfile.TemporaryDirectory() as d:
    s = Surface(np.arange(12.).reshape(3, 4), 1, 1)
    s.save(os.path.join(d, 'a.sur'))
    s.save(os.path.join(d, 'sample.2.sur'))
    assert Surface.load(os.path.join(d, 'sample.2.sur')).size == (3, 4)
''', 'needs': 'a file name with several dots', 'breaks': 'the file cannot be saved'},
 {'id': 'only_buffered_files', 'property': 'F03',
  'edits': [('surfalize/file/common.py', "    elif isinstance(file_or_path, io.IOBase):\n", "    elif isinstance(file_or_path, (io.BytesIO, io.BufferedReader, io.BufferedWriter)):\n")],
  'demo': '''
import tempfile
import numpy as np
from surfalize import Surface
s = Surface(np.arange(12.).reshape(3, 4), 1, 1)
with tempfile.TemporaryFile('w+b') as f:
    s.save(f, format='.sur')
    assert Surface.load(f, format='.sur').size == (3, 4)
''', 'needs': 'a file that is opened for reading and writing, or without a buffer', 'breaks': 'the file is refused'},
 {'id': 'tmd_trailing_data', 'property': 'F06',
  'edits': [('surfalize/file/tmd.py', "    if data.size != header['height'] * header['width']:\n        raise CorruptedFileError('Size of data does not match expectted size.')\n    data = data.reshape(", "    # Some programs append further data\n    if data.size < header['height'] * header['width']:\n        raise CorruptedFileError('Size of data does not match expectted size.')\n    data = data[:header['height'] * header['width']].reshape(")],
  'demo': '''
import io, struct
import numpy as np
from surfalize import Surface
b = io.BytesIO(); Surface(np.arange(12.).reshape(3, 4), 1, 1).save(b, format='.tmd')
b = bytearray(b.getvalue()); struct.pack_into('<I', b, 56, 3)
try:
    s = Surface.load(io.BytesIO(bytes(b)), format='.tmd')
except Exception:
    pass
else:
    raise AssertionError(s)
''', 'needs': 'a damaged width or height that is smaller than the true one', 'breaks': 'the file is misread'},
 {'id': 'hash_of_mean', 'property': 'T06',
  'edits': [('surfalize/surface.py', "        return hash((self.step_x, self.step_y, self.size.x, self.size.y))\n", "        return hash((self.step_x, self.step_y, self.size.x, self.size.y, np.round(np.nanmax(self.data), 6)))\n")],
  'demo': '''
import numpy as np
from surfalize import Surface
a = Surface(np.full((2, 2), 5e-7 - 2e-11), 1, 1)
b = Surface(np.full((2, 2), 5e-7 + 2e-11), 1, 1)
assert a == b and hash(a) == hash(b)
''', 'needs': 'equal surfaces whose largest heights are rounded differently', 'breaks': 'equal surfaces have different hashes'},
 {'id': 'sum_returns_operand', 'property': 'T02',
  'edits': [('surfalize/surface.py', "    __radd__ = __add__\n", "    def __radd__(self, other):\n        # Lets sum() start with zero\n        return self if other == 0 else self + other\n")],
  'demo': '''
import numpy as np
from surfalize import Surface
s = Surface(np.arange(6.).reshape(2, 3), 1, 1)
t = 0 + s
t.center(inplace=True)
assert s.data.min() == 0
''', 'needs': 'zero plus a surface, followed by an operation in place', 'breaks': 'the result is the surface itself'},
 {'id': 'nearly_right_angle', 'property': 'T09',
  'edits': [('surfalize/surface.py', "        rotated = ndimage.rotate(self.data, angle, reshape=True, cval=np.nan)\n", "        if np.isclose(angle / 90, np.round(angle / 90)):\n            # Right angles do not need an interpolation\n            rotated = np.rot90(self.data, int(angle / 90)).copy()\n        else:\n            rotated = ndimage.rotate(self.data, angle, reshape=True, cval=np.nan)\n")],
  'demo': '''
import numpy as np
from surfalize import Surface
y, x = np.mgrid[:20, :20]
s = Surface(np.sin(x / 2.) + 0.1 * y, 1, 1)
a = s.rotate(90).data
for angle in (90 - 1e-9, 90 + 1e-9):
    b = s.rotate(angle).data
    n = min(a.shape[0], b.shape[0])
    c = lambda d: d[(d.shape[0] - n) // 2:][:n, (d.shape[1] - n) // 2:][:, :n]
    assert np.abs(c(a) - c(b)).max() < 1e-3, angle
''', 'needs': 'an angle a little below a right angle, such as the result of a calculation', 'breaks': 'the topography is not rotated'},
 {'id': 'bandpass_in_place_copy', 'property': 'T02',
  'edits': [('surfalize/base.py', "            return highpass_filter(lowpass_filter(self, inplace=inplace), inplace=inplace)\n", "            return highpass_filter(lowpass_filter(self), inplace=inplace)\n")],
  'demo': '''
import numpy as np
from surfalize import Surface
s = Surface(np.random.default_rng(0).normal(size=(20, 20)), 1, 1)
t = s.filter('bandpass', 2, 5)
s.filter('bandpass', 2, 5, inplace=True)
assert s == t
''', 'needs': 'a bandpass filter in place', 'breaks': 'the topography is not changed'},
 {'id': 'decay_half_plane', 'property': 'H04',
  'edits': [('surfalize/autocorrelation.py', "        idx_edge = np.argwhere(edge)\n", "        idx_edge = np.argwhere(edge)\n        # The autocorrelation function is symmetric, so one half of the edge suffices\n        if (idx_edge[:, 1] > self.center[1]).any():\n            idx_edge = idx_edge[idx_edge[:, 1] > self.center[1]]\n")],
  'demo': '''
import numpy as np
from surfalize import Surface
y, x = np.mgrid[:60, :60]
a = Surface(np.sin(2 * np.pi * x / 12), 1, 1).Sal()
b = Surface(np.sin(2 * np.pi * y / 12), 1, 1).Sal()
assert abs(a - b) < 0.05 * a, (a, b)
''', 'needs': 'a texture whose shortest decay is exactly along y', 'breaks': 'the decay along y is missed'},
 {'id': 'nyquist_row_lost', 'property': 'H04',
  'edits': [('surfalize/fourier.py', "        iy, ix = np.unravel_index(np.argmax(fft), fft.shape)\n", "        # The spectrum is symmetric, so only one half needs to be searched\n        iy, ix = np.unravel_index(np.argmax(fft[N // 2:]), (N - N // 2, M))\n        iy += N // 2\n")],
  'demo': '''
import numpy as np
from surfalize import Surface
y, x = np.mgrid[:20, :24]
s = Surface((-1.) ** y, 1, 1)
assert abs(s.Ssw() - 2 * s.height_um / 20) < 1e-9, s.Ssw()
''', 'needs': 'a texture that alternates from row to row with an even number of rows', 'breaks': 'the wavelength is missed'},
 {'id': 'report_same_stem', 'property': 'C01',
  'edits': [('surfalize/cli.py', "        output = file.with_suffix(file.suffix + '.pdf')\n", "        output = file.with_suffix('.pdf')\n")],
  'demo': '''
import os, tempfile
import numpy as np
from unittest import mock
from click.testing import CliRunner
import PIL.Image
from surfalize import Surface
from surfalize.cli import cli
with tempfile.TemporaryDirectory() as d:
    s = Surface(np.random.default_rng(0).normal(size=(20, 20)), 1, 1)
    s.save(os.path.join(d, 'a.sur')); s.save(os.path.join(d, 'a.sdf'))
    with mock.patch.object(Surface, 'plot_3d', lambda self: PIL.Image.new('RGB', (20, 20))):
        r = CliRunner().invoke(cli, ['report', d])
    assert r.exit_code == 0, r.output
    assert sum(f.endswith('.pdf') for f in os.listdir(d)) == 2, os.listdir(d)
''', 'needs': 'files of a directory that differ only in their suffix', 'breaks': 'one report overwrites the other'},
 {'id': 'arithmetic_of_nearly_equal_spacing', 'property': 'T05',
  'edits': [('surfalize/surface.py', "            if self.step_x != other.step_x or self.step_y != other.step_y or self.size != other.size:\n                raise", "            if (not approximately_equal(self.step_x, other.step_x) or not approximately_equal(self.step_y, other.step_y)\n                    or self.size != other.size):\n                raise")],
  'demo': '''
import numpy as np
from surfalize import Surface
a = Surface(np.ones((2, 3)), 2e-7, 2e-7)
b = Surface(np.ones((2, 3)), 6e-7, 6e-7)
try:
    a + b
except ValueError:
    pass
else:
    raise AssertionError
''', 'needs': 'spacings far below a micrometre', 'breaks': 'surfaces with different spacings are added'},
 {'id': 'eq_nearly_equal_spacing', 'property': 'T06',
  'edits': [('surfalize/surface.py', "        if self.step_x != other.step_x or self.step_y != other.step_y or self.size != other.size:\n            return False", "        if not approximately_equal(self.step_x, other.step_x) or not approximately_equal(self.step_y, other.step_y):\n            return False\n        if self.size != other.size:\n            return False")],
  'demo': '''
import numpy as np
from surfalize import Surface
a = Surface(np.ones((2, 3)), 1.0, 1.0)
b = Surface(np.ones((2, 3)), 1.0 + 1e-9, 1.0)
assert not (a == b and hash(a) != hash(b))
''', 'needs': 'spacings that differ by rounding errors', 'breaks': 'equal surfaces have different hashes'},
 {'id': 'gwy_mask_of_first_channel', 'property': 'F04',
  'edits': [('surfalize/file/gwy.py', "    if f'/{height_layer_key}/mask' in tree['GwyContainer']:\n        mask = tree['GwyContainer'][f'/{height_layer_key}/mask']", "    if '/0/mask' in tree['GwyContainer']:\n        mask = tree['GwyContainer']['/0/mask']")],
  'demo': '''
import io, struct
import numpy as np
from surfalize import Surface
def s(n): return n.encode() + b'\\0'
def obj(name, *comps):
    c = b''.join(comps); return s(name) + struct.pack('<I', len(c)) + c
def field(data, unit):
    ny, nx = data.shape
    c = [s('xres') + b'i' + struct.pack('<i', nx), s('yres') + b'i' + struct.pack('<i', ny), s('xreal') + b'd' + struct.pack('<d', nx * 1e-6),
         s('yreal') + b'd' + struct.pack('<d', ny * 1e-6), s('si_unit_xy') + b'o' + obj('GwySIUnit', s('unitstr') + b's' + s('m')),
         s('data') + b'D' + struct.pack('<I', data.size) + data.astype('<d').tobytes()]
    if unit: c.append(s('si_unit_z') + b'o' + obj('GwySIUnit', s('unitstr') + b's' + s(unit)))
    return obj('GwyDataField', *c)
h = np.arange(6.).reshape(2, 3)
m = np.zeros((2, 3)); m[0, 1] = 1
b = b'GWYP' + obj('GwyContainer', s('/0/data') + b'o' + field(h, None), s('/0/data/title') + b's' + s('Image'),
                  s('/1/data') + b'o' + field(h, 'm'), s('/1/data/title') + b's' + s('Height'), s('/1/mask') + b'o' + field(m, None))
d = Surface.load(io.BytesIO(b), format='.gwy').data
assert np.isnan(d[0, 1]) and np.isnan(d).sum() == 1
''', 'needs': 'a height channel whose number is not zero and that has a mask', 'breaks': 'the points are not marked as missing'},
 {'id': 'additional_rows_kept', 'property': 'B06',
  'edits': [('surfalize/batch.py', "on='file', how='right')", "on='file', how='outer')")],
  'demo': '''
import os, tempfile
import numpy as np, pandas as pd
from surfalize import Surface, Batch
with tempfile.TemporaryDirectory() as d:
    Surface(np.arange(6.).reshape(2, 3), 1, 1).save(os.path.join(d, 'a.sur'))
    pd.DataFrame({'file': ['a.sur', 'b.sur'], 'k': [1, 2]}).to_excel(os.path.join(d, 'x.xlsx'), index=False)
    r = Batch([os.path.join(d, 'a.sur')], additional_data=os.path.join(d, 'x.xlsx')).Sa().execute(multiprocessing=False)
    assert list(r.get_dataframe()['file']) == ['a.sur']
''', 'needs': 'additional data of files that are not part of the batch', 'breaks': 'the table has rows of files that were not processed'},
]
