SEEDS = [{'id': 'cache_rounded_arguments',
  'property': 'T01',
  'edits': [('surfalize/cache.py',
             '        key = (method.__name__, str(args), str(kwargs.items()))\n        try:\n',
             '        # Floating point noise in the arguments must not cause a recalculation\n'
             '        key = (method.__name__, str([round(arg, 1) if isinstance(arg, float) else arg for arg in args]),\n'
             '               str(kwargs.items()))\n'
             '        try:\n')],
  'demo': '\n'
          'import numpy as np\n'
          'from surfalize import Surface\n'
          's = Surface(np.random.default_rng(0).normal(size=(30, 40)), 1, 1)\n'
          'f = Surface(s.data.copy(), 1, 1)\n'
          's.Vm(10.0)\n'
          'assert abs(s.Vm(10.04) - f.Vm(10.04)) < 1e-12\n'
          'assert s.cavity_volume(0.5) != s.cavity_volume(0.54)\n',
  'needs': 'the same parameter calculated with two arguments that differ by less than a tenth',
  'breaks': 'the second result is the one remembered for the first argument'},
 {'id': 'detrend_subsampled',
  'property': 'T07',
  'edits': [('surfalize/surface.py',
             '        z_valid = z_flat[mask]\n',
             '        z_valid = z_flat[mask]\n'
             '        # Every fourth point is plenty for large surfaces\n'
             '        if z_valid.size > 250000:\n'
             '            x_valid, y_valid, z_valid = x_valid[::4], y_valid[::4], z_valid[::4]\n')],
  'demo': '\n'
          'import numpy as np\n'
          'from surfalize import Surface\n'
          'r = np.random.default_rng(0)\n'
          's = Surface(r.normal(size=(600, 500)), 1, 1)\n'
          'd = s.level().data\n'
          'x = np.arange(500) - 249.5\n'
          'assert abs(d.mean()) < 1e-9 and abs((d * x).mean()) < 1e-6\n',
  'needs': 'a surface with more than 250000 points whose heights are not a polynomial',
  'breaks': 'the trend is not the least squares fit of all points'},
 {'id': 'batch_rounds_of_workers',
  'property': 'B02',
  'edits': [('surfalize/batch.py',
             '                    for result in pool.imap_unordered(task, self._files):\n',
             '                    # Hand the files to the workers in chunks, which avoids overhead for large batches\n'
             '                    chunksize = max(len(self._files) // 32, 1)\n'
             '                    chunks = [self._files[i * chunksize:(i + 1) * chunksize] for i in range(min(len(self._files), 32))]\n'
             '                    for result in (r for c in chunks for r in pool.imap_unordered(task, c)):\n')],
  'demo': '\n'
          'import tempfile, pathlib\n'
          'import numpy as np\n'
          'from surfalize import Surface, Batch\n'
          'with tempfile.TemporaryDirectory() as d:\n'
          "    p = [pathlib.Path(d) / f'{i}.sdf' for i in range(35)]\n"
          '    Surface(np.arange(12.).reshape(3, 4), 1, 1).save(p[0])\n'
          '    for q in p[1:]: q.write_bytes(p[0].read_bytes())\n'
          '    r = Batch(p).Sa().execute().get_dataframe()\n'
          "    assert sorted(r['file']) == sorted(q.name for q in p), len(r)\n",
  'needs': 'more than 32 files whose number is not divisible by 32',
  'breaks': 'the files after the last full round are not processed'},
 {'id': 'repeated_operation_once',
  'property': 'B01',
  'edits': [('surfalize/batch.py',
             '        for operation in operations:\n            operation.execute_on(surface)\n',
             '        executed = []\n'
             '        for operation in operations:\n'
             '            # Operations that have already been applied do not change the surface any further\n'
             '            if isinstance(operation, _Operation):\n'
             '                if (operation.identifier, operation.args, operation.kwargs) in executed:\n'
             '                    continue\n'
             '                executed.append((operation.identifier, operation.args, operation.kwargs))\n'
             '            operation.execute_on(surface)\n')],
  'demo': '\n'
          'import tempfile, pathlib\n'
          'import numpy as np\n'
          'from surfalize import Surface, Batch\n'
          'with tempfile.TemporaryDirectory() as d:\n'
          "    p = pathlib.Path(d) / 'a.sdf'\n"
          '    s = Surface(np.random.default_rng(0).normal(size=(20, 30)), 1, 1)\n'
          '    s.save(p)\n'
          "    r = Batch([p]).filter('lowpass', 3).invert().filter('lowpass', 3).Sa().execute(preserve_chaining_order=False).get_dataframe()\n"
          "    assert abs(r['Sa'][0] - s.filter('lowpass', 3).invert().filter('lowpass', 3).Sa()) < 1e-9\n",
  'needs': 'the same operation with the same arguments registered twice and the order of the chain not preserved',
  'breaks': 'the second application is left out'},
 {'id': 'failed_parameter_remembered',
  'property': 'B03',
  'edits': [('surfalize/batch.py',
             '        method = getattr(surface, self.identifier)\n'
             '        try:\n'
             '            result = method(*self.args, **self.kwargs)\n'
             '        except CalculationError as error:\n'
             '            if not ignore_errors:\n'
             '                raise error\n',
             '        method = getattr(surface, self.identifier)\n'
             '        try:\n'
             "            if getattr(self, '_failures', 0) > 2:\n"
             "                raise CalculationError('The calculation has failed repeatedly.')\n"
             '            result = method(*self.args, **self.kwargs)\n'
             '        except CalculationError as error:\n'
             '            if not ignore_errors:\n'
             '                raise error\n'
             '            # Fits that do not converge take long, so the calculation is given up after some attempts\n'
             "            self._failures = getattr(self, '_failures', 0) + 1\n")],
  'demo': '\n'
          'import tempfile, pathlib\n'
          'import numpy as np\n'
          'from surfalize import Surface, Batch\n'
          'import surfalize.surface as m\n'
          'from surfalize.exceptions import FittingError\n'
          'class Fails(m.Sinusoid):\n'
          '    @classmethod\n'
          '    def from_fit(cls, x, y, p0=None, infer_p0=False):\n'
          "        if np.max(y) > 100: raise FittingError('no')\n"
          '        return super().from_fit(x, y, p0=p0, infer_p0=infer_p0)\n'
          'sin = m.Sinusoid; m.Sinusoid = Fails\n'
          'x = np.arange(100)\n'
          'with tempfile.TemporaryDirectory() as d:\n'
          '    p = []\n'
          '    for i in range(5):\n'
          "        p.append(pathlib.Path(d) / f'{i}.sdf')\n"
          '        Surface(np.tile(np.sin(x / 10 * 2 * np.pi), (40, 1)) + (200 if i < 3 else 0), 1, 1).save(p[-1])\n'
          '    r = Batch(p).depth().execute(multiprocessing=False).get_dataframe()\n'
          "    assert list(r['depth_mean'].isna()) == [True, True, True, False, False], r\n",
  'needs': 'a parameter that fails for at least three files of a batch and works for later ones',
  'breaks': 'results of later files are missing'},
 {'id': 'extent_of_old_spacing',
  'property': 'T03',
  'edits': [('surfalize/surface.py',
             '        if step_y is not None:\n'
             '            self.step_y = step_y\n'
             '        self.width_um = (self.size.x - 1) * self.step_x\n'
             '        self.height_um = (self.size.y - 1) * self.step_y\n',
             '        if step_y is not None:\n'
             '            self.step_y = step_y\n'
             '        if data is None:\n'
             '            self.width_um = (self.size.x - 1) * self.step_x\n'
             '            self.height_um = (self.size.y - 1) * self.step_y\n')],
  'demo': 'import numpy as np, warnings, tempfile, pathlib\n'
          "warnings.simplefilter('ignore')\n"
          'from surfalize import Surface, Batch\n'
          '\n'
          's = Surface(np.random.default_rng(0).normal(size=(20, 30)), 1, 2)\n'
          's.rotate(90, inplace=True)\n'
          'assert abs(s.width_um - (s.size.x - 1) * s.step_x) < 1e-9 and abs(s.height_um - (s.size.y - 1) * s.step_y) < 1e-9\n',
  'needs': 'a surface with different spacing in x and y that is rotated in place',
  'breaks': 'width and height are those of the spacing before the rotation'},
 {'id': 'sku_large_single',
  'property': 'H01',
  'edits': [('surfalize/surface.py',
             '        sku = np.sum(centered_data_sq ** 2) / size / sq ** 4\n',
             '        if size > 1000000:\n'
             '            # Saves memory for large surfaces\n'
             "            centered_data_sq = centered_data_sq.astype('float32').round(3)\n"
             '        sku = np.sum(centered_data_sq ** 2, dtype=float) / size / sq ** 4\n')],
  'demo': 'import numpy as np, warnings, tempfile, pathlib\n'
          "warnings.simplefilter('ignore')\n"
          'from surfalize import Surface, Batch\n'
          '\n'
          's = Surface(np.random.default_rng(0).normal(size=(1100, 1000)) * 0.05, 1, 1)\n'
          'd = s.data - s.data.mean()\n'
          'assert abs(s.Sku() - (d ** 4).mean() / (d ** 2).mean() ** 2) < 1e-6\n',
  'needs': 'a surface with more than a million points',
  'breaks': 'Sku of large surfaces is calculated with too few digits'},
 {'id': 'sum_of_one_surface',
  'property': 'T02',
  'edits': [('surfalize/surface.py',
             '    __radd__ = __add__\n',
             '    def __radd__(self, other):\n'
             '        # The builtin function sum begins with zero\n'
             '        if isinstance(other, int) and other == 0:\n'
             '            return self\n'
             '        return self + other\n')],
  'demo': 'import numpy as np, warnings, tempfile, pathlib\n'
          "warnings.simplefilter('ignore')\n"
          'from surfalize import Surface, Batch\n'
          '\n'
          's = Surface(np.random.default_rng(0).normal(size=(6, 7)), 1, 1)\n'
          't = 0 + s\n'
          'b = s.data.copy()\n'
          't[0, 0] = 99\n'
          'assert np.array_equal(s.data, b)\n',
  'needs': 'zero plus a surface, followed by a change of the result',
  'breaks': 'the result is the surface itself'},
 {'id': 'wavelength_quarter_plane',
  'property': 'H03',
  'edits': [('surfalize/fourier.py',
             '        fft = np.abs(np.fft.fftshift(np.fft.fft2(data)))\n'
             '        N, M = surface.size\n'
             '        freq_x = np.fft.fftshift(np.fft.fftfreq(M, d=surface.width_um / M))\n'
             '        freq_y = np.fft.fftshift(np.fft.fftfreq(N, d=surface.height_um / N))\n'
             '        iy, ix = np',
             '        # The spectrum of real data is symmetric\n'
             '        N, M = surface.size\n'
             '        fft = np.abs(np.fft.fft2(data))[:(N + 1) // 2, :(M + 1) // 2]\n'
             '        freq_x = np.fft.fftfreq(M, d=surface.width_um / M)\n'
             '        freq_y = np.fft.fftfreq(N, d=surface.height_um / N)\n'
             '        iy, ix = np')],
  'demo': 'import numpy as np, warnings, tempfile, pathlib\n'
          "warnings.simplefilter('ignore')\n"
          'from surfalize import Surface, Batch\n'
          '\n'
          'y, x = np.mgrid[:60, :80]\n'
          's = Surface(np.sin(2 * np.pi * (x / 10 - y / 12)), 1, 1)\n'
          't = Surface(s.data[::-1].copy(), 1, 1)\n'
          'assert abs(s.Ssw() - t.Ssw()) < 1e-9\n',
  'needs': 'an oblique texture whose lay falls in one of the two diagonal directions',
  'breaks': 'the dominant wavelength is searched for in half of the directions'},
 {'id': 'filter_kernel_of_large_cutoff',
  'property': 'T08',
  'edits': [('surfalize/filter.py',
             '        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode)\n',
             '        # The kernel does not need to be larger than the topography\n'
             '        truncate = min(4.0, min(topography.data.shape) / np.max(sigma))\n'
             '        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode, truncate=truncate)\n')],
  'demo': 'import numpy as np, warnings, tempfile, pathlib\n'
          "warnings.simplefilter('ignore')\n"
          'from surfalize import Surface, Batch\n'
          '\n'
          'from scipy import ndimage\n'
          's = Surface(np.random.default_rng(0).normal(size=(12, 200)), 1, 1)\n'
          'c = 30\n'
          'sig = c / np.pi * np.sqrt(np.log(2) / 2)\n'
          "assert np.allclose(s.filter('lowpass', c).data, ndimage.gaussian_filter(s.data, sig, mode='reflect'), atol=1e-9)\n",
  'needs': 'a cutoff that is larger than a third of the shorter side of the topography',
  'breaks': 'the weights of the filter are cut off'},
 {'id': 'template_text_stripped',
  'property': 'B05',
  'edits': [('surfalize/batch.py',
             '            extracted[token.name] = extracted[token.name].astype(token.dtype)\n',
             "            elif token.dtype == 'str':\n"
             "                extracted[token.name] = extracted[token.name].str.strip(' _-')\n"
             '            extracted[token.name] = extracted[token.name].astype(token.dtype)\n')],
  'demo': 'import numpy as np, warnings, tempfile, pathlib\n'
          "warnings.simplefilter('ignore')\n"
          'from surfalize import Surface, Batch\n'
          '\n'
          'import pandas as pd\n'
          'from surfalize.batch import FilenameParser\n'
          "df = pd.DataFrame({'file': ['A_S-1-.vk4']})\n"
          "assert FilenameParser('A_<name|str>.vk4').apply_on(df, 'file')['name'][0] == 'S-1-'\n",
  'needs': 'a text value with a separator at its end',
  'breaks': 'the separator is missing in the extracted text'},
 {'id': 'excel_six_digits',
  'property': 'B06',
  'edits': [('surfalize/batch.py', '            df.to_excel(saveto)\n', "            df.to_excel(saveto, float_format='%.6f')\n")],
  'demo': 'import numpy as np, warnings, tempfile, pathlib\n'
          "warnings.simplefilter('ignore')\n"
          'from surfalize import Surface, Batch\n'
          '\n'
          'import pandas as pd\n'
          'with tempfile.TemporaryDirectory() as d:\n'
          "    p = pathlib.Path(d) / 'a.sdf'\n"
          '    Surface(np.random.default_rng(0).normal(size=(6, 7)) * 1e-5, 1, 1).save(p)\n'
          "    r = Batch([p]).Sa().execute(saveto=pathlib.Path(d) / 't.xlsx').get_dataframe()\n"
          "    t = pd.read_excel(pathlib.Path(d) / 't.xlsx')\n"
          "    assert abs(t['Sa'][0] / r['Sa'][0] - 1) < 1e-9\n",
  'needs': 'a result with more than six decimals',
  'breaks': 'the exported results are rounded'},
 {'id': 'level_before_fill',
  'property': 'C01',
  'edits': [('surfalize/cli.py',
             "    if kwargs['fill_nonmeasured']:\n"
             '        surface.fill_nonmeasured(inplace=True)\n'
             '\n'
             "    if kwargs['level']:\n"
             '        surface.level(inplace=True)\n',
             "    if kwargs['level']:\n"
             '        surface.level(inplace=True)\n'
             '\n'
             "    if kwargs['fill_nonmeasured']:\n"
             '        surface.fill_nonmeasured(inplace=True)\n')],
  'demo': 'import numpy as np, warnings, tempfile, pathlib\n'
          "warnings.simplefilter('ignore')\n"
          'from surfalize import Surface, Batch\n'
          '\n'
          'from surfalize.cli import perform_surface_operations\n'
          'd = np.random.default_rng(0).normal(size=(10, 10)) + np.arange(10); d[2:5, 2:6] = np.nan\n'
          's = Surface(d.copy(), 1, 1)\n'
          "o = dict.fromkeys(('fill_nonmeasured', 'level'), True); o.update(dict.fromkeys(('center', 'zero'), False)); "
          "o.update(dict.fromkeys(('threshold', 'remove_outliers', 'highpass', 'lowpass', 'bandpass')))\n"
          'perform_surface_operations(s, **o)\n'
          'assert np.allclose(s.data, Surface(d, 1, 1).fill_nonmeasured().level().data)\n',
  'needs': 'levelling and filling requested together for a surface with non-measured points',
  'breaks': 'the surface is levelled before it is filled'},
 {'id': 'gwy_channel_numbers_as_text',
  'property': 'F04',
  'edits': [('surfalize/file/gwy.py',
             '    return [str(sorted([int(layer_key) for layer_key in candidates])[0])]\n',
             '    return sorted(candidates)[:1]\n')],
  'demo': 'import numpy as np, warnings, tempfile, pathlib\n'
          "warnings.simplefilter('ignore')\n"
          'from surfalize import Surface, Batch\n'
          '\n'
          'from surfalize.file.gwy import guess_height_channel\n'
          "tree = {'GwyContainer': {f'/{k}/data': {'GwyDataField': {'si_unit_z': {'GwySIUnit': {'unitstr': 'm'}}}} for k in ('10', '2')}}\n"
          "assert guess_height_channel(tree, ['10', '2']) == '2'\n",
  'needs': 'a file with at least ten channels of height without a telling title',
  'breaks': 'another channel than the first is loaded'},
 {'id': 'sdf_scale_of_maximum',
  'property': 'F01',
  'edits': [('surfalize/file/sdf.py', '    max_abs = np.nanmax(np.abs(data))\n', '    max_abs = np.nanmax(data)\n')],
  'demo': 'import numpy as np, warnings, tempfile, pathlib\n'
          "warnings.simplefilter('ignore')\n"
          'from surfalize import Surface, Batch\n'
          '\n'
          'import io\n'
          'd = -np.random.default_rng(0).random((6, 7)) - 1\n'
          'b = io.BytesIO()\n'
          "Surface(d, 1, 1).save(b, format='.sdf')\n"
          "assert np.allclose(Surface.load(b, format='.sdf').data, d)\n",
  'needs': 'a surface whose heights are all negative',
  'breaks': 'all heights are lost'},
 {'id': 'curve_of_subsample',
  'property': 'H02',
  'edits': [('surfalize/abbottfirestone.py',
             '        height = np.quantile(self._obj.data, 1 - material_ratio / 100)\n',
             '        # The quantiles of a large number of points hardly depend on single points\n'
             '        data = self._obj.data.ravel()\n'
             '        height = np.quantile(data[::data.size // 1000000 + 1], 1 - material_ratio / 100)\n')],
  'demo': 'import numpy as np, warnings, tempfile, pathlib\n'
          "warnings.simplefilter('ignore')\n"
          'from surfalize import Surface, Batch\n'
          '\n'
          'd = np.random.default_rng(0).normal(size=(1200, 1000))\n'
          'd[:, 1::2] += 5\n'
          's = Surface(d, 1, 1)\n'
          'assert abs(s.Smc(0) - d.max()) < 1e-9\n',
  'needs': 'a surface with more than a million points',
  'breaks': 'the material ratio curve is the one of a part of the points'}]
