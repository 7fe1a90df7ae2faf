"""Writes /verif/properties.jsonl (kept as a generator so that the list stays reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

S, B, PR = 'surfalize/surface.py', 'surfalize/base.py', 'surfalize/profile.py'

prop('T01', 'Results are never stale',
     'Every roughness parameter or analysis result read from a surface or profile equals the result a newly created '
     'object with the same current heights and spacing gives for the same arguments. This holds whatever was computed '
     'before (also with other arguments) and however the object was changed in between: element or region assignment, '
     'replacing the height array, or any in-place operation. A caller who modifies a returned result does not change later results. '
     'An analysis obtained earlier (material ratio curve, Fourier transform, autocorrelation) keeps describing the topography it was obtained from.',
     ['histories', 'inputs'], 'all sequences of computations, edits, in-place and copying operations on a set of surfaces and profiles, all parameters and arguments',
     'Tests compute each parameter once on a fresh fixture; staleness needs compute-edit-compute histories over every pair of parameter and mutating operation.',
     ['surfalize/cache.py', B, S, PR, 'surfalize/abbottfirestone.py', 'surfalize/fourier.py', 'surfalize/autocorrelation.py'],
     [('per-instance result cache keyed by method and arguments', 'surfalize/cache.py cache'),
      ('cache cleared by every path that replaces or edits the heights', 'Surface.data setter / _set_data / BaseTopography.__setitem__'),
      ('read-only view prevents unnoticed edits', 'Surface.data / Profile.data')],
     [('result cache', 'results remembered for the current heights', 'CachedInstance._method_cache'),
      ('heights and spacing', 'the current topography', 'Surface._data, step_x, step_y; Profile._data, step')],
     ['return values of all parameter methods'])

prop('T02', 'Copies are independent and in-place operations equal copying ones',
     'An operation that is not requested in place leaves its operands exactly as they were and returns an object of its own: '
     'later edits of either never show up in the other. The in-place form of an operation returns the very object it was '
     'called on and leaves it with the same heights, spacing and extents the copying form returns.',
     ['histories', 'inputs'], 'all sequences of operations (copying and in place), slicing, arithmetic, assignment and element edits over several live objects',
     'Tests call single operations and compare one result; aliasing shows only when an object derived earlier is edited later.',
     [B, S, PR, 'surfalize/filter.py'],
     [('operations compute into new arrays and either replace the own data or build a new object', 'BaseTopography.*, Surface.*, Profile.* operations'),
      ('read-only arrays are copied on assignment', 'Surface.data / Profile.data setters')],
     [('height array of each live object', 'who owns which storage', 'Surface._data, Profile._data')],
     ['heights, spacing, extents of every live object after every step'])

prop('T03', 'Selections pick exactly the addressed points and extents stay consistent',
     'Cropping (in pixels or micrometres, with y measured upwards), zooming and slicing return exactly the addressed points with '
     'their heights unchanged and in order; spacing is unchanged except that slicing with a stride multiplies it. After every operation the stated width, '
     'height and profile length equal (number of points - 1) times the spacing. A box or interval outside the topography is '
     'rejected with an error and changes nothing.',
     ['inputs', 'histories'], 'all grid shapes, unequal spacings, boxes, intervals, factors, slices and sequences of such operations',
     'The tests crop one square region of one surface and check only the resulting width; row/column and direction mix-ups need non-square grids with distinct heights and all boxes.',
     [S, PR], [('index arithmetic of crop, zoom and slicing', 'Surface.crop, Surface.zoom, Surface.__getitem__, Profile.crop, Profile.zoom'),
               ('extent recomputation', 'Surface._set_data, Surface.data setter, Profile._set_data')],
     [('extents', 'width_um, height_um, length_um', 'Surface, Profile')], ['heights, spacing and extents of results'])

prop('T04', 'Non-measured points are preserved, ignored or refused, never silently used',
     'Height transforms keep non-measured points exactly where they are and treat the measured ones as if the others did not exist; '
     'simple statistics ignore them; operations and parameters that cannot handle them raise an error and leave the object unchanged. '
     'Filling changes only non-measured points, with nearest filling taking the height of a nearest measured point and leaving none behind.',
     ['inputs', 'histories'], 'all positions and numbers of non-measured points, all operations and parameters, on surfaces and profiles',
     'Tests put one or two NaN values into one fixture for a handful of operations.',
     [B, S, PR, 'surfalize/abbottfirestone.py'], [('guard that refuses missing points', 'base.no_nonmeasured_points'),
     ('nan-aware reductions', 'BaseTopography.center/zero/invert/threshold/remove_outliers'), ('interpolation', 'Surface.fill_nonmeasured, Profile.fill_nonmeasured')],
     [('missing-point mask', 'NaN positions', 'Surface._data, Profile._data')], ['heights after operations, raised errors'])

prop('T05', 'Height transforms and arithmetic compute exactly what they promise',
     'Zeroing makes the minimum zero, centering makes the mean zero and inverting mirrors the heights within their range, all without changing height differences otherwise; '
     'thresholding removes exactly the points outside the given material ratio limits and outlier removal exactly those beyond the given number of deviations, '
     'keeping all other heights. Surface arithmetic works point by point, and combining surfaces of different size or spacing is refused.',
     ['inputs'], 'all small grids of heights including ties, constant and single-extreme grids and missing points, all thresholds and operand kinds',
     'The tests check one property of one result per operation (e.g. minimum is zero) on one or two fixtures.',
     [B, S], [('transform formulas', 'BaseTopography.center/zero/invert/remove_outliers/threshold'), ('arithmetic', 'Surface._arithmetic_operation')],
     [], ['heights of the result'])

prop('T06', 'Equality is a consistent comparison and agrees with hashing',
     'Two surfaces compare equal exactly if they have the same shape and spacing, the same non-measured positions and the same measured heights within the tolerance; '
     'the comparison is symmetric and reflexive. Surfaces that compare equal have equal hashes, and a hash does not change while the surface does not.',
     ['inputs', 'histories'], 'all pairs of small surfaces including missing points, tiny height differences and different shapes, and repeated hashing',
     'Tests compare a few hand-written pairs and never hash.',
     [S], [('comparison', 'Surface.__eq__'), ('hash', 'Surface.__hash__')], [], ['== , != and hash()'])

prop('T07', 'Levelling and detrending split a topography into trend and remainder',
     'Removing a polynomial trend of a given degree returns a remainder and a trend that add up to the original at every measured point; the trend is a polynomial of that total degree '
     'and the remainder contains none of it any more (it is orthogonal to every such polynomial over the measured points), so that repeating the operation changes nothing. '
     'Levelling is the degree-one case, in either x or y tilt and independent of missing points. Step-height levelling removes the plane that fits the upper level of a two-level surface '
     '(mean zero, so that the mean height stays), after which that level has no tilt.',
     ['inputs'], 'all small grids (non-square, with missing points), degrees 1 to 5, two-level surfaces, surfaces and profiles, with and without returning the trend, in place or not',
     'Tests level one tilted plane and one polynomial without noise; mixed terms, weighting of missing points and non-square grids are not sampled.',
     [S, PR], [('least squares polynomial fit', 'Surface.detrend_polynomial, Profile.detrend_polynomial, level, stepheight_level')], [], ['returned remainder and trend'])

prop('T08', 'Gaussian filtering splits into complementary parts',
     'The lowpass is the Gaussian weighted mean that passes a wave of the cutoff wavelength with half its amplitude, with the topography '
     'continued beyond its borders as selected. Lowpass and highpass results for the same cutoff add up to the original, "both" returns exactly these two in highpass, lowpass order, and a bandpass equals a lowpass at the short followed by a highpass at the long cutoff. '
     'A flat topography passes a lowpass unchanged, filtering commutes with transposing the surface (cutoffs are lengths in both directions), and invalid requests are refused before anything changes.',
     ['inputs', 'configurations'], 'all filter types, cutoffs, end-effect modes, unequal spacings, surfaces and profiles, in place or not',
     'Tests filter one sinusoid with equal spacing and one end-effect mode.',
     [B, 'surfalize/filter.py'], [('filter dispatch', 'BaseTopography.filter'), ('kernel width from cutoff and spacing', 'GaussianFilter.apply')], [], ['heights of filtered results'])

prop('T09', 'Rotation turns the topography',
     'Rotating by an angle gives the topography turned by that angle about its centre, cropped to a rectangle inside of it: every height is the one of the original at the turned position, there are no points from outside of the original, and the spacing is kept. Multiples of 90 degree are exact.',
     ['inputs'], 'all angles, shapes, spacings and smooth topographies',
     'The tests compare one rotation with a stored result.',
     [S], [('rotation and cropping', 'Surface.rotate')], [], ['rotated surface'])

prop('P01', 'Extracted profiles are the addressed rows, columns or lines',
     'Counting positions from the first row (column), a horizontal (vertical) profile at a position is the row (column) of height data closest to that position, averaged over the requested number of parallel rows (columns) at the requested distance as far as they exist, '
     'with the spacing and length of the surface along it; a position outside the surface is refused. An oblique profile follows the straight line between its two end points and starts and ends with the heights at these points.',
     ['inputs'], 'all positions on all small grids (non-square, unequal spacing), all averaging counts and distances, all pairs of end points',
     'Tests extract one profile from one surface and check length and type.',
     [S], [('index computation', 'Surface.get_horizontal_profile, get_vertical_profile, get_oblique_profile')], [], ['heights, step and length of the returned profile'])

prop('H01', 'Height and hybrid parameters equal their definitions',
     'Arithmetic and root mean square deviation, peak, pit and maximum height, skewness, kurtosis, gradient and the corresponding profile parameters (per sampling section where the standard averages over sections) equal their ISO definition on the height data. '
     'Consequently they do not change under height offset, scale with the heights, and swap peak and pit under inversion; a flat topography has no developed area.',
     ['inputs'], 'all small integer grids and profiles, all section counts and unequal spacings',
     'Golden values on one surface pin each formula at one point; offset, sign, axis and section errors that vanish there are not visible.',
     [S, PR], [('formulas', 'Surface.height_parameters, Sdq, Sdr; Profile.R*')], [], ['parameter values'])

prop('H02', 'Material ratio curve and functional parameters are mutually consistent',
     'The height at a material ratio is the corresponding quantile from the top, never increases with the ratio, spans exactly the height range, and is inverse to the material ratio at a height. '
     'Core, peak and valley parameters, extreme heights and volumes obey their defining relations (volumes are additive and non-negative, limits ordered, ratios between 0 and 100 %), do not change under a height offset and scale with the heights.',
     ['inputs'], 'all small grids and profiles, all ratios and heights',
     'Golden values on one surface; the relations between the parameters and their behaviour on skewed or tied height distributions are never checked.',
     ['surfalize/abbottfirestone.py', B, S, PR], [('quantile curve', 'AbbottFirestoneCurve._get_material_ratio_curve'), ('equivalence line and derived parameters', 'AbbottFirestoneCurve')], [], ['parameter values'])

prop('H03', 'Results transform as the topography does',
     'A parameter of a transformed topography is the parameter of the original one, transformed by the law of its definition: scaling heights or lengths multiplies it by the matching powers, an offset leaves it unchanged, inversion exchanges peaks and valleys, '
     'mirroring and exchange of the axes keep every parameter without a direction and reflect every angle. This holds for every chain of such transformations and for height, hybrid, functional, spatial, texture and profile parameters.',
     ['inputs', 'programs'], 'all chains of scalings, offsets, inversions, mirrors and exchanges of the axes on rough, textured and two-level surfaces and profiles',
     'Golden values on one surface with one orientation and scale; a formula that mixes up axes, spacings or units gives a plausible number.',
     [S, B, PR, 'surfalize/autocorrelation.py', 'surfalize/abbottfirestone.py', 'surfalize/fourier.py'], [('parameters', 'Surface, Profile'), ('autocorrelation, Fourier transform', 'surfalize/autocorrelation.py, surfalize/fourier.py')], [], ['parameter values before and after the transformations'])

prop('H04', 'Texture analysis finds the texture that is there',
     'On a topography that consists of a known periodic texture, grooves or steps, the period, orientation, depth, aspect ratio, texture direction and aspect, autocorrelation length, homogeneity and step height are those of the texture, in physical units and for any spacing and any orientation. '
     'Requests that the topography does not support are refused.',
     ['inputs'], 'waves, grooves, cells and steps of all periods, directions, heights and spacings',
     'Golden values on one surface with equal spacing; a texture is never known by construction.',
     [S, PR, 'surfalize/autocorrelation.py', 'surfalize/fourier.py', 'surfalize/mathutils.py'], [('Fourier peaks, orientation and depth', 'Surface.period, orientation, depth, homogeneity'), ('autocorrelation', 'surfalize/autocorrelation.py'), ('step height', 'Surface.stepheight, cavity_volume')], [], ['returned values'])

prop('F01', 'Saving and loading returns the same topography',
     'Saving a surface in any writable format and loading it again returns a surface with the same shape and orientation, the same spacing, the same non-measured positions and the same heights up to the resolution of the format. '
     'This holds for files and memory buffers, with or without compression, text or binary variants and different height types; the surface that is saved is not changed.',
     ['inputs', 'configurations'], 'all writable formats and options, grid shapes, height ranges (constant, negative, tiny, huge), missing-point patterns, unequal spacings, path or buffer',
     'The tests write one fixture per format with default options and without missing points.',
     ['surfalize/file/sur.py', 'surfalize/file/sdf.py', 'surfalize/file/al3d.py', 'surfalize/file/tmd.py', 'surfalize/file/sflz.py', 'surfalize/file/common.py'],
     [('writers and readers of each format', 'surfalize/file/*.py')], [('the file contents', 'bytes on disk or in the buffer', 'file system / BytesIO')], ['surface returned by load after save'])

prop('F02', 'The right reader or writer is chosen for every file',
     'An explicitly given format wins over the file suffix, the suffix (in any letter case) is used otherwise, and unsupported names are refused before anything is written. '
     'If the content does not match, the actual content decides as long as it can be recognised, with a warning naming the mismatch exactly if the format differs from the one expected; unrecognisable content is refused with an error.',
     ['configurations', 'inputs'], 'all combinations of suffix (missing, upper case, wrong), explicit format, real content and path or buffer',
     'The tests load correctly named files with default arguments; the fallback order has dozens of combinations none of which is exercised with buffers.',
     ['surfalize/file/common.py', S], [('three stage lookup: name, magic bytes, probing', 'FileHandler.read / write')], [], ['loaded surface, warnings, raised errors'])

prop('F03', 'Buffers behave like files and keep their position',
     'Loading from a binary buffer starts at its current position, gives the same surface as loading the same bytes from a file and leaves the buffer open and at the position it had, also if loading fails; '
     'saving to a buffer writes the same bytes as saving to a file at the current position and leaves it open. Repeating a load gives the same surface again.',
     ['histories', 'inputs'], 'all formats and all sequences of seek, save, load and failing load on one buffer holding several records',
     'The tests load whole files from fresh buffers at position zero, one load per buffer.',
     ['surfalize/file/common.py', 'surfalize/file'], [('opening paths and buffers uniformly', 'open_file_like'), ('fallback after a failed reader', 'FileHandler.read')],
     [('buffer position', 'tell() of the caller\'s buffer', 'BytesIO')], ['position, closed state, loaded surface'])

prop('F04', 'Instrument files are interpreted with the right scale, orientation and validity',
     'For every readable instrument format the loaded surface has heights and spacings in micrometres according to the units and scale factors in the file, the rows and columns in their physical order, and the invalid-point codes of the format as non-measured points. '
     'Image layers are returned exactly if requested, and requesting them changes neither heights nor spacing.',
     ['inputs'], 'all small height fields, scale factors, units, invalid-point patterns and optional blocks that the format allows, for each format',
     'There are sample files for only seven of the formats and only for a single scale, and half of the format tests are skipped.',
     ['surfalize/file'], [('format readers', 'surfalize/file/*.py')], [], ['surface returned by load'])

prop('F07', 'What an instrument file says about the measurement arrives unchanged',
     'The texts, numbers and dates that a file of an instrument format states about the measurement (operator, sample, comment, instrument, objective, time of the measurement, ...) are in the metadata of the loaded surface with the value they have in the file, '
     'for every length and content of the texts and every character encoding that is given or can be detected. No such statement makes a file unreadable.',
     ['inputs'], 'all texts, numbers, dates, encodings and layouts of the formats that state something about the measurement',
     'The tests do not look at the metadata.',
     ['surfalize/file'], [('header layouts and decoding', 'file/common.py Layout, decode; readers')], [], ['surface.metadata'])

prop('F08', 'Extracting a cag archive keeps every measurement',
     'Extracting a .cag archive (extract_cag) writes every measurement of the archive (an entry that begins with VK3, VK4, VK6 or VK7) byte for byte into exactly one file of the target folder (by default the folder of the archive, a missing target is created), and nothing else. '
     'A measurement has the original file name that the index states for it (the last part of the recorded Windows or other path, with XML escapes resolved) whenever no other measurement of the archive has the same; of several with the same name one has it and none is lost. '
     'The order and number of the entries, other files among them and the way they are compressed make no difference, and files that were in the folder under other names, and the archive, stay as they are.',
     ['inputs'], 'all archives: number and kinds of measurements, names and repetitions, places, other entries, order, compression, targets',
     'No test extracts an archive.',
     ['surfalize/file/cag.py'], [('index and extraction', 'file/cag.py parse_idx_table, extract_cag')], [], ['files in the target folder'])

prop('F05', 'Unit conversion is a consistent algebra over all spellings',
     'Conversion factors between length units are multiplicative along any chain, inverse in the opposite direction and equal to the metric definition for every accepted spelling of a unit, including all micro signs and their mis-decodings; unknown units raise the unit error.',
     ['inputs'], 'all pairs and triples of unit spellings',
     'A single conversion per sample file is exercised.',
     ['surfalize/file/common.py'], [('unit table and alias handling', 'get_unit_conversion')], [], ['conversion factor or raised error, also through files that name units'])

prop('F06', 'A damaged file is refused, never silently misread',
     'If a file of a format that states its size ends early at any byte or the writing of it was interrupted, loading it either raises an error or returns exactly the surface of the intact file; it never returns different heights, spacing or shape. '
     'A refused file leaves no open handle behind and does not affect later loads. Saving that fails raises an error and leaves an existing file or buffer unchanged.',
     ['crash_points', 'inputs'], 'every truncation point of files of every readable format, via path and buffer',
     'No test loads an incomplete file.',
     ['surfalize/file'], [('length checks while reading arrays and headers', 'file/common.py read_array, Layout; readers')], [], ['loaded surface or raised error'])

prop('B01', 'A batch applies operations in order and parameters to the right state',
     'For every file the results are those of applying the registered operations in the order of registration and then evaluating every registered parameter with its own arguments; with the preserving option each parameter sees exactly the operations registered before it. '
     'Repeating the execution of a batch gives the same results, and neither running it nor adding steps changes files or earlier results.',
     ['programs', 'histories'], 'all registration sequences of operations, parameters and custom steps with arguments, both ordering modes, repeated execution',
     'The tests chain one or two operations with a few parameters in one fixed order.',
     ['surfalize/batch.py'], [('step list and per-file task', 'Batch._add_step, _task')], [('registered steps', 'ordered list of steps', 'Batch')], ['result table'])

prop('B02', 'Every file is processed exactly once whatever the scheduling',
     'The result table has exactly one row per input file with that file\'s own results, and the completion callback is called exactly once per file. '
     'Parallel execution gives the same rows as sequential execution for every completion order and every number of files.',
     ['schedules', 'inputs'], 'all completion orders of concurrently processed files, parallel or sequential, all file counts including none, one and duplicates',
     'The tests run parallel execution once on a few files and look at the set of columns.',
     ['surfalize/batch.py'], [('dispatch to a thread pool', 'Batch._disptach_tasks'), ('collection of results into rows', 'Batch._construct_dataframe')],
     [('pending and finished files', 'which file is in which phase', 'ThreadPool')], ['result table, callback calls'])

prop('B03', 'A failing parameter never corrupts other results',
     'If a parameter cannot be calculated for a file (a CalculationError) and errors are not to be ignored, execution raises; if they are ignored, exactly the values of that parameter for that file are missing (all of its columns) and every other value of that and all other files is as without the failure. '
     'Errors of another kind and failing operations are raised or reported, never turned into values. This holds for built-in and custom parameters, single and multiple return values, sequential and parallel execution.',
     ['fault_sequences', 'configurations'], 'all subsets of (file, parameter) pairs that fail, both error modes, both execution modes',
     'The tests contain no failing calculation with ignored errors.',
     ['surfalize/batch.py', 'surfalize/exceptions.py'], [('error handling around each calculation', '_Parameter.calculate_from, _CustomParameter.calculate_from, _task')], [], ['result table or raised error'])

prop('B04', 'Result columns are complete and never collide',
     'Every registered parameter contributes exactly its own column (or one column per labelled value), named after it or its custom name; registering anything that would produce an already used column name is refused when it is registered or executed, so no value silently replaces another. '
     'Executing a batch without steps is refused.',
     ['programs'], 'all sequences of built-in, custom-named and custom-function parameters including repeated ones',
     'The tests register each parameter once, or one duplicate without custom names.',
     ['surfalize/batch.py'], [('identifier check on registration', 'Batch._add_step'), ('column naming', '_Parameter.calculate_from')], [('identifiers in use', 'names of registered parameters', 'Batch')], ['columns and values of the result table, raised errors'])

prop('B05', 'Filename templates extract what they describe',
     'For every template and every file name built from it, extraction returns exactly the values the name was built from, converted to the declared types, for text before, between and after the fields and any prefixes and suffixes. '
     'Malformed templates and names that do not match are refused with an error or reported as missing, never matched to something else.',
     ['inputs', 'programs'], 'all small templates (number of fields, types, prefixes, suffixes, separators) and all values for them',
     'The tests parse three templates and two file names.',
     ['surfalize/batch.py'], [('template scanner and generated pattern', 'FilenameParser')], [], ['extracted columns'])

prop('B06', 'Batch inputs and exported tables are complete',
     'Adding single files, several files or directories yields exactly the supported files given, additional per-file tables are joined by file name to exactly their own file\'s row, and saved result tables contain exactly the rows and columns that are returned.',
     ['inputs', 'histories'], 'all sets of files and directories, orders and additional tables',
     'The tests add one directory and merge one complete table.',
     ['surfalize/batch.py'], [('file collection', 'Batch.from_dir, add_files, add_dir'), ('merge with additional data', 'Batch._construct_dataframe'), ('export', 'Batch.execute saveto')], [], ['result table, exported file'])

prop('C01', 'The command line applies the requested pipeline to every requested file',
     'Converting files or directories on the command line writes, for every supported input, one output in the requested format that equals loading the input, applying the requested operations in their documented order and saving it; inputs are not changed and failures are reported per file.',
     ['configurations', 'inputs'], 'all combinations of input kind, output kind, target format and options',
     'The command line has no tests.',
     ['surfalize/cli.py'], [('command definitions', 'surfalize/cli.py')], [], ['files written, exit status, output'])

prop('D01', 'What is displayed is the topography',
     'A display shows the topography it was requested for as it is at that time: every height (or point of a selected layer) at its position on axes in units of length, frequency or material ratio, non-measured points in the requested colour and nowhere else, the range of colours, crops, bars, triangles and curves following from the heights and the requested limits. '
     'It is drawn into the given axes or into one new figure, saved where requested, and changes neither the topography nor pictures drawn before nor any other figure. Displays of analyses that need every point refuse a topography with non-measured points.',
     ['inputs', 'histories'], 'all topographies, all display options, all interleavings of displays and edits',
     'The tests contain no display at all.',
     ['surfalize/surface.py', 'surfalize/base.py', 'surfalize/profile.py', 'surfalize/plotting.py', 'surfalize/fourier.py', 'surfalize/autocorrelation.py', 'surfalize/abbottfirestone.py'],
     [('displays of surfaces', 'Surface.plot_2d, plot_3d, plot_autocorrelation, plot_fourier_transform, plot_angular_power_spectrum'), ('material ratio curve and parameter study', 'AbbottFirestoneCurve.plot, visual_parameter_study'), ('displays of profiles', 'Profile.plot_2d'),
      ('crop to a range of frequencies', 'FourierTransform.plot')], [('current figure', 'figure and axes into which is drawn', 'matplotlib.pyplot')], ['artists of the figures, mesh given to the renderer, saved pictures'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
for p in P:
    assert len(p['title']) <= 80, p['title']
out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
print(len(P), 'properties')
