"""Writes /verif/MANIFEST.json for the checks registered in harness/run.py."""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
checks = re.findall(r"'([A-Z]\d\d)': '", (root / 'harness' / 'run.py').read_text())
TRACE = 'TLA+ specification, programs generated by TLC, recorded traces of the implementation validated by TLC'
REPLAY = 'TLA+ specification, cases enumerated and simulated by TLC with their expected outcome, replayed on the implementation'
DESIGN = 'TLA+ design model checked exhaustively with TLC, behaviours replayed on the implementation, recorded traces validated by TLC'
TABLE = {
    'T01': (TRACE, 'Histories of 9 calls over 3 live objects (grids up to 7 x 8); every result of every live object after every call is compared with a fresh object; all parameters with argument variants.'),
    'T02': (TRACE, 'Heights, spacing and extents of all live objects after every call; every in-place call also run as copying call on a twin.'),
    'T03': (TRACE, 'Exact grids; boxes on and off the grid in pixels and micrometres, zooms, slices with positive and negative strides, degenerate boxes.'),
    'T04': (TRACE, 'Random positions of missing points; all transforms, statistics, filling methods, refusing operations and guarded parameters.'),
    'T05': (TRACE, 'Exact integer semantics of transforms and arithmetic on half-unit lattices incl. ties, constant grids and single extremes.'),
    'T06': (REPLAY, 'All pairs of small surfaces with values around the tolerance, missing points, shapes and spacings.'),
    'T07': (TRACE, 'Remainder and trend recorded to 1/1000; orthogonality, polynomiality and additivity are integer relations judged by TLC.'),
    'T08': (TRACE, 'Filter results recorded to 1/1000; the relations between results and the transmission of waves are judged by TLC.'),
    'T09': (REPLAY, 'Smooth topographies of random shape and spacing turned by random angles (0.1 degree, all quadrants), each point compared with the turned topography.'),
    'P01': (TRACE, 'All positions (grid points, between, borders, outside) x averaging counts x distances on small grids; oblique lines between all nodes.'),
    'H01': (REPLAY, 'All grids of shapes 2x2, 2x3, 3x2 and profiles up to 6 points over 3 heights, plus random grids; expected values are exact terms in the specification.'),
    'H02': (REPLAY, 'Sorted heights up to 12 points; quantile curve, window of smallest slope and areas exact in the specification, tolerance of the 10000 class sampling.'),
    'H03': (REPLAY, 'The group of transformations and its law on 70 parameters (all chains of up to 3 transformations checked to agree with the normal form); random chains replayed on random surfaces and profiles.'),
    'H04': (REPLAY, 'Waves, grooves, cells, steps and autocorrelations known by construction, the claims are exact terms in the specification.'),
    'F01': (REPLAY, 'All combinations of format, option, shape, spacing, height range, missing pattern, dtype and target.'),
    'F02': (REPLAY, 'All combinations of suffix, explicit format, content and path or buffer.'),
    'F03': (TRACE, 'Sequences of seek, save, load and failing load on one buffer.'),
    'F04': (REPLAY, 'Bytes of synthetic instrument files written independently of the readers from the layout in the specification.'),
    'F07': (REPLAY, 'Texts, numbers and dates in the headers of synthetic instrument files in several encodings, each compared with the metadata.'),
    'F08': (DESIGN, 'Naming of extracted measurements model checked, two wrong designs refuted; archives with up to five measurements, repeated names, Windows and other paths, escapes and other entries, extracted and compared byte for byte.'),
    'F05': (REPLAY, 'All pairs and triples of all spellings of the length units.'),
    'F06': (REPLAY, 'Every truncation point of files of every format and of every writer, loaded from path and buffer; failing saves over absent, foreign and valid files.'),
    'B01': (TRACE, 'Random programs of up to 7 steps (21 operations, 25 parameters with arguments, 11 custom functions) and repeated executions over up to 4 files; every cell of the table against the value after the operations it has to see.'),
    'B02': (DESIGN, 'Pool of workers model checked for up to 4 files (5 thorough) with and without shared file objects, five wrong designs refuted; all schedules of 2 files x 5 events and a sample of 2 x 6 and 3 x 3 replayed with gates; random programs on 0 to 20 files incl. equal names, shared buffers and duplicates.'),
    'B03': (TRACE, 'Random programs with failing (file, parameter) pairs of three error kinds, both error, ordering and execution modes.'),
    'B04': (TRACE, 'Random registration sequences of built-in, custom-named and custom-function parameters, with every refusal and every column judged.'),
    'B05': (REPLAY, 'All templates of up to 4 tokens behind a prefix (6 thorough), random templates of up to 3 fields with regular expression characters in all texts, names built from them or nearly; the search semantics is model checked against the readings of a name.'),
    'B06': (TRACE, 'Random directories (letter case, suffix look-alikes, directories named like files), chains of adding actions, additional tables, exported tables read back.'),
    'D01': (TRACE, 'Random topographies, waves and profiles displayed with random options between edits; images, extents, limits, bars, polygons, curves, spectra and meshes are judged, as are the topography, older pictures and other figures.'),
    'C01': (REPLAY, 'Random directories and calls of convert, report and show with all options; outputs, reports and what is plotted compared with the plan of the specification; the naming of outputs is model checked and its naive variant refuted.'),
}
props = [json.loads(l)['id'] for l in (root / 'properties.jsonl').read_text().splitlines()]
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'checks': [{'property': c, 'quick_cmd': f'bash check.sh {c}', 'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {c}',
                 'technique': TABLE[c][0], 'level': 'model_checking', 'level_note': TABLE[c][1]} for c in props if c in checks],
     'not_applicable': [{'property': c, 'reason': 'check not built yet'} for c in props if c not in checks]}
(root / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
