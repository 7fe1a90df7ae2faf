"""Entry point: run.py <property id>. Exit 0: held, 1: VIOLATION line printed, 2: the check itself failed."""
import importlib
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '/repo')
warnings.simplefilter('ignore')

CHECKS = {
    'B05': 'templates',
    'B06': 'inputs',
    'D01': 'displays',
    'C01': 'commandline',
    'F03': 'buffers',
    'B01': 'batches',
    'B02': 'batches',
    'B03': 'batches',
    'B04': 'batches',
    'F06': 'damage',
    'F02': 'dispatch',
    'F04': 'instruments',
    'F07': 'instruments',
    'F08': 'archive',
    'F01': 'roundtrip',
    'F05': 'units',
    'P01': 'extract',
    'H02': 'functional',
    'H04': 'waves',
    'T09': 'rotation',
    'H03': 'scaling',
    'T08': 'filt',
    'T07': 'detrend',
    'T06': 'equality',
    'H01': 'values',
    'T01': 'topo', 'T02': 'topo', 'T03': 'topo', 'T04': 'topo', 'T05': 'topo',
}


def incomplete(pid, x):
    """
    What was found before a check broke down counts. An error that comes out of the implementation where the unchanged
    one raises none is a finding, too; anything else means that the check gives no answer.
    """
    import lib
    rep = lib.Report.last
    text = ''.join(traceback.format_exception(x))
    if rep is not None and not isinstance(x, (lib.MachineryError, OSError, MemoryError, ImportError)):
        import surfalize
        if f'File "{os.path.dirname(os.path.abspath(surfalize.__file__))}{os.sep}' in text and 'MachineryError' not in text:
            rep.violation(f'{pid}:unexpected_error', {'error': repr(x)[:300], 'traceback': text[-1500:]})
    try:
        if rep is not None and rep.violations:
            return rep.finish()
    except Exception:
        traceback.print_exc()
    print(f'ERROR property={pid}: the check could not be completed')
    return 2


def main():
    pid = sys.argv[1]
    import lib
    try:
        os.chdir(os.environ.get('VERIF_SCRATCH', '/tmp'))
        import surfalize
        if not os.path.abspath(surfalize.__file__).startswith('/repo/surfalize/'):
            raise lib.MachineryError('surfalize is not imported from /repo: ' + surfalize.__file__)
        mod = importlib.import_module(CHECKS[pid])
        rep = mod.check(pid)
        code = rep.finish()
    except Exception as x:
        traceback.print_exc()
        code = incomplete(pid, x)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
