#!/opt/venv/bin/python
"""run.py check <PROPERTY> [--tier quick|thorough] | replay <file>"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('SYMRUN_CHILD') != '1':
    env = dict(os.environ, PYTHONHASHSEED='0', SYMRUN_CHILD='1',
               PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', TZ='UTC',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
               NUMEXPR_MAX_THREADS='1', PYTHONWARNINGS='ignore')
    env.pop('PYTHONPATH', None)
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path[0:0] = [REPO, os.path.join(VERIF, 'stubs'), VERIF]
# z3 lives in the verification venv; everything else must come from /opt/venv
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(5000)

import warnings
warnings.simplefilter('ignore')


def main(argv):
    from symrun import runner
    import nilmtk
    import importlib
    # the stand-ins are installed in modules which are already loaded
    for m in ('disaggregate', 'losses', 'api', 'elecmeter', 'metergroup', 'dataset', 'building', 'appliance',
              'plots', 'node', 'utils', 'electric', 'preprocessing', 'stats', 'feature_detectors.steady_states',
              'feature_detectors.cluster', 'datastore', 'consts', 'measurement', 'hashable', 'docinherit', 'exceptions', 'metrics', 'legacy.disaggregate'):
        try:
            importlib.import_module('nilmtk.' + m)
        except Exception:
            pass
    assert os.path.dirname(os.path.abspath(nilmtk.__file__)) == os.path.join(REPO, 'nilmtk')
    if argv[0] == 'replay':
        return runner.replay(argv[1])
    if argv[0] == 'idioms':
        from symrun import idioms
        return len(idioms.main())
    if argv[0] == 'selftest':
        from symrun import selftest
        return selftest.main()
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    jobs = int(argv[argv.index('--jobs') + 1]) if '--jobs' in argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return runner.run_property(prop, tier, seed, jobs)


if __name__ == '__main__':
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix='symrun-')
    os.environ['TMPDIR'] = tempfile.tempdir = scratch
    try:
        rc = main(sys.argv[1:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
