"""Process set-up: environment, seams, and import of the code under test from /repo's working tree.

Nothing here (or anywhere in this package) runs code of the library while the process is still the pristine
"zygote": every simulated run happens in a forked child, so no run can leave anything behind for the next one.
"""
import os
import sys

REPO = os.environ.get('DST_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
ENV = {
    'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1', 'MPLBACKEND': 'Agg', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
}
CLEAR = ('PYTHONPATH', 'PYTHONWARNINGS', 'PYTHONSTARTUP', 'MALLOC_PERTURB_', 'GLIBC_TUNABLES', 'LD_PRELOAD')


def reexec():
    """Restart under the fixed environment (hash seed, single-threaded BLAS, the venv's interpreter)."""
    want = dict(ENV)
    want['PYTHONHASHSEED'] = os.environ.get('DST_HASHSEED', '0')
    ok = all(os.environ.get(k) == v for k, v in want.items()) and not any(k in os.environ for k in CLEAR)
    if ok and os.path.realpath(sys.prefix) == os.path.realpath('/opt/venv'):
        return
    if os.environ.get('DST_REEXEC') == '1':
        return
    env = {k: v for k, v in os.environ.items() if k not in CLEAR}
    env.update(want)
    env['DST_REEXEC'] = '1'
    os.execve(PYTHON, [PYTHON, '-B', '-W', 'ignore'] + sys.argv, env)


_booted = False


def boot():
    """Install the seams, then import the library from the working tree."""
    global _booted
    if _booted:
        return
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    from dst import seams
    seams.install()
    import primpy
    where = os.path.realpath(os.path.dirname(primpy.__file__))
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('primpy imported from %s, not from %s' % (where, REPO))
    import primpy.potentials, primpy.solver, primpy.initialconditions, primpy.events  # noqa: E401,F401
    import primpy.time.inflation, primpy.efolds.inflation, primpy.oscode_solver, primpy.bigbang  # noqa: E401,F401
    import primpy.exceptionhandling, primpy.parameters, primpy.units, primpy.reheating  # noqa: E401,F401
    from dst import trace
    trace.prepare(REPO)
    _booted = True
