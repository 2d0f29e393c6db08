"""Shared by the checks."""
from dst import compare, core, seams

REAL = ['primpy (all modules reached by the run, from /repo working tree)', 'scipy integrators, root finders, splines',
        'pyoscode', 'numpy']
ASSUMPTIONS = [
    'the numerical routines of scipy, numpy and pyoscode are deterministic for identical inputs in one process image',
    'interrupts are delivered at source-line granularity, never inside except/finally bodies, with/try headers or what these call',
]


def result(verdict, trace, kind='', message='', fired=(), num=None, nontrivial=True, states=()):
    return {'verdict': verdict, 'kind': kind, 'message': message, 'trace': list(trace),
            'stats': {'fired': list(fired), 'num': num or {}, 'nontrivial': nontrivial, 'states': list(states)}}


def guarded(fn):
    """fn() -> ('ok', value) or ('exc', type name); budgets apply."""
    try:
        with seams.use(seams.Env(rhs_budget=1000000)):
            return ('ok', fn())
    except seams.SimBudget as e:
        return ('budget', str(e))
    except BaseException as e:
        return ('exc', type(e).__name__ + ': ' + ' '.join(str(e).split())[:120])


def efolds(sol):
    try:
        return float(sol._N[-1] - sol._N[0])
    except Exception:
        return 0.


_ = (compare, core)
