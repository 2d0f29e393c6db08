"""Seams: every call the library makes into the numerical routines underneath goes through here.

The wrappers replace the routines in scipy's and pyoscode's own namespaces before the library is imported, so it does
not matter how the library imports or calls them.  With no simulation environment active (``current() is None``) a
wrapper only forwards the call.
"""
import math
import threading

import numpy as np

_local = threading.local()


class SimFault(Exception):
    """A generic injected error."""


class SimBudget(BaseException):
    """The deterministic step budget of a simulated run is exhausted."""


EXC = {
    'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'FloatingPointError': FloatingPointError,
    'OSError': OSError, 'SimFault': SimFault, 'ValueError': ValueError, 'SystemExit': SystemExit,
    'RecursionError': RecursionError,
}


class Injected:
    """Marks exceptions that the simulator raised, so that a check can tell them from the library's own."""
    tag = 'dst-injected'


def make_exc(name):
    e = EXC[name]('dst-injected')
    return e


def is_injected(e):
    return any(a == 'dst-injected' for a in getattr(e, 'args', ()))


class Env:
    """Per-operation simulation environment: faults to inject, counters, budgets, log."""

    def __init__(self, faults=(), rhs_budget=2000000, call_budget=4000):
        self.faults = list(faults or ())
        self.calls = {}
        self.fired = []
        self.rhs = 0
        self.rhs_budget = rhs_budget
        self.call_budget = call_budget
        self.ivp = []        # one record per integration: [x0, x_end_reached, status]
        self.capture = None  # optional list receiving copies of raw integrator results
        self.log = []

    def hit(self, seam):
        n = self.calls.get(seam, 0) + 1
        self.calls[seam] = n
        if n > self.call_budget:
            raise SimBudget(seam)
        for f in self.faults:
            if f.get('seam') == seam and (f['nth'] == n or (f.get('sticky') and n >= f['nth'])):
                return f
        return None

    def fire(self, f, site=''):
        self.fired.append('%s:%s%s' % (f['seam'], f['kind'], site and '@' + site))

    def spend(self, n=1):
        self.rhs += n
        if self.rhs > self.rhs_budget:
            raise SimBudget('rhs')


def current():
    return getattr(_local, 'env', None)


def activate(env):
    _local.env = env


class use:
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.prev = current()
        activate(self.env)
        return self.env

    def __exit__(self, *a):
        activate(self.prev)


# --------------------------------------------------------------------------------------------------------------
real = {}


def _solve_ivp(fun, t_span, y0, *args, **kwargs):
    env = current()
    if env is None:
        return real['solve_ivp'](fun, t_span, y0, *args, **kwargs)
    f = env.hit('solve_ivp')
    if f is not None and f['kind'] == 'raise':
        env.fire(f)
        raise make_exc(f['exc'])
    state = {'n': 0, 'fired': False}
    skew = 0.
    if f is not None and f['kind'] == 'skew':
        # an integrator that is off by a bit, every time by another one
        env.fire(f)
        skew = f['amp'] * math.sin(12.9898 * env.calls['solve_ivp'])

    def rhs(x, y, *a):
        env.spend()
        state['n'] += 1
        if f is not None and f['kind'] in ('raise_mid', 'nan_from') and state['n'] >= f['at']:
            if not state['fired']:
                state['fired'] = True
                env.fire(f)
            if f['kind'] == 'raise_mid':
                raise make_exc(f['exc'])
            return np.full_like(np.asarray(y, dtype=float), np.nan)
        if skew:
            dy = np.array(fun(x, y, *a), dtype=float)
            dy[0] *= 1 + skew
            return dy
        return fun(x, y, *a)

    if f is not None and f['kind'] == 'shorten':
        # the integration stops early: the range ends after a fraction of what it would have been
        env.fire(f)
        t_span = (t_span[0], f['x_end'])
        if kwargs.get('t_eval') is not None:
            te = np.asarray(kwargs['t_eval'])
            lo, hi = min(t_span), max(t_span)
            kwargs['t_eval'] = te[(te >= lo) & (te <= hi)]
    sol = real['solve_ivp'](rhs, t_span, y0, *args, **kwargs)
    try:
        env.ivp.append([float(sol.t[0]), float(sol.t[-1]), int(sol.status)] if len(sol.t) else [0., 0., int(sol.status)])
    except Exception:
        pass
    if env.capture is not None:
        env.capture.append({
            't': np.array(sol.t), 'y': np.array(sol.y), 'status': int(sol.status), 'success': bool(sol.success),
            'message': str(sol.message),
            't_events': None if sol.t_events is None else [np.array(e) for e in sol.t_events],
            'y_events': None if sol.y_events is None else [np.array(e) for e in sol.y_events],
        })
    return sol


def _root_scalar(f, *args, **kwargs):
    env = current()
    if env is None:
        return real['root_scalar'](f, *args, **kwargs)
    flt = env.hit('root_scalar')
    if flt is not None:
        if flt['kind'] == 'raise':
            env.fire(flt)
            raise make_exc(flt['exc'])
        if flt['kind'] == 'maxiter':
            env.fire(flt)
            kwargs['maxiter'] = flt['m']
    evals = [0]

    def g(*a):
        evals[0] += 1
        if evals[0] > env.call_budget:
            raise SimBudget('root_scalar')
        if flt is not None and flt['kind'] == 'raise_mid' and evals[0] == flt['at']:
            env.fire(flt)
            raise make_exc(flt['exc'])
        return f(*a)
    out = real['root_scalar'](g, *args, **kwargs)
    env.calls['root_evals'] = env.calls.get('root_evals', 0) + evals[0]
    env.log.append(('root_scalar', evals[0], bool(out.converged)))
    return out


def _simple(name):
    def wrapper(*args, **kwargs):
        env = current()
        if env is not None:
            f = env.hit(name)
            if f is not None and f['kind'] == 'raise':
                env.fire(f)
                raise make_exc(f['exc'])
        return real[name](*args, **kwargs)
    wrapper.__name__ = name
    return wrapper


def _padded(a, dtype):
    """A view of `a` inside a larger zero-filled buffer, in the type that pyoscode works with (so that it makes no copy).

    pyoscode 1.1.2 reads past the end of its frequency and damping arrays (with a weight of about zero); whatever lies
    there would be an uncontrolled input of the simulation.
    """
    a = np.asarray(a)
    buf = np.zeros(a.size + 32, dtype=dtype)
    buf[16:16 + a.size] = a
    return buf[16:16 + a.size]


def _oscode(*args, **kwargs):
    env = current()
    f = None
    if env is not None:
        f = env.hit('oscode')
        if f is not None and f['kind'] == 'raise':
            env.fire(f)
            raise make_exc(f['exc'])
    kwargs = dict(kwargs)
    for key in ('ts', 'ws', 'gs'):
        if key in kwargs and np.ndim(kwargs[key]) == 1:
            kwargs[key] = _padded(kwargs[key], float if key == 'ts' else complex)
    sol = real['oscode'](*args, **kwargs)
    if f is not None and f['kind'] == 'nan':
        env.fire(f)
        sol = dict(sol)
        sol['sol'] = [complex(np.nan, np.nan)] * len(sol['sol'])
        sol['dsol'] = [complex(np.nan, np.nan)] * len(sol['dsol'])
    elif f is not None and f['kind'] in ('nan_tail', 'short', 'empty'):
        env.fire(f)
        sol = dict(sol)
        n = len(sol['sol'])
        if f['kind'] == 'nan_tail':
            for key in ('sol', 'dsol'):
                sol[key] = list(sol[key][:n - n // 3 - 1]) + [complex(np.nan, np.nan)] * (n // 3 + 1)
        else:
            m = 0 if f['kind'] == 'empty' else max(1, n // 2)
            for key in ('sol', 'dsol', 'types', 't'):
                sol[key] = list(sol[key][:m])
    return sol


def install():
    import scipy.integrate
    import scipy.optimize
    import scipy.interpolate
    import pyoscode
    real['solve_ivp'] = scipy.integrate.solve_ivp
    real['root_scalar'] = scipy.optimize.root_scalar
    real['interp1d'] = scipy.interpolate.interp1d
    real['spline'] = scipy.interpolate.InterpolatedUnivariateSpline
    real['quad'] = scipy.integrate.quad
    real['oscode'] = pyoscode.solve
    scipy.integrate.solve_ivp = _solve_ivp
    scipy.optimize.root_scalar = _root_scalar
    scipy.interpolate.interp1d = _simple('interp1d')
    scipy.interpolate.InterpolatedUnivariateSpline = _simple('spline')
    scipy.integrate.quad = _simple('quad')
    pyoscode.solve = _oscode
