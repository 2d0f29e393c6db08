"""Performing one operation of a simulated run, with at most one fault in it."""
import warnings

from dst import seams, trace
from dst.core import fork_call

ASYNC = ('KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'SystemExit', 'SimFault')
SEAM_EXC = ('MemoryError', 'FloatingPointError', 'OSError', 'SimFault', 'KeyboardInterrupt', 'ValueError')


class Outcome:
    def __init__(self):
        self.ok = False
        self.value = None
        self.exc = None        # exception type name
        self.msg = ''
        self.injected = False
        self.fired = []        # labels of the faults that really happened
        self.site = None       # where an asynchronous fault hit
        self.budget = False
        self.env = None
        self.after = None      # observation after an undisturbed dry run (asynchronous faults only)
        self.warned = []
        self.bases = []

    def brief(self):
        if self.ok:
            return 'ok'
        return ('budget' if self.budget else '%s%s' % (self.exc, '*' if self.injected else ''))

    def log(self):
        s = self.brief()
        if self.fired:
            s += ' [' + ', '.join(self.fired) + ']'
        if not self.ok and not self.injected and self.msg:
            s += ' ' + self.msg[:100]
        return s


def random_fault(rng, seam_choices, async_p=0.5):
    """A fault description for one operation."""
    if rng.random() < async_p:
        return {'kind': 'async', 'exc': rng.choice(ASYNC), 'u': round(rng.random(), 6), 'v': round(rng.random(), 6),
                'mode': 'site' if rng.random() < 0.6 else 'time'}
    f = dict(rng.choice(seam_choices)(rng))
    f['kind'] = f.get('kind', 'raise')
    return {'kind': 'seam', 'f': f}


def seam_spline(rng):
    return {'seam': 'spline', 'kind': 'raise', 'nth': rng.randint(1, 10), 'exc': rng.choice(SEAM_EXC)}


def seam_interp(rng):
    return {'seam': 'interp1d', 'kind': 'raise', 'nth': 1, 'exc': rng.choice(SEAM_EXC)}


def seam_root(rng):
    k = rng.choice(('raise', 'raise_mid', 'maxiter'))
    f = {'seam': 'root_scalar', 'kind': k, 'nth': 1, 'exc': rng.choice(SEAM_EXC)}
    if k == 'raise_mid':
        f['at'] = rng.randint(1, 8)
    if k == 'maxiter':
        f['m'] = rng.randint(1, 3)
    return f


def seam_ivp(rng):
    k = rng.choice(('raise', 'raise_mid', 'nan_from'))
    f = {'seam': 'solve_ivp', 'kind': k, 'nth': rng.choice((1, 1, 1, 2, 3, 5)), 'exc': rng.choice(SEAM_EXC)}
    if k != 'raise':
        f['at'] = int(10 ** rng.uniform(1.1, 3.3))
    return f


def seam_oscode(rng):
    return {'seam': 'oscode', 'kind': rng.choice(('raise', 'nan')), 'nth': rng.randint(1, 8),
            'exc': rng.choice(SEAM_EXC)}


def seam_quad(rng):
    return {'seam': 'quad', 'kind': 'raise', 'nth': rng.randint(1, 3), 'exc': rng.choice(SEAM_EXC)}


def _go(fn, werr):
    if werr:
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            return fn()
    return fn()


def _dry(fn, werr, budget, observe, rhs_budget):
    env = seams.Env(rhs_budget=rhs_budget)
    counter = trace.Counter()
    try:
        with seams.use(env), counter:
            _go(fn, werr)
    except seams.SimBudget:
        pass
    except BaseException:
        pass
    return counter.total, list(counter.sites.items()), (observe() if observe is not None else None)


def perform(fn, fault=None, werr=False, rhs_budget=400000, observe=None, call_budget=4000, capture=False):
    """Run fn() under the simulation environment with `fault`."""
    out = Outcome()
    specs, interrupt = [], None
    if fault is not None and fault['kind'] == 'seam':
        specs = [fault['f']]
    elif fault is not None:
        total, sites, out.after = fork_call(lambda: _dry(fn, werr, None, observe, rhs_budget))
        c = trace.Counter()
        c.total, c.sites = total, dict(sites)
        point = trace.resolve(c, fault['u'], fault['v'], fault['mode'])
        if point is not None:
            interrupt = trace.Interrupt(lambda: seams.make_exc(fault['exc']), *point)
    env = seams.Env(faults=specs, rhs_budget=rhs_budget, call_budget=call_budget)
    if capture:
        env.capture = []
    out.env = env
    try:
        with seams.use(env):
            if interrupt is not None:
                with interrupt:
                    out.value = _go(fn, werr)
            else:
                out.value = _go(fn, werr)
        out.ok = True
    except seams.SimBudget as e:
        out.budget, out.exc, out.msg = True, 'SimBudget', str(e)
    except BaseException as e:
        out.exc, out.msg, out.injected = type(e).__name__, ' '.join(str(e).split())[:300], seams.is_injected(e)
        out.bases = [c.__name__ for c in type(e).__mro__]
    out.fired = list(env.fired)
    if interrupt is not None and interrupt.fired:
        out.site = interrupt.fired
        out.fired.append('async:%s@%s' % (fault['exc'], interrupt.fired))
    return out
