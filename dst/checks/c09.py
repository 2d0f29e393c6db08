"""C09: the library leaves process-wide settings as it found them."""
import copy
import sys

import numpy as np

from dst import calops, faults, models, sched, seams, tasks
from dst.core import fork_call
from dst.checks.common import ASSUMPTIONS, REAL, result

PROP = 'C09'
QUICK_S, THOROUGH_S, QUICK_RUNS = 110., 700., 5000
LISTS = ('ops', 'init')
NONEMPTY = ('ops',)
STUBS = ['for overlapping operations: the operating system\'s thread scheduler is replaced by the simulator\'s',
         'cobaya: the real base class; its samplers are replaced by the simulated sequence of points']
RULE = ('a run = a randomised initial setting of everything global, then 1-5 operations (solve, shoot, calibrate, spectral-index search, look-up, modes, '
        'potential look-ups, conformal time, sampler point, initialisation of a sampler component, import of all modules), verbose or quiet, most with a fault '
        'or interrupt, or 2-3 threads of quiet operations under a controlled scheduler; the settings are compared after every operation; non-trivial = at least '
        'one fault fired, or two preemptions in the middle of operations')
STATE_MEASURE = 'distinct (operation, initial settings, fault, outcome) tuples'
INIT = ('np_raise', 'np_ignore', 'np_over', 'filters_default', 'filters_primpy', 'filters_always', 'filters_error', 'filters_reset', 'print', 'seed',
        'decimal', 'recursion', 'scipy_err', 'env')
POINTS = [
    ('StarobinskySlowRollPPS', {}), ('QuadraticSlowRollPPS', {}), ('LinearSlowRollPPS', {}), ('MonomialSlowRollPPS', {'p': 1.5}),
    ('NaturalSlowRollPPS', {'phi0': 20.}), ('TmodelSlowRollPPS', {'p': 2., 'alpha': 1.}), ('RadionGauge2SlowRollPPS', {'alpha': 5.}),
]


def gen_point(rng):
    cls, kw = rng.choice(POINTS)
    kw = dict(kw, A_s=calops.r(rng.uniform(1.5e-9, 2.5e-9)))
    x = rng.random()
    if x < 0.4:
        kw['N_star'] = calops.r(rng.uniform(40, 60))
        if rng.random() < 0.5:
            kw['rho_reh_GeV'] = calops.r(10 ** rng.uniform(3, 17))
    elif x < 0.7:
        kw['n_s'] = calops.r(rng.uniform(0.955, 0.98))
    else:
        kw['w_reh'], kw['rho_reh_GeV'] = rng.choice((0., 0.2, 0.6)), calops.r(10 ** rng.uniform(5, 17))
    return cls, kw


def gen(rng, tier):
    world = tasks.gen_world(rng)
    scn = {'world': world, 'init': rng.sample(INIT, rng.choice((0, 1, 2, 3)))}
    if rng.random() < 0.3:
        kinds = tuple(rng.sample(('solve', 'lookup', 'pot', 'cal', 'eta', 'modes', 'setns', 'shoot', 'shoot'), 2))
        threads, heavy = [], 0
        for _ in range(rng.choice((2, 2, 3))):
            t = {'tasks': [tasks.gen_task(rng, world, kinds) for _ in range(rng.choice((1, 1, 2)))]}
            for j, x in enumerate(t['tasks']):
                heavy += x['do'] in ('shoot', 'setns')
                if heavy > 2 and x['do'] in ('shoot', 'setns'):
                    t['tasks'][j] = tasks.gen_task(rng, world, ('lookup', 'pot', 'cal'))
            threads.append(t)
        if rng.random() < 0.5:
            t = rng.choice(threads)
            t['fault'] = rng.choice(({'exc': rng.choice(faults.ASYNC), 'nth': int(10 ** rng.uniform(0.5, 4.5))},
                                     {'f': rng.choice((faults.seam_ivp, faults.seam_spline, faults.seam_oscode, faults.seam_root, faults.seam_interp))(rng)}))
        scn['ops'] = [{'op': 'threads', 'threads': threads, 'plan': sched.gen_plan(rng, rng.choice((4, 15, 60, 200)))}]
        return scn
    ops = []
    for _ in range(rng.choice((1, 2, 3, 4)) if tier == 'quick' else rng.choice((2, 4, 7, 10))):
        x = rng.random()
        if x < 0.08:
            op = {'op': 'import', 'order': rng.random()}
        elif x < 0.12:
            op = {'op': 'init_point', 'cls': rng.choice(POINTS)[0]}
        elif x < 0.22:
            cls, kw = gen_point(rng)
            op = {'op': 'point', 'cls': cls, 'kw': kw}
        else:
            t = tasks.gen_task(rng, world)
            if t['do'] in ('shoot', 'solve') and rng.random() < 0.5:
                t['verbose'] = True
            op = {'op': 'task', 'task': t}
        if rng.random() < 0.75 and op['op'] != 'init_point':
            if op['op'] == 'import' or rng.random() < 0.6:
                op['fault'] = {'kind': 'async', 'exc': rng.choice(faults.ASYNC), 'u': round(rng.random(), 6), 'v': round(rng.random(), 6),
                               'mode': 'site' if rng.random() < 0.75 else 'time'}
            else:
                op['fault'] = {'kind': 'seam', 'f': rng.choice((faults.seam_ivp, faults.seam_ivp, faults.seam_spline, faults.seam_oscode, faults.seam_root,
                                                               faults.seam_interp, faults.seam_quad))(rng)}
        ops.append(op)
    scn['ops'] = ops
    return scn


def shrink(scn):
    for i, op in enumerate(scn['ops']):
        for key in ('plan', 'threads'):
            seq = op.get(key, ())
            size = len(seq) // 2
            while size >= 1:
                for start in range(0, len(seq), size):
                    if key == 'plan' or len(seq) > size:
                        c = copy.deepcopy(scn)
                        del c['ops'][i][key][start:start + size]
                        yield c
                size //= 2
        for j, t in enumerate(op.get('threads', ())):
            if len(t['tasks']) > 1:
                for n in range(len(t['tasks'])):
                    c = copy.deepcopy(scn)
                    c['ops'][i]['threads'][j]['tasks'].pop(n)
                    yield c
            if 'fault' in t:
                c = copy.deepcopy(scn)
                c['ops'][i]['threads'][j].pop('fault')
                yield c


def warm():
    import cobaya_wrapper.slowroll_pps  # noqa: F401


# ------------------------------------------------------------------------------------------------------------ settings
def apply_init(names):
    import decimal
    import os
    import random
    import warnings
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    for n in names:
        if n == 'np_raise':
            np.seterr(divide='raise', invalid='warn')
        elif n == 'np_ignore':
            np.seterr(all='ignore')
        elif n == 'np_over':
            np.seterr(over='ignore', under='warn')
        elif n == 'filters_default':
            warnings.simplefilter('default')
        elif n == 'filters_primpy':
            from primpy.exceptionhandling import PrimpyWarning
            warnings.filterwarnings('error', category=PrimpyWarning)
        elif n == 'filters_always':
            warnings.filterwarnings('always', category=UserWarning)
            warnings.filterwarnings('once', message='foo')
        elif n == 'filters_error':
            warnings.filterwarnings('error', category=DeprecationWarning)
        elif n == 'filters_reset':
            warnings.resetwarnings()
        elif n == 'print':
            np.set_printoptions(precision=3, threshold=50, suppress=True)
        elif n == 'seed':
            random.seed(99)
            np.random.seed(99)
            np.random.rand(3)
            np.random.randn()
        elif n == 'decimal':
            decimal.getcontext().prec = 17
        elif n == 'recursion':
            sys.setrecursionlimit(1777)
        elif n == 'scipy_err':
            import scipy.special
            scipy.special.seterr(loss='warn')
        elif n == 'env':
            os.environ['DST_MARK'] = 'x'


def snapshot():
    import contextvars
    import decimal
    import gc
    import locale
    import logging
    import os
    import random
    import signal
    import threading
    import warnings
    import scipy.special
    s = {}
    s['warnings.filters'] = repr([(f[0], getattr(f[1], 'pattern', f[1]), f[2].__module__ + '.' + f[2].__name__, getattr(f[3], 'pattern', f[3]), f[4])
                                  for f in warnings.filters])
    s['warnings hooks'] = repr([id(warnings.showwarning), id(warnings.formatwarning), id(warnings.warn), id(warnings._showwarnmsg_impl)])
    s['numpy.geterr'] = repr(sorted(np.geterr().items()))
    s['numpy.geterrcall'] = repr(np.geterrcall())
    s['numpy.printoptions'] = repr(sorted(np.get_printoptions().items(), key=str))
    s['numpy.bufsize'] = repr(np.getbufsize())
    st = np.random.get_state()
    s['numpy.random'] = repr((st[0], st[1].tobytes(), st[2:]))
    s['random'] = repr(random.getstate())
    s['scipy.special.geterr'] = repr(sorted(scipy.special.geterr().items()))
    s['decimal'] = repr(decimal.getcontext())
    s['recursion limit'] = repr(sys.getrecursionlimit())
    s['switch interval'] = repr(sys.getswitchinterval())
    s['streams and hooks'] = repr([id(x) for x in (sys.stdout, sys.stderr, sys.stdin, sys.excepthook, sys.displayhook, sys.unraisablehook,
                                                  threading.excepthook, print, open)])
    s['cwd'] = os.getcwd()
    s['environment'] = repr(sorted(os.environ.items()))
    s['umask'] = repr(_umask())
    s['locale'] = repr(locale.setlocale(locale.LC_ALL))
    s['signals'] = repr([(n, str(signal.getsignal(n))) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGUSR1)])
    s['gc'] = repr((gc.isenabled(), gc.get_threshold(), gc.get_debug()))
    s['logging'] = repr((logging.root.level, [type(h).__name__ for h in logging.root.handlers], logging.root.manager.disable))
    s['profile'] = repr(sys.getprofile())
    s['threads'] = repr(threading.active_count())
    s['sys.path'] = repr(sys.path)
    s['numpy.legacy'] = repr(id(np.errstate))
    _ = contextvars
    return s


def _umask():
    import os
    m = os.umask(0o22)
    os.umask(m)
    return m


def changed(a, b):
    return ['%s: %s -> %s' % (k, a[k][:300], b[k][:300]) for k in a if a[k] != b[k]]


# ------------------------------------------------------------------------------------------------------------ operations
def _reimport(u):
    """All modules of the library executed again, in some order."""
    import importlib
    names = sorted(n for n in sys.modules if n.split('.')[0] in ('primpy', 'cobaya_wrapper', 'powerlaw_pps'))
    saved = {n: sys.modules.pop(n) for n in names}
    try:
        k = int(u * len(names)) % max(len(names), 1)
        for n in names[k:] + names[:k]:
            importlib.import_module(n)
    finally:
        for n in [n for n in sys.modules if n.split('.')[0] in ('primpy', 'cobaya_wrapper', 'powerlaw_pps')]:
            del sys.modules[n]
        sys.modules.update(saved)


def _task(world, t):
    if t.get('verbose'):
        w = copy.copy(world)
        w.cfg = dict(world.cfg, verbose=True, ic_verbose=True)
        w.eq = models.make_equations(w.cfg, w.pot)
        w.ev = [models.make_event(w.eq, e) for e in w.cfg['events']]
        return tasks.do(w, t)
    return tasks.do(world, t)


def _thunk(world, op, comps):
    if op['op'] == 'task':
        return lambda: _task(world, op['task'])
    if op['op'] == 'import':
        return lambda: _reimport(op['order'])
    import cobaya_wrapper.slowroll_pps as sp
    if op['op'] == 'init_point':
        return lambda: getattr(sp, op['cls'])({})
    if op['cls'] not in comps:
        comps[op['cls']] = getattr(sp, op['cls'])({})
    return lambda: comps[op['cls']].calculate({}, True, **op['kw'])


def _threads(world, op, log, fired):
    s = sched.Scheduler(op['plan'])
    envs, ints = [], {}
    for i, t in enumerate(op['threads']):
        f = t.get('fault', {})
        envs.append(seams.Env(faults=[f['f']] if 'f' in f else (), rhs_budget=1000000))
        if 'exc' in f:
            ints[i] = {'nth': f['nth'], 'key': None, 'exc': f['exc']}

    def body(rearm, t):
        for x in t['tasks']:
            tasks.attempt(world, x)
            rearm()
    res = s.run([lambda rearm, t=t: body(rearm, t) for t in op['threads']], envs, ints)
    for r in res:
        fired += r.fired
    log.append('%d lines, switches %s' % (s.total, ' '.join(s.switches[:60])))
    log += ['thread %d: %s' % (i, r.brief()) for i, r in enumerate(res)]
    return len([x for x in s.switches if not x.endswith('@end')]), '/'.join(r.brief() for r in res)


def _history(scn):
    try:
        world = tasks.World(scn['world'])
    except Exception as e:
        return {'skip': 'no world: %s' % type(e).__name__}
    log, fired, states, bad, pre = [], [], [], None, 0
    comps = {}
    for op in scn['ops']:
        if op['op'] == 'point':
            _thunk(world, op, comps)
    apply_init(scn['init'])
    ref = snapshot()
    for j, op in enumerate(scn['ops']):
        if op['op'] == 'threads':
            n, brief = _threads(world, op, log, fired)
            pre += n
        else:
            o = faults.perform(_thunk(world, op, comps), op.get('fault'), rhs_budget=1000000)
            fired += o.fired
            brief = o.brief()
            log.append('op %d: %s' % (j + 1, o.log()))
        name = op['op'] if op['op'] != 'task' else op['task']['do'] + ('/verbose' if op['task'].get('verbose') else '')
        states.append('%s/%s/%s' % (name, ','.join(sorted(scn['init'])), brief))
        d = changed(ref, snapshot())
        if d:
            bad = ('changed', 'after operation %d (%s, %s): %s' % (j + 1, name, brief, '; '.join(d[:2])))
            break
    return {'log': log, 'fired': fired, 'states': states, 'bad': bad, 'pre': pre}


def run(scn):
    trace = ['world %r' % (scn['world'],), 'settings %r' % (scn['init'],)] + ['op %r' % (op,) for op in scn['ops']]
    h = fork_call(lambda: _history(scn))
    if 'skip' in h:
        return result('inconclusive', trace + [h['skip']], nontrivial=False)
    trace += h['log']
    kw = dict(fired=h['fired'], num={'operations': len(h['states']), 'preemptions': h['pre']}, states=h['states'],
              nontrivial=bool(h['fired']) or h['pre'] >= 2)
    if h['bad']:
        return result('violation', trace, h['bad'][0], h['bad'][1], **kw)
    return result('ok', trace, **kw)


_ = (ASSUMPTIONS, REAL)
