"""C15: repeated use does not accumulate."""
import array
import copy
import gc
import hashlib
import random
import sys
import types
import warnings

import numpy as np

from dst import calops, compare, faults, models, seams, tasks  # noqa: F401
from dst.core import fork_call
from dst.checks import c11
from dst.checks.common import ASSUMPTIONS, REAL, result

PROP = 'C15'
QUICK_S, THOROUGH_S, QUICK_RUNS = 120., 700., 2600
LISTS = ('steps',)
NONEMPTY = ('steps',)
STUBS = ['pyoscode.solve returns copies of its first result (the extension itself loses references with every call)', 'everything else is real; what is kept is counted through the interpreter\'s garbage collector and allocator']
RULE = ('a run = a shared calibrated background and shared model objects, then a cycle of 1-4 steps (solves, shootings, spectral-index searches, calibrations, '
        'look-ups, modes, potential look-ups, evaluations, objects made anew, an instrumented sampler point) repeated with ever-new arguments, some steps with a '
        'fault or interrupt in every repetition, everything obtained being dropped; after each repetition the shared background is calibrated the same way '
        'and all memory in use is counted; steady growth is confirmed over ten times as many repetitions; non-trivial = at least ten repetitions')
STATE_MEASURE = 'distinct (set of steps, curvature, clock, faults) tuples'
KINDS = ('solve', 'solve', 'lookup', 'lookup', 'pot', 'eta', 'evals', 'modes', 'recal', 'recal', 'recal', 'again', 'again', 'derive', 'fresh', 'shoot', 'setns', 'power', 'power', 'point')
SLOW = ('shoot', 'setns', 'point')
SEAMS = {'solve': (faults.seam_ivp, faults.seam_ivp, faults.seam_spline), 'again': (faults.seam_ivp,), 'fresh': (faults.seam_ivp, faults.seam_spline),
         'lookup': (faults.seam_spline,), 'derive': (faults.seam_spline,), 'recal': (faults.seam_spline, faults.seam_interp),
         'modes': (faults.seam_oscode,), 'eta': (faults.seam_quad,)}
FIRST = 12           # repetitions before judging
MORE = {True: 60, False: 160}


warm = c11.warm


def gen(rng, tier):
    world = tasks.gen_world(rng)
    steps = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        kind = rng.choice(KINDS)
        if kind in SLOW and (rng.random() < 0.6 or any(s['kind'] in SLOW for s in steps)):
            kind = rng.choice(('recal', 'lookup', 'solve', 'pot'))
        s = {'kind': kind}
        if kind in ('power', 'point'):
            s['comp'] = {'cls': rng.randrange(c11.N_SR) if kind == 'point' else c11.N_SR + rng.randrange(len(c11.POWER)), 'cache': 3, 'stop': rng.random() < 0.5}
        if rng.random() < 0.3 and kind not in SLOW:
            if rng.random() < 0.5 or kind not in SEAMS:
                s['fault'] = {'kind': 'async', 'exc': rng.choice(faults.ASYNC), 'mode': 'site' if rng.random() < 0.6 else 'time'}
            else:
                s['fault'] = {'kind': 'seam', 'f': rng.choice(SEAMS[kind])(rng)}
        steps.append(s)
    return {'world': world, 'steps': steps, 'seed': rng.randrange(10**6)}


def _step(world, s, rng):
    """One repetition of a step, with new arguments."""
    k = s['kind']
    cfg = world.cfg
    if k == 'recal':
        world.sol.calibrate_scale_factor(**(calops.gen_cal_curved(rng, cfg['K']) if cfg['K'] else calops.gen_cal_flat(rng, 54.)))
    elif k == 'derive':
        world.sol.derive_approx_power(**calops.gen_derive_kwargs(rng, weird=0.2))
    elif k == 'again':
        # the same initial conditions again
        from primpy.solver import solve
        solve(world.ic, events=world.ev, **models.solve_kwargs(cfg))
    elif k in ('power', 'point'):
        cls = s['comp']['cls']
        kw = c11._power_point(rng, cls) if k == 'power' else dict(c11._target(rng), **rng.choice(c11.MODELS[cls][1]))
        for _ in range(3 if k == 'power' else 1):
            c11.evaluate(world.comps[repr(s['comp'])], {'kw': kw, 'via': rng.choice(('cobaya', 'cobaya', 'direct')), 'cached': rng.random() < 0.7,
                                                        'derived': rng.random() < 0.8})
            if k == 'power':
                kw = c11._power_point(rng, cls)
    elif k == 'fresh':
        sol = models.solve_bg(dict(cfg, phi_i=cfg['phi_i'] * rng.uniform(0.99, 1.01)))
        sol.calibrate_scale_factor(**(calops.gen_cal_curved(rng, cfg['K'], 0.) if cfg['K'] else {'N_star': calops.r(rng.uniform(40, 54))}))
    else:
        tasks.do(world, tasks.gen_task(rng, {'cfg': cfg}, (k,)))


OWN = ('primpy', 'cobaya_wrapper')
SKIP = (types.ModuleType, types.CodeType, types.FrameType, types.BuiltinFunctionType)


def _own(name):
    return isinstance(name, str) and name.split('.')[0] in OWN


def reach(roots):
    """(Objects, bytes in arrays) that the library's modules and the given objects keep alive."""
    seen, todo, nbytes = set(), list(roots), 0
    todo += [m.__dict__ for n, m in sorted(sys.modules.items()) if _own(n)]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        if isinstance(o, SKIP):
            continue
        if isinstance(o, (type, types.FunctionType)):
            if not _own(o.__module__):
                continue
        elif type(o).__module__ in ('logging', 'threading', '_thread'):
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            nbytes += o.nbytes
        if isinstance(o, types.FunctionType):
            todo += [o.__closure__, o.__defaults__, o.__dict__, o.__kwdefaults__, o.__globals__ if _own(o.__globals__.get('__name__')) else None]
        else:
            todo += gc.get_referents(o)
    return len(seen), nbytes


class Meter:
    """What is kept, with nothing of the simulator's own growing meanwhile."""

    def __init__(self, n, roots):
        self.roots = roots
        self.a = {k: array.array('q', [0] * n) for k in SLOPE}
        self.n = 0

    def read(self):
        for m in list(sys.modules.values()):
            reg = getattr(m, '__warningregistry__', None)
            if reg:
                reg.clear()                      # the interpreter's own notes about distinct warnings
        gc.collect()
        self.a['blocks'][self.n] = sys.getallocatedblocks()
        self.a['tracked objects'][self.n] = len(gc.get_objects())
        self.a['objects kept by the library'][self.n], self.a['bytes in arrays kept by the library'][self.n] = reach(self.roots)
        self.n += 1


# growth per repetition that counts; the interpreter's own caches make the number of blocks unsteady
SLOPE = {'blocks': 40., 'tracked objects': 0.9, 'objects kept by the library': 0.9, 'bytes in arrays kept by the library': 7.}


def _grows(a, lo, n, per):
    """The growth per repetition, if the lowest value of each third exceeds that of the third before by at least `per` times its length."""
    m = (n - lo) // 3
    w = [min(a[lo + i * m:lo + (i + 1) * m]) for i in range(3)]
    g = min(w[1] - w[0], w[2] - w[1]) / m
    return g if g >= per else 0.


def _judge(meter, lo, n):
    return {k: g for k, g in ((k, _grows(meter.a[k], lo, n, per)) for k, per in SLOPE.items()) if g}


def _history(scn):
    warnings.simplefilter('ignore')
    try:
        world = tasks.World(scn['world'])
    except Exception as e:
        return {'skip': 'no world: %s: %s' % (type(e).__name__, str(e)[:100])}
    cal = scn['world']['cal']
    world.comps = {repr(s['comp']): c11.make(s['comp']) for s in scn['steps'] if 'comp' in s}
    for m, o in calops.DERIVE:
        for ps in 'st':
            try:
                compare.lookup(world.sol, ps, m, o)
            except Exception:
                pass
    canned, oscode = {}, seams.real['oscode']

    def stand_in(*args, **kwargs):
        n = len(kwargs.get('t_eval', ()) if kwargs.get('t_eval') is not None else ())
        if n not in canned:
            canned[n] = oscode(*args, **kwargs)
        return {k: copy.copy(v) for k, v in canned[n].items()}
    seams.real['oscode'] = stand_in
    try:
        tasks.do(world, {'do': 'modes', 'u': [1.], 'vac': ['RST']})
    except Exception:
        pass
    slow = any(s['kind'] in SLOW for s in scn['steps'])
    more = MORE[slow]
    meter = Meter(FIRST + more, [world.__dict__])
    h, fired, counts = hashlib.sha256(), {}, {}
    gc.collect()
    gc.freeze()

    def repeat(i):
        for j, s in enumerate(scn['steps']):
            rng = random.Random('%s|%d|%d' % (scn['seed'], i, j))
            f = copy.deepcopy(s.get('fault'))
            if f and f['kind'] == 'async':
                f.update(u=round(rng.random(), 6), v=round(rng.random(), 6))
            elif f:
                f['f']['nth'] = rng.choice((1, 1, 2, 3, 4)) if f['f']['seam'] != 'solve_ivp' else 1
            with np.errstate(all='ignore'):
                o = faults.perform(lambda: _step(world, s, rng), f)
            o.value = None
            h.update(o.log().encode())
            for x in o.fired:
                fired[x] = fired.get(x, 0) + 1
            b = s['kind'] + ':' + o.brief()
            counts[b] = counts.get(b, 0) + 1
        try:
            world.sol.calibrate_scale_factor(**cal)
        except Exception:
            pass
        meter.read()
    for i in range(FIRST):
        repeat(i)
    got = _judge(meter, 3, FIRST)
    early, first, seen = got, h.hexdigest()[:16], sorted(counts.items())
    if got:                                          # what follows is left out of the trace: the allocator's part in it is not repeatable
        for i in range(FIRST, FIRST + more):
            repeat(i)
        got = _judge(meter, FIRST + more // 4, FIRST + more)
    return {'digest': first, 'fired': fired, 'counts': seen, 'n': meter.n, 'got': got, 'early': early,
            'series': {k: list(a[:meter.n]) for k, a in meter.a.items()}}


def run(scn):
    trc = ['world %r' % (scn['world'],)] + ['step %r' % (s,) for s in scn['steps']]
    h = fork_call(lambda: _history(scn), timeout=220)
    if 'skip' in h:
        return result('inconclusive', trc + [h['skip']], nontrivial=False)
    fired = [k for k, n in h['fired'].items() for _ in range(n)]
    trc += ['%d repetitions: %s, outcomes %s' % (FIRST, h['counts'], h['digest'])]
    kinds = sorted({s['kind'] for s in scn['steps']})
    states = ['%s/%d/%s/%s' % (','.join(kinds), scn['world']['cfg']['K'], scn['world']['cfg']['eq'], sorted(h['fired']))]
    kw = dict(fired=fired, num={'repetitions': h['n'], 'confirmations': int(bool(h['early']))}, states=states, nontrivial=True)
    if h['got']:
        return result('violation', trc, 'grows', 'every repetition of %s adds to what is kept: %s' % (
            ', '.join(kinds), ', '.join(k if k == 'blocks' else '%d %s' % (round(g), k) for k, g in sorted(h['got'].items()))), **kw)
    return result('ok', trc, **kw)


_ = (ASSUMPTIONS, REAL)
