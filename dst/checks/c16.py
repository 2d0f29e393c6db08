"""C16: results depend on nothing but the arguments, and leave nothing behind outside the process."""
import copy
import os
import random
import re
import shutil
import sys
import tempfile
import threading

import numpy as np

from dst import calops, compare, faults, models, surround, tasks
from dst.checks import c11
from dst.checks.common import ASSUMPTIONS, REAL, result
from dst.core import fork_call

PROP = 'C16'
QUICK_S, THOROUGH_S, QUICK_RUNS = 130., 700., 4000
LISTS = ('ops', 'envs')
NONEMPTY = ('ops', 'envs')
STUBS = ['clocks, calendar, random seeds, machine properties, environment variables and the standard output: the simulator\'s, in both executions',
         'cobaya: the real base class; samplers are replaced by the simulated sequence of points']
RULE = ('a run = a solution of a random model and 1-5 operations on it, on new solutions or on sampler components (some with a failing numerical routine), '
        'executed twice: in the reference surroundings and in surroundings that differ in 1-5 ways (random numbers, jumping clock, time zone, directories, '
        'environment variables, warning filters, floating-point warnings, print options, garbage collector, thread, contents of freed memory, broken standard '
        'output, machine properties, hash seed and allocator of the process, order of imports, verbosity, number types, an earlier execution); results and '
        'errors are compared bit by bit and writes to the outside are recorded; non-trivial = at least one operation succeeded')
STATE_MEASURE = 'distinct (operation, variation, outcome) tuples'
SEAMS = (faults.seam_ivp, faults.seam_spline, faults.seam_oscode, faults.seam_root, faults.seam_interp)


def gen_env(rng, kind=None):
    k = kind or rng.choice(('random', 'random', 'clock', 'clock', 'tz', 'cwd', 'home', 'environ', 'filters', 'filters', 'errstate', 'print', 'gc', 'thread', 'heap', 'heap',
                            'stdout', 'machine', 'limits', 'server', 'server', 'server', 'server', 'verbose', 'numbers', 'numbers', 'again'))
    e = {'env': k}
    if k == 'random':
        e['seed'] = rng.randrange(1 << 30)
    elif k == 'clock':
        e.update(start=float(rng.choice((0, 1e6, 1.7e9, 4.2e9))), step=float('%.3g' % 10 ** rng.uniform(-6, 5)),
                 jump=float('%.3g' % (rng.choice((-1, -1, 1)) * 10 ** rng.uniform(1, 6))), every=rng.choice((0, 2, 3, 5, 50)))
    elif k == 'tz':
        e['tz'] = rng.choice(('Asia/Kathmandu', 'XYZ+11', 'America/New_York'))
    elif k == 'cwd':
        e['gone'] = rng.random() < 0.5
    elif k == 'environ':
        e['value'] = rng.choice(('1', '0', '', 'yes', '12', '/nonexistent'))
    elif k == 'filters':
        e['how'] = rng.choice(('always', 'default', 'once', 'module', 'reset', 'record'))
    elif k == 'errstate':
        e['how'] = rng.choice(('ignore', 'print', 'call', 'ignore'))
    elif k == 'print':
        e.update(precision=rng.choice((1, 3, 8)), threshold=rng.choice((3, 50)))
    elif k == 'gc':
        e['how'] = rng.choice(('off', 'often', 'freeze'))
    elif k == 'heap':
        e['seed'] = rng.randrange(1 << 20)
    elif k == 'stdout':
        e['how'] = rng.choice(('none', 'closed', 'broken'))
    elif k == 'machine':
        e.update(cpus=rng.choice((1, 2, 64)), pid=rng.randrange(2, 30000))
    elif k == 'limits':
        e.update(recursion=rng.choice((700, 5000)), switch=rng.choice((1e-5, 1.)))
    elif k == 'server':
        e['i'] = rng.randrange(len(surround.SERVERS))
    elif k == 'numbers':
        e['how'] = rng.choice(('numpy', 'zerod', 'int'))
    return e


# operations that have most to do with a variation
NEAR = {'numbers': ('cal', 'cal', 'point', 'eta', 'shoot'), 'filters': ('point', 'shoot', 'eta'), 'clock': ('shoot', 'setns', 'point'),
        'random': ('shoot', 'setns', 'modes', 'lookup'), 'heap': ('point', 'lookup', 'modes'), 'errstate': ('point', 'lookup', 'cal'), 'thread': ('modes', 'shoot', 'point'),
        'print': ('lookup', 'cal', 'read'), 'verbose': ('shoot', 'shoot', 'solve'), 'cwd': ('point',), 'stdout': ('shoot', 'modes', 'point')}


def _point(rng, comps):
    comp = {'cls': rng.randrange(len(c11.MODELS)), 'cache': 3, 'stop': rng.random() < 0.6}
    if comps and rng.random() < 0.4:
        comp = rng.choice(comps)
    elif comp not in comps:
        comps.append(comp)
    par = dict(rng.choice(c11.MODELS[comp['cls']][1])) if comp['cls'] < c11.N_SR else {}
    kw = dict(c11._target(rng), **par) if comp['cls'] < c11.N_SR else c11._power_point(rng, comp['cls'])
    return {'op': 'point', 'comp': comp, 'p': {'kw': kw, 'via': 'direct' if rng.random() < 0.5 else 'cobaya', 'cached': True, 'derived': True}}


def gen(rng, tier):
    world = tasks.gen_world(rng)
    if rng.random() < 0.3:                                       # more stopping criteria than needed, none of them stopping
        world['cfg']['events'].append(rng.choice((['Inflation', -1, 0], ['UntilN', 40., 0], ['After', 1, 0, 0.5], ['Phi0', -1, 0, 1.])))
    envs, have = [], set()
    for _ in range(rng.choice((1, 2, 3, 5))):
        e = gen_env(rng)
        if e['env'] not in have and not {e['env'], *have} >= {'verbose', 'stdout'}:
            have.add(e['env'])
            envs.append(e)
    kinds = [k for e in envs for k in NEAR.get(e['env'], ())]
    ops, comps = [], []
    for _ in range(rng.choice((1, 2, 3, 4)) if tier == 'quick' else rng.choice((2, 4, 7))):
        k = rng.choice(kinds) if kinds and rng.random() < 0.6 else 'point' if rng.random() < 0.3 else None
        if k == 'point':
            op = _point(rng, comps)
        else:
            op = {'op': 'task', 'task': tasks.gen_task(rng, world, (k,) if k else tasks.KINDS)}
        if rng.random() < 0.2:
            op['f'] = rng.choice(SEAMS)(rng)
        ops.append(op)
    return {'world': world, 'ops': ops, 'envs': envs}


def shrink(scn):
    for j, op in enumerate(scn['ops']):
        if 'f' in op:
            c = copy.deepcopy(scn)
            c['ops'][j].pop('f')
            yield c


def warm_remote():
    c11.warm()


def warm():
    warm_remote()
    surround.start_servers()


# ----------------------------------------------------------------------------------------------------------- execution
def _numbers(x, how):
    """The same arguments as other number types."""
    if isinstance(x, dict):
        return {k: _numbers(v, how) for k, v in x.items()}
    if isinstance(x, float) and how == 'int':
        return int(x) if x.is_integer() and abs(x) < 1e6 else x
    if isinstance(x, float):
        return np.float64(x) if how == 'numpy' else np.array(x)
    return x


def _convert(scn, how):
    """Numbers given to the library as arguments; names, orders and the structure of the models stay."""
    scn = copy.deepcopy(scn)
    for op in scn['ops']:
        if op['op'] == 'point':
            op['p']['kw'] = _numbers(op['p']['kw'], 'int' if how == 'int' else 'numpy')
        else:
            t = op['task']
            for k in ('N_tot', 'N_star', 'Omega_K0', 'n_s', 'N', 'phi', 'Omega_m0', 'h', 'N_star_max'):
                if isinstance(t.get(k), float):
                    t[k] = _numbers(t[k], how)
            for k in ('kw', 'cal'):
                if t.get(k):
                    t[k] = _numbers(t[k], how)
    for k in ('phi_i', 'N_i', 't_i', 'eta_i'):
        if isinstance(scn['world']['cfg'].get(k), float):
            scn['world']['cfg'][k] = _numbers(scn['world']['cfg'][k], how)
    scn['world']['cal'] = _numbers(scn['world']['cal'], how)
    return scn


def _value(v):
    if isinstance(v, np.ndarray) and v.dtype != object:
        return v
    if isinstance(v, (str, bool, type(None), int, float)):
        return v
    return re.sub(r'0x[0-9a-f]+', '0x', repr(v))


def _do(world, op, comps):
    if op['op'] == 'task':
        return tasks.do(world, op['task'])
    key = repr(sorted(op['comp'].items()))
    if key not in comps:
        comps[key] = c11.make(op['comp'])
    s = c11.evaluate(comps[key], op['p'])
    return {'accepted': s is not None} if s is None else c11.published(s)


def _once(scn, effects, before):
    try:
        before()
        with effects:
            world = tasks.World(scn['world'])
    except Exception as e:
        return [('exc', type(e).__name__, '', [])], ['world: ' + type(e).__name__]
    out, log, comps = [], [], {}
    for op in scn['ops']:
        before()
        box = {}

        def body(op=op, box=box):
            with effects:
                box['v'] = _do(world, op, comps)
        o = faults.perform(body, {'kind': 'seam', 'f': op['f']} if 'f' in op else None, rhs_budget=1000000)
        if o.ok:
            out.append(('ok', {k: _value(v) for k, v in box['v'].items()}, '', list(o.fired)))
        else:
            out.append(('exc', o.exc, re.sub(r'0x[0-9a-f]+', '0x', o.msg), list(o.fired)))
        log.append(o.brief())
    before()
    try:
        with effects:
            seen = world.observe()
        out.append(('ok', {k: _value(v) for k, v in seen.items()}, '', []))
    except Exception as e:
        out.append(('exc', type(e).__name__, '', []))
    return out, log


def _execute(scn, envs):
    """The whole history in this (disposable) process, in these surroundings."""
    import warnings
    kinds = {e['env']: e for e in envs}
    top = tempfile.mkdtemp(prefix='c16')
    home = os.path.join(top, 'home')
    os.mkdir(home)
    os.environ['HOME'] = os.environ['TMPDIR'] = home
    os.environ['COBAYA_PACKAGES_PATH'] = '/nonexistent'        # or cobaya makes itself a folder for its settings
    tempfile.tempdir = None
    os.chdir(home)
    if 'server' not in kinds:
        surround.entropy(1)
        random.seed(1)
        np.random.seed(1)
        warnings.simplefilter('ignore')
        if 'clock' not in kinds:
            c = surround.Clock()
            c.install()
            c.bind()
    if 'numbers' in kinds:
        scn = _convert(scn, kinds['numbers']['how'])
    if 'verbose' in kinds:
        scn = copy.deepcopy(scn)
        scn['world']['cfg'].update(verbose=True, ic_verbose=True)
    for e in envs:
        surround.apply(e, top)
    effects = surround.Effects()
    n = [0]

    def before():
        n[0] += 1
        if 'heap' in kinds:
            surround.garbage(kinds['heap']['seed'] + n[0])
    if 'again' in kinds:
        _once(scn, effects, before)
    if 'thread' in kinds:
        box = {}

        def body():
            try:
                box['r'] = _once(scn, effects, before)
            except BaseException as e:
                box['r'] = [('exc', type(e).__name__, str(e), [])], ['thread: ' + type(e).__name__]
        t = threading.Thread(target=body)
        t.start()
        t.join()
        out, log = box['r']
    else:
        out, log = _once(scn, effects, before)
    left = sorted(os.path.relpath(os.path.join(d, f), top) for d, _, files in os.walk(top) for f in files)
    left += sorted(os.path.relpath(os.path.join(d, f), home) for d, dirs, _ in os.walk(home) for f in dirs)
    os.chdir('/')
    shutil.rmtree(top, ignore_errors=True)
    return {'out': out, 'log': log, 'effects': sorted(set(effects.seen)), 'left': left}


def remote(scn):
    """In a child of a server."""
    os.environ['TMPDIR'] = scn['tmp']
    return _execute(scn['scn'], scn['scn']['envs'])


# -------------------------------------------------------------------------------------------------------------- oracle
def equal(a, b, rtol):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        if rtol == 0. or a.dtype.kind not in 'fc':
            return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc' and b.dtype.kind in 'fc'))
        return bool(np.allclose(a, b, rtol=rtol, atol=rtol, equal_nan=True))
    if isinstance(a, (float, int)) and isinstance(b, (float, int)):
        return a == b or a != a and b != b or abs(a - b) <= rtol * abs(a)
    return a == b or isinstance(a, np.ndarray) != isinstance(b, np.ndarray) and np.ndim(a) == np.ndim(b) == 0 and equal(np.array(a), np.array(b), rtol)


def differ(a, b, text, rtol):
    """Differences between two executions of one operation."""
    if a[0] != b[0]:
        return ['%s instead of %s' % tuple('success' if x[0] == 'ok' else '%s: %s' % (x[1], x[2][:100]) for x in (b, a))]
    if a[0] == 'exc':
        if a[1] != b[1] or text and a[2] != b[2]:
            return ['%s: %s instead of %s: %s' % (b[1], b[2][:150], a[1], a[2][:150])]
        return []
    bad = []
    for k in sorted(set(a[1]) | set(b[1])):
        if (k in a[1]) != (k in b[1]):
            bad.append('%s is %s' % (k, 'missing' if k in a[1] else 'additional'))
        elif not equal(a[1][k], b[1][k], rtol):
            x, y = a[1][k], b[1][k]
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and x.size > 1:
                i = [j for j in range(x.size) if not equal(x.ravel()[j:j + 1], y.ravel()[j:j + 1], rtol)]
                bad.append('%s: %r instead of %r at %d of %d places' % (k, y.ravel()[i[0]], x.ravel()[i[0]], len(i), x.size) if i else k)
            else:
                bad.append('%s: %.100r instead of %.100r' % (k, y, x))
    return bad


def run(scn):
    envs = scn['envs']
    trace = ['world %r' % (scn['world'],)] + ['op %r' % (op,) for op in scn['ops']] + ['surroundings %r' % (e,) for e in envs]
    ref = fork_call(lambda: _execute(scn, []), 110)
    server = [e for e in envs if e['env'] == 'server']
    if server:
        var = surround.ask(server[0]['i'], 'dst.checks.c16', {'scn': scn, 'tmp': tempfile.gettempdir()})
    else:
        var = fork_call(lambda: _execute(scn, envs), 110)
    trace += ['reference: ' + ' '.join(ref['log']), 'variation: ' + ' '.join(var['log'])]
    kinds = [e['env'] for e in envs]
    nums = any(k == 'numbers' for k in kinds)
    fired = ['env:' + k for k in kinds] + [f for o in ref['out'] for f in o[3]]
    names = ['world'] if len(ref['out']) != len(scn['ops']) + 1 else [op['task']['do'] if op['op'] == 'task' else 'point' for op in scn['ops']]
    kw = dict(fired=fired, num={'operations': 2 * len(scn['ops'])}, nontrivial='ok' in ref['log'],
              states=['%s/%s/%s' % (n, k, b) for n, b in zip(names, ref['log']) for k in kinds])
    for what, h in (('', ref), (' in changed surroundings', var)):
        if h['effects'] or h['left']:
            return result('violation', trace, 'effect', 'operations touch the world outside%s: %s; left behind: %s' % (what, h['effects'], h['left']), **kw)
    if ref['log'][:1] and ref['log'][0].startswith('world') and var['log'] == ref['log']:
        return result('inconclusive', trace, **kw)
    if len(ref['out']) != len(var['out']):
        return result('violation', trace, 'depends', 'surroundings %s: %s, in the reference surroundings %s' % (kinds, var['log'], ref['log']), **kw)
    for j, (a, b) in enumerate(zip(ref['out'], var['out'])):
        d = differ(a, b, not nums and 'print' not in kinds, 1e-9 if nums else 0.)
        if d:
            op = names[j] if j < len(names) else 'the solution at the end'
            return result('violation', trace, 'depends', 'operation %d (%s) in surroundings %s: %s' % (j + 1, op, ', '.join(kinds), '; '.join(d[:3])), **kw)
    return result('ok', trace, **kw)


_ = (ASSUMPTIONS, REAL, models, compare, calops, sys)
