"""C10: concurrent use gives the same answers as sequential use."""
import copy

import numpy as np

from dst import calops, compare, faults, sched, seams, tasks, trace  # noqa: F401
from dst.core import fork_call
from dst.checks.common import ASSUMPTIONS, REAL, result

PROP = 'C10'
QUICK_S, THOROUGH_S, QUICK_RUNS = 110., 700., 2600
LISTS = ('threads', 'plan')
NONEMPTY = ('threads',)
STUBS = ['the operating system\'s thread scheduler is replaced by the simulator\'s (real threads, one at a time, preempted before source lines of the library)']
RULE = ('a run = 2-4 threads with 1-3 operations each (solves, shootings, calibrations, spectral-index searches, look-ups, perturbation modes, potential '
        'look-ups, events and equations asked directly, conformal time, reads) on a shared potential, shared equations, shared events and a shared calibrated solution, preempted according to a '
        'seeded plan, with a fault or interrupt in one thread in a third of the runs; every operation of an undisturbed thread is compared with the same thread '
        'alone in a pristine process, and the shared objects with their state before; non-trivial = at least two preemptions in the middle of operations')
STATE_MEASURE = 'distinct (thread from, thread to, source line) preemption points'
RTOL = 1e-9


def gen(rng, tier):
    world = tasks.gen_world(rng)
    n = rng.choice((2, 2, 2, 3, 3, 4))
    kinds = tasks.KINDS
    if rng.random() < 0.5:
        # the same few kinds of operation in all threads: they meet in the same code
        kinds = tuple(rng.sample(('solve', 'lookup', 'lookup', 'pot', 'cal', 'eta', 'modes', 'setns', 'shoot', 'evals', 'evals'), 2))
    threads = [{'tasks': [tasks.gen_task(rng, world, kinds) for _ in range(rng.choice((1, 1, 2, 3)))]} for _ in range(n)]
    heavy = 0
    for t in threads:           # searches and shootings run ten times as long as anything else: one of them at most
        for j, x in enumerate(t['tasks']):
            if x['do'] in ('shoot', 'setns'):
                heavy += 1
                if heavy > 1:
                    t['tasks'][j] = tasks.gen_task(rng, world, ('lookup', 'pot', 'cal'))
    if rng.random() < 0.35:
        t = rng.choice(threads)
        if rng.random() < 0.5:
            t['fault'] = {'kind': 'async', 'exc': rng.choice(faults.ASYNC), 'u': round(rng.random(), 6), 'v': round(rng.random(), 6),
                          'mode': 'site' if rng.random() < 0.7 else 'time'}
        else:
            t['fault'] = {'kind': 'seam', 'f': rng.choice((faults.seam_ivp, faults.seam_spline, faults.seam_oscode, faults.seam_root, faults.seam_interp))(rng)}
    return {'world': world, 'threads': threads, 'plan': sched.gen_plan(rng, rng.choice((4, 15, 40, 120, 400) if tier == 'quick' else (15, 60, 200, 1000, 3000)))}


def shrink(scn):
    for i, t in enumerate(scn['threads']):
        for j in range(len(t['tasks'])):
            if len(t['tasks']) > 1:
                c = copy.deepcopy(scn)
                c['threads'][i]['tasks'].pop(j)
                yield c
    if scn['world']['cfg'].get('track_eta'):
        c = copy.deepcopy(scn)
        c['world']['cfg'].pop('track_eta')
        yield c


def _body(world, t, rearm=lambda: None):
    out = []
    with np.errstate(all='ignore'):
        for x in t['tasks']:
            out.append(tasks.attempt(world, x))
            rearm()
    return out


def _alone(world, t):
    """The thread's work with nobody else about; counts its lines for placing interrupts."""
    f = t.get('fault')
    c = trace.Counter()
    try:
        with seams.use(seams.Env(rhs_budget=1000000)):
            if f and f['kind'] == 'async':
                with c:
                    return _body(world, t), trace.resolve_pair(c, f)
            return _body(world, t), None
    except seams.SimBudget:
        return None


def _history(world, scn, points):
    s = sched.Scheduler(scn['plan'])
    envs, ints = [], {}
    for i, t in enumerate(scn['threads']):
        f = t.get('fault')
        envs.append(seams.Env(faults=[f['f']] if f and f['kind'] == 'seam' else (), rhs_budget=1000000))
        if points[i] is not None:
            ints[i] = {'nth': points[i][0], 'key': points[i][1], 'exc': f['exc']}
    res = s.run([lambda rearm, t=t: _body(world, t, rearm) for t in scn['threads']], envs, ints)
    return {'out': [(r.ok, r.value, r.exc, r.msg, r.fired, r.budget) for r in res], 'switches': s.switches, 'after': world.observe(), 'total': s.total}


def _all(scn):
    """One world; every computation on it happens in a fork of this process."""
    try:
        world = tasks.World(scn['world'])
    except Exception as e:
        return {'skip': 'no world: %s: %s' % (type(e).__name__, str(e)[:100])}
    alone = [fork_call(lambda t=t: _alone(world, t)) for t in scn['threads']]
    if any(a is None for a in alone):
        return {'skip': 'budget'}
    before = fork_call(world.observe)
    h = fork_call(lambda: _history(world, scn, [a[1] for a in alone]))
    h.update(before=before, alone=[a[0] for a in alone])
    return h


def run(scn):
    trc = ['world %r' % (scn['world'],)] + ['thread %d: %r' % (i, t) for i, t in enumerate(scn['threads'])]
    h = fork_call(lambda: _all(scn))
    if 'skip' in h:
        return result('inconclusive', trc + [h['skip']], nontrivial=False)
    alone = h['alone']
    fired = [f for o in h['out'] for f in o[4]]
    mid = [x for x in h['switches'] if not x.endswith('@end')]
    trc += ['%d lines, %d switches: %s' % (h['total'], len(h['switches']), ' '.join(h['switches'][:60]))]
    trc += ['thread %d: %s' % (i, 'done' if o[0] else '%s %s' % (o[2], o[4])) for i, o in enumerate(h['out'])]
    kw = dict(fired=fired, num={'preemptions': len(mid), 'lines': h['total'], 'threads': len(scn['threads'])}, nontrivial=len(mid) >= 2,
              states=[x.split(':', 1)[1] for x in mid])
    if any(o[5] for o in h['out']):
        return result('inconclusive', trc, **kw)
    for i, (ok, value, exc, msg, fr, _) in enumerate(h['out']):
        if fr:
            continue        # the disturbed thread answers for itself (C01, C02, C04)
        if not ok:
            return result('violation', trc, 'raised', 'thread %d raised %s: %s, alone it does not' % (i, exc, msg), **kw)
        for j, (want, got) in enumerate(zip(alone[i], value)):
            what = 'thread %d, operation %d (%s)' % (i, j + 1, scn['threads'][i]['tasks'][j]['do'])
            if want[0] != got[0] or want[0] == 'exc' and want[1] != got[1]:
                return result('violation', trc, 'outcome', '%s: alone %s, concurrently %s' % (what, want[1] if want[0] == 'exc' else 'ok',
                                                                                          got[1] if got[0] == 'exc' else 'ok'), **kw)
            if want[0] == 'ok':
                d = compare.diff(want[1], got[1], RTOL)
                if d:
                    return result('violation', trc, 'differs', '%s: %s' % (what, '; '.join(d[:3])), **kw)
    d = compare.diff(h['before'], h['after'], RTOL)
    d += ['%s: appeared' % n for n in h['after'] if n not in h['before']]
    if d:
        return result('violation', trc, 'shared-changed', 'shared objects changed: ' + '; '.join(d[:3]), **kw)
    return result('ok', trc, **kw)


_ = (ASSUMPTIONS, REAL)
