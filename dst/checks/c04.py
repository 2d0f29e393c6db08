"""C04: shooting hits its target or says that it did not."""
import copy

import numpy as np

from dst import calops, faults, models
from dst.core import fork_call
from dst.checks.common import ASSUMPTIONS, REAL, guarded, result, efolds  # noqa: F401

PROP = 'C04'
QUICK_S, THOROUGH_S, QUICK_RUNS = 120., 700., 2000
LISTS = ('shots',)
NONEMPTY = ('shots',)
STUBS = ['none replaced; trial integrations and root finders run for real and are made to fail, stop early, return NaN or stop unconverged']
RULE = ('a run = 1-4 shootings: for a spectral index on one flat background, or for total / observable e-folds with shared equations in flat, open or '
        'closed universes, with random reachable and unreachable targets, brackets and root-finder options, most with a fault in one of the trials; '
        'whatever returns has its target re-measured by an independent fresh solve; whatever raises must raise a library error, the injected '
        'fault itself, or reject its arguments; trials are bounded; non-trivial = at least one shooting returned or a fault fired in one')
STATE_MEASURE = 'distinct (kind of shooting, outcome, fault, number of trials) tuples'

# name, arguments, bracket, initial e-folds
POTS = [
    ('QuadraticPotential', dict(Lambda=0.0025), (3., 40.)),
    ('QuadraticPotential', dict(Lambda=0.0025), (4., 25.)),
    ('QuarticPotential', dict(Lambda=4.58e-4), (5., 40.)),
    ('MonomialPotential', dict(p=4/3, Lambda=0.0032186), (3., 30.)),
    ('LinearPotential', dict(Lambda=0.00382529), (3., 30.)),
    ('NaturalPotential', dict(phi0=25, Lambda=0.0083229), (3., 17.)),
    ('StarobinskyPotential', dict(Lambda=0.00325), (3., 7.)),
    ('TmodelPotential', dict(p=1, alpha=1, Lambda=0.00332), (3., 7.)),
]
ROOTKW = [{}, {}, {}, {}, {'maxiter': 1}, {'maxiter': 3}, {'method': 'ridder'}, {'method': 'bisect'}, {'method': 'toms748'},
          {'xtol': 1e-3}, {'rtol': 1e-4}, {'method': 'bisect', 'maxiter': 10}, {'method': 'ridder', 'maxiter': 2}]


def trial_fault(rng, deep):
    k = rng.choice(('raise', 'raise_mid', 'nan_from', 'nan_from', 'shorten', 'shorten'))
    f = {'seam': 'solve_ivp', 'kind': k, 'nth': rng.choice((1, 1, 2, 2, 3, 4, 5, 7, 9, 12)), 'exc': rng.choice(faults.SEAM_EXC)}
    if k in ('raise_mid', 'nan_from'):
        f['at'] = int(10 ** rng.uniform(0.5, 3.3))
    if k == 'shorten':
        f['x_end'] = deep
    if rng.random() < 0.15:
        f['sticky'] = True
    return f


def gen_shot(rng, kind, cfg):
    if kind == 'ns':
        op = calops.gen_setns(rng, cfg)
        op['kw'].pop('method', None)
        op['kw'].pop('maxiter', None)
        op['kw'].update(rng.choice(ROOTKW))
        if rng.random() < 0.45:
            calops.add_fault(rng, op, 1.)
        return op
    if kind == 'Nt':
        x = rng.random()
        op = {'op': 'Nt', 'N_tot': calops.r(rng.uniform(30, 75) if x < 0.7 else rng.choice((rng.uniform(1, 20), rng.uniform(75, 200)))) }
    else:
        op = {'op': 'NsOk', 'N_star': calops.r(rng.uniform(40, 60)), 'h': 0.7 if rng.random() < 0.3 else calops.r(rng.uniform(0.4, 1.)),
              'Omega_K0': calops.r(-cfg['K'] * 10 ** rng.uniform(-3.5, -1.7))}
    lo, hi = cfg['bracket']
    if rng.random() < 0.3:
        op['bracket'] = [calops.r(lo + (hi - lo) * rng.uniform(0., 0.3)), calops.r(hi - (hi - lo) * rng.uniform(0., 0.6))]
    if rng.random() < 0.15:
        op['x_end'] = calops.r(10 ** rng.uniform(4.5, 7)) if cfg['eq'] == 'T' else calops.r(cfg['N_i'] + rng.uniform(5, 80))
    x = rng.random()
    if x < 0.5:
        deep = calops.r(10 ** rng.uniform(4.2, 6.5)) if cfg['eq'] == 'T' else calops.r(cfg['N_i'] + rng.uniform(0.5, 70))
        op['fault'] = {'kind': 'seam', 'f': trial_fault(rng, deep)}
    elif x < 0.65:
        op['fault'] = {'kind': 'seam', 'f': faults.seam_root(rng)}
    elif x < 0.70:
        op['fault'] = {'kind': 'async', 'exc': rng.choice(faults.ASYNC), 'u': round(rng.random(), 6), 'v': round(rng.random(), 6),
                       'mode': 'site' if rng.random() < 0.7 else 'time'}
    return op


def gen(rng, tier):
    kind = rng.choice(('ns', 'ns', 'ns', 'Nt', 'Nt', 'NsOk'))
    n = rng.choice((1, 2, 3, 4)) if kind == 'ns' else rng.choice((1, 1, 2))
    if tier != 'quick':
        n += rng.choice((0, 1, 2))
    if kind == 'ns':
        cfg = models.flat(rng)
        shots = []
        for _ in range(n):
            if rng.random() < 0.2:
                shots.append(calops.gen_cal(rng, cfg, 0.2))
            shots.append(gen_shot(rng, kind, cfg))
    else:
        p = rng.choice(POTS if kind == 'Nt' else POTS[:5])
        K = rng.choice((0, 1, -1)) if kind == 'Nt' else rng.choice((1, -1))
        if p[0][0] in 'ST' and K == 1:
            K = -1
        cfg = {'pot': p[0], 'pk': dict(p[1]), 'bracket': list(p[2]), 'eq': rng.choice('TN'), 'K': K, 't_i': 1e4,
               'N_i': calops.r(rng.uniform(10.5, 12.5) if K == 1 else rng.uniform(8, 12)),
               'events': [list(e) for e in (models.STD_EVENTS_CURVED if K else models.STD_EVENTS)],
               'method': rng.choice(('RK45', 'RK45', 'DOP853'))}
        models._extras(rng, cfg)
        if rng.random() < 0.15:
            cfg['max_step'] = 1e4 if cfg['eq'] == 'T' else 0.5
        if K == 1 and rng.random() < 0.3:
            # close to the collapse threshold: extremely steep, and not monotonic
            cfg.update(pot='QuadraticPotential', pk=dict(Lambda=0.0025), bracket=[3., 40.], N_i=calops.r(rng.uniform(9., 10.)), method='RK45', edge=True)
        elif K and rng.random() < 0.3:
            cfg['Omega_Ki'] = calops.r(-10 ** rng.uniform(-2, 0.3) if K == 1 else 10 ** rng.uniform(-3, -0.2))
        shots = [gen_shot(rng, kind, cfg) for _ in range(n)]
        if cfg.get('edge'):
            for op in shots:
                op.pop('x_end', None)
                if kind == 'Nt' and rng.random() < 0.6:
                    op['N_tot'] = calops.r(rng.uniform(1, 25))
    return {'kind': kind, 'cfg': cfg, 'shots': shots}


def shrink(scn):
    for j, op in enumerate(scn['shots']):
        for k in ('bracket', 'x_end'):
            if k in op:
                c = copy.deepcopy(scn)
                c['shots'][j].pop(k)
                yield c


# ----------------------------------------------------------------------------------------------------------- n_s
def _ns_history(scn):
    got = guarded(lambda: calops.Ctx(scn['cfg']))
    if got[0] != 'ok':
        return None
    ctx, out = got[1], []
    for op in scn['shots']:
        o = faults.perform(calops.thunk(op, ctx), op.get('fault'), op.get('werr', False), rhs_budget=2000000)
        s = ctx.sol
        state = {k: float(s[k]) for k in ('n_s', 'N_star', 'rho_reh_GeV', 'A_s') if k in s and s[k] is not None}
        out.append((op, _brief(o), state))
    return out, efolds(ctx.sol)


def _brief(o):
    return {'ok': o.ok, 'exc': o.exc, 'msg': o.msg, 'injected': o.injected, 'bases': o.bases, 'fired': o.fired,
            'budget': o.budget, 'log': o.log(), 'calls': dict(o.env.calls), 'werr': False}


def _ns_measure(cfg, points):
    """The spectral index at given e-folds, each calibrated on a fresh background."""
    ctx = calops.Ctx(cfg)

    def one(n):
        try:
            ctx.sol.calibrate_scale_factor(N_star=n)
            return float(ctx.sol.n_s)
        except Exception as e:
            return 'exc:' + type(e).__name__
    return [fork_call(lambda n=n: one(n)) for n in points]


def _judge_failure(op, o):
    """None if the way in which the shooting failed is acceptable."""
    if o['budget']:
        return 'unbounded', '%s: budget exhausted: %s %s' % (calops.describe(op), o['msg'], o['calls'])
    if o['injected'] or op.get('werr') or 'PrimpyError' in o['bases']:
        return None
    f = (op.get('fault') or {}).get('f') or {}
    why = '%s: %s: %s' % (calops.describe(op), o['exc'], o['msg'])
    if op['op'] == 'setns':
        if op['kw'].get('method') == 'nonsense':
            return None
        return 'foreign-error', why
    if o['exc'] == 'ValueError' and 'different signs' in o['msg']:
        return None     # the bracket holds no sign change: rejected arguments
    if o['exc'] == 'AssertionError':
        return None
    _ = f
    return 'foreign-error', why


def _run_ns(scn):
    trace = ['background %r' % (scn['cfg'],)]
    h = fork_call(lambda: _ns_history(scn))
    if h is None:
        return result('inconclusive', trace, nontrivial=False)
    out, ef = h
    kind = msg = ''
    fired, states, hits = [], [], 0
    trials = 0
    for op, o, state in out:
        trace.append('%s -> %s %s' % (calops.describe(op), o['log'], {k: float('%.10g' % v) for k, v in sorted(state.items())}))
        fired += o['fired']
        if op['op'] != 'setns':
            continue
        trials += o['calls'].get('root_evals', 0)
        states.append('ns|%s|%s|%s' % (o['exc'], ','.join(x.split('@')[0] for x in o['fired']), o['calls'].get('root_evals')))
        if kind:
            continue
        if not o['ok']:
            bad = _judge_failure(op, o)
            if bad:
                kind, msg = bad
            continue
        hits += 1
        kw, n, target = op['kw'], state.get('N_star', np.nan), op['n_s']
        d = 2 * max(kw.get('xtol', 2e-12), 1e-11) + 2 * kw.get('rtol', 1e-13) * abs(n)
        ref = fork_call(lambda: _ns_measure(scn['cfg'], [n, n - d, n + d]))
        if isinstance(ref[0], str):
            kind, msg = 'not-reproducible', '%s returned N_star=%r, which a fresh background rejects: %s' % (calops.describe(op), n, ref[0])
            continue
        lo, hi = min(x for x in ref if not isinstance(x, str)), max(x for x in ref if not isinstance(x, str))
        trace.append('re-measured n_s(N_star=%.8g) = %.8f' % (n, ref[0]))
        if not (lo - 1e-8 <= target <= hi + 1e-8):
            kind, msg = 'missed-target', '%s returned with N_star=%r where a fresh background has n_s=%r' % (calops.describe(op), n, ref[0])
        elif abs(state['n_s'] - ref[0]) > 1e-8:
            kind, msg = 'reported-n_s', '%s reports n_s=%r but has n_s=%r' % (calops.describe(op), state['n_s'], ref[0])
        elif not (kw.get('N_star_min', 20) - 1e-9 <= n <= kw.get('N_star_max', 90) + 1e-9):
            kind, msg = 'outside-bounds', '%s returned N_star=%r' % (calops.describe(op), n)
        elif kw.get('rho_reh_GeV') and not np.isclose(state.get('rho_reh_GeV', np.nan), kw['rho_reh_GeV'], rtol=1e-9):
            kind, msg = 'option-lost', '%s ended with rho_reh_GeV=%r' % (calops.describe(op), state.get('rho_reh_GeV'))
    num = {'shootings': sum(o[0]['op'] == 'setns' for o in out), 'hits': hits, 'trials': trials, 'efolds_integrated': ef}
    return result('violation' if kind else 'ok', trace, kind, msg, fired, num, hits > 0 or bool(fired), states)


# ----------------------------------------------------------------------------------------------------------- N_tot, N_star
def _shot_cfg(cfg, op):
    c = dict(cfg, ic=op['op'])
    c.update({k: op[k] for k in ('N_tot', 'N_star', 'h', 'Omega_K0', 'bracket', 'x_end') if k in op})
    return c


def _target_of(sol, op):
    if op['op'] == 'Nt':
        return float(sol.N_tot)
    sol.calibrate_scale_factor(Omega_K0=op['Omega_K0'], h=op['h'])
    return float(sol.N_star)


def _is_history(scn):
    from primpy.solver import solve
    pot = models.make_potential(scn['cfg'])
    eq = models.make_equations(scn['cfg'], pot)
    out = []
    for op in scn['shots']:
        cfg = _shot_cfg(scn['cfg'], op)
        box = {}

        def go():
            ic = box['ic'] = models.make_ic(cfg, eq)
            return solve(ic, events=[models.make_event(eq, e) for e in cfg['events']], **models.solve_kwargs(cfg))
        o = faults.perform(go, op.get('fault'), rhs_budget=6000000, call_budget=400)
        got = {}
        if o.ok:
            sol = o.value
            got = {'_N0': float(sol._N[0]), 'Omega_Ki': float(sol.Omega_K[0]), 'phi_i': float(box['ic'].phi_i), 'phi0': float(sol.phi[0]), 'status': int(sol.status), 'N_end': float(sol._N[-1])}
            m = guarded(lambda: _target_of(sol, op))
            got['value'] = m[1]
            got['efolds'] = efolds(sol)
        out.append((op, _brief(o), got, o.env.rhs))
    return out


def _is_measure(cfg, op, phis):
    def one(phi):
        c = dict(_shot_cfg(cfg, op), ic='IS', phi_i=phi)
        c.pop('bracket', None)
        c.pop('x_end', None)
        got = guarded(lambda: _target_of(models.solve_bg(c), op))
        return got[1]
    return [one(p) for p in phis]


def _range_ends_at_end(cfg, op, phi):
    """Is the end of inflation so close to the end of the range that the order of the two is a matter of rounding?"""
    if 'x_end' not in op:
        return False

    def one():
        c = dict(_shot_cfg(cfg, op), ic='IS', phi_i=phi)
        c.pop('bracket', None)
        c.pop('x_end', None)
        sol = models.solve_bg(c)
        return float(sol.x[-1])
    x = fork_call(lambda: guarded(one))[1]
    return isinstance(x, str) or abs(x - op['x_end']) < 1e-3 * abs(x)


def _run_is(scn):
    trace = ['universe %r' % (scn['cfg'],)]
    out = fork_call(lambda: _is_history(scn), timeout=200)
    kind = msg = ''
    fired, states, hits, ef, rhs, ntrial = [], [], 0, 0., 0, 0
    for op, o, got, n in out:
        fired += o['fired']
        rhs += n
        ntrial += o['calls'].get('solve_ivp', 0)
        ef += got.get('efolds', 0.)
        trace.append('%s -> %s %s' % (calops.describe(op), o['log'], {k: v if isinstance(v, (int, str)) else float('%.8g' % v)
                                                                  for k, v in sorted(got.items())}))
        states.append('%s|%s|%s|%s' % (op['op'], o['exc'], ','.join(x.split('@')[0] for x in o['fired']), o['calls'].get('solve_ivp')))
        if kind:
            continue
        if not o['ok']:
            bad = _judge_failure(op, o)
            if bad:
                kind, msg = bad
            continue
        hits += 1
        phi, target = got['phi_i'], op['N_tot'] if op['op'] == 'Nt' else op['N_star']
        d = 4e-6 + 4e-6 * abs(phi) if scn['cfg']['eq'] == 'N' else 1e-11 * abs(phi)
        ref = fork_call(lambda: _is_measure(scn['cfg'], op, [phi, phi - d, phi + d]))
        ok = [x for x in ref if not isinstance(x, str) and np.isfinite(x)]
        trace.append('re-measured %s' % (['%.9g' % x if not isinstance(x, str) else x for x in ref],))
        near = not isinstance(ref[0], str) and abs(ref[0] - target) <= 3e-5 * target
        if scn['cfg'].get('edge'):
            near = not isinstance(ref[0], str) and abs(ref[0] - target) <= 0.012 * target
        within = len(ok) > 1 and min(ok) <= target <= max(ok) and abs(ref[0] - target) <= 0.05 * target
        if not (near or within):
            kind, msg = 'missed-target', '%s returned phi_i=%r for which a fresh solve gives %r' % (calops.describe(op), phi, ref[0])
            continue
        if abs(got['phi0'] - phi) > 1e-12 * abs(phi):
            kind, msg = 'wrong-start', '%s chose phi_i=%r but the solution starts at %r' % (calops.describe(op), phi, got['phi0'])
            continue
        what = 'Omega_Ki' if 'Omega_Ki' in scn['cfg'] else 'N_i'
        v = got['Omega_Ki' if what == 'Omega_Ki' else '_N0']
        if abs(v - scn['cfg'][what]) > 1e-9 * abs(scn['cfg'][what]):
            kind, msg = 'wrong-start', '%s: %s=%r requested, but the solution starts with %r' % (calops.describe(op), what, scn['cfg'][what], v)
            continue
        v = got['value']
        # the final integration may itself have been stopped early: then it must not report a value
        silent = not isinstance(v, str) and np.isfinite(v)
        if silent and abs(v - ref[0]) > (1e-2 if scn['cfg'].get('edge') else 1e-5) * target:
            kind, msg = 'wrong-result', '%s returned a background with %r, a fresh one from the same phi_i has %r' % (calops.describe(op), v, ref[0])
        elif not silent and not op.get('fault') and not _range_ends_at_end(scn['cfg'], op, phi):
            kind, msg = 'no-result', '%s returned a background with %r' % (calops.describe(op), v)
    num = {'shootings': len(out), 'hits': hits, 'trial_integrations': ntrial, 'efolds_integrated': ef, 'rhs_evaluations': rhs}
    return result('violation' if kind else 'ok', trace, kind, msg, fired, num, hits > 0 or bool(fired), states)


def run(scn):
    return _run_ns(scn) if scn['kind'] == 'ns' else _run_is(scn)
