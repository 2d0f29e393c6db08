"""C07: evolution does not depend on how it was chopped up, clocked or resumed."""
import copy

import numpy as np

from dst import calops, faults, models, seams
from dst.core import fork_call
from dst.checks.common import ASSUMPTIONS, REAL, guarded, result

PROP = 'C07'
QUICK_S, THOROUGH_S, QUICK_RUNS = 90., 700., 4000
LISTS = ('segments',)
NONEMPTY = ()
STUBS = ['none replaced; the integrator runs for real behind a seam that cuts the range short, corrupts the right-hand side from some step on, or raises']
RULE = ('a run = one initial state (slow-roll, inflation-start or kinetic; flat, open, closed), evolved through 0-6 stop-and-resume cycles, each on a '
        'random clock with random method, step limits, output grid and cause of stopping (range, event, injected step failure, exception and '
        'retry, a detour back in time), then to the end of inflation; every recorded point of every segment and the end of inflation are compared with an independent '
        'integration of the equations of motion; non-trivial = at least one stop-and-resume cycle happened')
STATE_MEASURE = 'distinct (clock, cause of stopping, resumed from) sequences'
# absolute tolerance in e-folds and relative tolerance in everything else
TOL_N, TOL = 3e-5, 3e-5


def gen_segment(rng, N_i):
    s = {'eq': rng.choice('TN'), 'method': rng.choice(('RK45', 'RK45', 'RK45', 'DOP853')), 'time': rng.random() < 0.6, 'eta': rng.random() < 0.4,
         'stop': rng.choice(('N', 'N', 'N', 'range', 'range', 'shorten', 'nan', 'phi', 'pass', 'back'))}
    s['frac'] = calops.r(rng.random() ** rng.choice((1, 1, 3)))
    if s['stop'] == 'nan':
        s['at'] = int(10 ** rng.uniform(1.3, 3.3))
    if rng.random() < 0.2:
        s['raise'] = {'seam': 'solve_ivp', 'kind': rng.choice(('raise', 'raise_mid')), 'nth': 1, 'at': int(10 ** rng.uniform(1., 3.)),
                      'exc': rng.choice(faults.SEAM_EXC)}
    x = rng.random()
    if x < 0.15:
        s['max_step'] = calops.r(10 ** rng.uniform(3.5, 5) if s['eq'] == 'T' else 10 ** rng.uniform(-1.3, 0.3))
    elif x < 0.25:
        s['grid'] = rng.choice((2, 7, 40))
    return s


def gen(rng, tier):
    x = rng.random()
    if x < 0.4:
        cfg = models.curved(rng)
    else:
        cfg = models.flat(rng, phi_idx=rng.choice((0, 0, 1)))
        if rng.random() < 0.25:
            cfg['ic'] = 'IS'
    if rng.random() < 0.2:
        cfg['ic'] = 'Kin'
        cfg['kin'] = calops.r(10 ** rng.uniform(0, 0.7))
    if rng.random() < 0.15:
        cfg['grid'] = rng.choice((2, 60))
    n = rng.choice((0, 1, 1, 2, 3, 4)) if tier == 'quick' else rng.choice((1, 2, 4, 6, 8))
    last = gen_segment(rng, cfg['N_i'])
    last.pop('raise', None)
    last['stop'] = 'end'
    if cfg['K']:
        last['eta'] = rng.random() < 0.7
    return {'cfg': cfg, 'segments': [gen_segment(rng, cfg['N_i']) for _ in range(n)], 'last': last}


def shrink(scn):
    for j in range(len(scn['segments'])):
        for k in ('raise', 'max_step', 'grid', 'time', 'eta'):
            if scn['segments'][j].get(k):
                c = copy.deepcopy(scn)
                c['segments'][j].pop(k)
                yield c
    for k in ('max_step', 'grid', 'time', 'eta'):
        if scn['last'].get(k):
            c = copy.deepcopy(scn)
            c['last'].pop(k)
            yield c


# ------------------------------------------------------------------------------------------------------------------ reference
class Reference:
    """The same evolution by an independent formulation: proper-time velocities, e-folds as independent variable."""

    def __init__(self, cfg, s0):
        pot, K = models.make_potential(cfg), cfg['K']

        def H2(N, phi, v):
            return (v**2 / 2 + pot.V(phi)) / 3 - K * np.exp(-2 * N)

        def rhs(N, y):
            phi, v, _, _ = y
            H = np.sqrt(H2(N, phi, v))
            return [v / H, -3 * v - pot.dV(phi) / H, 1 / H, np.exp(-N) / H]

        def end(N, y):
            return pot.V(y[0]) - y[1]**2
        end.direction, end.terminal = -1, True
        y0 = [s0['phi'], s0['dphidt'], 0., 0.]
        V0 = abs(float(pot.V(s0['phi'])))
        h0 = np.sqrt(V0)
        atol = [1e-13, 1e-13 * h0 * 1e-2, 1e-9 / h0 * 1e-3, 1e-300]
        with np.errstate(all='ignore'):
            sol = seams.real['solve_ivp'](rhs, (s0['_N'], s0['_N'] + 200), y0, method='DOP853', rtol=1e-12, atol=atol, events=[end],
                                          dense_output=True, max_step=0.25)
        self.ok = sol.status == 1
        self.N0, self.N1 = float(sol.t[0]), float(sol.t[-1])
        self.sol, self.pot, self.K, self._H2 = sol.sol, pot, K, H2
        if self.ok:
            self.N_end = float(sol.t_events[0][0])
            self.phi_end, self.v_end, self.t_end, _ = (float(v) for v in sol.y_events[0][0])
            self.H_end = float(np.sqrt(H2(self.N_end, self.phi_end, self.v_end)))

    def at(self, N):
        phi, v, t, eta = self.sol(N)
        H = np.sqrt(self._H2(N, phi, v))
        V = self.pot.V(phi)
        return {'phi': phi, 'dphidt': v, 't': t, 'eta': eta, 'H': H, 'w': (v**2 / 2 - V) / (v**2 / 2 + V),
                'Omega_K': -self.K * np.exp(-2 * N) / H**2, 'V': V}


def _initial(cfg):
    """The library's own initial state, in proper-time terms."""
    pot = models.make_potential(cfg)
    eq = models.make_equations(dict(cfg, track_time=False, track_eta=False), pot)
    ic = models.make_ic(cfg, eq)
    y0 = np.zeros(len(eq.idx))
    ic(y0)
    N = cfg['N_i']
    phi = float(y0[eq.idx['phi']])
    H = float(eq.H(ic.x_ini, y0))
    v = float(y0[eq.idx['dphidt']]) if cfg['eq'] == 'T' else float(y0[eq.idx['dphidN']]) * H
    return {'phi': phi, 'dphidt': v, 'dphidN': v / H, '_N': N, 't': float(cfg['t_i']), 'eta': 0.}


def _starts(cfg):
    """The library's initial conditions for one and the same start, on both clocks and given either way: deviation from own formulas."""
    if cfg['ic'] not in ('SR', 'IS'):
        return None
    for kind in ('SR', 'IS'):
        bad = _start(dict(cfg, ic=kind))
        if bad:
            return bad
    return None


def _start(cfg):
    pot, K, N, phi = models.make_potential(cfg), cfg['K'], cfg['N_i'], cfg['phi_i']
    V, dV = float(pot.V(phi)), float(pot.dV(phi))
    aH2 = V / (3 if cfg['ic'] == 'SR' else 2) * np.exp(2 * N) - K
    if not aH2 > 0:
        return None
    H = np.sqrt(aH2) * np.exp(-N)
    want = {'T': -np.sqrt(V), 'N': -np.sqrt(V) / H} if cfg['ic'] == 'IS' else {'T': -dV / (3 * H), 'N': -dV / (3 * H**2)}
    for eq_ in 'TN':
        for by in ('N_i', 'Omega_Ki') if K else ('N_i',):
            eq = models.make_equations(dict(cfg, eq=eq_, track_time=eq_ == 'N', track_eta=True), pot)
            ic = models.make_ic(dict(cfg, eq=eq_, by=by, eta_i=7.), eq)
            y0 = np.zeros(len(eq.idx))
            ic(y0)
            got = {n: float(y0[i]) for n, i in eq.idx.items()}
            got[eq.independent_variable] = float(ic.x_ini)
            exp = {'phi': phi, '_N': N, 't': cfg['t_i'], 'eta': 7., 'dphidt' if eq_ == 'T' else 'dphidN': want[eq_]}
            for n, x in exp.items():
                if n not in got or not abs(got[n] - x) <= 1e-9 * abs(x):
                    return 'the start given by %s on the %s clock has %s=%r, expected %r' % (by, eq_, n, got.get(n), x)
            if not abs(float(ic.Omega_Ki) + K / aH2) <= 1e-9 * abs(K / aH2):
                return 'the start given by %s on the %s clock reports Omega_Ki=%r, expected %r' % (by, eq_, ic.Omega_Ki, -K / aH2)
    return None


def _ratio(sol, eq, state, ref, seg):
    """Conformal time before to after the end of inflation, the former chopped into a backward and a forward evolution."""
    import primpy.bigbang as bb
    from primpy.solver import solve
    N, K = state['_N'], ref.K
    Ok, h, Om = -K * 10 ** (-1 - 2 * seg['frac']), 0.6 + 0.2 * seg['frac'], 0.3
    b = type(sol)(sol)
    b.a0 = bb.get_a0(h=h, Omega_K0=Ok, units='planck')
    N0 = float(np.log(b.a0))
    back, Nb = None, N
    if N - ref.N0 > 1e-3:
        Nb = N - min(1.5, 0.98 * (N - ref.N0))
        x = Nb if seg['eq'] == 'N' else state['t'] + float(ref.at(Nb)['t'] - ref.at(N)['t'])
        back = solve(models.state_ic(eq, state, x))
        if abs(float(back._N[-1]) - Nb) > 1e-4 or b._N_end > N0 - 10:
            return None
    before = float(ref.sol(ref.N_end)[3] - ref.sol(Nb)[3])
    if before < 1e-3 * max(abs(state['eta']), float(ref.sol(ref.N_end)[3])):
        return None     # too little is left to be resolved
    got = bb.conformal_time_ratio(Omega_m0=Om, Omega_K0=Ok, h=h, b_forward=b, b_backward=back)
    n = np.linspace(b._N_end, N0, 200001)
    x = np.exp(N0 - n)
    Or = bb.get_Omega_r0(h=h)
    H = bb.get_H0(h=h, units='planck') * np.sqrt(Or * x**4 + Om * x**3 + Ok * x**2 + 1 - Or - Om - Ok)
    f = np.exp(-n) / H
    after = (n[1] - n[0]) / 3 * (f[0] + f[-1] + 4 * f[1:-1:2].sum() + 2 * f[2:-1:2].sum())
    want = before / after
    tol = TOL * (1 + np.exp(3.2 * (N - Nb)))
    return got, want, abs(got - want) / abs(want) / tol * TOL


def _state(sol, where, key=None):
    """A recorded state of the solution as a user would resume from it."""
    if where == 'last':
        g = lambda n: float(sol[n][-1])  # noqa: E731
        H = g('H')
    else:
        g = lambda n: float(sol[n + '_events'][key][0])  # noqa: E731
        H = None
    s = {'phi': g('phi'), '_N': g('_N')}
    for n in ('t', 'eta'):
        try:
            s[n] = g(n)
        except (KeyError, AttributeError, IndexError):
            pass
    if 'dphidt' in sol:
        s['dphidt'] = g('dphidt')
        if H is not None:
            s['dphidN'] = s['dphidt'] / H
    else:
        s['dphidN'] = g('dphidN')
        if H is not None:
            s['dphidt'] = s['dphidN'] * H
    return s


def _complete(s, cfg, pot):
    V, curv = float(pot.V(s['phi'])), cfg['K'] * np.exp(-2 * s['_N'])
    if 'dphidt' in s and 'dphidN' not in s:
        s['dphidN'] = s['dphidt'] / np.sqrt((s['dphidt']**2 / 2 + V) / 3 - curv)
    elif 'dphidN' in s and 'dphidt' not in s:
        s['dphidt'] = s['dphidN'] * np.sqrt((V - 3 * curv) / (3 - s['dphidN']**2 / 2))
    s.setdefault('t', 1e4)
    s.setdefault('eta', 0.)
    return s


def _history(scn):
    from primpy.solver import solve
    cfg = scn['cfg']
    pot = models.make_potential(cfg)
    with np.errstate(all='ignore'):
        first = _initial(cfg)
        ref = Reference(cfg, first)
    if not ref.ok:
        return {'skip': 'reference does not reach the end of inflation'}
    eqs, log, fired, worst = {}, [], [], {}
    bad = None
    state, rhs, resumed = dict(first), 0, []
    with np.errstate(all='ignore'):
        start = _starts(cfg)
    if start:
        bad = ('start', start)
    for j, seg in enumerate(scn['segments'] + [scn['last']] if bad is None else ()):
        key = (seg['eq'], bool(seg.get('time')), bool(seg.get('eta')))
        if key not in eqs:
            eqs[key] = models.make_equations({'eq': seg['eq'], 'K': cfg['K'], 'track_eta': key[2], 'track_time': key[1]}, pot)
        eq = eqs[key]
        N, room = state['_N'], ref.N_end - state['_N']
        if room < 1e-3 and seg['stop'] != 'end':
            log.append('segment %d skipped: end of inflation reached' % (j + 1))
            continue
        stop, x_end, specs = seg['stop'], 1e300, [['Inflation', 1, 0], ['Inflation', -1, 1]]
        target = N + max(seg['frac'] * room * 0.98, 1e-6 * room)
        if stop == 'back':
            # a detour back into the past, at most 1.5 e-folds
            target = N - min(1.5 * seg['frac'], 0.98 * (N - ref.N0))
            if N - target < 1e-3:
                log.append('segment %d skipped: nothing recorded before' % (j + 1))
                continue
        there = ref.at(target)
        ranges = {'T': state['t'] + float(there['t'] - ref.at(N)['t']), 'N': target}
        flt = []
        if stop == 'N' or stop == 'pass':
            specs.append(['UntilN', target, 1 if stop == 'N' else 0])
            if stop == 'pass':
                x_end = ranges[seg['eq']] + (0.3 if seg['eq'] == 'N' else 0.3 / float(there['H']))
        elif stop in ('range', 'back'):
            x_end = ranges[seg['eq']]
        elif stop == 'phi':
            specs.append(['Phi0', -1, 1, float(there['phi'])])
        elif stop == 'shorten':
            flt = [{'seam': 'solve_ivp', 'kind': 'shorten', 'nth': 1, 'x_end': ranges[seg['eq']]}]
        elif stop == 'nan':
            flt = [{'seam': 'solve_ivp', 'kind': 'nan_from', 'nth': 1, 'at': seg['at']}]
        if cfg['K']:
            specs.append(['Collapse', 0, 1])
        kw = {'method': seg['method']}
        if seg.get('max_step'):
            kw['max_step'] = seg['max_step']
        x0 = state['t'] if seg['eq'] == 'T' else N
        if seg.get('grid') and stop in ('range', 'back', 'end') or cfg.get('grid') and stop == 'end':
            hi = x_end if stop != 'end' else (state['t'] + 1.2 * float(ref.t_end - ref.at(N)['t']) + 1. if seg['eq'] == 'T' else ref.N_end + 0.5)
            kw['t_eval'] = np.linspace(x0, hi, seg.get('grid') or cfg['grid'])
            if stop == 'end':
                x_end = hi

        def go():
            return solve(models.state_ic(eq, state, x_end), events=[models.make_event(eq, e) for e in specs], **dict(kw))
        if seg.get('raise'):
            o = faults.perform(go, {'kind': 'seam', 'f': seg['raise']})
            fired += o.fired
            rhs += o.env.rhs
            log.append('segment %d: attempt -> %s' % (j + 1, o.log()))
        env = seams.Env(faults=flt, rhs_budget=400000)
        try:
            with seams.use(env), np.errstate(all='ignore'):
                sol = go()
        except seams.SimBudget:
            return {'skip': 'budget', 'log': log}
        except Exception as e:
            if env.fired:
                fired += env.fired
                log.append('segment %d failed: %s' % (j + 1, type(e).__name__))
                continue
            bad = ('raised', 'segment %d %r: %s: %s' % (j + 1, seg, type(e).__name__, str(e)[:200]))
            break
        fired += env.fired
        rhs += env.rhs
        # ---- every recorded point against the reference
        Ns = np.asarray(sol._N, dtype=float)
        inside = (Ns >= ref.N0) & (Ns <= ref.N1)
        r = ref.at(np.clip(Ns, ref.N0, ref.N1))
        r0 = ref.at(N)
        err = {}
        vscale = np.sqrt(np.abs(r['V'])) + np.abs(r['dphidt'])
        err['phi'] = np.abs(sol.phi - r['phi']) / (np.abs(r['phi']) + 1)
        v = sol.dphidt if 'dphidt' in sol else sol.dphidN * sol.H
        err['velocity'] = np.abs(v - r['dphidt']) / vscale
        err['H'] = np.abs(sol.H - r['H']) / r['H']
        err['w'] = np.abs(sol.w - r['w'])
        err['Omega_K'] = np.abs(sol.Omega_K - r['Omega_K']) / (np.abs(r['Omega_K']) + 1e-300) if cfg['K'] else np.abs(sol.Omega_K)
        for n in ('phi', '_N', 't', 'eta', 'dphidt', 'dphidN'):
            # resumed where it was left
            if n in sol and len(Ns) and bad is None and abs(float(sol[n][0]) - state[n]) > 1e-12 * abs(state[n]):
                bad = ('not-resumed', 'segment %d starts with %s=%r instead of %r' % (j + 1, n, float(sol[n][0]), state[n]))
        if 't' in sol:
            err['elapsed time'] = np.abs((sol.t - sol.t[0]) - (r['t'] - r0['t'])) / (np.abs(r['t'] - r0['t']) + 1e-6 / r['H'])
        if 'eta' in sol:
            err['elapsed conformal time'] = np.abs((sol.eta - sol.eta[0]) - (r['eta'] - r0['eta'])) / (np.abs(r['eta'] - r0['eta']) + 1e-6 * np.exp(-Ns) / r['H'] + 1e-4)
        for n, e in err.items():
            e = e[inside]
            if not len(e):
                continue
            m = float(np.max(np.where(np.isnan(e), np.inf, e)))
            worst[n] = max(worst.get(n, 0.), m)
            # the decaying mode grows backwards in time
            if m > TOL * (1 + np.exp(3.2 * (N - target)) if stop == 'back' else 1) and bad is None:
                i = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
                bad = ('deviates', 'segment %d (%s clock): %s at N=%.6f is off by %.3g' % (j + 1, seg['eq'], n, Ns[inside][i], m))
        log.append('segment %d: %s %s%s from N=%.6f -> status %d, N=%.6f, %d points' % (
            j + 1, seg['eq'], stop, ' grid' if 't_eval' in kw else '', N, sol.status, Ns[-1] if len(Ns) else np.nan, len(Ns)))
        if bad:
            break
        if stop == 'end':
            got = [float(sol._N_end), float(sol.phi_end), float(sol.H_end)]
            want = [ref.N_end, ref.phi_end, ref.H_end]
            e = [abs(got[0] - want[0]) / (TOL_N / TOL), abs(got[1] - want[1]) / (abs(want[1]) + 1), abs(got[2] - want[2]) / want[2]]
            for n, x in zip(('N_end', 'phi_end', 'H_end'), e):
                worst[n] = x if not np.isnan(x) else np.inf
            if not all(x <= TOL for x in e):
                bad = ('end-differs', 'end of inflation (N, phi, H) = %r after %d segments, uninterrupted %r' % (got, j + 1, want))
            if bad is None and cfg['K'] and 'eta' in sol and 't_eval' not in kw:
                with np.errstate(all='ignore'):
                    ratio = _ratio(sol, eq, state, ref, seg)
                if ratio:
                    worst['conformal time ratio'] = ratio[2]
                    if not ratio[2] <= TOL:
                        bad = ('ratio-differs', 'conformal time ratio %r of an evolution chopped at N=%.6f, expected %r' % (ratio[0], N, ratio[1]))
            break
        # ---- resume
        if len(Ns) == 0:
            continue
        ended = np.isfinite(float(sol._N_end))
        if ended:
            log.append('end of inflation reached early')
        if stop == 'pass' and np.size(sol._N_events['UntilN']):
            new = _state(sol, 'event', 'UntilN')
            rn = ref.at(new['_N'])
            for n, scale in (('t', 1e-6 / float(rn['H'])), ('eta', 1e-6 * np.exp(-N) / float(r0['H']) + 1e-4)):
                if n in new:
                    want = float(rn[n] - r0[n])
                    if abs(new[n] - state[n] - want) > TOL * (abs(want) + scale):
                        bad = ('deviates', 'segment %d: %s recorded with the event: %r passed, expected %r' % (j + 1, n, new[n] - state[n], want))
            if bad:
                break
            state = _complete(new, cfg, pot)
            resumed.append('%s/%s/event' % (seg['eq'], stop))
        elif ended or Ns[-1] > ref.N_end - 1e-4:
            continue      # resume from the earlier state instead: the end would be behind us
        else:
            state = _complete(_state(sol, 'last'), cfg, pot)
            resumed.append('%s/%s' % (seg['eq'], stop))
    return {'log': log, 'bad': bad, 'fired': fired, 'worst': worst, 'rhs': rhs, 'resumed': resumed, 'efolds': ref.N_end - ref.N0,
            'time': float(ref.t_end)}


def run(scn):
    trace = ['background %r' % (scn['cfg'],)] + ['segment %r' % (s,) for s in scn['segments'] + [scn['last']]]
    got = fork_call(lambda: guarded_history(scn))
    if got[0] != 'ok':
        return result('inconclusive', trace + [repr(got)], nontrivial=False)
    h = got[1]
    if 'skip' in h:
        return result('inconclusive', trace + [h['skip']], nontrivial=False)
    trace += h['log']
    trace.append('largest deviations %s' % {k: float('%.2g' % v) for k, v in sorted(h['worst'].items())})
    num = {'rhs_evaluations': h['rhs'], 'efolds_integrated': h['efolds'], 'simulated_time_planck': h['time'], 'resumes': len(h['resumed'])}
    return result('violation' if h['bad'] else 'ok', trace, *(h['bad'] or ('', '')), fired=h['fired'], num=num, nontrivial=bool(h['resumed']),
                  states=['>'.join(h['resumed'])])


def guarded_history(scn):
    try:
        return ('ok', _history(scn))
    except ValueError as e:
        if 'no such state' in str(e):
            return ('exc', str(e))
        raise


_ = guarded
