"""C14: a mode's power does not depend on how its evolution was clocked, chopped, sampled, started or stopped."""
import copy
import math

import numpy as np

from dst import calops, compare, faults, models, seams
from dst.core import Timeout, fork_call
from dst.checks.common import ASSUMPTIONS, REAL, result
from dst.checks import c07

PROP = 'C14'
QUICK_S, THOROUGH_S, QUICK_RUNS = 130., 700., 2400
LISTS = ('segments', 'modes')
NONEMPTY = ('modes',)
STUBS = ['none replaced; the integrator and pyoscode run for real behind seams (range cut short, NaN from some step on, raising)']
RULE = ('a run = one initial state (slow-roll, inflation-start or kinetic; flat, open, closed), evolved through 0-3 stop-and-resume cycles on random '
        'clocks with injected failures, then to the end of inflation on a random clock and a random fine output grid; on it 1-3 modes are computed with '
        'random starting and stopping points, vacua and accuracies, some of them after a failed or interrupted computation of the same mode; each '
        'power (and dense output) is compared with an independent joint integration of background and perturbation equations from the very first state, '
        'started where the library says it starts; non-trivial = at least one power was compared')
STATE_MEASURE = 'distinct (curvature, clocks, start and stop factors, vacua, fault, outcome) tuples over modes'
TOL = 3e-3          # relative, in the power, at the best of several tolerances; the library's own tests compare the two clocks with 1e-3
DEEP = 5.           # times that for modes starting far inside the horizon: many oscillations on an interpolated background
ROUGH = 0.04        # at the default tolerance
DENSE = 0.05
APPROX_TOL = 5e-4   # in the logarithms of the approximate powers
VAC = ('k', 'HD', 'RST')


def gen(rng, tier):
    x = rng.random()
    if x < 0.6:
        cfg = models.curved(rng)
    else:
        cfg = models.flat(rng, phi_idx=rng.choice((0, 0, 1)), features=rng.random() < 0.3)
        if rng.random() < 0.3:
            cfg['ic'] = 'IS'
    if rng.random() < 0.2:
        cfg['ic'] = 'Kin'
        cfg['kin'] = calops.r(10 ** rng.uniform(0, 0.5))
    segs = []
    for _ in range(rng.choice((0, 0, 1, 1, 2, 3)) if tier == 'quick' else rng.choice((0, 1, 2, 4))):
        s = {'eq': rng.choice('TN'), 'stop': rng.choice(('N', 'N', 'range', 'nan', 'shorten')), 'frac': calops.r(rng.random() ** 2 * 0.6)}
        if s['stop'] == 'nan':
            s['at'] = int(10 ** rng.uniform(2, 3.5))
        if rng.random() < 0.2:
            s['raise'] = {'seam': 'solve_ivp', 'kind': rng.choice(('raise', 'raise_mid')), 'nth': 1, 'at': int(10 ** rng.uniform(1., 3.)),
                          'exc': rng.choice(faults.SEAM_EXC)}
        segs.append(s)
    last = {'eq': rng.choice('TN'), 'n': rng.choice((15000, 25000, 40000)), 'grid': rng.choice(('N', 'N', 'N', 'clock')), 'time': rng.random() < 0.3}
    modes = []
    for _ in range(rng.choice((1, 2, 2, 3)) if tier == 'quick' else rng.randint(2, 5)):
        m = {'vac': rng.sample(VAC, rng.randint(1, 3)), 'form': rng.choice(('float', 'array'))}
        if rng.random() < (0.5 if cfg['K'] else 0.25):
            # starts with the background; ln of the number of horizons inside at the start
            m['beg'], m['lnk'] = 0, calops.r(rng.uniform(-0.5, 4.5))
        else:
            m['beg'], m['u'] = rng.choice((10, 30, 100, 100, 200)), calops.r(rng.random())
        if cfg['K'] and m['beg'] == 0 and rng.random() < 0.7:
            m['int'] = rng.choice((3, 4, 5, 7, 10, 20, 50, 100, 300))
        m['end'] = rng.choice((100, 100, 300, 1000))
        if rng.random() < 0.2:
            m['num_eval'] = rng.choice((5, 20))
        if rng.random() < 0.3:
            m['rtol'] = rng.choice((1e-5, 2e-5))
        if rng.random() < 0.2:
            m['fault'] = {'kind': 'seam', 'f': {'seam': 'oscode', 'kind': rng.choice(('raise', 'nan', 'nan_tail', 'short')),
                                                'nth': rng.randint(1, 4), 'exc': rng.choice(faults.SEAM_EXC)}} \
                if rng.random() < 0.5 else faults.random_fault(rng, [faults.seam_oscode], async_p=1.)
        modes.append(m)
    return {'partner': rng.random() < 0.5, 'cfg': cfg, 'segments': segs, 'last': last, 'modes': modes, 'h': 0.7, 'Omega_K0': calops.r(-cfg['K'] * 10 ** rng.uniform(-3, -1.5))}


def shrink(scn):
    if scn['partner']:
        yield dict(copy.deepcopy(scn), partner=False)
    for j, m in enumerate(scn['modes']):
        for k in ('num_eval', 'rtol'):
            if m.get(k):
                c = copy.deepcopy(scn)
                c['modes'][j].pop(k)
                yield c
        for i in range(len(m['vac'])):
            if len(m['vac']) > 1:
                c = copy.deepcopy(scn)
                c['modes'][j]['vac'].pop(i)
                yield c
    for j, s in enumerate(scn['segments']):
        if s.get('raise'):
            c = copy.deepcopy(scn)
            c['segments'][j].pop('raise')
            yield c


# ------------------------------------------------------------------------------------------------------------------ reference
def reference_modes(ref, k, N0, N1, Nev=None):
    """Powers after N1 of a mode whose vacuum is set at N0: {(tag, vacuum): P}, and at Nev.

    Background: proper-time velocities, e-folds as independent variable.  Scalars: R'' + 2 Z'/Z R' + W R = 0 in conformal time, with
    Z^2 = z^2 kap2 / (kap2 + K E), z = a phidot / H, E = (phidot / H)^2 / 2, W = kap2 - K (1 + 2 kap2 q / (kap2 + K E)), q = dln(phidot/H)/dN, and
    kap2 = k^2 + k K (K + 1) - 3 K.  (It follows from the well-known equation of the Bardeen potential.)  Tensors: h'' + 2 a'/a h' + (kap2 + 5 K) h = 0.
    """
    pot, K = ref.pot, ref.K
    kap2 = k * k + k * K * (K + 1) - 3 * K
    om2t = k * k + k * K * (K + 1) + 2 * K

    def bg(N, phi, v):
        H = math.sqrt((v * v / 2 + float(pot.V(phi))) / 3 - K * math.exp(-2 * N))
        dV = float(pot.dV(phi))
        hdot = -v * v / 2 + K * math.exp(-2 * N)          # dH/dt
        vdot = -3 * H * v - dV
        return H, hdot, vdot, dV

    def rhs(N, y):
        phi, v = y[0], y[1]
        H, hdot, vdot, _ = bg(N, phi, v)
        aH2 = math.exp(2 * N) * H * H
        eps = -hdot / (H * H)                             # aH grows as 1 - eps
        E = v * v / (2 * H * H)
        q = vdot / (H * v) + eps
        g = kap2 / (kap2 + K * E)
        W = kap2 - K * (1 + 2 * g * q)
        out = np.empty(10)
        out[0], out[1] = v / H, vdot / H
        R, dR, h, dh = y[2:4], y[4:6], y[6:8], y[8:10]
        out[2:4] = dR
        out[4:6] = -(1 - eps + 2 + 2 * g * q) * dR - W / aH2 * R
        out[6:8] = dh
        out[8:10] = -(1 - eps + 2) * dh - om2t / aH2 * h
        return out
    phi0, v0 = (float(x) for x in ref.sol(N0)[:2])
    H, hdot, vdot, dV = bg(N0, phi0, v0)
    a = math.exp(N0)
    # two real solutions: (1, 0) and (0, 1) in (R, dR/dN)
    y0 = [phi0, v0, 1., 0., 0., 1., 1., 0., 0., 1.]
    Nev = [] if Nev is None else list(Nev)
    s = seams.real['solve_ivp'](rhs, (N0, N1), y0, method='DOP853', rtol=1e-9, atol=1e-12, t_eval=sorted(set(Nev + [N1])))
    if s.status != 0:
        return None
    z = a * v0 / H
    eps = -hdot / H**2
    q = vdot / (H * v0) + eps
    dlnz = 1 + q
    # second derivative of z by central differences of dln z/dN along the reference
    d = 1e-4

    def dlnz_at(N):
        p, v = (float(x) for x in ref.sol(N)[:2])
        H_, hd, vd, _ = bg(N, p, v)
        return 1 + vd / (H_ * v) - hd / H_**2
    lo, hi = max(N0 - d, ref.N0), min(N0 + d, ref.N1)
    d2lnz = (dlnz_at(hi) - dlnz_at(lo)) / (hi - lo)
    aH = a * H
    zpp = aH**2 * (d2lnz + dlnz**2 + (1 - eps) * dlnz)    # z''/z in conformal time
    app = aH**2 * (2 - eps)
    out, ev = {}, {}
    for vac in VAC:
        if vac == 'HD':
            ws, wt = k * k - zpp, k * k - app
            if min(ws, wt) <= 0.:
                continue
            ws, wt = math.sqrt(ws), math.sqrt(wt)
        else:
            ws = wt = k
        R0, h0 = 1 / math.sqrt(2 * ws) / z, 2 / math.sqrt(2 * wt) / a
        dR0 = (-1j * ws / aH - (0. if vac == 'RST' else dlnz)) * R0
        dh0 = (-1j * wt / aH - (0. if vac == 'RST' else 1.)) * h0
        Rs = R0 * s.y[2] + dR0 * s.y[3]
        hs = h0 * s.y[6] + dh0 * s.y[7]
        Ps, Pt = k**3 / (2 * math.pi**2) * np.abs(Rs)**2, k**3 / math.pi**2 * np.abs(hs)**2
        out['s', vac], out['t', vac] = float(Ps[-1]), float(Pt[-1])
        if Nev:
            ev['s', vac], ev['t', vac] = np.interp(Nev, s.t, Ps), np.interp(Nev, s.t, Pt)
    return out, ev


# ------------------------------------------------------------------------------------------------------------------ history
def _mode(sol, k, m):
    from primpy.oscode_solver import solve_oscode
    kw = {'fac_beg': m['beg'], 'fac_end': m['end'], 'vacuum': tuple(m['vac'])}
    for n in ('num_eval', 'rtol'):
        if m.get(n):
            kw[n] = m[n]
    p = solve_oscode(sol, np.array([k]) if m['form'] == 'array' else k, **kw)
    out = {}
    for vac in m['vac']:
        for tag in 'st':
            n = 'P_%s_%s' % (tag, vac)
            if m['form'] == 'array':
                out[tag, vac] = float(getattr(p, n)[0])
            else:
                out[tag, vac] = float(getattr(p.scalar if tag == 's' else p.tensor, n))
                if m.get('num_eval'):
                    mode = p.scalar if tag == 's' else p.tensor
                    out[tag, vac, 'eval'] = np.array(getattr(mode, n + '_eval'), dtype=float)
                    out['x_eval'] = np.array(mode.x_eval, dtype=float)
    return out


def _errors(got, want, ev):
    err = {}
    for key, p in got.items():
        if key == 'x_eval' or key[:2] not in want:
            continue
        if len(key) == 3:
            e = np.abs(p - ev[key[:2]]) / (np.abs(ev[key[:2]]) + 0.02 * np.max(ev[key[:2]]))
            err['dense ' + '_'.join(key[:2])] = float(np.max(np.where(np.isnan(e), np.inf, e)))
        else:
            e = abs(p / want[key] - 1)
            err['P_%s_%s' % key] = float('inf') if e != e else e
    return err


def _evolve(scn, ref, first, log, fired):
    """Chopped evolution to the end of inflation; returns the last segment's solution."""
    from primpy.solver import solve
    cfg = scn['cfg']
    pot = models.make_potential(cfg)
    state = dict(first)
    for j, seg in enumerate(scn['segments'] + [scn['last']]):
        last = j == len(scn['segments'])
        eq = models.make_equations({'eq': seg['eq'], 'K': cfg['K'], 'track_time': True}, pot)
        N, room = state['_N'], ref.N_end - state['_N']
        if not last and room < 25.:
            continue
        specs, x_end, flt = [['Inflation', 1, 0], ['Inflation', -1, 1]], 1e300, []
        if cfg['K']:
            specs.append(['Collapse', 0, 1])
        kw = {'method': 'DOP853', 'rtol': 1e-11, 'atol': 1e-13}
        clock = lambda M: M if seg['eq'] == 'N' else state['t'] + (ref.at(M)['t'] - ref.at(N)['t'])  # noqa: E731
        if last:
            hi = ref.N_end - 1e-3      # the end itself and a bit more are appended below
            if seg['grid'] == 'clock':
                lnt0, t1 = math.log(max(state['t'], 1.)), clock(hi)
                g = np.linspace(N, hi, seg['n']) if seg['eq'] == 'N' else np.unique(np.r_[clock(np.linspace(N, hi, seg['n'] // 2)),
                                                                                          np.linspace(math.exp(lnt0), float(t1), seg['n'] // 2)])
            else:
                g = clock(np.linspace(N, hi, seg['n']))
            g[0] = state['t'] if seg['eq'] == 'T' else N
            g = np.r_[g[0], g[1:][g[1:] > g[0]]]
            g = g[np.r_[True, np.diff(np.maximum.accumulate(g)) > 0]]
            step = g[-1] - g[-2]
            kw['t_eval'] = np.r_[g, g[-1] + step * np.arange(1, 200)]
            x_end = float(kw['t_eval'][-1]) * (1 + 1e-9) + (1e4 / float(ref.at(ref.N_end)['H']) if seg['eq'] == 'T' else 1.)
        else:
            target = N + max(seg['frac'] * (room - 20.), 1e-3)
            if seg['stop'] == 'N':
                specs.append(['UntilN', target, 1])
            elif seg['stop'] == 'range':
                x_end = float(clock(target))
            elif seg['stop'] == 'shorten':
                flt = [{'seam': 'solve_ivp', 'kind': 'shorten', 'nth': 1, 'x_end': float(clock(target))}]
            else:
                flt = [{'seam': 'solve_ivp', 'kind': 'nan_from', 'nth': 1, 'at': seg['at']}]

        def go():
            return solve(models.state_ic(eq, state, x_end), events=[models.make_event(eq, e) for e in specs], **dict(kw))
        if seg.get('raise'):
            o = faults.perform(go, {'kind': 'seam', 'f': seg['raise']})
            fired += o.fired
            log.append('segment %d: attempt -> %s' % (j + 1, o.log()))
        env = seams.Env(faults=flt, rhs_budget=600000)
        try:
            with seams.use(env), np.errstate(all='ignore'):
                sol = go()
        except seams.SimBudget:
            return 'budget'
        except Exception as e:
            fired += env.fired
            log.append('segment %d failed: %s' % (j + 1, type(e).__name__))
            if last:
                raise
            continue
        fired += env.fired
        log.append('segment %d (%s, %s): N=%.4f to %.4f, %d points' % (j + 1, seg['eq'], 'to the end' if last else seg['stop'], N, sol._N[-1], len(sol._N)))
        if last:
            return sol
        if len(sol._N) and np.isfinite(sol._N[-1]) and ref.N_end - float(sol._N[-1]) > 18.:
            state = c07._complete(c07._state(sol, 'last'), cfg, pot)


def _calibrate(sol, scn, how=None):
    for f in (1., 0.1, 10., 0.01, 1e-3) if how is None else (how,):
        # any calibration will do: powers at given comoving wavenumbers do not depend on it
        try:
            with np.errstate(all='ignore'):
                if scn['cfg']['K']:
                    sol.calibrate_scale_factor(Omega_K0=scn['Omega_K0'] * f, h=scn['h'])
                else:
                    sol.calibrate_scale_factor(N_star=min(50. * f, 55.))
            return f
        except Exception as e:
            last = type(e).__name__ + ': ' + str(e)[:100]
    return last


def _approx(sol, lnk):
    from primpy.parameters import K_STAR
    k = np.exp(np.asarray(lnk) - float(sol._logaH_star)) * K_STAR
    out = {}
    for meth, order in compare.METHODS:
        for ps in 'st':
            try:
                out['%s(%s,%s)' % (ps, meth, order)] = compare.lookup(sol, ps, meth, order, k)
            except IndexError:          # undefined at every wavenumber
                pass
    out['lnk'], out['pivot'] = np.asarray(lnk), float(sol._logaH_star)
    for n in ('A_s', 'A_t', 'r', 'n_s', 'n_t', 'n_run', 'N_star', '_N_cross'):
        out[n] = float(sol[n])
    return out


def _compare_approx(a, b):
    err = {}
    for n, x in a.items():
        if n in ('lnk', 'pivot') or n not in b:
            continue
        y = b[n]
        if n in ('n_s', 'n_t', 'N_star', '_N_cross'):
            e = abs(y - x)
        elif n == 'n_run':
            e = 0.3 * abs(y - x)          # second derivative of a spline
        elif n in ('A_s', 'A_t', 'r'):
            e = abs(y / x - 1)
        else:
            # only where the expansion makes sense, without gaps around the pivot scale
            near = a['lnk'] - a['pivot']
            bad = np.abs(near) > (40. if 'CGS' in n or 'STE' in n else 6.)
            for ps in 'st':
                base, other = a[ps + '(CGS,0)'], a[ps + n[1:]]
                with np.errstate(all='ignore'):
                    bad |= ~((other > 0.3 * base) & (other < 3. * base))
                    steep = ~(np.abs(np.diff(np.log(other)) / np.diff(near)) < 0.5)
                    bad[:-1] |= steep
                    bad[1:] |= steep
            lo = np.max(np.r_[-1e9, near[bad & (near < 0)]])
            hi = np.min(np.r_[1e9, near[bad & (near >= 0)]])
            ok = (near > lo + 1.5) & (near < hi - 1.5)
            if ok.sum() < 3:
                continue
            e = np.abs(y[ok] / x[ok] - 1)
        err[n] = float(np.max(np.where(np.isnan(e), np.inf, e)))
    return err


def _history(scn):
    cfg, log, fired, states = scn['cfg'], [], [], []
    with np.errstate(all='ignore'):
        first = c07._initial(cfg)
        ref = c07.Reference(cfg, first)
    if not ref.ok or ref.N_end - ref.N0 < 20.:
        return {'skip': 'reference does not reach the end of inflation'}
    sol = _evolve(scn, ref, first, log, fired)
    if sol == 'budget':
        return {'skip': 'budget', 'log': log}
    bad, worst, compared, modes = None, 0., 0, 0
    N = np.asarray(sol._N, dtype=float)
    lnaH = N + np.log(np.asarray(sol.H, dtype=float))
    if not np.isfinite(float(sol._N_end)) or len(N) < 5000:
        return {'bad': ('no-end', 'the evolution to the end of inflation reports _N_end=%r with %d points, status %d' % (
            float(sol._N_end), len(N), sol.status)), 'log': log, 'fired': fired, 'states': states, 'compared': 0, 'worst': 0., 'modes': 0}
    how = _calibrate(sol, scn)
    if isinstance(how, str):
        # too short for a pivot scale inside the horizon: the mode equations need no calibration beyond its label
        log.append('no calibration: %s' % how)
        sol._logaH_star, sol.N = float(np.median(lnaH)), sol._N
    elif scn.get('partner'):
        # the same universe, uninterrupted, on the other clock
        try:
            with seams.use(seams.Env()), np.errstate(all='ignore'):
                other = _evolve({'cfg': cfg, 'segments': [], 'last': dict(scn['last'], eq='TN'[scn['last']['eq'] == 'T'])}, ref, first, log, [])
                c = _calibrate(other, scn, how)
                a, b = float(N[0]) + 1., ref.N_end - 1.
                lnk = np.interp(np.linspace(a, b, 40), N, lnaH)
                if isinstance(c, str):
                    err = {'calibration (%s)' % c: float('inf')}
                else:
                    err = _compare_approx(_approx(other, lnk), _approx(sol, lnk))
        except seams.SimBudget:
            return {'skip': 'budget', 'log': log}
        compared += len(err)
        log.append('other clock: %s' % {n: float('%.1g' % e) for n, e in sorted(err.items())})
        for n, e in sorted(err.items()):
            # extrapolations from the pivot scale; tilts are derivatives
            tol = APPROX_TOL * (5. if 'ARBDS' in n or 'LLMS' in n else 3. if n[:1] == 'n' else 1.)
            worst = max(worst, e / tol)
            if e > tol and bad is None:
                bad = ('clocks-differ', 'approximate spectra: %s differs by %.3g between the %s clock (chopped %d times) and the other one (uninterrupted)' % (
                    n, e, scn['last']['eq'], len(scn['segments'])))
    end = ref.N_end
    for j, m in enumerate(scn['modes'] if bad is None else ()):
        if m.get('int'):
            k = float(m['int'])
            while math.log(k) - lnaH[0] > 5.4 and k > 3.:
                k = float(max(int(k) // 3, 3))
        elif m['beg'] == 0:
            k = math.exp(m['lnk'] + lnaH[0])
        else:
            # leaves the horizon somewhere between soon after the start and 12 e-folds before the end
            Nx = N[0] + 0.5 + m['u'] * (end - 13. - N[0])
            if Nx < N[0] + 0.2:
                continue
            k = math.exp(float(np.interp(Nx, N, lnaH)))
        if cfg['K'] and k < 3.:
            k = 3.
        lnk = math.log(k)
        after = np.nonzero(lnaH - lnk > math.log(m['end']))[0]
        if not len(after) or lnk - lnaH[0] > 5.5 and m['beg'] == 0:
            log.append('mode %d not judged: k too large' % (j + 1))
            continue
        i1 = int(after[0])
        if m['beg'] == 0:
            i0 = 0
        else:
            b = np.nonzero(lnk - lnaH > math.log(m['beg']))[0]
            i0 = int(b[-1]) if len(b) else 0
        if lnk - lnaH[i0] > 5.5 or N[i1] > end - 0.5 or i1 <= i0:
            log.append('mode %d not judged' % (j + 1))
            continue
        if lnaH[:i1].max() > lnk + math.log(m['end']) or N[i1] - N[i0] < 10:
            later = np.nonzero(N - N[i0] > 10)[0]
            if not len(later):
                continue
            i1 = max(int(later[0]), i1) if N[i1] - N[i0] < 10 else i1
        if m.get('fault'):
            o = faults.perform(lambda: _mode(sol, k, m), m['fault'])
            fired += o.fired
            log.append('mode %d attempt: %s' % (j + 1, o.log()))
        try:
            with seams.use(seams.Env()), np.errstate(all='ignore'):
                got = _mode(sol, k, m)
        except seams.SimBudget:
            return {'skip': 'budget', 'log': log}
        except Exception as e:
            bad = ('raised', 'mode %d, k=%.6g (%.3g horizons inside at its start): %s: %s' % (
                j + 1, k, math.exp(lnk - lnaH[i0]), type(e).__name__, str(e)[:200]))
            break
        Nev = None
        if 'x_eval' in got:
            x = got['x_eval']
            Nev = x if sol.independent_variable == '_N' else np.interp(x, sol.t, N)
            Nev = np.clip(Nev, N[i0], N[i1])
        with np.errstate(all='ignore'):
            r = reference_modes(ref, k, float(N[i0]), float(N[i1]), Nev)
        if r is None:
            log.append('mode %d: no reference' % (j + 1))
            continue
        want, ev = r
        modes += 1
        states.append('%d/%s/%s/%s/%s/%s/%s' % (cfg['K'], ''.join(s['eq'] for s in scn['segments']), scn['last']['eq'], m['beg'], m['end'],
                                                ','.join(sorted(m['vac'])), 'int' if m.get('int') else ''))
        err = _errors(got, want, ev)
        deep = lnk - lnaH[i0] > math.log(50.)
        tols = {n: DENSE if n.startswith('dense') else TOL * (DEEP if deep else 1.) for n in err}
        first_err = dict(err)
        # pyoscode's accuracy is not a steady function of its tolerance: what stays off at every tolerance is not its doing
        for rtol in (1e-6, 1e-5, 3e-7):
            if all(e <= tols[n] for n, e in err.items()):
                break
            with seams.use(seams.Env()), np.errstate(all='ignore'):
                again = _errors(_mode(sol, k, dict(m, rtol=rtol)), want, ev)
            err = {n: min(e, again[n]) for n, e in err.items()}
        for n, e in first_err.items():
            if e > ROUGH and not n.startswith('dense'):
                err[n] = e
        compared += len(err)
        log.append('mode %d: k=%.6g, N=%.4f..%.4f, %.3g horizons inside at the start: %s' % (
            j + 1, k, N[i0], N[i1], math.exp(lnk - lnaH[i0]), {n: float('%.2g' % e) for n, e in sorted(err.items())}))
        for n, e in sorted(err.items()):
            tol = tols[n]
            worst = max(worst, e / tol)
            if e > tol and bad is None:
                bad = ('differs', 'mode %d: %s of k=%.6g differs from the independent integration by %.3g' % (j + 1, n, k, e))
        if bad:
            break
    return {'log': log, 'bad': bad, 'fired': fired, 'states': states, 'compared': compared, 'worst': worst, 'modes': modes}


def run(scn):
    trace = ['background %r' % (scn['cfg'],)] + ['segment %r' % (s,) for s in scn['segments'] + [scn['last']]]
    trace += ['mode %r' % (m,) for m in scn['modes']]

    def go():
        try:
            return ('ok', _history(scn))
        except ValueError as e:
            if 'no such state' in str(e):
                return ('exc', str(e))
            raise
    try:
        got = fork_call(go, timeout=120.)
    except Timeout:
        return result('inconclusive', trace + ['pyoscode does not converge'], nontrivial=False)
    if got[0] != 'ok' or 'skip' in got[1]:
        return result('inconclusive', trace + [repr(got[1].get('skip') if got[0] == 'ok' else got)], nontrivial=False)
    h = got[1]
    trace += h['log']
    num = {'powers_compared': h['compared'], 'modes': h['modes'], 'worst_error_over_tolerance_max': h['worst'], 'segments': len(scn['segments']) + 1}
    return result('violation' if h['bad'] else 'ok', trace, *(h['bad'] or ('', '')), fired=h['fired'], num=num, nontrivial=bool(h['compared']),
                  states=h['states'])


_ = (ASSUMPTIONS, REAL)
