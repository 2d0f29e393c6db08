"""C06: stopped or failed evolution never yields a made-up start or end of inflation."""
import copy
import math
import warnings

import numpy as np

from dst import calops, compare, faults, models, seams
from dst.core import fork_call
from dst.checks.common import ASSUMPTIONS, REAL, result

PROP = 'C06'
QUICK_S, THOROUGH_S, QUICK_RUNS = 80., 700., 14000
LISTS = ('events',)
NONEMPTY = ()
STUBS = ['none replaced; the integrator runs for real behind a seam that records its raw result and can cut the range short, corrupt the '
         'right-hand side from some step on, or raise']
RULE = ('a run = one background (slow-roll, inflation-start, kinetically dominated or collapsing start; flat, open, closed; either clock) with a random '
        'set and order of tracked events, a random cause of stopping and possibly a fault; start, end, everything derived from them, event '
        'dictionaries, status and warnings are compared with an independent reading of the raw integrator record, and the recorded events with '
        'sign changes along the raw record; non-trivial = the integration produced a record and something other than the plain end of inflation '
        'stopped it, or the set of events was not the plain one')
STATE_MEASURE = 'distinct (set of events that occurred, start defined, end defined, status, clock, curvature) tuples'


def gen(rng, tier):
    x = rng.random()
    if x < 0.45:
        cfg = models.curved(rng)
        if rng.random() < 0.25:
            cfg['N_i'] = calops.r(rng.uniform(8.5, 12.5))
        if cfg['K'] == 1 and rng.random() < 0.5:
            # likely to collapse
            cfg.update(phi_i=calops.r(cfg['phi_i'] * rng.uniform(0.4, 0.9)), N_i=calops.r(rng.uniform(7.5, 10)))
    else:
        cfg = models.flat(rng)
        if rng.random() < 0.3:
            cfg['ic'] = 'IS'
        cfg['phi_i'] = calops.r(cfg['phi_i'] * rng.uniform(0.6, 1.02) if cfg['pot'][0] not in 'D' else cfg['phi_i'], 9)
    if rng.random() < 0.35:
        cfg['ic'] = 'Kin'
        cfg['kin'] = calops.r(10 ** rng.uniform(-0.3, 1.))
    cfg['t_i'] = calops.r(10 ** rng.uniform(2, 4.5)) if cfg['ic'] == 'Kin' else 1e4
    T = cfg['eq'] == 'T'
    ev = []
    has_t = T or cfg.get('track_time')
    pick = rng.random
    if pick() < 0.8:
        ev.append(['Inflation', 1, 0 if pick() < 0.85 else 1])
    if pick() < 0.8:
        ev.append(['Inflation', -1, 1 if pick() < 0.65 else 0])
    if pick() < 0.08:
        ev.append(['Inflation', -1, 1 - ev[-1][2]] if ev and ev[-1][1] == -1 else ['Inflation', 0, 0])
    if pick() < (0.75 if cfg['K'] else 0.3):
        ev.append(['Collapse', 0, 1])
    if pick() < 0.3:
        ev.append(['UntilN', calops.r(cfg['N_i'] + 10 ** rng.uniform(-2, 1.9)), 1 if pick() < 0.6 else 0])
    if pick() < 0.2 and has_t:
        ev.append(['UntilT', calops.r(cfg['t_i'] + 10 ** rng.uniform(2, 6.5)), 1 if pick() < 0.6 else 0])
    if pick() < 0.2:
        ev.append(['After', rng.choice((1, 1, -1)), 1 if pick() < 0.7 else 0, calops.r(rng.uniform(-0.33, 0.5))])
    if pick() < 0.2:
        ev.append(['Phi0', rng.choice((0, -1, 1)), 1 if pick() < 0.6 else 0, 0 if pick() < 0.5 else calops.r(cfg['phi_i'] * rng.uniform(0.05, 1.))])
    if pick() < 0.15:
        ev.append(['ModeExit', calops.r(math.exp(rng.uniform(cfg['N_i'] - 13, cfg['N_i'] + 40))), rng.choice((0, 1, -1)), 1 if pick() < 0.6 else 0])
    for e in ev:
        if e[0] == 'Inflation' and e[1] and pick() < 0.15:
            e.append(cfg['t_i'] if T else cfg['N_i'])
    rng.shuffle(ev)
    cfg['events'] = []
    stops = any(e[0] == 'Inflation' and e[1] == -1 and e[2] for e in ev)
    if pick() < 0.15 or not stops:
        cfg['x_end'] = calops.r(cfg['t_i'] + 10 ** rng.uniform(3, 6.3)) if T else calops.r(cfg['N_i'] + 10 ** rng.uniform(-1, 1.85))
    if pick() < 0.25:
        lo = cfg['t_i'] if T else cfg['N_i']
        hi = cfg.get('x_end') or calops.r(lo + 10 ** rng.uniform(3, 6.8) if T else lo + 10 ** rng.uniform(-1, 1.9))
        cfg['t_eval'] = [rng.choice(('lin', 'geom')), lo, hi, rng.choice((2, 5, 50))]
    if pick() < 0.08:
        cfg['max_step'] = 3e4 if T else 0.3
    if pick() < 0.6:
        cfg['verbose'] = True
    scn = {'cfg': cfg, 'events': ev}
    if pick() < 0.35:
        k = rng.choice(('shorten', 'shorten', 'nan_from', 'nan_from', 'raise_mid', 'raise'))
        f = {'seam': 'solve_ivp', 'kind': k, 'nth': 1, 'exc': rng.choice(faults.SEAM_EXC)}
        if k in ('nan_from', 'raise_mid'):
            f['at'] = int(10 ** rng.uniform(1.1, 4))
        if k == 'shorten':
            f['x_end'] = calops.r(cfg['t_i'] + 10 ** rng.uniform(1, 6.5)) if T else calops.r(cfg['N_i'] + 10 ** rng.uniform(-2, 1.9))
        scn['fault'] = {'kind': 'seam', 'f': f}
    return scn


def shrink(scn):
    if scn.get('fault'):
        c = copy.deepcopy(scn)
        c.pop('fault')
        yield c
    for k in ('t_eval', 'max_step', 'x_end', 'verbose'):
        if scn['cfg'].get(k):
            c = copy.deepcopy(scn)
            c['cfg'].pop(k)
            yield c
    for j, e in enumerate(scn['events']):
        if e[0] == 'Inflation' and len(e) > 3:
            c = copy.deepcopy(scn)
            c['events'][j] = e[:3]
            yield c


def name_of(e):
    k = e[0]
    if k == 'Inflation':
        return 'Inflation_dir%d_term%d' % (e[1], e[2])
    if k == 'Phi0':
        return 'Phi0_dir%d_term%d' % (e[1], e[2])
    if k == 'After':
        return 'AfterInflationEnd_dir%d_term%d' % (e[1], e[2])
    if k == 'ModeExit':
        return 'ModeExit_dir%d_term%d_%e' % (e[2], e[3], e[1])
    return k


def direction_of(e):
    return {'Inflation': 1, 'Phi0': 1, 'After': 1, 'ModeExit': 2}.get(e[0]) and e[{'Inflation': 1, 'Phi0': 1, 'After': 1, 'ModeExit': 2}[e[0]]] or 0


class Reading:
    """An independent reading of raw integrator output."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.pot = models.make_potential(cfg)
        names = ['phi', 'dphidt', '_N'] if cfg['eq'] == 'T' else ['phi', 'dphidN']
        if cfg['eq'] == 'N' and cfg.get('track_time'):
            names.append('t')
        if cfg.get('track_eta'):
            names.append('eta')
        self.names = names
        self.xname = 't' if cfg['eq'] == 'T' else '_N'

    def read(self, x, y):
        """Physical quantities at points x with states y (variables x points)."""
        K = self.cfg['K']
        q = {n: y[i] for i, n in enumerate(self.names)}
        q[self.xname] = x
        with np.errstate(all='ignore'):
            q['V'] = self.pot.V(q['phi'])
            curv = K * np.exp(-2 * q['_N'])
            if self.cfg['eq'] == 'T':
                q['H2'] = (q['dphidt']**2 / 2 + q['V']) / 3 - curv
                kin = q['dphidt']**2
            else:
                q['H2'] = (q['V'] - 3 * curv) / (3 - q['dphidN']**2 / 2)
                kin = q['dphidN']**2 * q['H2']
            q['H'] = np.sqrt(q['H2'])
            q['w'] = (kin / 2 - q['V']) / (kin / 2 + q['V'])
            q['infl'] = q['V'] - kin
            q['_logaH'] = q['_N'] + np.log(q['H'])
            q['Omega_K'] = -K * np.exp(-2 * q['_logaH'])
        return q

    def g(self, e, q):
        """(value, scale) of the event function."""
        k = e[0]
        with np.errstate(all='ignore'):
            if k == 'Inflation':
                return q['infl'], np.abs(q['V'])
            if k == 'Collapse':
                return q['H2'], np.abs(q['V'])
            if k == 'UntilN':
                return q['_N'] - e[1], 1.
            if k == 'UntilT':
                return q['t'] - e[1], abs(e[1])
            if k == 'After':
                return q['w'] - e[3], 1.
            if k == 'Phi0':
                return q['phi'] - e[3], 1.
            return np.log(np.abs(q['H2'])) / 2 + q['_N'] - math.log(e[1]), 1.


def _simulate(scn):
    from primpy.solver import solve
    import primpy.exceptionhandling as ex
    cfg = dict(scn['cfg'], events=scn['events'])

    def go():
        _, _, ic, ev = models.build(cfg)
        return solve(ic, events=ev, **models.solve_kwargs(cfg))
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        o = faults.perform(go, scn.get('fault'), rhs_budget=100000, capture=True)
    warned = [(type(w.message).__name__, str(w.message)) for w in rec if isinstance(w.message, ex.PrimpyWarning)]
    out = {'ok': o.ok, 'log': o.log(), 'fired': o.fired, 'warned': warned, 'budget': o.budget, 'injected': o.injected,
           'exc': o.exc, 'msg': o.msg, 'rhs': o.env.rhs}
    if not o.ok or not o.env.capture:
        return out
    raw = o.env.capture[-1]
    out['bad'] = judge(scn, cfg, raw, o.value, warned)
    s = o.value
    tend = name_of(['Inflation', -1, 1])
    hits = sorted(name_of(e) for e, t in zip(scn['events'], raw['t_events'] or []) if len(t))
    out['plain'] = hits == [tend] and sorted(map(name_of, scn['events'])) in (sorted(map(name_of, models.STD_EVENTS)),
                                                                           sorted(map(name_of, models.STD_EVENTS_CURVED)))
    out['summary'] = 'status %d, beg %.6f, end %.6f, hits %s, x %.6g..%.6g' % (
        raw['status'], float(s._N_beg), float(s._N_end), hits, raw['t'][0] if len(raw['t']) else np.nan, raw['t'][-1] if len(raw['t']) else np.nan)
    out['state'] = '%s|%s|%s|%d|%s|%d' % (hits, np.isfinite(s._N_beg), np.isfinite(s._N_end), raw['status'], cfg['eq'], cfg['K'])
    out['efolds'] = float(s._N[-1] - s._N[0]) if len(s._N) else 0.
    return out


def eq(a, b, rtol=1e-9, atol=0.):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= rtol * np.maximum(np.abs(a), np.abs(b)) + atol)))


def judge(scn, cfg, raw, sol, warned):
    """The violation, as (kind, message), or None."""
    rd = Reading(cfg)
    specs = scn['events']
    # ---- what the integrator said is passed on
    for n in ('status', 'success', 'message'):
        if sol.get(n) != raw[n]:
            return 'integrator-status', '%s: %r but the integrator said %r' % (n, sol.get(n), raw[n])
    x, y = raw['t'], raw['y']
    if not eq(sol.x, x, 0) or not eq(sol[rd.xname], x, 0):
        return 'record', 'independent variable differs from the integrator record'
    if not eq(sol.y, y, 0):
        return 'record', 'states differ from the integrator record'
    for i, n in enumerate(rd.names):
        if not eq(sol[n], y[i], 0):
            return 'record', '%s differs from the integrator record' % n
    q = rd.read(x, y)
    for n in ('H', 'w', '_logaH', 'Omega_K'):
        if not eq(sol[n], q[n], 1e-9, 1e-12 if n in ('w', '_logaH') else 0):
            return 'derived-array', '%s along the evolution differs from the recorded states' % n
    if sol.K != cfg['K']:
        return 'derived-array', 'K=%r' % (sol.K,)
    # ---- event dictionaries
    names = [name_of(e) for e in specs]
    for suffix in ['x', rd.xname] + rd.names:
        d = sol.get(suffix + '_events')
        if not isinstance(d, dict) or sorted(d) != sorted(set(names)):
            return 'events', '%s_events has %r, tracked are %r' % (suffix, sorted(d or ()), sorted(names))
    for j, n in enumerate(names):
        if names.count(n) > 1:
            continue
        te, ye = raw['t_events'][j], raw['y_events'][j]
        for suffix, want in [('x', te), (rd.xname, te)] + [(v, ye[:, i] if len(te) else np.array([])) for i, v in enumerate(rd.names)]:
            if not eq(sol[suffix + '_events'][n], want, 0):
                return 'events', '%s_events[%s] = %s, recorded %s' % (suffix, n, sol[suffix + '_events'][n], want)
        if not len(te) and np.size(sol.y_events[n]):
            return 'events', 'y_events[%s] is not empty' % n
        if len(te) and not eq(sol.y_events[n], ye, 0):
            return 'events', 'y_events[%s] differs' % n
    # ---- are the recorded events where the evolution passes through the condition?
    for j, e in enumerate(specs):
        te, ye = raw['t_events'][j], raw['y_events'][j]
        if not len(te):
            continue
        qe = rd.read(te, ye.T)
        g, scale = rd.g(e, qe)
        with np.errstate(all='ignore'):
            off = np.abs(g) > 1e-5 * scale
            if cfg['eq'] == 'N':
                # pure kinetic energy: the e-fold equations are singular there (H2 is a quotient of two zeros)
                off &= np.abs(3 - qe['dphidN']**2 / 2) > 0.5
        if np.any(off):
            return 'event-position', '%s recorded at x=%r where the condition is off by %r' % (names[j], te[off].tolist(), g[off].tolist())
    if cfg.get('t_eval') is None and len(x) > 2:
        for j, e in enumerate(specs):
            g, scale = rd.g(e, q)
            te, d = raw['t_events'][j], direction_of(e)
            with np.errstate(all='ignore'):
                sure = np.abs(g) > 1e-7 * scale
                if cfg['eq'] == 'N':
                    sure &= np.abs(3 - q['dphidN']**2 / 2) > 0.5
            for i in range(1, len(x) - 1):
                if not (sure[i] and sure[i + 1]) or np.sign(g[i]) == np.sign(g[i + 1]):
                    continue
                up = g[i + 1] > g[i]
                if (d == 1 and not up) or (d == -1 and up):
                    continue
                if not np.any((te >= x[i] - 1e-9 * abs(x[i])) & (te <= x[i + 1] + 1e-9 * abs(x[i + 1]))):
                    return 'event-missed', '%s happens between x=%r and %r but is not recorded' % (names[j], x[i], x[i + 1])
    # ---- start
    rec = dict()
    for j, n in enumerate(names):
        rec.setdefault(n, []).append((raw['t_events'][j], raw['y_events'][j]))
    firsts = lambda keys: [(te[0], ye[0]) for k in keys for te, ye in rec.get(k, ()) if len(te)]  # noqa: E731
    collapsed = bool(firsts(['Collapse']))
    at = lambda p: rd.read(np.array([p[0]]), np.array(p[1])[:, None])  # noqa: E731
    begs = []
    q0 = {k: v[:1] for k, v in q.items()}
    edge = abs(q['infl'][0]) <= 1e-9 * abs(q['V'][0])
    starts = firsts(['Inflation_dir1_term0', 'Inflation_dir1_term1'])
    nan = float('nan')
    if collapsed:
        begs.append((nan, nan, nan))
    else:
        if q['infl'][0] >= 0 or edge:
            begs.append((q0['_N'][0], q0['H'][0], q0['_logaH'][0]))
        if q['infl'][0] < 0 or edge or not np.isfinite(q['infl'][0]):
            if starts:
                p = at(min(starts, key=lambda s: s[0]))
                begs.append((p['_N'][0], p['H'][0], p['_logaH'][0]))
            else:
                begs.append((nan, nan, nan))
    got = (float(sol._N_beg), float(sol.H_beg), float(sol._logaH_beg))
    if not any(eq(got, b, 1e-9) for b in begs):
        return 'start', 'reported start (N, H, ln aH) = %r, the record has %r' % (got, begs)
    # ---- end
    ends = firsts(['Inflation_dir-1_term1', 'Inflation_dir-1_term0'])
    if ends:
        p = at(min(ends, key=lambda s: s[0]))
        want = [float(p[n][0]) for n in ('_N', 'phi', 'H', '_logaH', 'V')]
    else:
        want = [nan] * 5
    got_end = [float(sol[n]) for n in ('_N_end', 'phi_end', 'H_end', '_logaH_end', 'V_end')]
    if not eq(got_end, want, 1e-8):
        return 'end', 'reported end (N, phi, H, ln aH, V) = %r, the record has %r' % (got_end, want)
    if not eq(sol.N_tot, got_end[0] - got[0], 1e-12, 1e-9):
        return 'total', 'N_tot = %r, but end - start = %r' % (float(sol.N_tot), got_end[0] - got[0])
    if np.isfinite(got[0]) and np.isfinite(got_end[0]):
        if not np.array_equal(sol.inflation_mask, (q['_N'] > got[0]) & (q['_N'] < got_end[0])):
            return 'mask', 'inflation_mask is not the stretch between start and end'
    elif 'inflation_mask' in sol:
        return 'mask', 'inflation_mask exists although start or end is undefined'
    # ---- warnings
    kinds = [k for k, _ in warned]
    if cfg.get('verbose'):
        if collapsed and 'CollapseWarning' not in kinds:
            return 'not-warned', 'collapse without a warning: %r' % (kinds,)
        if not collapsed and not np.isfinite(got[0]) and 'InflationStartWarning' not in kinds:
            return 'not-warned', 'undefined start without a warning: %r' % (kinds,)
        if not np.isfinite(got_end[0]) and 'InflationEndWarning' not in kinds:
            return 'not-warned', 'undefined end without a warning: %r' % (kinds,)
        if not collapsed and 'CollapseWarning' in kinds:
            return 'false-warning', 'collapse warned about without a collapse'
        if np.isfinite(got[0]) and 'InflationStartWarning' in kinds:
            return 'false-warning', 'start warned about although defined'
        if np.isfinite(got_end[0]) and 'InflationEndWarning' in kinds:
            return 'false-warning', 'end warned about although defined'
        for k, m in warned:
            for which, d in (('InflationStartWarning', 1), ('InflationEndWarning', -1)):
                if k == which and 'Not tracking' in m and any(e[0] == 'Inflation' and e[1] == d for e in specs):
                    return 'false-warning', '%s claims that the event is not tracked, but it is' % k
    elif kinds:
        return 'warned-quietly', 'warnings %r although not asked for' % (kinds,)
    # ---- nothing may be built on an undefined start or end
    if not np.isfinite(float(sol.N_tot)):
        for kw in ([dict(N_star=30.)] if cfg['K'] == 0 else [dict(Omega_K0=-cfg['K'] * 0.01, h=0.7)]):
            try:
                with seams.use(None), np.errstate(all='ignore'):
                    sol.calibrate_scale_factor(**kw)
                v = [float(sol.get(n, nan)) for n in ('N_star', 'A_s', 'n_s')]
            except Exception:
                v = [nan]
            if not np.isfinite(got_end[0]) and np.any(np.isfinite(v)):
                return 'built-on-nothing', 'calibration %r of an evolution without an end gives N_star, A_s, n_s = %r' % (kw, v)
    return None


def run(scn):
    trace = ['background %r' % (scn['cfg'],), 'events %r fault %r' % (scn['events'], scn.get('fault'))]
    h = fork_call(lambda: _simulate(scn))
    trace.append(h['log'])
    num = {'rhs_evaluations': h['rhs'], 'efolds_integrated': h.get('efolds', 0.)}
    if h['budget']:
        return result('inconclusive', trace, 'budget', '', h['fired'], num, False)
    if not h['ok']:
        num['rejected'] = 1
        if h['injected'] or 'summary' not in h:
            return result('ok', trace, '', '', h['fired'], num, False)
    trace.append(h['summary'])
    trace.append('warnings %s' % [k for k, _ in h['warned']])
    bad = h['bad']
    return result('violation' if bad else 'ok', trace, bad[0] if bad else '', bad[1] if bad else '', h['fired'], num, not h['plain'], [h['state']])


_ = compare
