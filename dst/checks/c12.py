"""C12: derived calibration values fed back reproduce the calibration."""
import copy
import math

import numpy as np

from dst import calops, compare, faults, models
from dst.checks.common import ASSUMPTIONS, REAL, efolds, guarded, result
from dst.core import fork_call

PROP = 'C12'
QUICK_S, THOROUGH_S, QUICK_RUNS = 80., 700., 4000
LISTS = ('ops',)
NONEMPTY = ('ops',)
STUBS = ['none replaced; faults enter through seams at splines, interpolations and the root finder and a line-level interrupter']
RULE = ('a run = a background and 0-2 identical ones, one calibration, then a chain of 3-14 steps: feeding the currently derived values back through '
        'another accepted parametrisation (e-folds, e-folds with reheating energy or equation of state, equation of state with duration or energy, radiation '
        'parameter with or without reheating energy, curvature today, spectral index, copy of an identical background), on the same or on an identical '
        'background, detours over unrelated calibrations (successful, rejected), failing and interrupted steps; after every step all calibration values are '
        'compared with those of the first calibration (no drift) and with the relations between them; non-trivial = at least three completed feed-backs')
STATE_MEASURE = 'distinct (universe, previous route, route) tuples'
TOL = 2e-8
NAMES = ['N_star', '_N_cross', '_logaH_star', 'H_star', 'delta_N_calib', 'DeltaN_minus1', 'rho_reh_GeV', 'rho_reh_mp4', '_N_reh', 'w_reh', 'DeltaN_reh',
         'N_reh', 'N_end', 'N_beg', 'N_cross', 'N_dagg', 'a0', 'N0', 'a0_Mpc', 'Omega_K0', 'cHH_end_Mpc', 'V_end', 'A_s', 'n_s', 'n_run', 'A_t', 'n_t', 'r']
DETAILS = ('rho_reh_GeV', 'rho_reh_mp4', '_N_reh', 'w_reh', 'DeltaN_reh', 'N_reh')


def gen(rng, tier):
    cfg = models.curved(rng) if rng.random() < 0.35 else models.flat(rng, features=False)
    while True:
        first = calops.gen_cal(rng, cfg, bad=0.)
        if not {'method', 'order', 'ext', 'k'} & set(first['kw']) and first['kw'].get('DeltaN_minus1') != 0:
            break
    ops = []
    for _ in range(rng.choice((3, 5, 8)) if tier == 'quick' else rng.choice((5, 9, 14))):
        x = rng.random()
        if x < 0.8:
            op = {'op': 'feed', 'u': round(rng.random(), 6), 'on': rng.choice((0, 0, 0, 1, 2))}
            p = 0.15
        elif x < 0.92:
            op = dict(calops.gen_cal(rng, cfg, bad=0.4), on=rng.choice((0, 0, 1)))
            p = 0.2
        else:
            op = dict(calops.gen_op(rng, cfg, weights=(0, 50, 30, 20, 0, 0)), on=0)
            p = 0.2
        if rng.random() < p:
            op['fault'] = faults.random_fault(rng, calops.SEAMS.get(op['op'], calops.SEAMS['cal']), async_p=0.6)
        ops.append(op)
    return {'cfg': cfg, 'first': first, 'ops': ops}


def shrink(scn):
    for j, op in enumerate(scn['ops']):
        if op.get('on'):
            c = copy.deepcopy(scn)
            c['ops'][j]['on'] = 0
            yield c
    for k in scn['first']['kw']:
        if k == 'g_th':
            c = copy.deepcopy(scn)
            c['first']['kw'].pop(k)
            yield c


def read(sol):
    out = {}
    for n in NAMES:
        if n in sol:
            v = np.asarray(sol[n], dtype=float)
            out[n] = float(v) if v.ndim == 0 else None
    return out


def routes(cur, cfg, first):
    """The parametrisations through which the derived values `cur` can be fed back: name, arguments, does it keep the details of reheating."""
    kw = {k: v for k, v in first.items() if k in ('g_th', 'h')}
    out = []
    g = cur.get
    details = all(g(n) is not None and math.isfinite(g(n)) for n in ('w_reh', 'DeltaN_reh', 'rho_reh_GeV'))
    instant = details and g('DeltaN_reh') == 0 and g('w_reh') == 1 / 3
    # where the values determine each other well
    regular = details and g('DeltaN_reh') > 0.1 and -1 / 3 < g('w_reh') < 3
    if cfg['K'] == 0:
        N = dict(kw, N_star=g('N_star'))
        out.append(('N_star', N, False))
        out.append(('copy', {'N_star': g('N_star')}, details))
        out.append(('DeltaN_minus1', dict(kw, calibration_method='reheating', DeltaN_minus1=g('DeltaN_minus1')), False))
        if details and abs(g('DeltaN_reh')) > 0.1 and g('rho_reh_GeV') > 1e-20:
            out.append(('N_star+rho', dict(N, rho_reh_GeV=g('rho_reh_GeV')), True))
            out.append(('DeltaN_minus1+rho', dict(kw, calibration_method='reheating', DeltaN_minus1=g('DeltaN_minus1'), rho_reh_GeV=g('rho_reh_GeV')), True))
        if regular and abs(1 - 3 * g('w_reh')) > 0.02:
            out.append(('N_star+w', dict(N, w_reh=g('w_reh')), True))
        if g('N_star') < cfg['nmax'] and not details:
            out.append(('n_s', None, False))
    else:
        O = dict(kw, Omega_K0=g('Omega_K0'))
        out.append(('Omega_K0', O, False))
        if details and abs(g('DeltaN_reh')) > 0.1 and g('rho_reh_GeV') > 1e-20:
            out.append(('Omega_K0+rho', dict(O, rho_reh_GeV=g('rho_reh_GeV')), True))
    if regular:
        out.append(('w+DeltaN', dict(kw, calibration_method='reheating', w_reh=g('w_reh'), DeltaN_reh=g('DeltaN_reh')), True))
    if regular and g('rho_reh_GeV') > 1e-20:                      # no underflow of its fourth power
        out.append(('w+rho', dict(kw, calibration_method='reheating', w_reh=g('w_reh'), rho_reh_GeV=g('rho_reh_GeV')), True))
    if instant:
        out.append(('instant', dict(kw, calibration_method='reheating'), True))
        # reheating that ends when inflation ends lasts no time, whatever its equation of state
        out.append(('w+rho_end', dict(kw, calibration_method='reheating', w_reh=0.1, rho_reh_GeV=g('rho_reh_GeV')), False))
    return out


def consistent(cur, K):
    """Relations between the values of one calibration."""
    bad = []

    def near(what, a, b):
        if a is not None and b is not None and math.isfinite(a) and math.isfinite(b) and abs(a - b) > 1e-9 * max(1., abs(a), abs(b)):
            bad.append('%s: %.12g, expected %.12g' % (what, a, b))
    g = cur.get

    def minus(a, b):
        return None if g(a) is None or g(b) is None else g(a) - g(b)
    near('N_star = N_end - N_cross', g('N_star'), minus('N_end', 'N_cross'))
    near('N_dagg = N_cross - N_beg', g('N_dagg'), minus('N_cross', 'N_beg'))
    near('DeltaN_reh = N_reh - N_end', g('DeltaN_reh'), minus('N_reh', 'N_end'))
    if g('w_reh') is not None and g('DeltaN_reh') is not None and abs(g('w_reh')) < 1e3:
        near('DeltaN_minus1 = DeltaN_reh (1 - 3 w_reh) / 4', g('DeltaN_minus1'), g('DeltaN_reh') / 4 * (1 - 3 * g('w_reh')))
        if g('V_end') and g('rho_reh_mp4') and g('rho_reh_GeV') > 1e-20:
            # at the end of inflation the kinetic energy is half the potential energy
            near('ln(rho_reh)', math.log(g('rho_reh_mp4')), math.log(1.5 * g('V_end')) - 3 * (1 + g('w_reh')) * g('DeltaN_reh'))
    if g('A_s') and g('A_t'):
        near('r = A_t / A_s', g('r'), g('A_t') / g('A_s'))
    if g('_logaH_star') is not None and g('H_star'):
        near('log(aH) at horizon crossing', g('_logaH_star'), minus('_N_cross', 'delta_N_calib') and g('_N_cross') + math.log(g('H_star')))
    return bad


def differ(ref, cur, details):
    bad = []
    for n in NAMES:
        a, b = ref.get(n), cur.get(n)
        if n in DETAILS and (not details or a is None or not math.isfinite(a)):
            continue
        if a is None or (not math.isfinite(a)):
            continue
        if n == 'DeltaN_minus1' and b is not None and math.isnan(b) and not details:
            continue                                              # curved universe without reheating details
        tol = TOL * (20 if n in ('n_run', 'w_reh') else 1)
        if b is None or not abs(a - b) <= tol * max(1. if n in compare.LOGLIKE else 0., abs(a), abs(b)):
            bad.append('%s: %s, expected %.12g' % (n, 'missing' if b is None else '%.12g' % b, a))
    return bad


class Case:
    def __init__(self, scn):
        self.scn, self.cfg = scn, scn['cfg']
        self.sols = {}
        self.sols[0] = calops.Ctx(self.cfg)

    def ctx(self, i):
        if i not in self.sols:
            self.sols[i] = calops.Ctx(self.cfg)
        return self.sols[i]


def _feed(case, ctx, name, kw, cur):
    sol = ctx.sol
    if name == 'copy':
        return lambda: sol.calibrate_scale_factor(background=case.src.sol, N_star=case.src.sol.N_star)
    if name == 'n_s':
        N = cur['N_star']

        def go():
            sol.set_ns(n_s=cur['n_s'], N_star_min=max(5., N - 6), N_star_max=min(N + 4, case.cfg['nmax'] + 0.5))
        return go
    return lambda: sol.calibrate_scale_factor(**kw)


def _history(scn):
    got = guarded(lambda: Case(scn))
    if got[0] != 'ok':
        return {'skip': 'background %r' % (got,)}
    case = got[1]
    first = calops.apply(scn['first'], case.sols[0])
    if not first.ok:
        return {'skip': 'first calibration ' + first.log()}
    ref = read(case.sols[0].sol)
    details = math.isfinite(ref.get('w_reh', math.nan))
    log, fired, states, bad, feeds, prev, cur = ['reference %r' % ref], [], [], None, 0, 'first', dict(ref)
    d = consistent(ref, case.cfg['K'])
    if d:
        bad = ('inconsistent', 'after the first calibration: ' + '; '.join(d[:4]))
    case.src = case.sols[0]                                       # where the values come from
    g_th = scn['first']['kw'].get('g_th')
    for j, op in enumerate(scn['ops']):
        if bad:
            break
        g = guarded(lambda: case.ctx(op['on']))
        if g[0] != 'ok':
            return {'skip': 'background %r' % (g,)}
        ctx = g[1]
        if op['op'] != 'feed':
            if ctx is case.src and op['op'] != 'lookup':
                # the values are in the user's hands; what they were read from moves on
                case.src = None
            o = calops.apply(op, ctx)
            fired += o.fired
            log.append('%d: on %d %s -> %s' % (j + 1, op['on'], calops.describe(op), o.log()))
            continue
        rs = routes(cur, case.cfg, scn['first']['kw'])
        if case.src is None:
            rs = [x for x in rs if x[0] != 'copy']
        name, kw, keeps = rs[min(int(op['u'] * len(rs)), len(rs) - 1)]
        o = faults.perform(_feed(case, ctx, name, kw, cur), op.get('fault'))
        fired += o.fired
        log.append('%d: on %d feed back %s %r -> %s' % (j + 1, op['on'], name, kw, o.log()))
        states.append('K%d/%s/%s/%s' % (case.cfg['K'], prev, name, o.brief()))
        if ctx is case.src and (name == 'n_s' or not o.ok and o.fired):
            case.src = None
        if not o.ok:
            if not o.fired:
                bad = ('rejected', 'step %d: feeding back the derived values as %s %r: %s %s' % (j + 1, name, kw, o.exc, o.msg))
            continue
        new = read(ctx.sol)
        feeds += 1
        keeps = keeps and details
        d = differ(ref, new, keeps)
        if name == 'n_s':
            d = [x for x in differ({k: ref[k] for k in ('N_star', 'A_s', 'n_s', 'DeltaN_minus1', 'N_end') if k in ref}, new, False)
                 if abs(new['N_star'] - ref['N_star']) > 1e-5 or abs(new['n_s'] - ref['n_s']) > 1e-9]
        if d:
            bad = ('not-reproduced', 'step %d: after feeding back as %s: %s' % (j + 1, name, '; '.join(d[:5])))
            break
        d = consistent(new, case.cfg['K'])
        if d:
            bad = ('inconsistent', 'step %d: after feeding back as %s: %s' % (j + 1, name, '; '.join(d[:4])))
            break
        if keeps or not details or op['u'] * 1e4 % 1 < 0.3:
            # go on from what was derived last; details once forgotten stay forgotten
            if name != 'n_s':
                cur, case.src, details, prev = new, ctx, keeps, name
        elif ctx is case.src:
            case.src = None
    return {'log': log, 'fired': fired, 'bad': bad, 'feeds': feeds, 'states': states, 'efolds': efolds(case.sols[0].sol), 'g_th': g_th}


def run(scn):
    h = fork_call(lambda: _history(scn))
    trace = ['background %r' % (scn['cfg'],), 'first %s' % calops.describe(scn['first'])]
    if 'skip' in h:
        return result('inconclusive', trace + [h['skip']], nontrivial=False)
    trace += h['log']
    kw = dict(fired=h['fired'], num={'operations': len(scn['ops']) + 1, 'feedbacks': h['feeds'], 'efolds_integrated': h['efolds']},
              nontrivial=h['feeds'] >= 3, states=h['states'])
    if h['bad']:
        return result('violation', trace, h['bad'][0], h['bad'][1], **kw)
    return result('ok', trace, **kw)


_ = (ASSUMPTIONS, REAL)
