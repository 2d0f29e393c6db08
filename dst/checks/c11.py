"""C11: a sampler point depends only on its parameters and hits its target or fails."""
import copy
import math

import numpy as np

from dst import calops, compare, faults
from dst.checks.common import ASSUMPTIONS, REAL, result
from dst.core import fork_call

PROP = 'C11'
QUICK_S, THOROUGH_S, QUICK_RUNS = 180., 700., 3000
LISTS = ('ops',)
NONEMPTY = ('ops',)
REAL = REAL + ['cobaya.theory.Theory (cache and error handling around a point)']
STUBS = ['cobaya: samplers, likelihoods and input parsing are replaced by the simulated sequence of points']
RULE = ('a run = 1-2 sampler components (10 potentials; own cache size, errors raised or turned into rejections) and 2-6 points evaluated on them in '
        'some order, many of them near-repetitions of one another, some rejected, some with a failing numerical routine or an interrupt inside; every '
        'undisturbed point is compared with the same point on a new component in a pristine process, every accepted one with its targets and with the '
        'relations between its derived values and its spectra; all published states are compared with their first values at the end; non-trivial = at '
        'least two accepted points, or one and one rejection or fault')
STATE_MEASURE = 'distinct (component, kind of request, history, outcome) tuples'
TIGHT = 1e-9

MODELS = [
    ('StarobinskySlowRollPPS', [{}]),
    ('QuadraticSlowRollPPS', [{}]),
    ('LinearSlowRollPPS', [{}]),
    ('MonomialSlowRollPPS', [{'p': 1.5}, {'p': 2 / 3}, {'p': 1.}, {'p': 3.}]),
    ('NaturalSlowRollPPS', [{'phi0': 12.}, {'phi0': 20.}, {'phi0': 40.}]),
    ('DoubleWell2SlowRollPPS', [{'phi0': 15.}, {'phi0': 25.}]),
    ('DoubleWell4SlowRollPPS', [{'phi0': 25.}, {'phi0': 40.}]),
    ('TmodelSlowRollPPS', [{'p': 2., 'alpha': 1.}, {'p': 1., 'alpha': 5.}, {'p': 2., 'alpha': 3.}]),
    ('RadionGaugeSlowRollPPS', [{'p': 2., 'alpha': 1.}, {'p': 3., 'alpha': 10.}]),
    ('RadionGauge2SlowRollPPS', [{'alpha': 5.}, {'alpha': 10.}]),
]
N_SR = len(MODELS)
POWER = [('PowerLawPPS', []), ('LogOscillationPPS', ['A_log', 'w_log', 'p_log']), ('LinOscillationPPS', ['A_lin', 'w_lin', 'p_lin']), ('CutoffPPS', ['k_cut', 's_cut'])]
MODELS += POWER
DERIVED = ('N_star', 'N_end', 'phi_end', 'V_end', 'H_end', 'N_reh', 'w_reh', 'DeltaN_reh', 'rho_reh_GeV', 'DeltaN_minus1',
           'A_s', 'n_s', 'n_run', 'n_runrun', 'A_t', 'n_t', 'r')
SEAMS = (faults.seam_ivp, faults.seam_ivp, faults.seam_spline, faults.seam_root, faults.seam_interp)


def _target(rng):
    kw = {'A_s': calops.r(rng.uniform(1.5e-9, 2.5e-9)) if rng.random() < 0.8 else calops.r(10 ** rng.uniform(-10.5, -7.5))}
    x = rng.random()
    if x < 0.1:                                                   # likely rejected
        kw.update(rng.choice((
            lambda: dict(N_star=calops.r(rng.uniform(95, 300))), lambda: dict(N_star=55., rho_reh_GeV=1e18),
            lambda: dict(n_s=rng.choice((0.999, 1.1, 0.8))), lambda: dict(N_star=55., rho_reh_GeV=1e-30),
            lambda: dict(w_reh=rng.choice((-0.5, -0.33, 1., 2.)), rho_reh_GeV=1e9), lambda: dict(N_star=0.),
            lambda: dict(N_star=68., rho_reh_GeV=1e9), lambda: dict(N_star=-5.), lambda: dict(w_reh=0.1, rho_reh_GeV=1e17),
            lambda: dict(N_star=66., w_reh=0.), lambda: dict(A_s=rng.choice((-2e-9, 0.)), N_star=55.),
        ))())
        return kw
    if x < 0.35:
        kw['N_star'] = calops.r(rng.uniform(40, 60) if rng.random() < 0.8 else rng.uniform(20, 85))
        y = rng.random()
        if y < 0.5:
            kw['rho_reh_GeV'] = calops.r(10 ** rng.uniform(3, 15.5))
        elif y < 0.65:
            kw['w_reh'] = rng.choice((0., 0.2, 0.6, -0.2))
    elif x < 0.65:
        kw['n_s'] = calops.r(rng.uniform(0.955, 0.98))
        if rng.random() < 0.4:
            kw['rho_reh_GeV'] = calops.r(10 ** rng.uniform(3, 15.5))
        elif rng.random() < 0.5:
            kw['w_reh'] = rng.choice((0., 0., 0.2, 0.6, -0.2))
        if rng.random() < 0.3:
            kw['N_star'] = calops.r(rng.uniform(50, 70))
    elif x < 0.97:
        kw['w_reh'], kw['rho_reh_GeV'] = rng.choice((0., 0., 0.2, 0.6, -0.2, 0.9)), calops.r(10 ** rng.uniform(1, 15.5))
    return kw


def _power_point(rng, cls):
    kw = {'A_s': calops.r(rng.uniform(1.5e-9, 2.5e-9))}
    for n, lo, hi, p in (('n_s', 0.9, 1.05, 0.8), ('n_run', -0.02, 0.02, 0.4), ('n_runrun', -0.01, 0.01, 0.3)):
        if rng.random() < p:
            kw[n] = calops.r(rng.uniform(lo, hi))
    x = rng.random()
    if x < 0.5:
        kw['r'] = calops.r(rng.uniform(0., 0.2)) if rng.random() < 0.9 else 0.
    elif x < 0.75:
        kw['A_t'] = calops.r(rng.uniform(1e-12, 1e-10))
        if rng.random() < 0.4:
            kw['r'] = kw['A_t'] / kw['A_s'] * (1. if rng.random() < 0.7 else 1.1)      # the latter contradicts
    if rng.random() < 0.3:
        kw['n_t'] = calops.r(rng.uniform(-0.05, 0.05))
    if rng.random() < (0.6 if 'n_t' in kw else 0.05):                                  # without n_t: contradicts
        kw['n_t_run'] = calops.r(rng.uniform(-0.01, 0.01))
    own = MODELS[cls][1]
    if own:
        vals = {'A_log': rng.uniform(0, 0.3), 'w_log': rng.uniform(1, 50), 'p_log': rng.random(), 'A_lin': rng.uniform(0, 0.3), 'w_lin': rng.uniform(1, 50),
                'p_lin': rng.random(), 'k_cut': 10 ** rng.uniform(-5, -2), 's_cut': rng.uniform(1, 4)}
        for n in own:
            if n[1:] != '_cut' or rng.random() < 0.8:
                kw[n] = calops.r(vals[n])
    return kw


def gen_power(rng, tier):
    comps = [{'cls': N_SR + rng.randrange(len(POWER)), 'cache': rng.choice((1, 3, 3, 5)), 'stop': rng.random() < 0.6} for _ in range(rng.choice((1, 2, 3)))]
    ops, made = [], []
    for _ in range(rng.choice((3, 6, 12)) if tier == 'quick' else rng.choice((6, 20, 40))):
        c = rng.randrange(len(comps))
        mine = [kw for d, kw in made if d == c]
        new = _power_point(rng, comps[c]['cls'])
        x = rng.random()
        if mine and x < 0.2:
            new = dict(rng.choice(mine))
        elif mine and x < 0.6:
            old = dict(rng.choice(mine))
            k = rng.choice(sorted(set(old) | set(new)))
            if k in new:
                old[k] = new[k]
            elif k not in ('A_s',) + tuple(MODELS[comps[c]['cls']][1]):
                old.pop(k)
            new = old
        made.append((c, new))
        op = {'c': c, 'kw': new, 'via': 'direct' if rng.random() < 0.3 else 'cobaya', 'cached': rng.random() < 0.7, 'derived': rng.random() < 0.8}
        if rng.random() < 0.25:
            op['fault'] = {'kind': 'async', 'exc': rng.choice(faults.ASYNC), 'u': round(rng.random(), 6), 'v': round(rng.random(), 6),
                           'mode': 'site' if rng.random() < 0.7 else 'time'}
        ops.append(op)
    return {'comps': comps, 'ops': ops}


def gen(rng, tier):
    if rng.random() < 0.2:
        return gen_power(rng, tier)
    comps = []
    for _ in range(rng.choice((1, 1, 2))):
        comps.append({'cls': rng.randrange(N_SR), 'cache': rng.choice((1, 3, 3, 5)), 'stop': rng.random() < 0.6})
    if len(comps) == 2 and rng.random() < 0.4:
        comps[1]['cls'] = comps[0]['cls']
    if rng.random() < 0.15:
        comps.append({'cls': N_SR + rng.randrange(len(POWER)), 'cache': 3, 'stop': True})
    ops, made = [], []
    for _ in range(rng.choice((2, 3, 4)) if tier == 'quick' else rng.choice((3, 5, 8))):
        c = rng.randrange(len(comps))
        mine = [kw for d, kw in made if d == c]
        if comps[c]['cls'] >= N_SR:
            ops.append({'c': c, 'kw': _power_point(rng, comps[c]['cls']), 'via': 'cobaya', 'cached': True, 'derived': True})
            continue
        x = rng.random()
        par = dict(rng.choice(MODELS[comps[c]['cls']][1]))
        if mine and x < 0.18:                                    # the same point again
            kw = dict(rng.choice(mine))
        elif mine and x < 0.55:                                  # differs in one thing
            kw = dict(rng.choice(mine))
            new = dict(_target(rng), **par)
            k = rng.choice(sorted(set(kw) | {'A_s'}))
            if rng.random() < 0.3 and par:
                kw.update(par)
            elif k in new:
                kw[k] = new[k]
            elif k == 'rho_reh_GeV':
                kw[k] = calops.r(10 ** rng.uniform(3, 15.5))
            elif k == 'n_s':
                kw[k] = calops.r(rng.uniform(0.955, 0.98))
        else:
            kw = dict(_target(rng), **par)
        made.append((c, kw))
        op = {'c': c, 'kw': kw, 'via': 'direct' if rng.random() < 0.3 else 'cobaya', 'cached': rng.random() < 0.7, 'derived': rng.random() < 0.8}
        if rng.random() < 0.35:
            if rng.random() < 0.45:
                op['fault'] = {'kind': 'async', 'exc': rng.choice(faults.ASYNC), 'u': round(rng.random(), 6), 'v': round(rng.random(), 6),
                               'mode': 'site' if rng.random() < 0.7 else 'time'}
            else:
                if rng.random() < 0.2:
                    f = {'seam': 'solve_ivp', 'kind': 'skew', 'nth': rng.choice((1, 1, 1, 2)), 'sticky': rng.random() < 0.85,
                         'amp': calops.r(10 ** rng.uniform(-4, -1.5))}
                else:
                    f = rng.choice(SEAMS)(rng)
                if f['kind'] == 'raise' and f['seam'] in ('solve_ivp', 'root_scalar') and rng.random() < 0.4:
                    f['nth'] = rng.choice((1, 2, 2, 3))
                op['fault'] = {'kind': 'seam', 'f': f}
        ops.append(op)
    return {'comps': comps, 'ops': ops}


def shrink(scn):
    for j, op in enumerate(scn['ops']):
        for k, v in (('via', 'direct'), ('cached', False), ('derived', True)):
            if op[k] != v:
                c = copy.deepcopy(scn)
                c['ops'][j][k] = v
                yield c
    if len(scn['comps']) > 1:
        for i in range(len(scn['comps'])):
            if not any(op['c'] == i for op in scn['ops']):
                c = copy.deepcopy(scn)
                c['comps'].pop(i)
                for op in c['ops']:
                    op['c'] = 0
                yield c
    for i, comp in enumerate(scn['comps']):
        for k, v in (('cache', 3), ('stop', True)):
            if comp[k] != v:
                c = copy.deepcopy(scn)
                c['comps'][i][k] = v
                yield c


def warm():
    import cobaya_wrapper.slowroll_pps  # noqa: F401
    import cobaya_wrapper.feature_pps  # noqa: F401


# ---------------------------------------------------------------------------------------------------------- components
def make(comp):
    import cobaya_wrapper.slowroll_pps as sp
    import cobaya_wrapper.powerlaw_pps as pl
    import cobaya_wrapper.feature_pps as ft
    c = getattr(sp if comp['cls'] < N_SR else pl if comp['cls'] == N_SR else ft, MODELS[comp['cls']][0])({'stop_at_error': bool(comp['stop'])})
    c.set_cache_size(comp['cache'])
    return c


def published(state):
    """A copy of everything that a state publishes."""
    out = {}
    for ps in ('scalar', 'tensor'):
        d = state.get('primordial_%s_pk' % ps)
        if d is not None:
            for k in d:
                out['%s %s' % (ps, k)] = compare.val(d[k])
    for k, v in (state.get('derived') or {}).items():
        out[k] = compare.val(v)
    return out


def evaluate(comp, op):
    """One point: the state that is published for it (None if it is rejected)."""
    if op['via'] == 'direct':
        state = {}
        try:
            comp.calculate(state, op['derived'], **op['kw'])
        except BaseException as e:
            e.dst_state = state
            raise
        return state
    if not comp.check_cache_and_compute(dict(op['kw']), want_derived=op['derived'], dependency_params={}, cached=op['cached']):
        return None
    s = dict(comp.current_state)
    s['primordial_scalar_pk'] = comp.get_primordial_scalar_pk()
    s['primordial_tensor_pk'] = comp.get_primordial_tensor_pk()
    return s


def _history(scn):
    comps = [make(c) for c in scn['comps']]
    log, fired, pts, kept, leak = [], [], [], [], None
    for j, op in enumerate(scn['ops']):
        comp = comps[op['c']]
        box = {}

        def body(op=op, comp=comp, box=box):
            try:
                box['state'] = evaluate(comp, op)
            except BaseException as e:
                box['left'] = getattr(e, 'dst_state', None)
                raise
        o = faults.perform(body, op.get('fault'), rhs_budget=3000000)
        fired += o.fired
        state = box.get('state') if o.ok else None
        brief = 'accepted' if state is not None else 'rejected' if o.ok else o.brief()
        log.append('%d: %s(%s) -> %s%s' % (j + 1, MODELS[scn['comps'][op['c']]['cls']][0], ', '.join('%s=%r' % kv for kv in sorted(op['kw'].items())),
                                           brief, ' ' + o.log() if o.fired or not o.ok else ''))
        pub = published(state) if state is not None else None
        if state is not None:
            kept.append((j, state, pub))
        if not o.ok and not o.fired and box.get('left') and any('_pk' in k for k in box['left']):
            leak = leak or 'point %d raised %s but left %s' % (j + 1, o.exc, sorted(box['left']))
        pts.append((brief, pub, bool(o.fired), o.injected, o.exc))
    late = None
    for j, state, pub in kept:
        d = compare.diff(pub, published(state), rtol=0.)
        if d and late is None:
            late = 'spectra or derived values published for point %d changed later: %s' % (j + 1, '; '.join(d[:3]))
    return {'log': log, 'fired': fired, 'pts': pts, 'leak': leak, 'late': late}


def _alone(comp, op):
    c = make(comp)
    o = faults.perform(lambda: evaluate(c, dict(op, via='direct')), None, rhs_budget=3000000)
    return o.brief(), published(o.value) if o.ok else None


# -------------------------------------------------------------------------------------------------------------- oracle
def targets(kw, p):
    """What an accepted point fails to satisfy."""
    from scipy.interpolate import InterpolatedUnivariateSpline
    bad = []
    missing = [k for k in DERIVED if k not in p] + [k for k in ('scalar Pk', 'tensor Pk', 'scalar kmin', 'scalar kmax') if k not in p]
    if missing:
        return ['missing %s' % ', '.join(missing)]
    d = {k: float(p[k]) for k in DERIVED}

    def near(what, a, b, rel, abs_=0.):
        if not abs(a - b) <= rel * max(abs(a), abs(b)) + abs_:
            bad.append('%s: %.12g, expected %.12g' % (what, a, b))
    A_s = kw['A_s']
    if not abs(d['A_s'] - A_s) <= 1.001e-14 + 1.001e-6 * A_s:
        bad.append('A_s=%.12g, requested %.12g' % (d['A_s'], A_s))
    n_s, N, rho, w = kw.get('n_s'), kw.get('N_star'), kw.get('rho_reh_GeV'), kw.get('w_reh')
    both = rho is not None and w is not None
    if n_s is not None and not both:
        near('n_s', d['n_s'], n_s, 0., 1e-7)
        if N is not None and d['N_star'] > N + 1e-9:
            bad.append('N_star=%r above the requested maximum %r' % (d['N_star'], N))
    elif not both:
        near('N_star', d['N_star'], 75. if N is None else N, 1e-9)
    if rho is not None:
        near('rho_reh_GeV', d['rho_reh_GeV'], rho, 1e-9)
    if w is not None:
        near('w_reh', d['w_reh'], w, 1e-9, 1e-9)
    # the spectra are those of these derived values
    ks = np.geomspace(float(p['scalar kmin']), float(p['scalar kmax']), len(p['scalar Pk']))
    if 'tensor kmin' not in p or float(p['tensor kmin']) != float(p['scalar kmin']) or float(p['tensor kmax']) != float(p['scalar kmax']):
        bad.append('range of wavenumbers')
    if not (np.all(np.isfinite(p['scalar Pk'])) and np.all(p['scalar Pk'] > 0) and np.all(np.isfinite(p['tensor Pk'])) and np.all(p['tensor Pk'] > 0)):
        bad.append('spectra not finite and positive')
        return bad
    s = InterpolatedUnivariateSpline(np.log(ks / 0.05), np.log(p['scalar Pk']), k=5)
    t = InterpolatedUnivariateSpline(np.log(ks / 0.05), np.log(p['tensor Pk']), k=5)
    near('P_s(k_pivot)', math.exp(s(0.)), d['A_s'], 1e-8)
    near('slope of P_s', float(s(0., 1)) + 1, d['n_s'], 0., 1e-7)
    near('running of P_s', float(s(0., 2)), d['n_run'], 1e-4, 1e-6)
    near('P_t(k_pivot)', math.exp(t(0.)), d['A_t'], 1e-8)
    near('slope of P_t', float(t(0., 1)), d['n_t'], 0., 1e-7)
    near('r', d['r'], d['A_t'] / d['A_s'], 1e-12)
    near('2 H_end^2', 2 * d['H_end']**2, d['V_end'], 1e-9)
    nan = [k for k in ('N_reh', 'w_reh', 'DeltaN_reh', 'rho_reh_GeV') if math.isnan(d[k])]
    if nan and (len(nan) < 4 or rho is not None or w is not None):
        bad.append('undefined %s' % ', '.join(nan))
    if not nan:
        if not (-1 / 3 < d['w_reh'] < 1 and d['DeltaN_reh'] >= 0):
            bad.append('unphysical reheating w_reh=%r, DeltaN_reh=%r' % (d['w_reh'], d['DeltaN_reh']))
        near('N_reh', d['N_reh'], d['N_end'] + d['DeltaN_reh'], 1e-9, 1e-9)
        near('DeltaN_minus1', d['DeltaN_minus1'], d['DeltaN_reh'] / 4 * (1 - 3 * d['w_reh']), 1e-8, 1e-8)
    return bad


def contradicts(kw):
    A_s, A_t = kw['A_s'], kw.get('A_t', 0)
    return 'n_t' not in kw and bool(kw.get('n_t_run')) or A_t > 0 and kw.get('r', A_t / A_s) != A_t / A_s


def power_targets(cls, kw, p):
    """The spectra of an accepted power-law point against their definitions."""
    if contradicts(kw):
        return ['accepted although its values contradict each other']
    if [k for k in ('scalar Pk', 'tensor Pk', 'scalar kmin', 'scalar kmax', 'tensor kmin', 'tensor kmax') if k not in p]:
        return ['spectra missing']
    kmin, kmax = float(p['scalar kmin']), float(p['scalar kmax'])
    if (kmin, kmax) != (float(p['tensor kmin']), float(p['tensor kmax'])):
        return ['range of wavenumbers']
    k = np.geomspace(kmin, kmax, len(p['scalar Pk']))
    x = np.log(k / 0.05)
    A_s, n_s = kw['A_s'], kw.get('n_s', 1.)
    r = kw['r'] if 'r' in kw else kw.get('A_t', 0.) / A_s
    s = A_s * (k / 0.05) ** (n_s - 1 + x * (kw.get('n_run', 0.) / 2 + x * kw.get('n_runrun', 0.) / 6))
    n_t, n_tr = kw.get('n_t'), kw.get('n_t_run', 0.)
    if n_t is None:
        n_t, n_tr = -r / 8 * (2 - n_s - r / 8), r / 8 * (r / 8 + n_s - 1)
    t = r * A_s * (k / 0.05) ** (n_t + x * n_tr / 2)
    name = MODELS[cls][0]
    f = np.ones_like(k)
    if name.startswith('Log'):
        f = 1 + kw['A_log'] * np.cos(kw['w_log'] * x + 2 * math.pi * kw['p_log'])
    elif name.startswith('Lin'):
        f = 1 + kw['A_lin'] * np.cos(kw['w_lin'] * k / 0.05 + 2 * math.pi * kw['p_lin'])
    elif name.startswith('Cut'):
        f = -np.expm1(-(k / kw.get('k_cut', 1e-3)) ** kw.get('s_cut', 2))
    bad = []
    for what, got, want in (('scalar', p['scalar Pk'], s * f), ('tensor', p['tensor Pk'], t * f)):
        e = np.abs(np.asarray(got) - want) / (np.abs(want) + 1e-6 * (s if what == 'scalar' else t) + 1e-300)
        e = float(np.max(np.where(np.isnan(e), np.inf, e)))
        if e > 1e-6:
            bad.append('%s spectrum differs from that of its parameters by %.3g' % (what, e))
    return bad


def run(scn):
    trace = ['components %r' % ([(MODELS[c['cls']][0], c['cache'], c['stop']) for c in scn['comps']],)]
    h = fork_call(lambda: _history(scn), timeout=200.)
    trace += h['log']
    kind = msg = ''
    num = {'points': len(scn['ops']), 'accepted': 0, 'compared': 0}
    states, ref, hist = [], {}, []
    if h['leak']:
        kind, msg = 'rejected-but-published', h['leak']
    elif h['late']:
        kind, msg = 'published-changed', h['late']
    for j, (op, (brief, pub, faulted, injected, exc)) in enumerate(zip(scn['ops'], h['pts'])):
        comp = scn['comps'][op['c']]
        request = '+'.join(sorted(k for k in op['kw'] if k in ('N_star', 'n_s', 'w_reh', 'rho_reh_GeV')))
        states.append('%s/%s/%s/%s' % (MODELS[comp['cls']][0], request, ','.join(hist[-2:]), brief))
        hist.append('%d%s' % (op['c'], brief[:8]))
        num['accepted'] += pub is not None
        if kind:
            continue
        if pub is not None:
            bad = targets(op['kw'], pub) if comp['cls'] < N_SR else power_targets(comp['cls'], op['kw'], pub)
            if bad:
                kind, msg = 'accepted-but-off-target', 'point %d: %s' % (j + 1, '; '.join(bad[:4]))
                continue
        if faulted:
            if pub is None and op['via'] == 'direct' and brief == 'rejected':
                kind, msg = 'no-error', 'point %d failed without an error' % (j + 1)
            continue
        key = repr((comp['cls'], sorted(op['kw'].items())))
        if key not in ref:
            ref[key] = fork_call(lambda: _alone(comp, op), timeout=100.)
        want, wpub = ref[key]
        num['compared'] += 1
        if 'budget' in (want, brief):
            continue
        if (pub is None) != (wpub is None):
            kind, msg = 'outcome', 'point %d: %s, the same point alone on a new component: %s' % (j + 1, brief, want)
        elif pub is None and brief not in (want, 'rejected'):
            kind, msg = 'outcome', 'point %d: %s, the same point alone on a new component: %s' % (j + 1, brief, want)
        elif pub is None and comp['cls'] >= N_SR and not contradicts(op['kw']):
            kind, msg = 'refused', 'point %d: %s although its values are consistent' % (j + 1, brief)
        elif pub is not None:
            d = compare.diff(wpub, pub, TIGHT) + ['%s: not published by a new component' % k for k in pub if k not in wpub]
            if d:
                kind, msg = 'value', 'point %d differs from the same point alone on a new component: %s' % (j + 1, '; '.join(d[:4]))
    out = [p[0] for p in h['pts']]
    nontrivial = num['accepted'] >= 2 or (num['accepted'] >= 1 and len(set(out)) > 1)
    return result('violation' if kind else 'ok', trace, kind, msg, h['fired'], num, nontrivial, states)


_ = ASSUMPTIONS
