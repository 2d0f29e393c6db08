"""Operations on a background solution (calibrations, derivations, look-ups, spectral index) and their generators."""
import numpy as np

from dst import compare, faults, models

DERIVE = [('CGS', 0), ('CGS', 1), ('CGS', 2), ('CGS', 3), ('LLMS', 3), ('STE', 3), ('ARBDS', 1), ('ARBDS', 2), ('ARBDS', 3)]


def r(x, n=6):
    return float('%.*g' % (n, x))


def gen_derive_kwargs(rng, weird=0.1):
    kw = {}
    if rng.random() < 0.8:
        kw['method'], kw['order'] = rng.choice(DERIVE)
        if rng.random() < 0.3:
            del kw['order']
    if rng.random() < 0.3:
        kw['ext'] = rng.choice((0, 'extrapolate', 'const', 'zeros'))
    if rng.random() < 0.25:
        kw['k'] = rng.choice((4, 5)) if rng.random() > weird else rng.choice((1, 2))
    if rng.random() < weird / 3:
        kw['method'] = 'XYZ'
    return kw


def gen_cal_flat(rng, nmax, bad=0.2):
    """Keyword arguments of a calibration in a flat universe (some of them rejected)."""
    x = rng.random()
    if x < bad:
        return rng.choice((
            lambda: dict(N_star=r(rng.uniform(100, 500))), lambda: dict(N_star=rng.choice((0, -3.))), lambda: dict(),
            lambda: dict(N_star=r(rng.uniform(30, 50)), w_reh=1/3), lambda: dict(N_star=r(rng.uniform(30, 50)), w_reh=-0.5),
            lambda: dict(N_star=r(rng.uniform(56.5, 58)), w_reh=0.),
            lambda: dict(N_star=r(rng.uniform(30, 50)), w_reh=0., DeltaN_reh=3.),
            lambda: dict(N_star=r(rng.uniform(30, 50)), w_reh=0., rho_reh_GeV=1e9),
            lambda: dict(N_star=r(rng.uniform(30, 50)), calibration_method='other'),
            lambda: dict(N_star=r(rng.uniform(30, 50)), Omega_K0=0.01),
            lambda: dict(calibration_method='reheating', N_star=r(rng.uniform(30, 50))),
            lambda: dict(calibration_method='reheating', w_reh=0.),
            lambda: dict(calibration_method='reheating', DeltaN_reh=2.),
            lambda: dict(calibration_method='reheating', w_reh=-0.4, DeltaN_reh=2.),
            lambda: dict(calibration_method='reheating', w_reh=0.1, DeltaN_reh=-2.),
            lambda: dict(calibration_method='reheating', w_reh=1/3, DeltaN_reh=2.),
            lambda: dict(calibration_method='reheating', DeltaN_minus1=1., w_reh=0.),
            lambda: dict(calibration_method='reheating', DeltaN_minus1=1., DeltaN_reh=1.),
            lambda: dict(calibration_method='reheating', w_reh=0., DeltaN_reh=2., rho_reh_GeV=1e9),
            lambda: dict(calibration_method='reheating', DeltaN_minus1=-200.),
            lambda: dict(calibration_method='reheating', w_reh=-0.3, DeltaN_reh=250.),
            lambda: dict(calibration_method='reheating', w_reh=1., DeltaN_reh=200.),
            lambda: dict(N_star=r(rng.uniform(30, 50)), method='CGS', k=2),
            lambda: dict(N_star=r(rng.uniform(30, 50)), method=rng.choice(('LLMS', 'STE', 'ARBDS')), k=9),
            lambda: dict(N_star=r(rng.uniform(30, 50)), ext='nonsense'),
            lambda: dict(N_star=r(rng.uniform(30, 50)), nonsense=3),
        ))()
    x = rng.random()
    if x < 0.5:
        kw = dict(N_star=r(rng.uniform(25, nmax)))
        y = rng.random()
        if y < 0.3:
            kw['w_reh'] = rng.choice((0., 0.1, -0.2, 0.25))
        elif y < 0.6:
            kw['rho_reh_GeV'] = r(10 ** rng.uniform(0, 15))
        if rng.random() < 0.2:
            kw['calibration_method'] = 'N_star'
    else:
        kw = dict(calibration_method='reheating')
        y = rng.random()
        if y < 0.3:
            if rng.random() < 0.3:
                kw.update(rng.choice((dict(w_reh=1/3), dict(DeltaN_reh=0), dict(DeltaN_minus1=0), dict(DeltaN_minus1=0.))))
        elif y < 0.5:
            kw['DeltaN_minus1'] = r(rng.uniform(-1.5, 12))
            if rng.random() < 0.5:
                kw['rho_reh_GeV'] = r(10 ** rng.uniform(3, 14))
        elif y < 0.75:
            kw['w_reh'], kw['DeltaN_reh'] = rng.choice((0., 0., 0.2, -0.2, 0.6)), r(rng.uniform(0.5, 25))
        else:
            kw['w_reh'], kw['rho_reh_GeV'] = rng.choice((0., 0., 0.2, -0.2, 0.6)), r(10 ** rng.uniform(5, 14))
    if rng.random() < 0.2:
        kw['g_th'] = r(rng.choice((10.75, 106.75, 228.75)))
    if rng.random() < 0.35:
        kw.update(gen_derive_kwargs(rng))
    return kw


def gen_cal_curved(rng, K, bad=0.2):
    h = rng.choice((0.6, 0.7, 0.7, 0.75))
    ok = lambda: r(-K * 10 ** rng.uniform(-3.5, -1.9))  # noqa: E731
    x = rng.random()
    if x < bad:
        return rng.choice((
            lambda: dict(Omega_K0=ok()), lambda: dict(h=0.7), lambda: dict(Omega_K0=0., h=0.7),
            lambda: dict(Omega_K0=-ok(), h=0.7), lambda: dict(Omega_K0=ok(), h=-1.),
            lambda: dict(Omega_K0=ok(), h=0.7, N_star=50.), lambda: dict(Omega_K0=ok(), h=0.7, calibration_method='N_star'),
            lambda: dict(Omega_K0=ok(), h=0.7, calibration_method='reheating'),
            lambda: dict(h=0.7, calibration_method='reheating', w_reh=0.),
            lambda: dict(h=0.7, calibration_method='reheating', w_reh=-0.5, DeltaN_reh=1.),
            lambda: dict(h=0.7, calibration_method='reheating', w_reh=0.5, DeltaN_reh=-1.),
            lambda: dict(h=0.7, calibration_method='reheating', w_reh=1/3, DeltaN_reh=2.),
            lambda: dict(Omega_K0=r(-K * 1e-300), h=0.7),
            lambda: dict(Omega_K0=r(-K * 1e7), h=0.7),
            lambda: dict(h=0.7, calibration_method='reheating', w_reh=0., DeltaN_reh=120.),
            lambda: dict(Omega_K0=ok(), h=0.7, ext='nonsense'), lambda: dict(Omega_K0=ok(), h=0.7, k=2),
            lambda: dict(Omega_K0=ok(), h=0.7, nonsense=1),
        ))()
    x = rng.random()
    if x < 0.6:
        kw = dict(Omega_K0=ok(), h=h)
        if rng.random() < 0.4:
            kw['rho_reh_GeV'] = r(10 ** rng.uniform(0, 15))
    else:
        kw = dict(calibration_method='reheating', h=h)
        y = rng.random()
        if y < 0.3:
            pass
        elif y < 0.65:
            kw['w_reh'], kw['DeltaN_reh'] = rng.choice((0., 0., 0.2, -0.2, 0.6)), r(rng.uniform(0.5, 15))
        else:
            kw['w_reh'], kw['rho_reh_GeV'] = rng.choice((0., 0., 0.2, -0.2, 0.6)), r(10 ** rng.uniform(7, 14))
    if rng.random() < 0.2:
        kw['g_th'] = r(rng.choice((10.75, 106.75, 228.75)))
    if rng.random() < 0.35:
        kw.update(gen_derive_kwargs(rng))
    return kw


def gen_cal(rng, cfg, bad=0.2):
    if cfg['K']:
        return {'op': 'cal', 'kw': gen_cal_curved(rng, cfg['K'], bad)}
    return {'op': 'cal', 'kw': gen_cal_flat(rng, cfg.get('nmax', 56.), bad)}


def gen_lookup(rng, bad=0.1):
    m, o = rng.choice(DERIVE)
    op = {'op': 'lookup', 'ps': rng.choice('st'), 'method': m, 'order': o}
    if m in ('LLMS', 'STE') and rng.random() < 0.7:
        op['order'] = None
    if rng.random() < 0.15:
        op['method'] = op['order'] = None
    x = rng.random()
    if x < 0.5:
        op['k'] = [r(10 ** rng.uniform(-5, 2))]
    elif x < 0.8:
        op['k'] = sorted(r(10 ** rng.uniform(-6, 4)) for _ in range(rng.randint(2, 5)))
    if rng.random() < bad:
        op['kw'] = rng.choice((dict(ext='nonsense'), dict(k=9), dict(nonsense=1), dict(ext='zeros'), dict(k=5), dict(k=4)))
        op['method'], op['order'] = rng.choice(DERIVE[4:])
    elif rng.random() < bad:
        op['order'] = rng.choice((7, 0, None))
    return op


def gen_setns(rng, cfg):
    kw = {}
    x = rng.random()
    n_s = rng.uniform(0.955, 0.972) if x < 0.7 else rng.choice((0.999, 0.90, 1.05, 0.98, 0.945))
    if rng.random() < 0.5:
        kw['N_star_min'] = r(rng.uniform(18, 40))
    hi = cfg.get('nmax', 56.)
    if rng.random() < 0.85:
        kw['N_star_max'] = r(rng.uniform(44, hi))
    if rng.random() < 0.2:
        kw['rho_reh_GeV'] = r(10 ** rng.uniform(3, 14))
    if rng.random() < 0.1:
        kw['maxiter'] = rng.randint(1, 3)
    if rng.random() < 0.05:
        kw['method'] = rng.choice(('bisect', 'ridder', 'nonsense'))
    return {'op': 'setns', 'n_s': r(n_s), 'kw': kw}


def gen_op(rng, cfg, bad=0.2, weights=(45, 25, 12, 13, 5, 6)):
    x = rng.choices(('cal', 'lookup', 'derive', 'setns', 'bgcal', 'other'), weights)[0]
    if cfg['K'] and x == 'bgcal':
        x = 'cal'
    if x == 'cal':
        return gen_cal(rng, cfg, bad)
    if x == 'lookup':
        return gen_lookup(rng)
    if x == 'derive':
        return {'op': 'derive', 'kw': gen_derive_kwargs(rng, weird=0.25)}
    if x == 'setns':
        return gen_setns(rng, cfg)
    if x == 'other':
        do = [gen_cal(rng, cfg, 0.)]
        if rng.random() < 0.5:
            do.append(gen_lookup(rng, 0.))
        return {'op': 'other', 'phi_i': r(cfg['phi_i'] * rng.uniform(1.0, 1.03), 9), 'do': do}
    n = r(rng.uniform(30, cfg.get('nmax', 56.)))
    kw = {'N_star': n}
    if rng.random() < 0.3:
        kw['rho_reh_GeV'] = r(10 ** rng.uniform(3, 14))
    op = {'op': 'bgcal', 'bg': kw, 'kw': {'N_star': n}}
    if rng.random() < 0.2:
        op['kw'] = rng.choice(({'N_star': n + 1}, {}, {'N_star': n, 'Omega_K0': 0.1}))
    return op


SEAMS = {
    'cal': [faults.seam_spline, faults.seam_spline, faults.seam_interp],
    'derive': [faults.seam_spline], 'lookup': [faults.seam_spline],
    'other': [faults.seam_ivp, faults.seam_spline],
    'setns': [faults.seam_root, faults.seam_root, faults.seam_spline, faults.seam_interp], 'bgcal': [faults.seam_interp],
}


def add_fault(rng, op, p):
    if rng.random() < p:
        op['fault'] = faults.random_fault(rng, SEAMS[op['op']], async_p=0.6)
        if op['op'] == 'setns' and op['fault']['kind'] == 'seam' and op['fault']['f']['seam'] in ('spline', 'interp1d'):
            op['fault']['f']['nth'] = rng.randint(1, 60)
    elif op['op'] in ('cal', 'setns') and rng.random() < 0.07:
        op['werr'] = True
    return op


class Ctx:
    """One background solution with the objects it was made from."""

    def __init__(self, cfg):
        from primpy.solver import solve
        self.cfg = cfg
        self.pot, self.eq, self.ic, self.ev = models.build(cfg)
        self.sol = solve(self.ic, events=self.ev, **models.solve_kwargs(cfg))
        self.sibling = None


def thunk(op, ctx):
    """A function of no arguments that performs the operation."""
    k = op['op']
    sol, cfg = ctx.sol, ctx.cfg
    if k == 'cal':
        return lambda: sol.calibrate_scale_factor(**op['kw'])
    if k == 'derive':
        return lambda: sol.derive_approx_power(**op['kw'])
    if k == 'setns':
        return lambda: sol.set_ns(op['n_s'], **op['kw'])
    if k == 'lookup' and op.get('buf') and op.get('k'):
        bufs = ctx.__dict__.setdefault('bufs', {})
        return lambda: compare.lookup_buffer(sol, op['ps'], op['method'], op['order'], op['k'], bufs, held=ctx.__dict__.setdefault('held', []),
                                             **op.get('kw', {}))
    if k == 'lookup':
        return lambda: compare.lookup(sol, op['ps'], op['method'], op['order'], op.get('k'), ctx.__dict__.setdefault('held', []),
                                      **op.get('kw', {}))
    if k == 'bgcal':
        bg = models.solve_bg(cfg)
        bg.calibrate_scale_factor(**op['bg'])
        return lambda: sol.calibrate_scale_factor(background=bg, **op['kw'])
    if k == 'other':
        return lambda: other(op, ctx)
    raise KeyError(k)


def other(op, ctx):
    """Solve (once) and calibrate a different background made from the same equations."""
    from primpy.solver import solve
    if ctx.sibling is None:
        cfg = dict(ctx.cfg, phi_i=op['phi_i'])
        ctx.sibling = solve(models.make_ic(cfg, ctx.eq), events=ctx.ev, **models.solve_kwargs(cfg))
    for sub in op['do']:
        s = thunk(sub, _Sib(ctx))
        s()


class _Sib:
    def __init__(self, ctx):
        self.sol, self.cfg = ctx.sibling, ctx.cfg


def apply(op, ctx, observe=None):
    return faults.perform(thunk(op, ctx), op.get('fault'), op.get('werr', False), observe=observe)


def describe(op):
    s = op['op'] + '(' + ', '.join('%s=%r' % kv for kv in op.items() if kv[0] not in ('op', 'fault')) + ')'
    if op.get('fault'):
        s += ' fault=%r' % (op['fault'],)
    return s


_ = np
