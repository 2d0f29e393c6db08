"""Inflation models the simulated runs are built from (constants: nothing of the library runs at import)."""

# name, constructor arguments, field values with about 58, 70 and 90 slow-roll e-folds left
FLAT = [
    ('MonomialPotential', dict(p=2/3, Lambda=0.00435185), [8.8065632, 9.6724121, 10.964589]),
    ('MonomialPotential', dict(p=4/3, Lambda=0.00321857), [12.472191, 13.695092, 15.520596]),
    ('LinearPotential', dict(Lambda=0.00382529), [10.793517, 11.85327, 13.435029]),
    ('QuadraticPotential', dict(Lambda=0.00211965), [15.297059, 16.792856, 19.026298]),
    ('CubicPotential', dict(Lambda=0.00102268), [18.774983, 20.603398, 23.334524]),
    ('QuarticPotential', dict(Lambda=0.000458666), [21.725561, 23.832751, 26.981475]),
    ('StarobinskyPotential', dict(Lambda=0.00324997), [5.41403, 5.631786, 5.9253977]),
    ('NaturalPotential', dict(phi0=10, Lambda=0.00319016), [9.6446842, 9.8035377, 9.926787]),
    ('NaturalPotential', dict(phi0=25, Lambda=0.00832293), [14.150762, 15.286311, 16.860512]),
    ('DoubleWell2Potential', dict(phi0=15, Lambda=0.00587753), [11.703864, 12.360046, 13.164708]),
    ('DoubleWell4Potential', dict(phi0=25, Lambda=0.00604196), [10.985103, 11.673672, 12.607583]),
    ('TmodelPotential', dict(p=1, alpha=1, Lambda=0.00332055), [6.198179, 6.4244367, 6.7278555]),
    ('TmodelPotential', dict(p=2, alpha=5, Lambda=0.00502751), [11.420478, 11.91475, 12.580519]),
    ('RadionGaugePotential', dict(p=2, alpha=1., Lambda=0.00329349), [4.5395257, 4.7670735, 5.0878618]),
    ('RadionGaugePotential', dict(p=3, alpha=10., Lambda=0.00341927), [6.0136212, 6.2569672, 6.5955563]),
    ('RadionGauge2Potential', dict(alpha=10., Lambda=0.00460502), [7.6865528, 8.1063619, 8.6965433]),
    ('StarobinskyGaussianDipPotential',
     dict(phi_feature=5.3, a_feature=1e-4, b_feature=0.02, Lambda=0.00324998), [5.41403, 5.631786, 5.9253977]),
    ('StarobinskyTanhStepPotential',
     dict(phi_feature=5.3, a_feature=1e-4, b_feature=0.02, Lambda=0.00324989), [5.41403, 5.631786, 5.9253977]),
]
# curved: name, arguments, phi_i, {K: admissible N_i}
CURVED = [
    ('QuadraticPotential', dict(Lambda=0.0025), 17., {1: (10., 11.5), -1: (8., 10., 11.5)}),
    ('NaturalPotential', dict(phi0=25, Lambda=0.0083229), 16.3, {1: (11.5,), -1: (8., 10., 11.5)}),
    ('MonomialPotential', dict(p=4/3, Lambda=0.0032186), 14.1, {1: (11.5,), -1: (8., 10., 11.5)}),
    ('DoubleWell4Potential', dict(phi0=25, Lambda=0.00604), 12.0, {1: (11.5,), -1: (8., 10., 11.5)}),
    ('QuarticPotential', dict(Lambda=4.58e-4), 24.5, {1: (10., 11.5), -1: (8., 10., 11.5)}),
    ('StarobinskyPotential', dict(Lambda=0.00325), 5.75, {-1: (8., 10.)}),
    ('TmodelPotential', dict(p=1, alpha=1, Lambda=0.00332), 6.55, {-1: (8., 10.)}),
]
STD_EVENTS = [['Inflation', 1, 0], ['Inflation', -1, 1]]
STD_EVENTS_CURVED = STD_EVENTS + [['Collapse', 0, 1]]


def flat(rng, phi_idx=None, eq=None, features=True, method=None):
    m = rng.choice(FLAT if features else FLAT[:16])
    i = rng.choice((0, 1, 2)) if phi_idx is None else phi_idx
    cfg = {
        'pot': m[0], 'pk': dict(m[1]), 'eq': eq or rng.choice('TN'), 'K': 0, 'ic': 'SR', 'phi_i': m[2][i], 'N_i': 10,
        't_i': 1e4, 'events': [list(e) for e in STD_EVENTS],
        'method': method or rng.choice(('RK45', 'RK45', 'DOP853')), 'nmax': (56., 67., 86.)[i],
    }
    _extras(rng, cfg)
    return cfg


def curved(rng, K=None, eq=None, method=None):
    while True:
        m = rng.choice(CURVED)
        k = K or rng.choice((1, -1))
        if k in m[3]:
            break
    cfg = {
        'pot': m[0], 'pk': dict(m[1]), 'eq': eq or rng.choice('TN'), 'K': k, 'ic': 'IS', 'phi_i': m[2],
        'N_i': rng.choice(m[3][k]), 't_i': 1e4, 'events': [list(e) for e in STD_EVENTS_CURVED],
        'method': method or rng.choice(('RK45', 'RK45', 'DOP853')),
    }
    _extras(rng, cfg)
    return cfg


def _extras(rng, cfg):
    if rng.random() < 0.25:
        cfg['track_eta'] = True
        cfg['eta_i'] = 0.
    if cfg['eq'] == 'N' and rng.random() < 0.25:
        cfg['track_time'] = True
    if cfg['K'] and cfg.get('ic') == 'IS' and rng.random() < 0.2:
        cfg['by'] = 'Omega_Ki'       # the same start, given by its curvature


def make_potential(cfg):
    import primpy.potentials as pp
    return getattr(pp, cfg['pot'])(**cfg['pk'])


def make_equations(cfg, pot):
    from primpy.time.inflation import InflationEquationsT
    from primpy.efolds.inflation import InflationEquationsN
    kw = {}
    if cfg.get('track_eta'):
        kw['track_eta'] = True
    if cfg.get('verbose'):
        kw['verbose'] = True
    if cfg['eq'] == 'T':
        return InflationEquationsT(K=cfg['K'], potential=pot, **kw)
    if cfg.get('track_time'):
        kw['track_time'] = True
    return InflationEquationsN(K=cfg['K'], potential=pot, **kw)


def make_event(eq, spec):
    import primpy.events as pe
    kind = spec[0]
    if kind == 'Inflation':
        kw = {}
        if len(spec) > 3:
            kw['t_i'] = spec[3]
        return pe.InflationEvent(eq, direction=spec[1], terminal=bool(spec[2]), **kw)
    if kind == 'Collapse':
        return pe.CollapseEvent(eq)
    if kind == 'UntilN':
        return pe.UntilNEvent(eq, spec[1], terminal=bool(spec[2]) if len(spec) > 2 else True)
    if kind == 'UntilT':
        return pe.UntilTEvent(eq, spec[1], terminal=bool(spec[2]) if len(spec) > 2 else True)
    if kind == 'After':
        return pe.AfterInflationEndEvent(eq, direction=spec[1], terminal=bool(spec[2]), value=spec[3])
    if kind == 'Phi0':
        return pe.Phi0Event(eq, direction=spec[1], terminal=bool(spec[2]), value=spec[3])
    if kind == 'ModeExit':
        return pe.ModeExitEvent(eq, spec[1], direction=spec[2], terminal=bool(spec[3]))
    raise KeyError(kind)


def make_ic(cfg, eq):
    import primpy.initialconditions as ic
    kw = {}
    for key in ('t_i', 'eta_i', 'x_end', 'N_i', 'Omega_Ki'):
        if cfg.get(key) is not None:
            kw[key] = cfg[key]
    if 'Omega_Ki' in kw:
        kw.pop('N_i', None)
    elif cfg.get('by') == 'Omega_Ki' and cfg['ic'] in ('SR', 'IS'):
        import math
        aH2 = float(eq.potential.V(cfg['phi_i'])) / (3 if cfg['ic'] == 'SR' else 2) * math.exp(2 * cfg['N_i']) - cfg['K']
        if aH2 > 0:
            kw.pop('N_i')
            kw['Omega_Ki'] = -cfg['K'] / aH2
    if cfg['ic'] == 'SR':
        return ic.SlowRollIC(eq, phi_i=cfg['phi_i'], **kw)
    if cfg['ic'] == 'IS':
        return ic.InflationStartIC(eq, phi_i=cfg['phi_i'], **kw)
    if cfg.get('ic_verbose') and cfg['ic'] in ('Nt', 'NsOk'):
        kw['verbose'] = True
    if cfg['ic'] == 'Nt':
        return ic.ISIC_Nt(eq, N_tot=cfg['N_tot'], phi_i_bracket=list(cfg['bracket']), **kw)
    if cfg['ic'] == 'NsOk':
        return ic.ISIC_NsOk(eq, N_star=cfg['N_star'], Omega_K0=cfg['Omega_K0'], h=cfg['h'],
                            phi_i_bracket=list(cfg['bracket']), **kw)
    if cfg['ic'] == 'State':
        return state_ic(eq, cfg['state'], cfg.get('x_end', 1e300))
    if cfg['ic'] == 'Kin':
        return state_ic(eq, kinetic(cfg, eq), cfg.get('x_end', 1e300))
    raise KeyError(cfg['ic'])


def kinetic(cfg, eq):
    """A state whose kinetic energy is `kin` squared times the one at which inflation starts."""
    import math
    V = float(eq.potential.V(cfg['phi_i']))
    dphidt = -math.sqrt(V) * cfg['kin']
    N = cfg['N_i']
    H2 = (dphidt**2 / 2 + V) / 3 - cfg['K'] * math.exp(-2 * N)
    if H2 <= 0:
        raise ValueError('no such state')
    return {'phi': cfg['phi_i'], 'dphidt': dphidt, 'dphidN': dphidt / math.sqrt(H2), '_N': N, 't': cfg.get('t_i', 0.), 'eta': 0.}


def state_ic(eq, state, x_end):
    """Initial conditions that simply are a given state (as users write them to resume an evolution)."""
    from primpy.initialconditions import InitialConditions

    class StateIC(InitialConditions):
        def __init__(self, equations):
            super().__init__(equations=equations)
            self.x_ini = state[equations.independent_variable]
            self.x_end = x_end

        def __call__(self, y0, **ivp_kwargs):
            for name, i in self.equations.idx.items():
                y0[i] = state[name]
    return StateIC(eq)


def solve_kwargs(cfg):
    kw = {'method': cfg.get('method', 'RK45')}
    for key in ('rtol', 'atol', 'max_step', 'first_step'):
        if cfg.get(key) is not None:
            kw[key] = cfg[key]
    if cfg.get('t_eval') is not None:
        import numpy as np
        kind, lo, hi, n = cfg['t_eval']
        kw['t_eval'] = np.linspace(lo, hi, n) if kind == 'lin' else np.geomspace(lo, hi, n)
    return kw


def build(cfg):
    pot = make_potential(cfg)
    eq = make_equations(cfg, pot)
    return pot, eq, make_ic(cfg, eq), [make_event(eq, e) for e in cfg['events']]


def solve_bg(cfg):
    from primpy.solver import solve
    _, _, ic, ev = build(cfg)
    return solve(ic, events=ev, **solve_kwargs(cfg))
