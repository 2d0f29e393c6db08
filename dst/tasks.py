"""Operations on a world of shared objects (potential, equations, events, a calibrated solution), one thread's work each."""
import numpy as np

from dst import calops, compare, models

NT = {'QuadraticPotential': (4., 25.), 'NaturalPotential': (3., 17.), 'MonomialPotential': (3., 30.), 'QuarticPotential': (5., 40.),
      'LinearPotential': (3., 30.), 'StarobinskyPotential': (3., 7.), 'TmodelPotential': (3., 7.)}
KINDS = ('solve', 'solve', 'shoot', 'setns', 'lookup', 'lookup', 'lookup', 'modes', 'pot', 'pot', 'eta', 'read', 'cal', 'evals', 'evals')


def gen_world(rng):
    cfg = models.curved(rng) if rng.random() < 0.5 else models.flat(rng, phi_idx=rng.choice((0, 1)), features=False)
    if rng.random() < 0.5:
        cfg['track_eta'], cfg['eta_i'] = True, 0.
    cal = calops.gen_cal_curved(rng, cfg['K'], 0.) if cfg['K'] else {'N_star': calops.r(rng.uniform(40, 54))}
    return {'cfg': cfg, 'cal': cal}


def _nt_ok(cfg):
    if cfg['pot'] not in NT or cfg['pot'][0] in 'ST' and cfg['K'] == 1:
        return False
    if cfg['pot'] == 'NaturalPotential' and cfg['pk'].get('phi0') != 25:
        return False
    return not (cfg['pot'] == 'TmodelPotential' and cfg['pk'].get('p') != 1)


def gen_task(rng, world, kinds=KINDS):
    cfg = world['cfg']
    kind = rng.choice(kinds)
    if kind == 'shoot' and (not _nt_ok(cfg) or rng.random() < 0.5):
        kind = 'solve'
    if kind == 'solve':
        t = {'do': 'solve', 'phi': calops.r(rng.uniform(0.985, 1.012)), 'method': rng.choice(('RK45', 'DOP853', 'DOP853'))}
        if rng.random() < 0.5:
            t['cal'] = calops.gen_cal_curved(rng, cfg['K'], 0.1) if cfg['K'] else calops.gen_cal_flat(rng, 50., 0.1)
            t['look'] = [_look(rng) for _ in range(rng.randint(0, 2))]
        return t
    if kind == 'shoot':
        t = {'do': 'shoot', 'N_tot': calops.r(rng.uniform(45, 62)), 'bracket': list(NT[cfg['pot']])}
        if cfg['K'] and cfg['pot'][0] not in 'ST' and rng.random() < 0.4:
            t.update(N_star=calops.r(rng.uniform(48, 56)), Omega_K0=calops.r(-cfg['K'] * 10 ** rng.uniform(-3., -2.)))
        return t
    if kind == 'setns':
        if cfg['K']:
            return {'do': 'lookup', 'look': [_look(rng) for _ in range(3)]}
        return {'do': 'setns', 'n_s': calops.r(rng.uniform(0.958, 0.97)), 'N_star_max': 52.}
    if kind == 'lookup':
        return {'do': 'lookup', 'look': [_look(rng) for _ in range(rng.randint(1, 4))]}
    if kind == 'modes':
        t = {'do': 'modes', 'u': [calops.r(10 ** rng.uniform(-0.8, 0.8)) for _ in range(rng.randint(1, 3))],
             'vac': rng.sample(('k', 'HD', 'RST'), rng.randint(1, 3))}
        return t
    if kind == 'pot':
        return {'do': 'pot', 'N': calops.r(rng.uniform(30, 65)), 'phi': calops.r(cfg['phi_i'] * rng.uniform(0.6, 1.)), 'order': [rng.random() for _ in range(4)]}
    if kind == 'eta':
        return {'do': 'eta', 'Omega_m0': 0.3, 'Omega_K0': calops.r(-(cfg['K'] or -1) * 10 ** rng.uniform(-3, -2)), 'h': 0.7}
    if kind == 'evals':
        return {'do': 'evals', 'u': [round(rng.random(), 4) for _ in range(rng.randint(2, 6))], 'f': calops.r(rng.uniform(0.9, 1.1))}
    if kind == 'read':
        return {'do': 'read'}
    return {'do': 'cal', 'kw': calops.gen_cal_curved(rng, cfg['K'], 0.1) if cfg['K'] else calops.gen_cal_flat(rng, 50., 0.1),
            'look': [_look(rng) for _ in range(rng.randint(0, 2))]}


def _look(rng):
    m, o = rng.choice(calops.DERIVE)
    return [rng.choice('st'), m, o]


class World:
    def __init__(self, spec):
        from primpy.solver import solve
        self.cfg = cfg = spec['cfg']
        self.pot, self.eq, self.ic, self.ev = models.build(cfg)
        with np.errstate(all='ignore'):
            self.sol = solve(self.ic, events=self.ev, **models.solve_kwargs(cfg))
            self.sol.calibrate_scale_factor(**spec['cal'])

    def observe(self):
        """Everything that can be read off the shared objects."""
        with np.errstate(all='ignore'):
            out = compare.attrs(self.sol)
            out.update(compare.events(self.sol))
            out.update(compare.selected(self.sol))
            out.update(compare.lookups(self.sol))
            ph = np.array([self.cfg['phi_i'] * f for f in (0.6, 0.8, 1.)])
            for n in ('V', 'dV', 'd2V', 'd3V', 'd4V'):
                out['pot.' + n] = np.array(getattr(self.pot, n)(ph))
            out['eq.idx'] = repr(sorted(self.eq.idx.items()))
            out['eq.K'] = np.array(self.eq.K)
            out['eq.x'] = repr((self.eq.independent_variable, self.eq.track_eta, getattr(self.eq, 'track_time', None), self.eq.potential is self.pot))
            out['events'] = repr([(type(e).__name__, e.direction, bool(e.terminal), getattr(e, 'value', None)) for e in self.ev])
        return out


def do(world, t):
    """Perform a task; returns a dictionary of everything it yields."""
    from primpy.solver import solve
    cfg = world.cfg
    k = t['do']
    out = {}
    if k in ('solve', 'setns', 'cal'):
        c = dict(cfg, phi_i=cfg['phi_i'] * t.get('phi', 1.), method=t.get('method', 'DOP853'))
        sol = solve(models.make_ic(c, world.eq), events=world.ev, **models.solve_kwargs(c))
        if k == 'setns':
            sol.set_ns(t['n_s'], N_star_max=t['N_star_max'])
        if t.get('kw'):
            sol.calibrate_scale_factor(**t['kw'])
        if t.get('cal'):
            sol.calibrate_scale_factor(**t['cal'])
        out.update(compare.attrs(sol))
        out.update(compare.events(sol))
        out.update(compare.selected(sol))
        for i, (ps, m, o) in enumerate(t.get('look', ())):
            if 'N_star' in sol:
                out['look%d' % i] = compare.lookup(sol, ps, m, o)
    elif k == 'shoot':
        c = dict(cfg, ic='Nt', N_tot=t['N_tot'], bracket=t['bracket'], method='RK45')
        if 'N_star' in t:
            c.update(ic='NsOk', N_star=t['N_star'], Omega_K0=t['Omega_K0'], h=t.get('h', 0.7))
        sol = solve(models.make_ic(c, world.eq), events=world.ev, **models.solve_kwargs(c))
        out.update(compare.attrs(sol))
        out.update(compare.events(sol))
    elif k == 'lookup':
        for i, (ps, m, o) in enumerate(t['look']):
            out['look%d' % i] = compare.lookup(world.sol, ps, m, o)
    elif k == 'modes':
        from primpy.oscode_solver import solve_oscode
        ks = np.array(t['u']) * np.exp(world.sol._logaH_star)
        p = solve_oscode(world.sol, ks, vacuum=tuple(t['vac']), fac_beg=100, rtol=1e-4)
        out['k_iMpc'] = np.array(p.k_iMpc)
        for v in t['vac']:
            out['P_s_' + v], out['P_t_' + v] = np.array(getattr(p, 'P_s_' + v)), np.array(getattr(p, 'P_t_' + v))
    elif k == 'pot':
        pot = world.pot
        calls = [('As2Lambda', lambda: pot.sr_As2Lambda(A_s=2.1e-9, phi_star=None, N_star=t['N'], **{a: b for a, b in cfg['pk'].items() if a != 'Lambda'})),
                 ('N2phi', lambda: pot.sr_N2phi(t['N'])), ('phi2N', lambda: pot.sr_phi2N(t['phi'])),
                 ('V', lambda: [pot.V(t['phi']), pot.dV(t['phi']), pot.d2V(t['phi']), pot.d3V(t['phi']), pot.d4V(t['phi'])])]
        for u in t['order']:
            n, f = calls[int(u * len(calls))]
            out[n] = np.array(f(), dtype=float)
    elif k == 'eta':
        import primpy.bigbang as bb
        s = world.sol
        out['conformal_time'] = np.array(bb.conformal_time(60., np.array([80., 120.]), t['Omega_m0'], t['Omega_K0'], t['h']))
        if 'eta' in s and world.cfg['K'] and s.a0:
            out['ratio'] = np.array(bb.conformal_time_ratio(t['Omega_m0'], t['Omega_K0'], t['h'], s))
    elif k == 'evals':
        # events and equations asked directly, in arbitrary states; all answers are kept to the end
        s = world.sol
        for j, u in enumerate(t['u']):
            i = int(u * (s.x.size - 1))
            x, y = s.x[i], s.y[:, i].copy()
            y[world.eq.idx['phi']] *= t['f']
            for e, ev in enumerate(world.ev):
                out['event%d,%d' % (j, e)] = ev(x, y)
            out['rhs%d' % j] = world.eq(x, y)
            for n in ('H', 'H2', 'V', 'dVdphi', 'd2Vdphi2', 'w', 'inflating'):
                out['%s%d' % (n, j)] = getattr(world.eq, n)(x, y)
        out = {n: np.array(v, dtype=float) for n, v in out.items()}
    elif k == 'read':
        out.update(compare.attrs(world.sol))
        out.update(compare.selected(world.sol))
    else:
        raise KeyError(k)
    return out


def attempt(world, t):
    try:
        return ('ok', do(world, t))
    except Exception as e:
        return ('exc', type(e).__name__ + ': ' + ' '.join(str(e).split())[:120])
