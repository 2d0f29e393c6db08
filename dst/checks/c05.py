"""C05: model objects carry no memory from one solve to the next."""
import contextlib
import io
import warnings

import numpy as np

from dst import calops, compare, faults, models
from dst.core import fork_call
from dst.checks.common import ASSUMPTIONS, REAL, guarded, result, efolds  # noqa: F401

PROP = 'C05'
QUICK_S, THOROUGH_S, QUICK_RUNS = 150., 700., 2000
LISTS = ('ops',)
NONEMPTY = ('ops',)
STUBS = ['none replaced; integrations, root finders and calibrations run for real, some are made to fail or are interrupted']
RULE = ('a run = one or two potentials, one to three equations, shared events and initial-condition objects (slow-roll, inflation-start, shooting), '
        'then 3-10 operations: solves with varying settings, calibrations and look-ups on earlier solutions, potential look-ups, many with faults or '
        'interrupts; every solve and potential look-up is compared with one by new objects in a pristine process, and every earlier solution '
        'with its snapshot at the end; non-trivial = at least three solves, one of them after a fault or with an object used before')
STATE_MEASURE = 'distinct (operation, initial-condition kind, outcome, uses of the object) tuples'
MODEL = 'CURVED'

OTHER = {'QuadraticPotential': dict(Lambda=0.004), 'NaturalPotential': dict(phi0=20, Lambda=0.007), 'MonomialPotential': dict(p=1.2, Lambda=0.003),
         'DoubleWell4Potential': dict(phi0=30, Lambda=0.006), 'QuarticPotential': dict(Lambda=5e-4), 'StarobinskyPotential': dict(Lambda=0.003),
         'TmodelPotential': dict(p=2, alpha=2, Lambda=0.003)}
NT = {'QuadraticPotential': (4., 25.), 'NaturalPotential': (3., 17.), 'MonomialPotential': (3., 30.), 'QuarticPotential': (5., 40.),
      'StarobinskyPotential': (3., 7.), 'TmodelPotential': (3., 7.)}


def _events(rng, K):
    ev = [['Inflation', 1, 0], ['Inflation', -1, 1]]
    x = rng.random()
    if x < 0.15:
        ev = [['Inflation', 1, 0], ['Inflation', -1, 0], ['After', 1, 1, calops.r(rng.uniform(-0.2, 0.2))]]
    elif x < 0.25:
        ev.append(['UntilN', calops.r(rng.uniform(12, 60))])
    elif x < 0.3:
        ev = ev[::-1]
    if K:
        ev.append(['Collapse', 0, 1])
    return ev


def gen(rng, tier):
    m = rng.choice(models.CURVED)
    pots = [[m[0], dict(m[1])]]
    if rng.random() < 0.5:
        pots.append([m[0], OTHER[m[0]]])
    eqs, ics, evs = [], [], []
    for j in range(rng.choice((1, 2, 2, 3))):
        K = rng.choice((0, 0, -1, 1)) if 1 in m[3] else rng.choice((0, 0, -1))
        e = {'pot': rng.randrange(len(pots)), 'eq': rng.choice('TN'), 'K': K}
        models._extras(rng, e)
        if e.get('track_eta'):
            e['eta_i'] = 0.
        if rng.random() < 0.5:
            e['verbose'] = True
        eqs.append(e)
        for _ in range(rng.choice((1, 2))):
            evs.append({'eq': j, 'specs': _events(rng, K)})
        for _ in range(rng.choice((1, 2, 2))):
            ic = {'eq': j, 't_i': 1e4, 'N_i': calops.r(rng.uniform(11, 12.5) if K == 1 else rng.uniform(8, 12))}
            x = rng.random()
            ic['phi_i'] = calops.r(m[2] * rng.uniform(0.97, 1.02), 9)
            if x < 0.3 and m[0] in NT and e['pot'] == 0:
                ic.update(ic='Nt', N_tot=calops.r(rng.uniform(40, 65)), bracket=list(NT[m[0]]))
            elif x < 0.42 and m[0] in NT and e['pot'] == 0 and K and m[0][0] not in 'ST':
                ic.update(ic='NsOk', N_star=calops.r(rng.uniform(45, 58)), h=rng.choice((0.7, 0.5, 0.9)), Omega_K0=calops.r(-K * 10 ** rng.uniform(-3., -1.7)),
                          bracket=list(NT[m[0]]))
            elif x < 0.7 and not K:
                ic['ic'] = 'SR'
            else:
                ic['ic'] = 'IS'
            if ic['ic'] in ('Nt', 'NsOk') and rng.random() < 0.3:
                ic['ic_verbose'] = True
            if K and rng.random() < 0.3:
                ic['Omega_Ki'] = calops.r(-10 ** rng.uniform(-2, 0.3) if K == 1 else 10 ** rng.uniform(-3, -0.2))
            if rng.random() < 0.15:
                # a range that ends, usually, after inflation
                ic['x_end'] = calops.r(10 ** rng.uniform(5., 8.5)) if e['eq'] == 'T' else calops.r(ic['N_i'] + rng.uniform(30, 200))
            ics.append(ic)
    for v in evs:
        # the special treatment of the point at which inflation starts
        own = [i for i in ics if i['eq'] == v['eq']]
        for spec in v['specs']:
            if spec[0] == 'Inflation' and own and rng.random() < 0.3:
                i = rng.choice(own)
                spec.append(i['t_i'] if eqs[v['eq']]['eq'] == 'T' else i['N_i'])
    ops = []
    n = rng.choice((3, 4, 6, 8)) if tier == 'quick' else rng.choice((6, 10, 16))
    for _ in range(n):
        x = rng.random()
        if x < 0.68 or not ops:
            i = rng.randrange(len(ics))
            op = {'op': 'solve', 'ic': i, 'ev': rng.choice([k for k, v in enumerate(evs) if v['eq'] == ics[i]['eq']]),
                  'method': rng.choice(('RK45', 'RK45', 'DOP853'))}
            y = rng.random()
            if y < 0.1:
                op['rtol'] = 1e-6
            elif y < 0.15:
                op['max_step'] = 2e4 if eqs[ics[i]['eq']]['eq'] == 'T' else 0.5
            if rng.random() < 0.06:
                op['bad'] = rng.choice(('method', 'rtol', 'nonsense'))
            shoot = ics[i]['ic'] in ('Nt', 'NsOk')
            if rng.random() < 0.4:
                if rng.random() < (0.25 if shoot else 0.5):
                    op['fault'] = {'kind': 'async', 'exc': rng.choice(faults.ASYNC), 'u': round(rng.random(), 6), 'v': round(rng.random(), 6),
                                   'mode': 'site' if rng.random() < 0.7 else 'time'}
                else:
                    f = faults.seam_ivp(rng) if not shoot or rng.random() < 0.7 else faults.seam_root(rng)
                    if f['seam'] == 'solve_ivp':
                        f['nth'] = rng.choice((1, 2, 3, 5, 8)) if shoot else 1
                        if rng.random() < 0.25:
                            f['kind'] = 'shorten'
                            f.pop('at', None)
                            f['x_end'] = calops.r(10 ** rng.uniform(4.3, 6.)) if eqs[ics[i]['eq']]['eq'] == 'T' \
                                else calops.r(ics[i]['N_i'] + rng.uniform(0.5, 60))
                    op['fault'] = {'kind': 'seam', 'f': f}
        elif x < 0.82:
            K = eqs[0]['K']
            sub = rng.choice((lambda: {'op': 'cal', 'kw': dict(N_star=calops.r(rng.uniform(30, 52)))},
                              lambda: {'op': 'cal', 'kw': dict(h=0.7, Omega_K0=calops.r(rng.choice((1, -1)) * 10 ** rng.uniform(-3.5, -2)))},
                              lambda: {'op': 'setns', 'n_s': 0.965, 'kw': {'N_star_max': 50.}},
                              lambda: calops.gen_lookup(rng)))()
            op = {'op': 'post', 'sol': rng.randrange(10), 'sub': sub}
            if rng.random() < 0.3:
                op['fault'] = faults.random_fault(rng, calops.SEAMS[sub['op']], 0.6)
        else:
            op = {'op': 'pot', 'pot': rng.randrange(len(pots)), 'phi': calops.r(m[2] * rng.uniform(0.5, 1.)), 'N': calops.r(rng.uniform(20, 65)),
                  'order': [rng.randrange(100) for _ in range(4)]}
            if rng.random() < 0.2:
                op['fault'] = {'kind': 'async', 'exc': rng.choice(faults.ASYNC), 'u': round(rng.random(), 6), 'v': round(rng.random(), 6), 'mode': 'site'}
        ops.append(op)
    return {'pots': pots, 'eqs': eqs, 'ics': ics, 'evs': evs, 'ops': ops}


def _cfg(scn, op):
    ic = scn['ics'][op['ic'] % len(scn['ics'])]
    e = scn['eqs'][ic['eq']]
    cfg = dict(e)
    cfg.update(ic)
    cfg['pot'], cfg['pk'] = scn['pots'][e['pot']]
    cfg['eq'] = e['eq']
    cfg['events'] = scn['evs'][op['ev']]['specs']
    for k in ('method', 'rtol', 'max_step'):
        if k in op:
            cfg[k] = op[k]
    return cfg


def _kw(op, cfg):
    kw = models.solve_kwargs(cfg)
    if op.get('bad') == 'method':
        kw['method'] = 'nonsense'
    elif op.get('bad') == 'rtol':
        kw['rtol'] = 'x'
    elif op.get('bad') == 'nonsense':
        kw['first_step'] = -1.
    return kw


QUERIES = ('V', 'dV', 'd2V', 'd3V', 'get_epsilon_1V', 'get_epsilon_2V', 'get_epsilon_1', 'get_epsilon_2', 'sr_phi2N', 'inv_V', 'phi_end', 'sr_N2phi',
           'sr_As2Lambda', 'Lambda', 'd4V', 'get_epsilon_3V', 'get_epsilon_4V', 'get_epsilon_3', 'get_epsilon_4', 'sr_Nstar2ns', 'sr_ns2Nstar',
           'sr_Nstar2r', 'sr_r2Nstar', 'phi2efolds', 'phi_array')
STATIC = {'sr_Nstar2ns': 'N', 'sr_ns2Nstar': 0.965, 'sr_Nstar2r': 'N', 'sr_r2Nstar': 0.01, 'phi2efolds': 'phi'}


def _query(pot, op):
    out = {}
    names = sorted(QUERIES, key=lambda n: (op['order'][len(n) % 4] * (QUERIES.index(n) + 1)) % 17)
    for n in names:
        try:
            if n in ('phi_end', 'Lambda'):
                v = getattr(pot, n)
            elif n in STATIC:
                if not hasattr(pot, n):
                    continue
                kw = {a: getattr(pot, a) for a in ('p', 'phi0') if hasattr(pot, a) and not (n == 'phi2efolds' and a == 'p')}
                v = getattr(pot, n)(op[STATIC[n]] if isinstance(STATIC[n], str) else STATIC[n], **kw)
            elif n == 'phi_array':
                phi = op['phi'] * np.array([1., 0.9, 1., 0.7])
                v = [f(phi) + 0 * phi for f in (pot.V, pot.dV, pot.d2V, pot.get_epsilon_1V)] + [phi]
            elif n == 'sr_N2phi':
                v = pot.sr_N2phi(op['N'])
            elif n == 'inv_V':
                v = pot.inv_V(pot.V(op['phi']))
            elif n == 'sr_As2Lambda':
                v = pot.sr_As2Lambda(A_s=2e-9, phi_star=None, N_star=op['N'])[0]
            else:
                v = getattr(pot, n)(op['phi'])
            out[n] = np.array(v, dtype=float)
        except Exception as e:
            out[n] = 'exc:' + type(e).__name__
    return out


def _aloud(fn):
    """(Result of fn, the warnings it gave); what it prints is dropped."""
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('always')
        value = fn()
    return value, [x.category.__name__ for x in w if x.category.__module__.startswith('primpy')]


class World:
    def __init__(self, scn):
        self.pots = [models.make_potential({'pot': p[0], 'pk': p[1]}) for p in scn['pots']]
        self.eqs = [models.make_equations(dict(e, pot=None), self.pots[e['pot']]) for e in scn['eqs']]
        self.evs = [[models.make_event(self.eqs[v['eq']], s) for s in v['specs']] for v in scn['evs']]
        self.ics = []
        for ic in scn['ics']:
            try:
                self.ics.append(models.make_ic(dict(scn['eqs'][ic['eq']], **ic), self.eqs[ic['eq']]))
            except Exception as e:
                self.ics.append(e)
        self.sols = []


def _history(scn):
    got = guarded(lambda: World(scn))
    if got[0] != 'ok':
        return {'skip': repr(got)}
    w = got[1]
    from primpy.solver import solve
    log, fired, vals, ef, rhs = [], [], [], 0., 0
    snaps = []
    for op in scn['ops']:
        text = {k: v for k, v in op.items() if k != 'op'}
        if op['op'] == 'solve':
            cfg, ic = _cfg(scn, op), w.ics[op['ic']]

            def go():
                if isinstance(ic, Exception):
                    raise ic
                return _aloud(lambda: solve(ic, events=w.evs[op['ev']], **_kw(op, cfg)))
            o = faults.perform(go, op.get('fault'), rhs_budget=3000000)
            v = None
            if o.ok:
                w.sols.append(o.value[0])
                v = compare.background(o.value[0])
                snaps.append(v)
                ef += efolds(o.value[0])
                v = dict(v, warnings_given=repr(o.value[1]))
            vals.append((o.brief(), v, bool(o.fired)))
        elif op['op'] == 'post':
            if not w.sols:
                vals.append(None)
                continue
            i = op['sol'] % len(w.sols)
            sub = op['sub']
            ctx = calops._Sib.__new__(calops._Sib)
            ctx.sol, ctx.cfg = w.sols[i], {}
            o = faults.perform(calops.thunk(sub, ctx), op.get('fault'))
            snaps[i] = compare.background(w.sols[i])
            vals.append(None)
        else:
            o = faults.perform(lambda: _query(w.pots[op['pot']], op), op.get('fault'))
            vals.append((o.brief(), o.value if o.ok else None, bool(o.fired)))
        fired += o.fired
        rhs += o.env.rhs
        log.append('%s %r -> %s' % (op['op'], text, o.log()))
    final = [compare.diff(s, compare.background(sol), rtol=1e-12) for s, sol in zip(snaps, w.sols)]
    return {'log': log, 'fired': fired, 'vals': vals, 'final': final, 'efolds': ef, 'rhs': rhs}


def _reference(scn, op):
    from primpy.solver import solve
    if op['op'] == 'pot':
        p = scn['pots'][op['pot']]
        return 'ok', _query(models.make_potential({'pot': p[0], 'pk': p[1]}), op)
    cfg = _cfg(scn, op)

    def go():
        _, _, ic, ev = models.build(cfg)
        return _aloud(lambda: solve(ic, events=ev, **_kw(op, cfg)))
    o = faults.perform(go, None, rhs_budget=3000000)
    return o.brief(), dict(compare.background(o.value[0]), warnings_given=repr(o.value[1])) if o.ok else None


def run(scn):
    trace = ['objects %r' % ({k: scn[k] for k in ('pots', 'eqs', 'ics', 'evs')},)]
    h = fork_call(lambda: _history(scn), timeout=200)
    if 'skip' in h:
        return result('inconclusive', trace + [h['skip']], nontrivial=False)
    trace += h['log']
    kind = msg = ''
    cache, states, nsolve, reused, used = {}, [], 0, 0, {}
    for op, v in zip(scn['ops'], h['vals']):
        if v is None:
            continue
        brief, got, fired = v
        if op['op'] == 'solve':
            nsolve += 1
            k = ('ic', op['ic'])
            reused += bool(used.get(k))
            used[k] = used.get(k, 0) + 1
            states.append('solve|%s|%s|%d' % (scn['ics'][op['ic']]['ic'], brief, used[k]))
        if fired or kind:
            # what a faulted operation itself returns is other properties' business
            continue
        key = repr({k: x for k, x in op.items() if k != 'fault'})
        if key not in cache:
            cache[key] = fork_call(lambda: _reference(scn, op), timeout=100)
        rb, ref = cache[key]
        if rb != brief:
            kind, msg = 'outcome', '%s: %s with used objects, %s with new ones' % (op, brief, rb)
        elif ref is not None:
            d = compare.diff(ref, got)
            extra = sorted(set(got) - set(ref))
            if extra:
                d.append('attributes only with used objects: %s' % extra[:5])
            if d:
                kind, msg = 'differs-from-new', '%s %s' % ({k: x for k, x in op.items()}, '; '.join(d[:5]))
    if not kind:
        for i, d in enumerate(h['final']):
            if d:
                kind, msg = 'earlier-solution-altered', 'solution %d: %s' % (i, '; '.join(d[:5]))
                break
    num = {'operations': len(scn['ops']), 'solves': nsolve, 'efolds_integrated': h['efolds'], 'rhs_evaluations': h['rhs']}
    return result('violation' if kind else 'ok', trace, kind, msg, h['fired'], num, nsolve >= 3 and (reused > 0 or bool(h['fired'])), states)
