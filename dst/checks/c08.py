"""C08: each perturbation mode is computed independently of its batch."""
import numpy as np

from dst import calops, compare, faults, models, seams
from dst.core import Timeout, fork_call
from dst.checks.common import ASSUMPTIONS, REAL, result

PROP = 'C08'
QUICK_S, THOROUGH_S, QUICK_RUNS = 110., 700., 5000
LISTS = ('ops', 'ks')
NONEMPTY = ('ks',)
STUBS = ['none replaced; pyoscode.solve runs for real behind a seam that can raise or corrupt what it returns for a chosen mode']
RULE = ('a run = one background (flat, open, closed; both clocks), calibrated, on which 1-5 batches of wavenumbers (drawn with repetition and in any '
        'order from a pool of 1-5) are computed as scalars or arrays, for any vacua and accuracy settings, with a raising, NaN, truncated or '
        'interrupted integration at any mode and recalibrations and look-ups in between; every value is compared with the same wavenumber computed alone, for one '
        'vacuum, in a pristine process; non-trivial = a batch of two or more modes, or a later batch, was compared')
STATE_MEASURE = 'distinct (curvature, clock, form of k, vacua, fault, outcome) tuples over batches'
RTOL = 1e-9
VAC = ('k', 'HD', 'RST')


def gen(rng, tier):
    x = rng.random()
    cfg = models.curved(rng) if x < 0.55 else models.flat(rng, phi_idx=rng.choice((0, 0, 1)), features=False)
    if rng.random() < 0.15 and cfg['eq'] == 'N':
        cfg['t_eval'] = ['lin', cfg['N_i'], cfg['N_i'] + 75., rng.choice((2000, 4000))]
    cal = calops.gen_cal_curved(rng, cfg['K'], 0.) if cfg['K'] else {'N_star': calops.r(rng.uniform(40, 55))}
    ks = []
    for _ in range(rng.randint(1, 4 if tier == 'quick' else 6)):
        y = rng.random()
        if cfg['K'] and y < 0.35:
            ks.append(['abs', rng.choice((0.3, 0.9, 1., 2., 3., 4., 5., 7., 10., 2.5, 40.))])
        elif rng.random() < 0.12:
            # leaves the horizon too shortly before the end of inflation, or just not
            ks.append(['end', rng.choice((0.5, 0.05, 0.02, 0.009, 0.005, 1e-4, 4e-5, 1e-5, 1e-6))])
        else:
            ks.append(['star', calops.r(10 ** rng.uniform(-1.5, 1.5) if y < 0.8 else 10 ** rng.uniform(-3, 6))])
    par = {}
    # pyoscode does not converge on modes that start far inside the horizon on the background's own coarse grid
    deep = max([v for kind, v in ks if kind == 'star'] or [0.])
    if rng.random() < 0.4 or any(kind == 'end' for kind, _ in ks) or deep > (30. if cfg['eq'] == 'T' else 0.05 if cfg['K'] else 0.):
        par['fac_beg'] = rng.choice((10, 100, 100.))
    if rng.random() < 0.3:
        par['fac_end'] = rng.choice((10, 30., 1000))
    if rng.random() < 0.2:
        par['rtol'] = rng.choice((1e-4, 1e-3))
    if rng.random() < 0.2:
        par['num_eval'] = rng.choice((3, 20))
    if rng.random() < 0.15:
        par['drop_closed_large_scales'] = False
    if 't_eval' in cfg and rng.random() < 0.6:
        par['even_grid'] = True
    ops = []
    for _ in range(rng.randint(1, 4 if tier == 'quick' else 8)):
        z = rng.random()
        if ops and z < 0.1:
            ops.append({'op': 'recal', 'kw': calops.gen_cal_curved(rng, cfg['K'], 0.) if cfg['K'] else {'N_star': calops.r(rng.uniform(40, 55))}})
            continue
        if ops and z < 0.2:
            ops.append(calops.gen_lookup(rng, 0.))
            continue
        n = rng.choice((1, 2, 3, 4)) if tier == 'quick' else rng.randint(1, 8)
        op = {'op': 'pps', 'idx': [rng.randrange(len(ks)) for _ in range(n)], 'vac': rng.sample(VAC, rng.randint(1, 3)),
              'form': rng.choice(('array', 'array', 'array', 'float', 'int', 'intarray', 'np'))}
        if rng.random() < 0.15:
            op['vac'] = None
        if rng.random() < 0.4:
            if rng.random() < 0.4:
                op['fault'] = faults.random_fault(rng, [faults.seam_oscode], async_p=1.)
            else:
                op['fault'] = {'kind': 'seam', 'f': {'seam': 'oscode', 'kind': rng.choice(('raise', 'nan', 'nan', 'nan_tail', 'short', 'empty')),
                                                     'nth': rng.randint(1, 4 * n), 'exc': rng.choice(faults.SEAM_EXC)}}
        ops.append(op)
    return {'cfg': cfg, 'cal': cal, 'ks': ks, 'par': par, 'ops': ops}


def shrink(scn):
    import copy
    for k in scn['par']:
        c = copy.deepcopy(scn)
        c['par'].pop(k)
        yield c
    for j, op in enumerate(scn['ops']):
        for i in range(len(op.get('idx', ()))):
            if len(op['idx']) > 1:
                c = copy.deepcopy(scn)
                c['ops'][j]['idx'].pop(i)
                yield c
        for i in range(len(op.get('vac') or ())):
            if len(op['vac']) > 1:
                c = copy.deepcopy(scn)
                c['ops'][j]['vac'].pop(i)
                yield c


def _values(sol, ks):
    s = float(np.exp(sol._logaH_star))
    out = []
    for kind, v in ks:
        k = v if kind == 'abs' else v * s if kind == 'star' else v * float(np.exp(np.max(sol._logaH)))
        out.append(float(k))
    return out


def _base(scn):
    sol = models.solve_bg(scn['cfg'])
    sol.calibrate_scale_factor(**scn['cal'])
    return sol


def _solve(sol, k, vac, par):
    from primpy.solver import solve  # noqa: F401
    from primpy.oscode_solver import solve_oscode
    return solve_oscode(sol, k, vacuum=None if vac is None else tuple(vac), **par)


def _alone(sol, k, vac, par):
    """One wavenumber, one vacuum."""
    try:
        with seams.use(seams.Env()), np.errstate(all='ignore'):
            p = _solve(sol, k, (vac,), par)
    except Exception as e:
        return ('exc', type(e).__name__ + ': ' + str(e)[:100])
    out = {}
    for m, tag in ((p.scalar, 's'), (p.tensor, 't')):
        for sfx in ('', '_eval'):
            n = 'P_%s_%s%s' % (tag, vac, sfx)
            if hasattr(m, n):
                out[n] = np.array(getattr(m, n))
    return ('ok', out)


def _reference(scn):
    """Each wavenumber alone, each in its own process."""
    try:
        with seams.use(seams.Env()), np.errstate(all='ignore'):
            sol = _base(scn)
    except Exception as e:
        return {'skip': type(e).__name__ + ': ' + str(e)[:100]}
    ks = _values(sol, scn['ks'])
    need = {}
    for op in scn['ops']:
        if op['op'] == 'pps':
            for i in op['idx']:
                for v in (op['vac'] or ('RST',)):
                    need[(repr(_as(ks[i], op['form'])), v)] = float(_as(ks[i], op['form']))
    try:
        ref = {key: fork_call(lambda key=key, k=k: _alone(sol, k, key[1], scn['par']), timeout=10.) for key, k in need.items()}
    except Timeout:
        return {'skip': 'pyoscode does not converge'}      # neither passes nor fails: no verdict depends on the wall clock
    return {'ref': ref, 'ks': ks}


def _as(k, form):
    """The wavenumber in the given numeric representation."""
    if form in ('int', 'intarray'):
        return max(int(round(k)), 1)
    return k


def _forms(ks, op):
    return [_as(ks[i], op['form']) for i in op['idx']]


def _call(sol, op, ks, par):
    """Returns {position: {name: value}}."""
    vals = _forms(ks, op)
    vac = op['vac'] or ['RST']
    if op['form'] in ('array', 'intarray'):
        karr = np.array(vals)
        keep = karr.copy()
        pps = _solve(sol, karr, op['vac'], par)
        out = {'k_same': bool(np.array_equal(karr, keep)), 'k_iMpc': np.array(pps.k_iMpc, dtype=float), 'k': np.array(pps.k, dtype=float)}
        for i in range(len(vals)):
            out[i] = {'P_%s_%s' % (t, v): np.array(getattr(pps, 'P_%s_%s' % (t, v))[i]) for t in 'st' for v in vac}
        return out
    out = {}
    for i, k in enumerate(vals):
        p = _solve(sol, np.float64(k) if op['form'] == 'np' else k, op['vac'], par)
        d = {}
        for m, tag in ((p.scalar, 's'), (p.tensor, 't')):
            for v in vac:
                for sfx in ('', '_eval'):
                    n = 'P_%s_%s%s' % (tag, v, sfx)
                    if hasattr(m, n):
                        d[n] = np.array(getattr(m, n))
        out[i] = d
    return out


def _history(scn, ks, ref):
    with np.errstate(all='ignore'):
        sol = _base(scn)
        before = compare.background(sol)
        log, fired, states, bad, compared, batches = [], [], [], None, 0, 0
        for j, op in enumerate(scn['ops']):
            if op['op'] == 'recal':
                try:
                    sol.calibrate_scale_factor(**op['kw'])
                    log.append('op %d recalibrated' % (j + 1))
                except Exception as e:
                    log.append('op %d recalibration: %s' % (j + 1, type(e).__name__))
                before = compare.background(sol)
                continue
            if op['op'] == 'lookup':
                try:
                    compare.lookup(sol, op['ps'], op['method'], op['order'], op.get('k'))
                except Exception as e:
                    log.append('op %d look-up: %s' % (j + 1, type(e).__name__))
                before = compare.background(sol)
                continue
            o = faults.perform(lambda: _call(sol, op, ks, scn['par']), op.get('fault'))
            fired += o.fired
            log.append('op %d %s: %s' % (j + 1, op['form'], o.log()))
            states.append('%d/%s/%s/%s/%s/%s' % (scn['cfg']['K'], scn['cfg']['eq'], op['form'], ','.join(op['vac'] or ()),
                                                 [f.split('@')[0] for f in o.fired], o.brief()))
            d = compare.diff(before, compare.background(sol), 0.)
            if d:
                bad = ('background-changed', 'computing modes changed the background: ' + '; '.join(d[:3]))
                break
            if o.budget:
                return {'skip': 'budget', 'log': log}
            vals, vac = _forms(ks, op), op['vac'] or ['RST']
            want_exc = [ref[(repr(k), v)] for k in vals for v in vac if ref[(repr(k), v)][0] == 'exc']
            if not o.ok:
                if o.fired or o.injected:
                    continue
                if not want_exc:
                    bad = ('raised', 'batch %r raised %s: %s although every mode alone succeeds' % (vals, o.exc, o.msg))
                    break
                continue
            if want_exc:
                bad = ('accepted', 'a mode that alone raises %s was computed in batch %r' % (want_exc[0][1], vals))
                break
            hit = None
            f = op.get('fault')
            if o.fired and f and f['kind'] == 'seam':
                hit = (f['f']['nth'] - 1) // 4
            elif o.fired:
                bad = ('swallowed', 'an interrupt inside the computation vanished: %s' % o.fired)
                break
            if op['form'] in ('array', 'intarray'):
                if not o.value['k_same']:
                    bad = ('argument-changed', 'the array of wavenumbers was modified')
                    break
                from primpy.parameters import K_STAR
                want = np.array(vals, dtype=float) * K_STAR / np.exp(sol._logaH_star)
                if not (np.allclose(o.value['k_iMpc'], want, rtol=1e-9, atol=0.) and np.array_equal(o.value['k'], np.array(vals, dtype=float))):
                    bad = ('wavenumbers', 'k_iMpc %r, expected %r' % (o.value['k_iMpc'], want))
                    break
            for i, k in enumerate(vals):
                if i == hit:
                    continue
                for v in vac:
                    exp = {n: x for n, x in ref[(repr(k), v)][1].items() if not n.endswith('_eval') or op['form'] not in ('array', 'intarray')}
                    d = compare.diff(exp, o.value[i], RTOL)
                    compared += len(exp)
                    if d:
                        bad = ('differs', 'k=%r (%s), entry %d of batch %r of operation %d (%s): %s' % (k, v, i, vals, j + 1, 'fault at entry %s' % hit if
                               hit is not None else 'no fault', '; '.join(d[:2])))
                        break
                if bad:
                    break
            if bad:
                break
            if len(vals) > 1 or batches:
                compared += 1
            batches += 1
    return {'log': log, 'fired': fired, 'bad': bad, 'states': states, 'compared': compared, 'batches': batches,
            'multi': any(len(op.get('idx', ())) > 1 for op in scn['ops']) or batches > 1}


def run(scn):
    trace = ['background %r calibrated %r' % (scn['cfg'], scn['cal']), 'wavenumbers %r, settings %r' % (scn['ks'], scn['par'])]
    trace += ['op %r' % (op,) for op in scn['ops']]
    r = fork_call(lambda: _reference(scn))
    if 'skip' in r:
        return result('inconclusive', trace + [r['skip']], nontrivial=False)
    h = fork_call(lambda: _history(scn, r['ks'], r['ref']))
    if 'skip' in h:
        return result('inconclusive', trace + h.get('log', []) + [h['skip']], nontrivial=False)
    trace += ['k = %r' % (r['ks'],)] + h['log']
    num = {'values_compared': h['compared'], 'batches': h['batches'], 'modes_alone': len(r['ref'])}
    kw = dict(fired=h['fired'], num=num, states=h['states'], nontrivial=bool(h['compared'] and h['multi']))
    if h['bad']:
        return result('violation', trace, h['bad'][0], h['bad'][1], **kw)
    return result('ok', trace, **kw)


_ = (ASSUMPTIONS, REAL)
