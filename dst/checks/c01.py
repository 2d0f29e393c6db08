"""C01: recalibration is independent of the solution's history."""
from dst import calops, compare, models
from dst.core import fork_call
from dst.checks.common import ASSUMPTIONS, REAL, guarded, result, efolds  # noqa: F401

PROP = 'C01'
QUICK_S, THOROUGH_S, QUICK_RUNS = 110., 700., 2600
LISTS = ('ops', 'probes')
NONEMPTY = ('probes',)
STUBS = ['none replaced; faults enter through seams at scipy root_scalar/interp1d/spline and a line-level interrupter']
RULE = ('a run = one random background (18 flat model variants or 7 curved ones, both clocks, two integrators) + a random history of '
        'calibrations, derivations, look-ups, set_ns, copies and sibling solutions, with seam faults and asynchronous interrupts, + 1-3 '
        'probes, each a final calibration (possibly followed by set_ns/derive) compared attribute by attribute with the same on a fresh '
        'background in a pristine process; non-trivial = at least two history operations changed or tried to change the solution')
STATE_MEASURE = 'distinct (operation kind, outcome) sequences'


def gen(rng, tier):
    cfg = models.curved(rng) if rng.random() < 0.35 else models.flat(rng)
    n = rng.choice((1, 2, 2, 3, 4, 5, 7))
    if tier == 'thorough':
        n = rng.choice((1, 2, 3, 4, 6, 9, 14))
    ops = [calops.add_fault(rng, calops.gen_op(rng, cfg), 0.35) for _ in range(n)]
    probes = []
    for _ in range(rng.choice((1, 2, 3))):
        p = calops.gen_cal(rng, cfg, bad=0.04)
        if not cfg['K'] and rng.random() < 0.12:
            p = calops.gen_op(rng, cfg, weights=(0, 0, 0, 0, 1, 0))
        x = rng.random()
        p['then'] = []
        if x < 0.15 and not cfg['K']:
            p['then'] = [calops.gen_setns(rng, cfg)]
        elif x < 0.3:
            p['then'] = [{'op': 'derive', 'kw': calops.gen_derive_kwargs(rng, 0.)}]
        elif x < 0.4:
            p['then'] = [calops.gen_lookup(rng)]
        probes.append(p)
    return {'cfg': cfg, 'ops': ops, 'probes': probes}


def observe(ctx, probe):
    o = calops.apply({k: v for k, v in probe.items() if k in ('op', 'kw', 'bg')}, ctx)
    briefs = [o.brief()]
    if not o.ok:
        return ['failed'], {}
    for op in probe.get('then', ()):
        briefs.append(calops.apply(op, ctx).brief())
    return briefs, compare.full(ctx.sol)


def _history(scn):
    got = guarded(lambda: calops.Ctx(scn['cfg']))
    if got[0] != 'ok':
        return {'solve': got}
    ctx = got[1]
    log, fired, rhs = [], [], 0
    for op in scn['ops']:
        o = calops.apply(op, ctx)
        rhs += o.env.rhs
        log.append('%s -> %s' % (calops.describe(op), o.log()))
        fired += o.fired
        log.append(o.brief())
    obs = [fork_call(lambda p=p: observe(ctx, p)) for p in scn['probes']]
    return {'solve': ('ok',), 'log': log, 'fired': fired, 'obs': obs, 'rhs': rhs, 'efolds': efolds(ctx.sol)}


def _fresh(cfg, probe):
    got = guarded(lambda: calops.Ctx(cfg))
    if got[0] != 'ok':
        return None
    return observe(got[1], probe)


def run(scn):
    refs = [fork_call(lambda p=p: _fresh(scn['cfg'], p)) for p in scn['probes']]
    h = fork_call(lambda: _history(scn))
    trace = ['background %r' % (scn['cfg'],)]
    if h['solve'][0] != 'ok' or any(x is None for x in refs):
        return result('inconclusive', trace + ['background: %r' % (h['solve'],)], nontrivial=False)
    trace += h['log'][0::2]
    briefs = h['log'][1::2]
    fired, num = h['fired'], {'operations': len(scn['ops']), 'probes': len(refs), 'efolds_integrated': h['efolds'], 'rhs_evaluations': h['rhs']}
    states = ['|'.join('%s:%s' % (op['op'], b) for op, b in zip(scn['ops'], briefs))]
    kind = msg = ''
    for p, (rb, ra), (gb, ga) in zip(scn['probes'], refs, h['obs']):
        trace.append('probe %s -> %s (fresh: %s)' % (calops.describe(p), gb, rb))
        if kind:
            continue
        if rb != gb:
            kind, msg = 'outcome', 'calibrating the used solution: %s, a fresh one: %s' % (gb, rb)
            continue
        d = compare.diff(ra, ga) + ['%s: %s, a fresh solution has none' % (n, compare.show(ga[n])) for n in compare.CALIB + compare.SPEC if n in ga and n not in ra]
        if d:
            kind, msg = 'differs-from-fresh', '; '.join(d[:6]) + (' (+%d more)' % (len(d) - 6) if len(d) > 6 else '')
    nontrivial = sum(op['op'] != 'lookup' for op in scn['ops']) >= 2
    return result('violation' if kind else 'ok', trace, kind, msg, fired, num, nontrivial, states)
