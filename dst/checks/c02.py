"""C02: a failed or interrupted operation leaves earlier results intact."""
from dst import calops, compare, models
from dst.core import fork_call
from dst.checks.common import ASSUMPTIONS, REAL, guarded, result, efolds  # noqa: F401

PROP = 'C02'
QUICK_S, THOROUGH_S, QUICK_RUNS = 90., 700., 2200
LISTS = ('ops',)
NONEMPTY = ('ops',)
STUBS = ['none replaced; faults enter through seams at scipy root_scalar/interp1d/spline and a line-level interrupter']
RULE = ('a run = one random background, one successful calibration, then 2-8 random operations most of which fail (rejected or unreachable '
        'arguments, warnings turned into errors, seam faults, an interrupt at a chosen statement); after every operation that raised, all '
        'attributes, the selected spectrum and all look-ups are compared with those before it (for an interrupt: all-old or all-new); '
        'non-trivial = at least one operation raised')
STATE_MEASURE = 'distinct (operation, exception, interrupt site) triples'


def gen(rng, tier):
    cfg = models.curved(rng) if rng.random() < 0.3 else models.flat(rng)
    n = rng.choice((2, 3, 4, 5)) if tier == 'quick' else rng.choice((3, 5, 8, 12))
    first = calops.gen_cal(rng, cfg, bad=0.)
    ops = []
    for _ in range(n):
        op = calops.gen_op(rng, cfg, bad=0.35, weights=(45, 10, 18, 22, 5, 0))
        if op['op'] != 'lookup' and not _hopeless(op):
            calops.add_fault(rng, op, 0.7)
        ops.append(op)
    return {'cfg': cfg, 'first': first, 'ops': ops}


def _hopeless(op):
    return False


def _history(scn):
    got = guarded(lambda: calops.Ctx(scn['cfg']))
    if got[0] != 'ok':
        return {'skip': 'background %r' % (got,)}
    ctx = got[1]
    first = calops.apply(scn['first'], ctx)
    if not first.ok:
        return {'skip': 'first calibration ' + first.log()}
    observe = lambda: compare.full(ctx.sol)  # noqa: E731
    before = fork_call(observe)
    log, fired, states, raised, bad, rhs = [], [], [], 0, None, 0
    for op in scn['ops']:
        o = calops.apply(op, ctx, observe=observe)
        rhs += o.env.rhs
        log.append('%s -> %s' % (calops.describe(op), o.log()))
        fired += o.fired
        after = fork_call(observe)
        if not o.ok:
            raised += 1
            states.append('%s/%s/%s' % (op['op'], o.brief(), o.site or ''))
            d = compare.diff(before, after)
            if d and o.after is not None and o.site is not None and not compare.diff(o.after, after):
                d = []   # the interrupt came after the last change: the operation is complete
            if d:
                bad = (len(log) - 1, o.brief(), d)
                break
        before = after
    return {'log': log, 'fired': fired, 'states': states, 'raised': raised, 'bad': bad, 'rhs': rhs, 'efolds': efolds(ctx.sol)}


def run(scn):
    h = fork_call(lambda: _history(scn))
    trace = ['background %r' % (scn['cfg'],), 'first %s' % calops.describe(scn['first'])]
    if 'skip' in h:
        return result('inconclusive', trace + [h['skip']], nontrivial=False)
    trace += h['log']
    kind = msg = ''
    if h['bad']:
        i, exc, d = h['bad']
        kind = 'results-changed-by-failed-operation'
        msg = 'operation %d raised %s, but: %s%s' % (i + 1, exc, '; '.join(d[:6]), ' (+%d more)' % (len(d) - 6) if len(d) > 6 else '')
    return result('violation' if kind else 'ok', trace, kind, msg, h['fired'],
                  {'operations': len(scn['ops']) + 1, 'raised': h['raised'], 'efolds_integrated': h['efolds']},
                  h['raised'] > 0, h['states'])
