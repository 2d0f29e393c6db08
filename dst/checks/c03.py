"""C03: looking up a spectrum changes nothing and depends on no earlier look-up."""
import numpy as np

from dst import calops, compare, models
from dst.core import fork_call
from dst.checks.common import ASSUMPTIONS, REAL, guarded, result, efolds  # noqa: F401

PROP = 'C03'
QUICK_S, THOROUGH_S, QUICK_RUNS = 100., 700., 2400
LISTS = ('ops',)
NONEMPTY = ('ops',)
STUBS = ['none replaced; faults enter through seams at the spline constructor and a line-level interrupter']
RULE = ('a run = one random background, a successful calibration, then 4-12 look-ups (all approximations, orders, wavenumbers, options; '
        'some failing or interrupted) interleaved with recalibrations, derivations and set_ns; every look-up value is compared with the same '
        'look-up made alone on a fresh background brought to the same calibration in a pristine process, and all attributes and the selected '
        'spectrum with those before the look-up; non-trivial = at least three successful look-ups')
STATE_MEASURE = 'distinct (look-up, calibration state) pairs'


def gen(rng, tier):
    cfg = models.curved(rng) if rng.random() < 0.3 else models.flat(rng)
    n = rng.choice((4, 6, 8, 10)) if tier == 'quick' else rng.choice((6, 10, 16))
    first = calops.gen_cal(rng, cfg, bad=0.)
    ops = []
    reuse, prev = rng.random() < 0.35, []
    # some histories stay with a few approximations, and numbers of wavenumbers
    few = [(rng.choice('st'),) + rng.choice(calops.DERIVE) for _ in range(rng.randint(1, 3))] if rng.random() < 0.4 else None
    size = rng.choice((1, 1, 2, 3))

    def chosen(op):
        """Calibrate with an approximation that is looked at."""
        if few and op['op'] in ('cal', 'derive') and rng.random() < 0.7:
            op['kw'] = dict(op['kw'])
            op['kw']['method'], op['kw']['order'] = rng.choice(few)[1:]
        return op
    first = chosen(first)
    for _ in range(n):
        if rng.random() < 0.72:
            op = calops.gen_lookup(rng, bad=0.12)
            p = 0.2
            if reuse:
                # the caller keeps one array of wavenumbers
                op['k'] = sorted(calops.r(10 ** rng.uniform(-5, 3)) for _ in range(2))
                op['buf'] = True
                if rng.random() < 0.5:
                    op['method'] = op['order'] = None
            if prev and rng.random() < 0.4:
                # an approximation looked at before, at as many other wavenumbers
                old = rng.choice(prev[-3:])
                for f in ('ps', 'method', 'order'):
                    op[f] = old[f]
                if old.get('k') and rng.random() < 0.6:
                    op['k'] = sorted(calops.r(10 ** rng.uniform(-5, 3)) for _ in old['k'])
            if few and not op.get('kw'):
                op['ps'], op['method'], op['order'] = rng.choice(few)
                if rng.random() < 0.7:
                    op['k'] = sorted(calops.r(10 ** rng.uniform(-5, 3)) for _ in range(size))
            prev.append(op)
        else:
            op = calops.gen_op(rng, cfg, bad=0.12, weights=(45, 0, 30, 15, 0, 10))
            op = chosen(op)
            p = 0.15
        ops.append(calops.add_fault(rng, op, p))
    return {'cfg': cfg, 'first': first, 'ops': ops}


def _pure(sol):
    out = compare.attrs(sol)
    out.update(compare.selected(sol))
    return out


def _history(scn):
    got = guarded(lambda: calops.Ctx(scn['cfg']))
    if got[0] != 'ok':
        return {'skip': 'background %r' % (got,)}
    ctx = got[1]
    first = calops.apply(scn['first'], ctx)
    if not first.ok:
        return {'skip': 'first calibration ' + first.log()}
    log, fired, vals, impure = [], [], [], None
    ctx.held = held = []
    for i, op in enumerate(scn['ops']):
        look = op['op'] == 'lookup'
        before = _pure(ctx.sol) if look else None
        o = calops.apply(op, ctx)
        fired += o.fired
        log.append('%s -> %s' % (calops.describe(op), o.log()))
        if look and impure is None:
            d = compare.diff(before, _pure(ctx.sol), rtol=0.)   # not even a rounding
            if d:
                impure = (i, d)
        if impure is None and compare.altered(held):
            impure = (i, ['the result of an earlier look-up (no %d)' % (compare.altered(held)[0] + 1)])
        vals.append((o.ok, o.value if look and o.ok else None, o.brief(), o.injected))
    return {'log': log, 'fired': fired, 'vals': vals, 'impure': impure, 'efolds': efolds(ctx.sol)}


def _clean(op):
    return {k: v for k, v in op.items() if k not in ('fault', 'werr', 'buf')}


def _reference(cfg, state, looks):
    """The look-ups, each alone, on a fresh background brought to the given state."""
    ctx = calops.Ctx(cfg)
    for op in state:
        o = calops.apply(_clean(op), ctx)
        if not o.ok:
            return None

    def one(op):
        o = calops.apply(_clean(op), ctx)
        return (o.ok, o.value, o.brief())
    return [fork_call(lambda op=op: one(op)) for op in looks]


def run(scn):
    h = fork_call(lambda: _history(scn))
    trace = ['background %r' % (scn['cfg'],), 'first %s' % calops.describe(scn['first'])]
    if 'skip' in h:
        return result('inconclusive', trace + [h['skip']], nontrivial=False)
    trace += h['log']
    num = {'operations': len(scn['ops']) + 1, 'lookups': 0, 'efolds_integrated': h['efolds']}
    if h['impure']:
        i, d = h['impure']
        return result('violation', trace, 'lookup-changed-results', 'operation %d changed %s' % (i + 1, '; '.join(d[:5])),
                      h['fired'], num)
    # calibration state each look-up was made in
    state, groups = [scn['first']], []
    cur = (list(state), [])
    for op, v in zip(scn['ops'], h['vals']):
        if op['op'] == 'lookup':
            cur[1].append((op, v))
        elif op['op'] != 'other' and v[0]:
            groups.append(cur)
            state = state + [op] if op['op'] == 'derive' else [op]
            cur = (list(state), [])
    groups.append(cur)
    kind = msg = ''
    states, nlook = [], 0
    for state, looks in groups:
        if not looks or kind:
            continue
        ref = fork_call(lambda: _reference(scn['cfg'], state, [op for op, _ in looks]))
        if ref is None:
            kind, msg = 'state-not-reproducible', 'fresh background cannot be brought to %s' % '; '.join(map(calops.describe, state))
            break
        for (op, got), want in zip(looks, ref):
            states.append('%s/%s/%s/%s' % (op['ps'], op['method'], op['order'], len(groups)))
            if got[3] or op.get('fault'):
                if not got[0]:
                    continue
            nlook += 1
            if got[0] != want[0]:
                kind, msg = 'lookup-outcome', '%s: %s, alone: %s' % (calops.describe(op), got[2], want[2])
            elif got[0] and not (np.shape(got[1]) == np.shape(want[1]) and compare.same('P', want[1], got[1], 1e-9)):
                kind, msg = 'lookup-value', '%s: got %s, alone on a fresh background in the same calibration: %s' % (
                    calops.describe(op), compare.show(got[1]), compare.show(want[1]))
            if kind:
                break
    num['lookups'] = nlook
    return result('violation' if kind else 'ok', trace, kind, msg, h['fired'], num, nlook >= 3, states)
