"""Seeded search over simulated runs; minimisation; replay files; evidence."""
import copy
import hashlib
import importlib
import json
import os
import random
import resource
import subprocess
import sys
import time

from dst import boot, core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
WIDTH = int(os.environ.get('DST_WORKERS', '0')) or min(8, os.cpu_count() or 1)
# wall-clock limit of one simulated run: only a harness safety net, verdicts never depend on it
RUN_TIMEOUT = 240.


def load(prop):
    return importlib.import_module('dst.checks.' + prop.lower())


def rng_for(seed, prop, i):
    return random.Random('%s/%s/%s' % (seed, prop, i))


def scenario(mod, seed, i, tier):
    return mod.gen(rng_for(seed, mod.PROP, i), tier)


def run_here(mod, scn):
    """Execute one simulated run in this process (always a forked child)."""
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    random.seed(12345)
    np.random.seed(12345)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return mod.run(scn)


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def normal(scn):
    return json.loads(json.dumps(scn))


# -------------------------------------------------------------------------------------------------------------- shrink
def candidates(scn, mod):
    """Simpler scenarios, most drastic first."""
    out = []
    for key in getattr(mod, 'LISTS', ('ops',)):
        seq = scn.get(key)
        if not isinstance(seq, list) or not seq:
            continue
        n = len(seq)
        size = n
        low = 1 if key in getattr(mod, 'NONEMPTY', ()) else 0
        while size >= 1:
            for start in range(0, n, size):
                rest = seq[:start] + seq[start + size:]
                if len(rest) < n and len(rest) >= low:
                    c = copy.deepcopy(scn)
                    c[key] = copy.deepcopy(rest)
                    out.append(c)
            size //= 2
        for j, op in enumerate(seq):
            if not isinstance(op, dict):
                continue
            for drop in ('fault', 'werr', 'then'):
                if op.get(drop):
                    c = copy.deepcopy(scn)
                    c[key][j].pop(drop)
                    out.append(c)
            for sub in ('kw',):
                if isinstance(op.get(sub), dict):
                    for k in op[sub]:
                        c = copy.deepcopy(scn)
                        c[key][j][sub].pop(k)
                        out.append(c)
    cfg = scn.get('cfg')
    if isinstance(cfg, dict):
        for k in ('track_eta', 'track_time'):
            if cfg.get(k):
                c = copy.deepcopy(scn)
                c['cfg'].pop(k)
                out.append(c)
    if hasattr(mod, 'shrink'):
        out.extend(mod.shrink(scn))
    seen, uniq = {digest(scn)}, []
    for c in out:
        d = digest(c)
        if d not in seen:
            seen.add(d)
            uniq.append(c)
    return uniq


def shrink(mod, scn, kind, seconds, log):
    """Greedy minimisation keeping the same kind of violation."""
    deadline = time.monotonic() + seconds
    best, evals, improved = scn, 0, True
    while improved and time.monotonic() < deadline:
        improved = False
        todo = candidates(best, mod)
        pool = core.Pool(WIDTH, RUN_TIMEOUT)
        results, nxt, stop = {}, 0, False
        try:
            while (nxt < len(todo) or pool.live) and not stop and time.monotonic() < deadline:
                while nxt < len(todo) and not pool.full():
                    c = todo[nxt]
                    pool.start(nxt, lambda c=c: run_here(mod, c))
                    nxt += 1
                for tag, k, v in pool.poll(0.5):
                    evals += 1
                    results[tag] = (k == 'ok' and v['verdict'] == 'violation' and v['kind'] == kind)
                    # accept the first (most drastic) candidate whose predecessors have all been decided
                for j in range(len(todo)):
                    if j not in results:
                        break
                    if results[j]:
                        best, improved, stop = todo[j], True, True
                        break
        finally:
            pool.stop()
    log('minimised in %d runs: %d -> %d bytes' % (evals, len(json.dumps(scn)), len(json.dumps(best))))
    return best


def scratch(fn):
    """Run fn with every temporary file below one directory that is removed at the end, whatever was killed meanwhile."""
    def wrapped(*args, **kw):
        import shutil
        import tempfile
        top = tempfile.mkdtemp(prefix='dst-')
        os.chmod(top, 0o711)      # scripts under test run as an unprivileged user below it
        old = os.environ.get('TMPDIR')
        os.environ['TMPDIR'] = top
        tempfile.tempdir = None
        try:
            return fn(*args, **kw)
        finally:
            if old is None:
                os.environ.pop('TMPDIR', None)
            else:
                os.environ['TMPDIR'] = old
            tempfile.tempdir = None
            shutil.rmtree(top, ignore_errors=True)
    return wrapped


# -------------------------------------------------------------------------------------------------------------- replay
def execute(mod, scn, timeout=RUN_TIMEOUT):
    pool = core.Pool(1, timeout)
    pool.start(0, lambda: run_here(mod, scn))
    while True:
        done = pool.poll(1.0)
        if done:
            return done[0][1], done[0][2]


def write_replay(mod, scn, result, seed, index, original):
    os.makedirs(REPLAYS, exist_ok=True)
    data = {
        'property': mod.PROP, 'scenario': scn, 'kind': result['kind'], 'message': result['message'],
        'trace': result['trace'], 'digest': digest([result['kind'], result['message'], result['trace']]),
        'seed': seed, 'run': index, 'found_in': original, 'command': 'cd /verif && ./check replay <this file>',
    }
    path = os.path.join(REPLAYS, '%s-%s.json' % (mod.PROP, digest(scn)))
    with open(path, 'w') as f:
        json.dump(data, f, indent=1)
    return path


@scratch
def replay(path, verbose=True):
    with open(path) as f:
        data = json.load(f)
    mod = load(data['property'])
    boot.boot()
    kind, res = execute(mod, data['scenario'])
    if kind != 'ok':
        print('replay did not finish: %s %s' % (kind, res))
        return 2
    if verbose:
        for line in res['trace']:
            print('  ' + line)
    if res['verdict'] != 'violation':
        print('not reproduced: %s' % res['verdict'])
        return 0
    exact = digest([res['kind'], res['message'], res['trace']]) == data['digest']
    print('VIOLATION property=%s replay=%s' % (data['property'], path))
    print('%s: %s' % (res['kind'], res['message']))
    print('trace %s the recorded one' % ('identical to' if exact else 'DIFFERS from'))
    return 1 if exact else 3


def verify_replay(path):
    cmd = [boot.PYTHON, '-B', '-W', 'ignore', os.path.join(VERIF, 'dst', '__main__.py'), 'replay', path, '--quiet']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return p.returncode, p.stdout


# --------------------------------------------------------------------------------------------------------- known findings
def known_findings(prop):
    path = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e.get('property') == prop and e.get('status') == 'open':
                        out.append(e)
    return out


def matches(entry, res):
    return entry['kind'] == res['kind'] and all(s in res['message'] for s in entry.get('contains', []))


# -------------------------------------------------------------------------------------------------------------- search
class Tally:
    def __init__(self):
        self.runs = 0
        self.by = {}
        self.faults = {}
        self.sites = set()
        self.sigs = set()
        self.nontrivial = set()
        self.num = {}
        self.states = set()
        self.errors = []
        self.samples = []

    def add(self, i, kind, res):
        self.runs += 1
        v = res['verdict'] if kind == 'ok' else kind
        self.by[v] = self.by.get(v, 0) + 1
        if kind != 'ok':
            self.errors.append('run %s: %s %s' % (i, kind, res))
            return
        s = res.get('stats', {})
        for label in s.get('fired', ()):
            k = label.split('@')[0]
            self.faults[k] = self.faults.get(k, 0) + 1
            if '@' in label:
                self.sites.add(label.split('@', 1)[1])
        for k, n in s.get('num', {}).items():
            self.num[k] = max(self.num.get(k, 0), n) if k.endswith('_max') else self.num.get(k, 0) + n
        self.states.update(s.get('states', ()))
        d = digest(res['trace'])
        self.sigs.add(d)
        if s.get('nontrivial'):
            self.nontrivial.add(d)
        if len(self.samples) < 3 and s.get('nontrivial'):
            self.samples.append({'run': i, 'trace': res['trace'][:40]})


@scratch
def check(prop, tier, seed, seconds=None, runs=None):
    t0 = time.monotonic()
    mod = load(prop)
    boot.boot()
    if hasattr(mod, 'warm'):
        mod.warm()
    seconds = seconds or (mod.QUICK_S if tier == 'quick' else mod.THOROUGH_S)
    limit = runs or (mod.QUICK_RUNS if tier == 'quick' else 10**9)
    known = known_findings(prop)
    seen_known = {}
    log = lambda s: print('# ' + s, flush=True)  # noqa: E731
    log('%s %s: seed %s, up to %s runs or %gs, %d workers, code under test %s'
        % (prop, tier, seed, limit if limit < 10**9 else 'unlimited', seconds, WIDTH, boot.REPO))
    tally = Tally()
    pool = core.Pool(WIDTH, RUN_TIMEOUT)
    deadline = t0 + seconds
    nxt, found = 0, []
    scns = {}
    while True:
        while not pool.full() and nxt < limit and time.monotonic() < deadline and not found:
            scn = normal(scenario(mod, seed, nxt, tier))
            scns[nxt] = scn
            pool.start(nxt, lambda scn=scn: run_here(mod, scn))
            nxt += 1
        if not pool.live:
            break
        for i, kind, res in pool.poll(0.5):
            tally.add(i, kind, res)
            scn = scns.pop(i)
            if kind == 'ok' and res['verdict'] == 'violation':
                hit = [e for e in known if matches(e, res)]
                if hit:
                    seen_known[hit[0]['id']] = hit[0]
                    continue
                found.append((i, scn, res))
        if len(tally.errors) > 20 and len(tally.errors) > tally.runs // 2:
            break
    pool.stop()
    search_s = time.monotonic() - t0
    for e in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    code, path, nviol = 0, None, 0
    if found:
        found.sort(key=lambda f: f[0])
        i, scn, res = found[0]
        log('run %d: %s: %s' % (i, res['kind'], res['message'][:300]))
        small = shrink(mod, scn, res['kind'], float(os.environ.get('DST_SHRINK', '60')), log)
        for s in (small, scn):
            k, r = execute(mod, s)
            if k != 'ok' or r['verdict'] != 'violation':
                continue
            path = write_replay(mod, s, r, seed, i, digest(scn))
            rc, text = verify_replay(path)
            if rc in (1, 3):
                log('replay in a fresh process: %s' % ('exact' if rc == 1 else 'same violation, different trace'))
                nviol = len(found)
                break
            log('replay failed (%s): %s' % (rc, text[-300:]))
        if nviol:
            for line in r['trace']:
                log('  ' + line)
            print('%s: %s' % (r['kind'], r['message']))
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            code = 1
        else:
            log('a violation was seen but could not be reproduced: harness fault')
            code = 2
    bad = sum(tally.by.get(k, 0) for k in ('error', 'timeout'))
    for e in tally.errors[:5]:
        log('HARNESS ' + str(e)[:1500])
    if code == 0 and (bad > 0.02 * tally.runs or tally.runs == 0):
        log('too many failed runs: %d of %d' % (bad, tally.runs))
        code = 2
    inc = tally.by.get('inconclusive', 0)
    if code == 0 and inc > 0.5 * tally.runs:
        log('too many inconclusive runs: %d of %d' % (inc, tally.runs))
        code = 2
    wall = time.monotonic() - t0
    write_evidence(mod, tier, seed, tally, search_s, wall, nviol, path)
    log('%d runs in %.0fs (%.0f/h), verdicts %s, %d distinct non-trivial traces, %d faults fired at %d places'
        % (tally.runs, search_s, tally.runs / search_s * 3600, tally.by, len(tally.nontrivial),
           sum(tally.faults.values()), len(tally.sites)))
    return code


def write_evidence(mod, tier, seed, t, search_s, wall, nviol, path):
    ev = {
        'property': mod.PROP, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
        'coverage': {
            'evaluations': t.runs,
            'distinct_nontrivial': len(t.nontrivial),
            'rule': mod.RULE,
            'samples': t.samples or [{'note': 'no non-trivial run'}],
            'verdicts': t.by,
            'simulated_runs_per_hour': round(t.runs / search_s * 3600),
            'seeds_per_hour': round(t.runs / search_s * 3600),
            'search_seconds': round(search_s, 1),
            'simulated': t.num,
            'faults_fired': t.faults,
            'distinct_interrupt_sites': len(t.sites),
            'distinct_traces': len(t.sigs),
            'distinct_states': len(t.states),
            'state_measure': getattr(mod, 'STATE_MEASURE', 'distinct operation/outcome traces'),
            'real_components': mod.REAL,
            'stubbed_components': mod.STUBS,
            'workers': WIDTH,
            'replay': path,
        },
        'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 1), 'violations': nviol,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % mod.PROP)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, '%s.json' % mod.PROP))


@scratch
def determinism(prop, tier, seed, n, out=None):
    """Digests of n runs, for comparison between processes, hash seeds and worker counts."""
    mod = load(prop)
    boot.boot()
    if hasattr(mod, 'warm'):
        mod.warm()
    pool = core.Pool(WIDTH, RUN_TIMEOUT)
    res, nxt = {}, 0
    while nxt < n or pool.live:
        while nxt < n and not pool.full():
            scn = normal(scenario(mod, seed, nxt, tier))
            pool.start(nxt, lambda scn=scn: run_here(mod, scn))
            nxt += 1
        for i, kind, r in pool.poll(0.5):
            res[i] = digest([kind, r if kind != 'ok' else [r['verdict'], r['kind'], r['message'], r['trace']]])
    text = '\n'.join('%d %s' % kv for kv in sorted(res.items())) + '\n'
    if out:
        with open(out, 'w') as f:
            f.write(text)
    else:
        sys.stdout.write(text)
    return 0
