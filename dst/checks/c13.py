"""C13: an interrupted version bump never passes the release gate half-done."""
import copy
import os
import shutil
import signal
import subprocess
import sys
import tempfile

from dst import boot, faults
from dst.checks.common import result

PROP = 'C13'
QUICK_S, THOROUGH_S, QUICK_RUNS = 45., 400., 4000
LISTS = ('ops',)
NONEMPTY = ()
REAL = ['bin/bump_version.py and .github/workflows/check_version.py from the /repo working tree', 'git, sed, grep, cat', 'packaging']
STUBS = ['the remote repository is a local bare one', 'process start, exit status and output of sub-processes go through a seam']
ASSUMPTIONS = ['versions are final releases (X.Y.Z), as the project has ever used', 'a killed process leaves what it had written; sed -i replaces a file '
               'atomically (its rename), so a half-written file arises only where the script itself writes files']
RULE = ('a run = a released version, a README, then 1-6 operations on a scratch clone (bump of some type, gate, restore of one or both files, a release '
        'by somebody else, a commit, an unrelated README edit), most with a fault: the script killed at a line, or before, in or after its nth sub-process '
        'or file write, a sub-process that fails with or without its effect or with partial output, a full disk, no network; every gate verdict is compared '
        'with what the tree and the remote really contain; non-trivial = at least one fault fired')
STATE_MEASURE = 'distinct (operation, fault, package version/README/released relation, verdict) tuples'
TYPES = ('micro', 'minor', 'major')
BUMP, GATE = 'bin/bump_version.py', '.github/workflows/check_version.py'
VFILE, README = 'primpy/__version__.py', 'README.rst'


def _v(rng):
    return [rng.choice((0, 1, 2, 9, 10, 12)), rng.choice((0, 1, 9, 10, 18, 99)), rng.choice((0, 1, 3, 9, 10, 15, 99))]


def gen_fault(rng, op):
    x = rng.random()
    if x < 0.25:
        return {'f': 'kill_line', 'u': round(rng.random(), 6)}
    if x < 0.35:
        return {'f': 'raise_line', 'u': round(rng.random(), 6), 'exc': rng.choice(('KeyboardInterrupt', 'MemoryError'))}
    if x < 0.85:
        return {'f': rng.choice(('kill_before', 'kill_after', 'kill_during', 'fail', 'fail', 'fail_after', 'partial', 'missing')),
                'nth': rng.randint(1, 3 if op == 'bump' else 4), 'u': round(rng.random(), 6)}
    return {'f': rng.choice(('write_full', 'write_kill')), 'nth': rng.randint(1, 2), 'u': round(rng.random(), 6)}


def gen(rng, tier):
    v = _v(rng)
    ops = []
    for _ in range(rng.choice((1, 2, 3, 4)) if tier == 'quick' else rng.choice((2, 4, 6, 9))):
        x = rng.random()
        if x < 0.45:
            op = {'op': 'bump', 'type': rng.choice(TYPES + ('default',))}
        elif x < 0.65:
            op = {'op': 'gate'}
        elif x < 0.77:
            op = {'op': 'restore', 'files': rng.choice(([VFILE], [README], [VFILE, README], [VFILE, README]))}
        elif x < 0.87:
            op = {'op': 'released', 'type': rng.choice(TYPES), 'seen': rng.random() < 0.3}
            if rng.random() < 0.6:                               # a gate whose view of the remote may be out of date
                ops += [{'op': 'bump', 'type': rng.choice((op['type'], 'default'))}] if rng.random() < 0.5 else []
                ops.append(op)
                op = {'op': 'gate', 'fault': gen_fault(rng, 'gate')}
        elif x < 0.93:
            op = {'op': 'commit'}
        else:
            op = {'op': 'edit', 'what': rng.choice(('readme_version', 'file_version')), 'v': rng.choice(('next', 'skip', 'same', 'back', 'other')),
                  'type': rng.choice(TYPES)}
        if op['op'] in ('bump', 'gate') and 'fault' not in op and rng.random() < (0.75 if op['op'] == 'bump' else 0.4):
            op['fault'] = gen_fault(rng, op['op'])
        ops.append(op)
    return {'v': v, 'noise': rng.randrange(4), 'ops': ops, 'last': rng.choice(TYPES)}


def shrink(scn):
    if scn['noise']:
        c = copy.deepcopy(scn)
        c['noise'] = 0
        yield c
    if scn['v'] != [1, 2, 3]:
        c = copy.deepcopy(scn)
        c['v'] = [1, 2, 3]
        yield c


# ------------------------------------------------------------------------------------------------------------- the tree
def text(v):
    return '.'.join(map(str, v))


def step(v, kind):
    a, b, c = v
    return {'micro': [a, b, c + 1], 'minor': [a, b + 1, 0], 'major': [a + 1, 0, 0]}[kind]


def vfile_text(v):
    return '"""Version file for primpy."""\n\n__version__ = \'%s\'\n' % text(v)


def readme_text(v, noise):
    extra = ('', 'Needs scipy 1.14 or newer.\n', 'Copyright 2019-2%s%s, see v0.0.0.\n' % (v[1], v[2]), '.. |v| replace:: 7%s7\n' % '-'.join(map(str, v)))[noise]
    return ('================\nprimpy: a README\n================\n:primpy: calculations\n:Author: A\n:Version: %s\n:Homepage: https://example.org/primpy\n\n%s' %
            (text(v), extra))


ENV = {'GIT_CONFIG_NOSYSTEM': '1', 'GIT_AUTHOR_NAME': 'a', 'GIT_AUTHOR_EMAIL': 'a@b', 'GIT_COMMITTER_NAME': 'a',
       'GIT_COMMITTER_EMAIL': 'a@b', 'GIT_AUTHOR_DATE': '2020-01-01T00:00:00Z', 'GIT_COMMITTER_DATE': '2020-01-01T00:00:00Z', 'GIT_TERMINAL_PROMPT': '0',
       'PATH': os.path.dirname(boot.PYTHON) + ':/usr/local/bin:/usr/bin:/bin', 'LC_ALL': 'C.UTF-8'}


class Site:
    """A scratch clone, its remote, and a copy of the two scripts."""

    def __init__(self, scn):
        self.top = tempfile.mkdtemp(prefix='dst-c13-')
        self.noise = scn['noise']
        self.work, self.remote, self.other = (os.path.join(self.top, d) for d in ('work', 'remote', 'other'))
        self.env = dict(ENV, HOME=self.top, TMPDIR=self.top, GIT_CEILING_DIRECTORIES=self.top)
        with open(os.path.join(self.top, '.gitconfig'), 'w') as f:
            f.write('[safe]\n\tdirectory = *\n')
        self.git(None, 'init', '-q', '-b', 'master', self.other)
        os.makedirs(os.path.join(self.other, 'primpy'))
        self.put(self.other, scn['v'])
        self.git(self.other, 'add', '-A')
        self.git(self.other, 'commit', '-q', '-m', 'x')
        self.git(None, 'clone', '-q', '--bare', self.other, self.remote)
        self.git(self.other, 'remote', 'add', 'origin', self.remote)
        self.git(None, 'clone', '-q', self.remote, self.work)
        self.git(self.work, 'checkout', '-q', '-b', 'topic')
        self.released = list(scn['v'])

    def put(self, where, v):
        with open(os.path.join(where, VFILE), 'w') as f:
            f.write(vfile_text(v))
        with open(os.path.join(where, README), 'w') as f:
            f.write(readme_text(v, self.noise))

    def git(self, cwd, *args):
        p = subprocess.run(('git',) + args, cwd=cwd or self.top, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError('git %s: %s' % (args, p.stdout))
        return p.stdout

    def release(self, kind):
        self.released = step(self.released, kind)
        self.put(self.other, self.released)
        self.git(self.other, 'commit', '-q', '-a', '-m', 'y')
        self.git(self.other, 'push', '-q', 'origin', 'master')

    def read(self):
        """(package version, documented version) as the tree really has them; None where there is none."""
        space = {}
        try:
            with open(os.path.join(self.work, VFILE)) as f:
                exec(f.read(), space)
        except Exception:
            pass
        doc = None
        try:
            with open(os.path.join(self.work, README)) as f:
                for line in f:
                    if line.startswith(':Version:'):
                        doc = line[len(':Version:'):].strip()
        except Exception:
            pass
        return space.get('__version__'), doc

    def lines(self):
        out = []
        for name in (VFILE, README):
            try:
                with open(os.path.join(self.work, name)) as f:
                    out.append(f.read().splitlines())
            except Exception:
                out.append(None)
        return out

    def good(self):
        """Do both versions agree and are they one increment above the released one?"""
        a, b = self.read()
        return a is not None and a == b and a in [text(step(self.released, k)) for k in TYPES]

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


# ---------------------------------------------------------------------------------------------------------- the scripts
class Killed(BaseException):
    pass


def _script(site, path, args, fault, report):
    """Runs in a child of its own: the script with the fault; the exit status is the script's."""
    os.chdir(site.work)
    os.environ.clear()
    os.environ.update(site.env)
    try:
        os.setgid(65534)
        os.setuid(65534)
    except OSError:
        pass
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    import builtins
    import runpy
    sys.argv = [path] + args
    sys.path.insert(0, os.path.dirname(path))
    count = {'proc': 0, 'write': 0, 'line': 0}
    f = fault or {}
    depth = [0]

    def note(label):
        os.write(report, (label + '\n').encode())

    def die():
        os._exit(137)
    real_popen = subprocess.Popen

    class Popen(real_popen):
        def __init__(self, args, *a, **kw):
            self.dst = None
            count['proc'] += 1
            if f.get('nth') == count['proc'] and not f['f'].startswith('write'):
                k = f['f']
                name = os.path.basename(str(args[0] if not isinstance(args, (str, bytes)) else args))
                note('%s:%s' % (k, name))
                if k == 'kill_before':
                    die()
                if k == 'missing':
                    raise FileNotFoundError(2, 'No such file or directory', name)
                if k == 'fail':
                    args, kw = ['false'], dict(kw, shell=False)
                if k == 'kill_during':
                    p = real_popen(args, *a, **kw)
                    if f['u'] < 0.5:
                        p.send_signal(signal.SIGKILL)
                    p.wait()
                    die()
                self.dst = k
            super().__init__(args, *a, **kw)

        def communicate(self, *a, **kw):
            out, err = super().communicate(*a, **kw)
            if self.dst == 'kill_after':
                die()
            if self.dst == 'fail_after':
                self.returncode = 1
            if self.dst == 'partial':
                self.returncode = -9
                if out:
                    out = out[:max(0, len(out) - 1 - int(f['u'] * min(len(out), 14)))]
            return out, err

        def wait(self, *a, **kw):
            rc = super().wait(*a, **kw)
            if self.dst == 'kill_after' and not self._communication_started:
                die()
            if self.dst in ('fail_after', 'partial'):
                self.returncode = 1
            return self.returncode if self.dst else rc
    subprocess.Popen = Popen
    real_open = builtins.open

    def opened(file, mode='r', *a, **kw):
        h = real_open(file, mode, *a, **kw)
        if not any(c in mode for c in 'wax+') or depth[0]:
            return h
        count['write'] += 1
        if f.get('f') in ('write_full', 'write_kill') and f['nth'] == count['write']:
            put = h.write

            def write(data):
                note('%s:%s' % (f['f'], os.path.basename(str(file))))
                put(data[:int(f['u'] * len(data))])
                h.flush()
                if f['f'] == 'write_kill':
                    die()
                raise OSError(28, 'No space left on device')
            try:
                h.write = write
            except AttributeError:
                pass
        return h
    builtins.open = opened

    def tracer(frame, event, arg):
        if os.path.realpath(frame.f_code.co_filename) != path and os.path.dirname(os.path.realpath(frame.f_code.co_filename)) != os.path.dirname(path):
            return None
        if event == 'line':
            count['line'] += 1
            if count['line'] == f.get('line'):
                note('%s:line' % f['f'])
                sys.settrace(None)
                if f['f'] == 'kill_line':
                    die()
                raise {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[f['exc']]('dst-injected')
        return tracer
    if f.get('f') in ('kill_line', 'raise_line', 'count'):
        sys.settrace(tracer)
    code = 1
    try:
        runpy.run_path(path, run_name='__main__')
        code = 0
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException:
        code = 1
    sys.settrace(None)
    if f.get('f') == 'count':
        note('lines:%d' % count['line'])
    os._exit(code & 255)


def execute(site, script, args, fault=None):
    """-> (exit status, labels of the faults that happened)"""
    path = os.path.realpath(os.path.join(boot.REPO, script))
    if fault and fault['f'] in ('kill_line', 'raise_line'):
        snap = os.path.join(site.top, 'snap')
        shutil.copytree(site.work, snap, symlinks=True)
        _, labels = execute(site, script, args, {'f': 'count'})
        n = int([x for x in labels if x.startswith('lines:')][0].split(':')[1])
        shutil.rmtree(site.work)
        os.rename(snap, site.work)
        fault = dict(fault, line=1 + int(fault['u'] * n))
    _own(site.top)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _script(site, path, args, fault, w)
        finally:
            os._exit(99)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st), data.decode().split()


def _own(top):
    """The scripts run as an unprivileged user who owns the scratch directory and nothing else."""
    try:
        subprocess.run(['chown', '-R', '65534:65534', top], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except (OSError, subprocess.CalledProcessError):
        pass


def _edit(site, op):
    base = site.released
    v = {'next': step(base, op['type']), 'skip': step(step(base, op['type']), op['type']), 'same': base,
         'back': [base[0], base[1], max(0, base[2] - 1)], 'other': [base[0], base[1] + 1, base[2] + 1]}[op['v']]
    a, b = site.read()
    target, old = (README, b) if op['what'] == 'readme_version' else (VFILE, a)
    p = os.path.join(site.work, target)
    if old is None or not os.path.exists(p):
        return 'nothing'
    with open(p) as f:
        s = f.read()
    if target == README:
        s = s.replace(':Version: ' + old, ':Version: ' + text(v))
    else:
        s = s.replace("'%s'" % old, "'%s'" % text(v))
    with open(p, 'w') as f:
        f.write(s)
    return text(v)


def run(scn):
    import warnings
    warnings.simplefilter('ignore')
    site = Site(scn)
    try:
        return _run(scn, site)
    finally:
        site.close()


def _relation(site):
    a, b = site.read()
    rel = text(site.released)
    nxt = [text(step(site.released, k)) for k in TYPES]

    def one(x):
        return 'none' if x is None else 'released' if x == rel else 'next' if x in nxt else 'other'
    return '%s/%s/%s' % (one(a), one(b), 'agree' if a == b else 'differ')


def _gate(site, fault, where, log, fired):
    good = site.good()
    code, labels = execute(site, GATE, [], fault)
    fired += labels
    log.append('%s: gate %r %s: package %s, README %s, released %s -> %s' % (
        (where, fault or '', labels) + tuple(map(str, site.read())) + (text(site.released), 'accept' if code == 0 else 'reject')))
    if code == 0 and not good:
        a, b = site.read()
        return code, ('accepted-bad-tree', '%s: gate accepts package version %s, README version %s with released version %s' % (
            where, a, b, text(site.released)))
    if code and good and not labels:
        return code, ('rejected-good-tree', '%s: gate rejects package version %s = README version with released version %s' % (
            where, site.read()[0], text(site.released)))
    return code, None


def _others(where, old, before, after):
    """Lines that do not mention the version are none of the script's business."""
    for name, a, b in zip((VFILE, README), before, after):
        if a is None or any(line.startswith('__version__') and old not in line for line in a):
            continue
        if b is None or len(a) != len(b):
            return ('bystander', '%s: a bump of %s turns %s into %r' % (where, old, name, b))
        for x, y in zip(a, b):
            if old not in x and x != y and not x.startswith(':Version:'):
                return ('bystander', '%s: a bump of %s turns the line %r of %s into %r' % (where, old, x, name, y))
    return None


def _run(scn, site):
    log, fired, states, bad = [], [], [], None
    num = {'operations': len(scn['ops']), 'gate_verdicts': 0}
    for j, op in enumerate(scn['ops']):
        where = 'step %d' % (j + 1)
        verdict = ''
        if op['op'] == 'bump':
            start, lines = site.read(), site.lines()
            args = [] if op['type'] == 'default' else [op['type']]
            code, labels = execute(site, BUMP, args, op.get('fault'))
            fired += labels
            log.append('%s: bump %s %r %s -> exit %s, package %s, README %s' % ((where, op['type'], op.get('fault', ''), labels, code) + site.read()))
            if not labels and start == (text(site.released),) * 2:
                kind = 'micro' if op['type'] == 'default' else op['type']
                if code or site.read() != (text(step(site.released, kind)),) * 2:
                    bad = ('bump', '%s: an undisturbed %s bump of %s exits %s with package version %s and README version %s' % (
                        (where, op['type'], text(site.released), code) + site.read()))
            if not bad and not labels and start[0]:
                bad = _others(where, start[0], lines, site.lines())
            if not bad:
                code, bad = _gate(site, None, where, log, fired)
                num['gate_verdicts'] += 1
                verdict = str(code == 0)
        elif op['op'] == 'gate':
            code, bad = _gate(site, op.get('fault'), where, log, fired)
            num['gate_verdicts'] += 1
            verdict = str(code == 0)
        elif op['op'] == 'restore':
            site.git(site.work, 'checkout', '-q', '--', *op['files'])
            log.append('%s: restore %s' % (where, ' '.join(op['files'])))
        elif op['op'] == 'released':
            site.release(op['type'])
            if op['seen']:
                site.git(site.work, 'fetch', '-q', 'origin', 'master')
            log.append('%s: somebody releases %s%s' % (where, text(site.released), ' (fetched)' if op['seen'] else ''))
        elif op['op'] == 'commit':
            site.git(site.work, 'commit', '-q', '--allow-empty', '-a', '-m', 'z')
            log.append('%s: commit' % where)
        elif op['op'] == 'edit':
            log.append('%s: edit %s %s' % (where, op['what'], _edit(site, op)))
        states.append('%s/%s/%s/%s' % (op['op'], op.get('fault', {}).get('f'), _relation(site), verdict))
        if bad:
            break
    if not bad:
        # recovery: restore to what is released, bump without faults, pass the gate
        site.git(site.work, 'fetch', '-q', 'origin', 'master')
        site.git(site.work, 'checkout', '-q', 'origin/master', '--', VFILE, README)
        code, _ = execute(site, BUMP, [scn['last']])
        log.append('recovery: bump %s -> exit %s, package %s, README %s' % ((scn['last'], code) + site.read()))
        if code or site.read() != (text(step(site.released, scn['last'])),) * 2:
            bad = ('recovery', 'after restoring, a %s bump of %s exits %s with package version %s and README version %s' % (
                (scn['last'], text(site.released), code) + site.read()))
        else:
            code, bad = _gate(site, None, 'recovery', log, fired)
        num['gate_verdicts'] += 1
    trace = ['released %s, README %d' % (text(scn['v']), scn['noise'])] + log
    return result('violation' if bad else 'ok', trace, bad[0] if bad else '', bad[1] if bad else '', [x + '@' + x for x in fired], num, bool(fired), states)


_ = faults
