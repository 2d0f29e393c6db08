"""Surroundings of a computation: everything a result must not depend on, put under the simulator's control.

``apply(kinds)`` changes the surroundings of the present (forked, disposable) process; ``servers`` are processes whose
surroundings have to differ from the start (hash seed, memory allocator, environment at import time).
"""
import os
import pickle
import random
import select
import socket
import struct
import subprocess
import sys
import time as _time

from dst import boot

CLOCKS = ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time')
OURS = ('primpy', 'cobaya_wrapper')


# --------------------------------------------------------------------------------------------------------------- clock
class Clock:
    """Simulated time: every reading advances it; now and then it jumps, also backwards."""

    def __init__(self, start=1.6e9, step=1e-6, jump=0., every=0):
        self.now, self.step, self.jump, self.every, self.n = start, step, jump, every, 0

    def read(self):
        self.n += 1
        self.now += self.step
        if self.every and self.n % self.every == 0:
            self.now += self.jump
        return self.now

    def install(self):
        self.new = new = {}
        self.old = old = []

        def put(n, f):
            old.append(getattr(_time, n))       # alive, or its id could be taken by something else
            new[id(old[-1])] = f
            setattr(_time, n, f)
        for n in CLOCKS:
            put(n, self.read)
            put(n + '_ns', lambda: int(self.read() * 1e9))
        for n in ('localtime', 'gmtime'):
            def g(secs=None, real=getattr(_time, n)):
                return real(self.read() if secs is None else secs)
            put(n, g)

    def bind(self):
        """Names that the library has bound already; its dates and times of day."""
        import datetime
        import types
        clock, new, real_dt, real_date = self, dict(self.new), datetime.datetime, datetime.date

        class DateTime(real_dt):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(clock.read(), tz)

            @classmethod
            def utcnow(cls):
                return cls.utcfromtimestamp(clock.read())

            @classmethod
            def today(cls):
                return cls.now()

        class Date(real_date):
            @classmethod
            def today(cls):
                return cls.fromtimestamp(clock.read())
        module = types.ModuleType('datetime')
        vars(module).update({k: v for k, v in vars(datetime).items() if k[:2] != '__'})
        module.datetime, module.date = DateTime, Date
        new[id(real_dt)], new[id(real_date)], new[id(datetime)] = DateTime, Date, module
        for name, m in list(sys.modules.items()):
            if name.split('.')[0] in OURS:
                for k, v in list(vars(m).items()):
                    if id(v) in new:
                        setattr(m, k, new[id(v)])


# --------------------------------------------------------------------------------------------------------- environment
def answer_environment(value):
    """Environment variables nobody has set have a value, for whoever asks from the library's code."""
    cls = os._Environ
    real = cls.__getitem__
    root = os.path.realpath(boot.REPO) + os.sep

    def getitem(self, key):
        try:
            return real(self, key)
        except KeyError:
            f = sys._getframe(1)
            while f is not None and os.path.basename(f.f_code.co_filename) in ('os.py', '_collections_abc.py') or f.f_code.co_filename.startswith('<frozen'):
                f = f.f_back
            if f is not None and os.path.realpath(f.f_code.co_filename).startswith(root):
                return value
            raise
    cls.__getitem__ = getitem


def entropy(seed):
    """The operating system's random numbers."""
    r = random.Random(seed)
    random._urandom = os.urandom = r.randbytes


# ------------------------------------------------------------------------------------------------------------- effects
class Effects:
    """What the library does to the world outside while it is being watched."""
    EVENTS = {'os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.symlink', 'os.link', 'os.truncate', 'os.chmod', 'os.utime', 'os.system', 'os.exec',
              'os.posix_spawn', 'os.fork', 'os.forkpty', 'os.kill', 'subprocess.Popen', 'socket.connect', 'socket.bind', 'socket.sendto', 'sqlite3.connect',
              'tempfile.mkstemp', 'tempfile.mkdtemp', 'shutil.copyfile', 'shutil.rmtree', 'shutil.move', 'urllib.Request'}

    def __init__(self):
        self.on, self.seen = False, []
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        if event == 'open':
            path, mode, flags = args
            w = isinstance(mode, str) and any(c in mode for c in 'wax+') or isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            if w and not str(path).startswith('/dev/'):
                self.seen.append('open for writing')
        elif event in self.EVENTS:
            self.seen.append(event)

    def __enter__(self):
        self.on = True
        return self

    def __exit__(self, *a):
        self.on = False


# ---------------------------------------------------------------------------------------------------------------- apply
def garbage(seed):
    """Freed memory full of numbers, in all sizes."""
    import numpy as np
    rng = random.Random(seed)
    x = rng.choice((np.nan, 1e300, -7.5, np.inf))
    keep = [np.full(n, x) for n in list(range(1, 130)) * 8 + [rng.randrange(130, 40000) for _ in range(60)] + [200000, 500000]]
    keep += [np.full(n, x) for n in (1000, 1000, 2000, 5000, 10000, 50000, 100000)]
    del keep


def _broken_stream():
    class Broken:
        encoding = 'utf-8'

        def write(self, s):
            raise OSError(28, 'No space left on device')

        def flush(self):
            raise OSError(28, 'No space left on device')

        def isatty(self):
            return False
    return Broken()


def apply(env, top):
    """Apply one variation, a dictionary with the key 'env'."""
    import gc
    import warnings
    import numpy as np
    k = env['env']
    if k == 'random':
        entropy(env['seed'])
        random.seed(env['seed'])
        np.random.seed(env['seed'])
        np.random.rand(env['seed'] % 7)
    elif k == 'clock':
        c = Clock(env['start'], env['step'], env['jump'], env['every'])
        c.install()
        c.bind()
    elif k == 'tz':
        os.environ['TZ'] = env['tz']
        _time.tzset()
    elif k == 'cwd':
        d = os.path.join(top, 'elsewhere')
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        if env['gone']:
            os.rmdir(d)
    elif k == 'home':
        for n in ('HOME', 'TMPDIR', 'XDG_CACHE_HOME', 'XDG_CONFIG_HOME'):
            os.environ[n] = '/nonexistent/' + n.lower()
        import tempfile
        tempfile.tempdir = None
    elif k == 'environ':
        answer_environment(env['value'])
    elif k == 'filters':
        warnings.resetwarnings()
        if env['how'] == 'record':
            warnings.simplefilter('always')
            warnings.showwarning = lambda *a, **kw: None
        elif env['how'] != 'reset':
            warnings.simplefilter(env['how'])
    elif k == 'errstate':
        if env['how'] == 'call':
            np.seterrcall(lambda *a: None)
        np.seterr(all=env['how'])
    elif k == 'print':
        np.set_printoptions(precision=env['precision'], threshold=env['threshold'], suppress=True)
    elif k == 'gc':
        if env['how'] == 'off':
            gc.disable()
        elif env['how'] == 'often':
            gc.set_threshold(60, 3, 3)
        else:
            gc.collect()
            gc.freeze()
    elif k == 'stdout':
        if env['how'] == 'none':
            sys.stdout = None
        elif env['how'] == 'closed':
            sys.stdout = open(os.devnull, 'w')
            sys.stdout.close()
        else:
            sys.stdout = _broken_stream()
    elif k == 'machine':
        import platform
        os.cpu_count = lambda: env['cpus']
        os.sched_getaffinity = lambda pid=0: set(range(env['cpus']))
        os.getpid = lambda: env['pid']
        os.getloadavg = lambda: (float(env['cpus']),) * 3
        os.getlogin = lambda: 'nobody'
        socket.gethostname = lambda: 'node%d' % env['pid']
        platform.node = lambda: 'node%d' % env['pid']
        platform.system = lambda: 'Elsewhere'
    elif k == 'limits':
        sys.setrecursionlimit(env['recursion'])
        sys.setswitchinterval(env['switch'])


# -------------------------------------------------------------------------------------------------------------- servers
# processes that differ from the start: (environment, options)
SERVERS = [
    ({'PYTHONHASHSEED': '1', 'MALLOC_PERTURB_': '85', 'TZ': 'Pacific/Auckland'}, {}),
    ({'PYTHONHASHSEED': '4242', 'MALLOC_PERTURB_': '255', 'HOME': '/nonexistent', 'LANG': 'C', 'LC_ALL': 'C'},
     {'environ': '1', 'clock': 3e8, 'cwd': '/', 'reverse': True, 'random': 5}),
    ({'PYTHONHASHSEED': '77', 'MALLOC_PERTURB_': '170', 'PYTHONMALLOC': 'malloc'}, {'environ': '0', 'clock': 4e9, 'random': 6, 'filters': 'always'}),
]
_live = {}


def _command(i, *args):
    code = 'import sys; sys.path.insert(0, %r); sys.argv[0] = "server"; from dst import surround; surround.serve_main(%d, %r)' % (
        os.path.dirname(os.path.dirname(os.path.abspath(__file__))), i, args)
    env = {k: v for k, v in os.environ.items() if k not in boot.CLEAR}
    env.update(SERVERS[i][0], DST_REEXEC='1')
    return [boot.PYTHON, '-B', '-W', 'ignore', '-c', code], env


def start_servers():
    """Called in the pristine process; the runs forked from it find the servers by their paths."""
    import tempfile
    for i in range(len(SERVERS)):
        d = tempfile.gettempdir()
        path = os.path.join(tempfile.mkdtemp(prefix='srv', dir=d if len(d) < 80 else '/tmp'), 's')    # names of sockets are short
        cmd, env = _command(i, path)
        p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL if not os.environ.get('DST_DEBUG') else None)
        _live[i] = (path, p)
    deadline = _time.monotonic() + 120
    while not all(os.path.exists(path) for path, p in _live.values()):
        if _time.monotonic() > deadline or any(p.poll() is not None for path, p in _live.values()):
            raise RuntimeError('a server did not start')
        _time.sleep(0.05)
    import atexit
    me = os.getpid()

    def end():
        if os.getpid() == me:
            for path, p in _live.values():
                p.kill()
                p.wait()
    atexit.register(end)


def _send(s, data):
    b = pickle.dumps(data, protocol=4)
    s.sendall(struct.pack('>Q', len(b)) + b)


def _recv(s):
    def get(n):
        out = b''
        while len(out) < n:
            b = s.recv(min(n - len(out), 1 << 20))
            if not b:
                raise RuntimeError('connection closed')
            out += b
        return out
    return pickle.loads(get(struct.unpack('>Q', get(8))[0]))


def ask(i, module, scn):
    """module.remote(scn) in a child of server i."""
    if i in _live:
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(220)
        s.connect(_live[i][0])
        _send(s, (module, scn))
        kind, value = _recv(s)
        s.close()
    else:
        cmd, env = _command(i)
        p = subprocess.run(cmd, env=env, input=pickle.dumps((module, scn)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=220)
        kind, value = pickle.loads(p.stdout)
    if kind != 'ok':
        raise RuntimeError('server %d: %s' % (i, value))
    return value


def _prepare(i):
    opt = SERVERS[i][1]
    if 'environ' in opt:
        answer_environment(opt['environ'])
    if 'cwd' in opt:
        os.chdir(opt['cwd'])
    if 'random' in opt:
        entropy(opt['random'])
        random.seed(opt['random'])
    if 'filters' in opt:
        import warnings
        warnings.simplefilter(opt['filters'])
    clock = Clock(opt.get('clock', 1.6e9))
    if 'clock' in opt:
        clock.install()
    if opt.get('reverse'):
        sys.dont_write_bytecode = True
        sys.path.insert(0, boot.REPO)
        from dst import seams
        seams.install()
        seams.install = lambda: None
        for m in ('cobaya_wrapper.feature_pps', 'cobaya_wrapper.slowroll_pps', 'cobaya_wrapper.powerlaw_pps', 'primpy.oscode_solver', 'primpy.efolds.perturbations',
                  'primpy.bigbang', 'primpy.reheating', 'primpy.initialconditions', 'primpy.events', 'primpy.potentials', 'primpy.solver'):
            try:
                __import__(m)
            except ImportError:
                pass
    boot.boot()
    if 'clock' in opt:
        clock.bind()


def serve_main(i, args):
    real_time = _time.monotonic
    _prepare(i)
    import importlib
    if not args:
        out = os.dup(1)
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        module, scn = pickle.loads(sys.stdin.buffer.read())
        mod = importlib.import_module(module)
        mod.warm_remote()
        try:
            data = ('ok', mod.remote(scn))
        except BaseException as e:
            data = ('error', repr(e))
        with os.fdopen(out, 'wb') as f:
            f.write(pickle.dumps(data))
        os._exit(0)
    importlib.import_module('dst.checks.c16').warm_remote()
    parent = os.getppid()
    s = socket.socket(socket.AF_UNIX)
    s.bind(args[0] + '.tmp')
    s.listen(64)
    os.rename(args[0] + '.tmp', args[0])
    kids = {}
    while os.getppid() == parent:
        ready, _, _ = select.select([s], [], [], 0.5)
        for pid in list(kids):
            if os.waitpid(pid, os.WNOHANG)[0]:
                del kids[pid]
            elif real_time() > kids[pid]:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                del kids[pid]
        if not ready:
            continue
        c, _ = s.accept()
        pid = os.fork()
        if pid:
            c.close()
            kids[pid] = real_time() + 220
            continue
        s.close()
        try:
            module, scn = _recv(c)
            try:
                data = ('ok', importlib.import_module(module).remote(scn))
            except BaseException as e:
                import traceback
                data = ('error', repr(e) + traceback.format_exc())
            _send(c, data)
        finally:
            os._exit(0)
    for pid in kids:
        os.kill(pid, 9)
    os._exit(0)
