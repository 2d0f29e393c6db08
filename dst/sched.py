"""A controlled scheduler for threads: exactly one runs at a time, and who runs next is decided here.

Threads are real, but each waits for the baton; a running thread may be preempted before any source line of the library
it executes.  The plan is a list of entries [kind, n, u]: preempt after n more lines ('L') or after n more lines that the
running thread had not executed before ('S', which reaches rarely executed places as often as hot loops), and hand over
to the live thread that u in [0, 1) points at.  When the plan is used up, the threads run to completion one by one.
"""
import sys
import threading

from dst import seams, trace

_real_lock, _real_rlock = threading.Lock, threading.RLock
_tls = threading.local()


class CoopLock:
    """A lock for code under the scheduler: waiting for it lets the other threads run."""

    def __init__(self, reentrant=False):
        self.reentrant, self.owner, self.count = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            sch = getattr(_tls, 'sched', None)
            if not blocking:
                return False
            if sch is None or not sch.yield_now():
                raise RuntimeError('deadlock')
        self.owner = me
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _factory(real, reentrant):
    def make():
        if sys._getframe(1).f_code.co_filename.startswith((trace.REPO or '/nowhere') + '/'):
            return CoopLock(reentrant)
        return real()
    return make


def install(repo):
    """Locks created by the library become cooperative (there are none at the moment)."""
    trace.REPO = trace.REPO or repo
    threading.Lock = _factory(_real_lock, False)
    threading.RLock = _factory(_real_rlock, True)


class Result:
    def __init__(self):
        self.ok, self.value, self.exc, self.msg, self.injected, self.fired, self.lines = False, None, None, '', False, [], 0
        self.budget = False

    def brief(self):
        return 'ok' if self.ok else '%s%s' % (self.exc, '*' if self.injected else '')


class Scheduler:
    def __init__(self, plan, line_budget=4000000):
        self.plan = list(plan)
        self.pos = 0
        self.lines = self.novel = self.total = 0
        self.line_budget = line_budget
        self.switches = []
        self.sems, self.live = [], []
        self.done = threading.Semaphore(0)

    # ---------------------------------------------------------------------------------------------- decisions
    def _next(self, me):
        others = [t for t in self.live if t != me]
        if not others:
            return None
        u = self.plan[self.pos][2] if self.pos < len(self.plan) else 0.
        return others[min(int(u * len(others)), len(others) - 1)]

    def _hand(self, me, to, where):
        self.switches.append('%d:%d>%d@%s' % (self.total, me, to, where))
        self.lines = self.novel = 0
        self.pos += 1
        self.sems[to].release()
        self.sems[me].acquire()

    def yield_now(self):
        me = _tls.tid
        to = self._next(me)
        if to is None:
            return False
        self._hand(me, to, 'lock')
        return True

    def point(self, me, frame, new):
        self.total += 1
        self.lines += 1
        self.novel += new
        if self.total > self.line_budget:
            raise seams.SimBudget('lines')
        if self.pos < len(self.plan):
            kind, n, _ = self.plan[self.pos]
            if (self.lines if kind == 'L' else self.novel) >= n:
                to = self._next(me)
                if to is not None:
                    self._hand(me, to, trace.site(frame))

    # ---------------------------------------------------------------------------------------------- threads
    def _thread(self, me, fn, env, interrupt, res):
        self.sems[me].acquire()
        _tls.tid, _tls.sched = me, self
        seen = set()
        count = [0]

        def local(frame, event, arg):
            if self.pos >= len(self.plan) and (interrupt is None or res.fired):
                sys.settrace(None)      # nothing left to decide
                return None
            if event == 'line':
                fname = frame.f_code.co_filename
                key = (fname, frame.f_lineno)
                new = key not in seen
                if new:
                    seen.add(key)
                self.point(me, frame, new)
                if frame.f_lineno in trace._safe[fname]:
                    res.lines += 1
                    if interrupt is not None and not res.fired and (interrupt['key'] is None or interrupt['key'] == key):
                        count[0] += 1
                        if count[0] >= interrupt['nth'] and not trace._blocked(frame):
                            res.fired.append('async:%s@%s' % (interrupt['exc'], trace.site(frame)))
                            raise seams.make_exc(interrupt['exc'])
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename not in trace._safe or self.pos >= len(self.plan) and (interrupt is None or res.fired):
                return None
            return local
        try:
            with seams.use(env):
                sys.settrace(tracer)
                try:
                    res.value = fn(lambda: sys.settrace(tracer))
                finally:
                    sys.settrace(None)
            res.ok = True
        except seams.SimBudget as e:
            res.exc, res.msg, res.budget = 'SimBudget', str(e), True
        except BaseException as e:
            res.exc, res.msg, res.injected = type(e).__name__, ' '.join(str(e).split())[:200], seams.is_injected(e)
        finally:
            res.fired = list(env.fired) + res.fired
            to = self._next(me)
            self.live.remove(me)
            if to is None:
                self.done.release()
            else:
                self.switches.append('%d:%d>%d@end' % (self.total, me, to))
                self.lines = self.novel = 0
                self.pos += 1
                self.sems[to].release()

    def run(self, fns, envs, interrupts=None):
        """fns: one function per thread, taking a function that re-arms the tracer after an exception was handled."""
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.live = list(range(n))
        out = [Result() for _ in range(n)]
        # a larger stack is not needed; threads are joined before anything is looked at
        ths = [threading.Thread(target=self._thread, args=(i, fns[i], envs[i], (interrupts or {}).get(i), out[i]), daemon=True)
               for i in range(n)]
        for t in ths:
            t.start()
        self.sems[0].release()
        self.done.acquire()
        for t in ths:
            t.join()
        return out


def gen_plan(rng, n):
    plan = []
    mode = rng.choice(('S', 'S', 'L', 'mix'))
    scale = rng.choice((0.6, 1.2, 2.2, 3.3))
    for _ in range(n):
        kind = mode if mode != 'mix' else rng.choice('SL')
        if kind == 'S':
            plan.append(['S', rng.choice((1, 1, 1, 2, 2, 3, 4, 6, 9, 14, 20)), round(rng.random(), 3)])
        else:
            plan.append(['L', max(1, int(10 ** (rng.random() * scale))), round(rng.random(), 3)])
    return plan
