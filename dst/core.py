"""Forked isolation: every simulated run, and every reference computation, is a child of a pristine process."""
import os
import pickle
import select
import signal
import sys
import time
import traceback


class HarnessError(Exception):
    pass


class Timeout(Exception):
    pass


def _child(fn, w, new_group):
    status = 0
    try:
        if new_group:
            os.setpgid(0, 0)
        try:
            data = ('ok', fn())
        except BaseException as e:  # noqa: B902
            data = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
        try:
            blob = pickle.dumps(data, protocol=4)
        except Exception as e:
            blob = pickle.dumps(('error', 'unpicklable result: %r' % (e,)), protocol=4)
        view = memoryview(blob)
        while view:
            n = os.write(w, view)
            view = view[n:]
    except BaseException:
        status = 1
    finally:
        os._exit(status)


def spawn(fn, new_group=False, quiet=True):
    """Fork a child that computes fn(); returns (pid, read end)."""
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        if quiet and not os.environ.get('DST_DEBUG'):
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
        _child(fn, w, new_group)
    os.close(w)
    if new_group:
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
    return pid, r


def kill(pid, group=False):
    try:
        if group:
            os.killpg(pid, signal.SIGKILL)
        else:
            os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


def fork_call(fn, timeout=120.):
    """fn() in a forked child.  Raises HarnessError if fn raised, Timeout if it took too long (wall clock)."""
    pid, r = spawn(fn, quiet=False)
    chunks = []
    deadline = time.monotonic() + timeout
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                kill(pid)
                raise Timeout('child exceeded %gs' % timeout)
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                continue
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    blob = b''.join(chunks)
    if not blob:
        raise HarnessError('child died without a result')
    kind, value = pickle.loads(blob)
    if kind == 'ok':
        return value
    raise HarnessError(value)


class Pool:
    """Runs jobs in forked children of this (pristine) process, several at a time."""

    def __init__(self, width, timeout):
        self.width, self.timeout = width, timeout
        self.live = {}   # fd -> [pid, tag, chunks, deadline]

    def start(self, tag, fn):
        pid, r = spawn(fn, new_group=True)
        self.live[r] = [pid, tag, [], time.monotonic() + self.timeout]

    def full(self):
        return len(self.live) >= self.width

    def poll(self, wait=1.0):
        """Wait for activity; returns the finished [(tag, kind, value)]."""
        done = []
        if not self.live:
            return done
        ready, _, _ = select.select(list(self.live), [], [], wait)
        for r in ready:
            b = os.read(r, 1 << 20)
            job = self.live[r]
            if b:
                job[2].append(b)
                continue
            os.close(r)
            del self.live[r]
            kill(job[0], group=True)
            os.waitpid(job[0], 0)
            blob = b''.join(job[2])
            if blob:
                try:
                    kind, value = pickle.loads(blob)
                except Exception as e:
                    kind, value = 'error', 'bad result: %r' % (e,)
            else:
                kind, value = 'error', 'run died without a result'
            done.append((job[1], kind, value))
        now = time.monotonic()
        for r, job in list(self.live.items()):
            if now > job[3]:
                os.close(r)
                del self.live[r]
                kill(job[0], group=True)
                os.waitpid(job[0], 0)
                done.append((job[1], 'timeout', None))
        return done

    def stop(self):
        for r, job in list(self.live.items()):
            os.close(r)
            kill(job[0], group=True)
            os.waitpid(job[0], 0)
        self.live.clear()
