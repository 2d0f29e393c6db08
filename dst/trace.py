"""Asynchronous faults: an exception raised at a chosen statement of the code under test.

A tracer counts executed source lines of the library.  An interrupt may hit any statement that is not itself part of
cleaning up: lines of except/finally bodies, the headers of `with` and `try`, `__exit__` methods, and everything called
from one of those (Python offers no way to make clean-up code immune, so nothing can be promised there).
"""
import ast
import os
import sys
import threading

FILES = {}        # filename -> 'rel'
_unsafe = {}      # filename -> set of line numbers
_safe = {}        # filename -> set of line numbers
REPO = None


def _scan(path):
    with open(path) as f:
        tree = ast.parse(f.read())
    safe, unsafe = set(), set()

    def lines(node):
        return range(node.lineno, (node.end_lineno or node.lineno) + 1)

    class V(ast.NodeVisitor):
        def generic_stmt(self, node):
            if isinstance(node, (ast.If, ast.While)):
                safe.update(range(node.lineno, node.test.end_lineno + 1))
            elif isinstance(node, ast.For):
                safe.add(node.lineno)
            elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                pass
            elif isinstance(node, (ast.With, ast.AsyncWith)):
                unsafe.update(range(node.lineno, node.items[-1].context_expr.end_lineno + 1))
            elif isinstance(node, ast.Try):
                unsafe.add(node.lineno)
                for h in node.handlers:
                    unsafe.update(lines(h))
                for s in node.finalbody:
                    unsafe.update(lines(s))
            elif isinstance(node, ast.stmt):
                safe.update(lines(node))

        def visit(self, node):
            if isinstance(node, ast.stmt):
                self.generic_stmt(node)
            if isinstance(node, ast.Lambda):
                safe.update(lines(node))
            if isinstance(node, ast.FunctionDef) and node.name in ('__exit__', '__del__', '__aexit__'):
                unsafe.update(lines(node))
            super().generic_visit(node)

    V().visit(tree)
    return safe - unsafe, unsafe


def prepare(repo):
    global REPO
    REPO = os.path.realpath(repo)
    for top in ('primpy', 'cobaya_wrapper'):
        for d, _, fs in os.walk(os.path.join(repo, top)):
            if 'tests' in d.split(os.sep):
                continue
            for f in fs:
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    try:
                        s, u = _scan(p)
                    except (SyntaxError, UnicodeDecodeError):
                        continue
                    FILES[p] = os.path.relpath(p, repo)
                    _safe[p], _unsafe[p] = s, u


def site(frame):
    return '%s:%s:%d' % (FILES[frame.f_code.co_filename], frame.f_code.co_name, frame.f_lineno)


def _blocked(frame):
    """Is clean-up code of the library active in this frame's call chain?"""
    f = frame
    while f is not None:
        u = _unsafe.get(f.f_code.co_filename)
        if u is not None and f.f_lineno in u:
            return True
        f = f.f_back
    return False


class Counter:
    """Counts executed lines, by line, in order of first execution."""

    def __init__(self):
        self.total = 0
        self.sites = {}
        self.names = {}

    def __enter__(self):
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)

    def _call(self, frame, event, arg):
        if frame.f_code.co_filename in _safe:
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == 'line':
            fn = frame.f_code.co_filename
            if frame.f_lineno in _safe[fn]:
                self.total += 1
                key = (fn, frame.f_lineno)
                n = self.sites.get(key, 0)
                self.sites[key] = n + 1
                if n == 0:
                    self.names[key] = site(frame)
        return self._line


class Interrupt:
    """Raises `exc` at the n-th executed line, or at the n-th execution of a given line."""

    def __init__(self, make, nth, key=None):
        self.make, self.nth, self.key = make, nth, key
        self.n = 0
        self.fired = None

    def __enter__(self):
        sys.settrace(self._call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)

    def _call(self, frame, event, arg):
        if self.fired is None and frame.f_code.co_filename in _safe:
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == 'line' and self.fired is None:
            fn = frame.f_code.co_filename
            if frame.f_lineno in _safe[fn] and (self.key is None or self.key == (fn, frame.f_lineno)
                                                or self.n >= self.nth):
                self.n += 1
                if self.n >= self.nth and not _blocked(frame):
                    self.fired = site(frame)
                    sys.settrace(None)
                    raise self.make()
        return self._line


def resolve(counter, u, v, mode):
    """Turn two fractions into a concrete interrupt point: (nth, key or None)."""
    if counter.total == 0:
        return None
    if mode == 'time':
        return 1 + int(u * counter.total), None
    keys = list(counter.sites)
    key = keys[min(int(u * len(keys)), len(keys) - 1)]
    return 1 + int(v * counter.sites[key]), key


def resolve_pair(counter, fault):
    return resolve(counter, fault['u'], fault['v'], fault['mode'])


_ = threading
