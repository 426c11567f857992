"""Fault injection: errors raised at chosen points of real executions."""
import os
import sys
import threading

from . import boot

KSRC = os.path.realpath(os.path.join(boot.SRC, 'kcorrect')) + os.sep
_file = {}


def inside(code):
    f = code.co_filename
    if f not in _file:
        _file[f] = os.path.realpath(f).startswith(KSRC)
    return _file[f]


class Injected(OSError):
    pass


class InjectedMemory(MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


KINDS = [Injected, InjectedMemory, InjectedInterrupt]


class Tracer(object):
    """Counts the points of an execution (lines of kcorrect, and calls from
    it into other Python code) and raises at one of them."""

    def __init__(self, at=None, exc=Injected):
        self.points = []       # (name of the point, occurrence)
        self.count = {}
        self.at = at
        self.exc = exc
        self.fired = None

    def _point(self, key):
        n = self.count.get(key, 0)
        self.count[key] = n + 1
        self.points.append((key, n))
        if self.at is not None and self.fired is None and self.at == (key, n):
            self.fired = key
            raise self.exc('injected at {}'.format(key))

    def _local(self, frame, event, arg):
        if event == 'line':
            self._point(('line', os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self._local

    def _global(self, frame, event, arg):
        if event != 'call':
            return None
        if inside(frame.f_code):
            return self._local
        if (frame.f_code.co_name == '__del__' or
                frame.f_code.co_filename.endswith(('weakref.py', '_weakrefset.py'))):
            return None
        b = frame.f_back
        if b is not None and inside(b.f_code):
            self._point(('call', frame.f_code.co_name, b.f_lineno))
        return None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


class OpenFaults(object):
    """Every open of a file whose path ends in one of `suffixes` counts; the
    n-th fails."""
    _installed = [False]
    _active = [None]

    def __init__(self, suffixes, n, exc=Injected):
        self.suffixes, self.n, self.exc = tuple(suffixes), n, exc
        self.seen = 0
        self.fired = False
        self.thread = threading.get_ident()

    @classmethod
    def _hook(cls, event, args):
        a = cls._active[0]
        if a is None or event != 'open' or threading.get_ident() != a.thread:
            return
        p = args[0]
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if isinstance(p, str) and p.endswith(a.suffixes):
            a.seen += 1
            if a.seen == a.n:
                a.fired = True
                raise a.exc(5, 'injected', p)

    def __enter__(self):
        if not self._installed[0]:
            sys.addaudithook(self._hook)
            self._installed[0] = True
        self._active[0] = self
        return self

    def __exit__(self, *a):
        self._active[0] = None
        return False
