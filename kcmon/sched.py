"""Schedules of real threads: a baton decides which one runs.

Every thread runs the real code under sys.settrace; at each of its points
(lines, or opcodes, of the code under test, calls from it into other Python
code, and points the workload names) it hands the baton on, or not, as the
policy says.  A thread that blocks (on a lock of the code under test) loses
the baton to another one, so code with locks runs too.
"""
import sys
import threading
import time

from . import faults


class Stuck(Exception):
    pass


class Baton(object):
    def __init__(self, policy, opcodes=False, cap=None):
        self.policy = policy
        self.opcodes = opcodes
        self.cap = cap           # hand on at so many repeats of a point only
        self.seen = {}
        self.lock = threading.Lock()
        self.turn = 0
        self.steps = []
        self.alive = []
        self.last = 0.
        self.schedule = []       # (from, to, point) of each handing on
        self.points = 0
        self.forced = 0
        self.ids = threading.local()
        self.free = False

    # -- called in the threads
    def here(self):
        return getattr(self.ids, 'tid', None)

    def point(self, key=None):
        tid = self.here()
        if tid is None or self.free:
            return
        with self.lock:
            self.points += 1
            step = self.steps[tid]
            self.steps[tid] += 1
            n = self.seen.get((tid, key), 0)
            self.seen[(tid, key)] = n + 1
            if n < 3:
                self.marks[tid].append(step)
            self.last = time.monotonic()
            self.stalled.discard(tid)
            if self.turn == tid:
                others = [i for i in range(len(self.alive)) if self.alive[i] and i != tid]
                to = self.policy(tid, step, others, key)
                if self.cap and n > self.cap and key[0] in ('line', 'opcode', 'call') and n % 100:
                    to = None
                if to in self.stalled:
                    to = None        # (it waits for what this one has, as far as is known)
                if to is not None and to in others:
                    self.schedule.append((tid, to, step))
                    self.turn = to
                    self.events[to].set()
        self._wait(tid)

    def _wait(self, tid):
        e = self.events[tid]
        while True:
            with self.lock:
                if self.turn == tid or self.free:
                    return
                e.clear()
            e.wait(1.)

    def _local(self, frame, event, arg):
        if event == 'line' and not self.opcodes:
            self.point(('line', frame.f_code.co_name, frame.f_lineno))
        elif event == 'opcode':
            self.point(('opcode', frame.f_code.co_name, frame.f_lasti))
        return self._local

    def _global(self, frame, event, arg):
        if event != 'call':
            return None
        if faults.inside(frame.f_code):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        if (frame.f_code.co_name == '__del__' or
                frame.f_code.co_filename.endswith(('weakref.py', '_weakrefset.py'))):
            return None
        b = frame.f_back
        if b is not None and faults.inside(b.f_code):
            self.point(('call', frame.f_code.co_name, b.f_lineno))
        return None

    def _body(self, tid, fn):
        self.ids.tid = tid
        self.cpu[tid] = time.pthread_getcpuclockid(threading.get_ident())
        self._wait(tid)
        try:
            sys.settrace(self._global)
            try:
                self.results[tid] = ('ok', fn())
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.results[tid] = ('raised', e)
        finally:
            with self.lock:
                self.alive[tid] = False
                self.last = time.monotonic()
                if self.turn == tid or not self.alive[self.turn]:
                    rest = [i for i in range(len(self.alive)) if self.alive[i]]
                    if rest:
                        rest = [i for i in rest if i not in self.stalled] or rest
                        to = self.policy(tid, -1, rest, 'end')
                        self.turn = to if to in rest else rest[0]
                        self.events[self.turn].set()

    # -- called by the case
    def run(self, fns, limit=60.):
        """[('ok', value) or ('raised', exception)] of the threads."""
        n = len(fns)
        self.steps = [0] * n
        self.marks = [[] for _ in range(n)]    # steps at points not often seen before
        self.alive = [True] * n
        self.events = [threading.Event() for _ in range(n)]
        self.results = [None] * n
        self.cpu = [None] * n
        self.stalled = set()
        ts = [threading.Thread(target=self._body, args=(i, f), daemon=True)
              for i, f in enumerate(fns)]
        first = self.policy(None, 0, list(range(n)), 'start')
        self.turn = first if first in range(n) else 0
        self.last = time.monotonic()
        for t in ts:
            t.start()
        used = (None, 0.)
        while any(t.is_alive() for t in ts):
            for t in ts:
                if t.is_alive():
                    t.join(0.01)
                    break
            now = time.monotonic()
            with self.lock:
                turn, quiet = self.turn, now - self.last
                if quiet < 0.02 or not self.alive[turn]:
                    used = (None, 0.)
                    continue
            try:
                c = time.clock_gettime(self.cpu[turn]) if self.cpu[turn] is not None else 0.
            except OSError:
                c = 0.
            idle = used[0] == turn and c - used[1] < 1e-3
            used = (turn, c)
            if quiet > limit:
                self.free = True
                for e in self.events:
                    e.set()
                raise Stuck('no thread went on for {} s'.format(limit))
            if idle or quiet > 2.:
                # it waits for something another thread has: let others run
                with self.lock:
                    if self.turn != turn:
                        continue
                    # (each in its turn, so the one that has it comes too)
                    rest = [i % n for i in range(turn + 1, turn + n) if self.alive[i % n]]
                    if rest:
                        self.forced += 1
                        self.stalled.add(turn)
                        self.turn = ([i for i in rest if i not in self.stalled] or rest)[0]
                        self.schedule.append((turn, self.turn, 'blocked'))
                        self.events[self.turn].set()
        return self.results


# ------------------------------------------------------------------ policies

def once(first, at, other):
    """Thread `first` runs until its point number `at`, then `other` runs to
    its end, then `first` goes on."""
    done = [False]

    def policy(tid, step, others, key):
        if key == 'start':
            return first
        if key == 'end':
            return first if first in others else others[0]
        if tid == first and step == at and not done[0]:
            done[0] = True
            return other
        return None
    return policy


def walk(rng, p):
    """Hand on with probability p at each point."""
    def policy(tid, step, others, key):
        if not others:
            return None
        if key in ('start', 'end') or rng.random() < p:
            return others[int(rng.integers(len(others)))]
        return None
    return policy


def every(worker, watcher):
    """`worker` hands on to `watcher` at each point; `watcher` goes on to
    its next named point and hands back."""
    def policy(tid, step, others, key):
        if key == 'start':
            return worker
        if key == 'end':
            return others[0]
        if tid == worker:
            return watcher
        if key == 'turn':
            return worker
        return None
    return policy


def bursts(rng, n):
    """A few switches, each after a random number of points."""
    left = [int(rng.integers(1, n))]

    def policy(tid, step, others, key):
        if not others:
            return None
        if key in ('start', 'end'):
            return others[int(rng.integers(len(others)))]
        left[0] -= 1
        if left[0] <= 0:
            left[0] = int(rng.integers(1, n))
            return others[int(rng.integers(len(others)))]
        return None
    return policy


def signature(b):
    return hash(tuple(b.schedule)) & 0xffffffffffff

