"""Threads under the control of the explorer.

`Threads(chooser).run([f, g, ...])` runs the functions in real threads, one at a time: at
every line of pylattica, the explorer may switch to another thread.  Choice 0 is to go on
with the same one, so that the number of deviations of a run is the number of its
preemptions.  Locks that pylattica itself makes cooperate: a
thread that would have to wait for one hands over, and a deadlock is an error.

Workers that a thread forks run freely, as they share nothing.
"""

import os
import sys
import threading

from . import env

_real_lock = threading.Lock
_real_rlock = threading.RLock
_active = None
_SRC = os.path.join(os.path.realpath(env.REPO), "src", "pylattica") + os.sep
LIMIT = 60


class Deadlock(Exception):
    pass


class CoopLock:
    """A lock of the code under test."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        threads = _active
        if threads is None or not threads.mine() or not blocking:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            threads.blocked()
        threads.waiting.clear()
        return True

    def release(self):
        self._real.release()
        if _active is not None:
            _active.waiting.clear()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *_):
        self.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


def _ours(code, src=_SRC):
    return os.path.realpath(code.co_filename).startswith(src)


def install_locks():
    """Before pylattica is imported."""

    def lock():
        real = _real_lock()
        return CoopLock(real) if _ours(sys._getframe(1).f_code) else real

    def rlock(*args, **kwargs):
        real = _real_rlock(*args, **kwargs)
        return CoopLock(real) if _ours(sys._getframe(1).f_code) else real

    threading.Lock = lock
    threading.RLock = rlock


_TOOL = 4
_watching = False


def _watch():
    """Has every start of a function and every line of the code under test reported, by
    the interpreter itself: other code is not slowed down by it."""
    global _watching
    if _watching:
        return
    _watching = True
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "mc")

    def on_start(code, offset):
        return on_line(code, code.co_firstlineno)

    def on_line(code, line):
        threads = _active
        if threads is None or threads.done:
            return None
        return None if threads.start(code, line) else mon.DISABLE

    mon.register_callback(_TOOL, mon.events.PY_START, on_start)
    mon.register_callback(_TOOL, mon.events.LINE, on_line)
    mon.set_events(_TOOL, mon.events.PY_START | mon.events.LINE)


def _in_child():
    global _active
    _active = None


os.register_at_fork(after_in_child=_in_child)


class Threads:
    def __init__(self, chooser, switches=None, repeats=None, within="", part=(0, 1)):
        """At most `switches` preemptions, each before one of the first `repeats` times
        that a thread gets to a line, of the code in the folder `within`; with part (k, n),
        the first of them before one of the k-th n-th part of these lines."""
        self.part = part
        self.src = os.path.join(_SRC, within)
        self.chooser = chooser
        self.max_switches = switches
        self.repeats = repeats
        self.seen = {}
        self.done = False  # no more switches
        self.points = 0
        self.switches = []
        self.waiting = set()  # threads that found a lock taken, since anything happened
        self._ours = {}

    def mine(self):
        return threading.get_ident() in self.index

    def run(self, fns):
        """-> for each function, (value, None) or (None, exception)"""
        global _active
        n = len(fns)
        self.batons = [_real_lock() for _ in fns]
        for b in self.batons:
            b.acquire()
        self.alive = list(range(n))
        self.outcomes = [None] * n
        self.index = {}
        self.error = None
        threads = [
            threading.Thread(target=self._body, args=(i, f), daemon=True)
            for i, f in enumerate(fns)
        ]
        for t in threads:
            t.start()
        _active = self
        _watch()
        try:
            self.batons[0].release()
            for t in threads:
                t.join(LIMIT)
                if t.is_alive():
                    raise Deadlock(f"the threads did not finish in {LIMIT} s")
        finally:
            _active = None
        if self.error is not None:
            raise self.error
        return self.outcomes

    def _body(self, i, fn):
        self.batons[i].acquire()
        self.index[threading.get_ident()] = i
        self.current = i
        try:
            self.outcomes[i] = (fn(), None)
        except Exception as e:
            self.outcomes[i] = (None, e)
        del self.index[threading.get_ident()]
        self.alive.remove(i)
        self.waiting.clear()
        if self.alive:
            self._pass_to(self.alive[0])

    def start(self, code, line):
        """Whether the code is ours, after the switches before it."""
        ours = self._ours.get(code)
        if ours is None:
            ours = self._ours[code] = _ours(code, self.src)
        if ours and threading.get_ident() in self.index:
            self._point(code, line)
        return ours

    def _spent(self):
        return self.max_switches is not None and len(self.switches) >= self.max_switches

    def _point(self, code, line):
        self.points += 1
        self.waiting.clear()
        if self._spent() or len(self.alive) == 1:
            self.done = True
            return
        i = self.current
        if self.repeats is not None:
            where = (i, code, line)
            n = self.seen[where] = self.seen.get(where, 0) + 1
            if n > self.repeats:
                return
        if not self.switches and self.points % self.part[1] != self.part[0]:
            return
        others = [t for t in self.alive if t != i]
        if not others or self.error is not None:
            return
        try:
            k = self.chooser.choose(1 + len(others), "thread")
        except BaseException as e:
            self.error = e
            return
        if k:
            self.switches.append(
                (f"{os.path.basename(code.co_filename)}:{line}", n
                 if self.repeats is not None else self.points, i, others[k - 1])
            )
            self._switch(i, others[k - 1])

    def _pass_to(self, j):
        self.current = j
        self.batons[j].release()

    def _switch(self, i, j):
        self._pass_to(j)
        self.batons[i].acquire()
        self.current = i

    def blocked(self):
        i = self.current
        self.waiting.add(i)
        others = [t for t in self.alive if t not in self.waiting]
        if not others:
            raise Deadlock("all threads wait for locks")
        self._switch(i, others[0])
