"""Worker pools under the control of the explorer.

`controlled(cpus)` replaces the ways in which a program gets a multiprocessing pool by
ControlledPool: its workers are real processes, forked when the pool is made, so that they
share nothing with the parent or each other afterwards, but it is the explorer that decides
which worker runs each task (any assignment can happen with a real pool: whichever worker
is idle first takes the next task), and in which order unordered results arrive.

Workers that have not had a task yet are interchangeable; one of them stands for all.
"""

import contextlib
import math
import multiprocessing
import multiprocessing.pool
import os
import pickle
import signal
import struct
import traceback

from . import env


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv(fd):
    def exactly(n):
        buf = b""
        while len(buf) < n:
            chunk = os.read(fd, n - len(buf))
            if not chunk:
                raise EOFError("worker went away")
            buf += chunk
        return buf

    (n,) = struct.unpack("<Q", exactly(8))
    return pickle.loads(exactly(n))


class _Worker:
    def __init__(self, others, initializer, initargs):
        down_r, down_w = os.pipe()
        up_r, up_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(down_w)
                os.close(up_r)
                for other in others:
                    other.close_fds()
                env.set_chooser(None)
                if initializer is not None:
                    initializer(*initargs)
                while True:
                    try:
                        func, args, kwargs = _recv(down_r)
                    except EOFError:
                        break
                    try:
                        reply = (True, func(*args, **kwargs))
                    except Exception as e:  # goes back to the parent, as in a real pool
                        reply = (False, e)
                        reply_tb = traceback.format_exc()
                        try:
                            pickle.dumps(e)
                        except Exception:
                            reply = (False, RuntimeError(reply_tb))
                    _send(up_w, reply)
            finally:
                os._exit(0)
        os.close(down_r)
        os.close(up_w)
        self.down, self.up = down_w, up_r

    def close_fds(self):
        for fd in (self.down, self.up):
            try:
                os.close(fd)
            except OSError:
                pass

    def call(self, func, args, kwargs):
        _send(self.down, (func, args, kwargs))
        return _recv(self.up)

    def stop(self):
        self.close_fds()
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


class Result:
    """What the asynchronous methods return: already computed."""

    def __init__(self, ok, value):
        self._ok, self._value = ok, value

    def get(self, timeout=None):
        if self._ok:
            return self._value
        raise self._value

    result = get

    def wait(self, timeout=None):
        return None

    def ready(self):
        return True

    done = ready

    def successful(self):
        return self._ok

    def exception(self, timeout=None):
        return None if self._ok else self._value


def _apply_chunk(func, star, chunk):
    return [func(*args) if star else func(args) for args in chunk]


class ControlledPool:
    pools = []  # every pool made, for the harness
    schedule = []  # the worker that ran each task, over all the pools

    def __init__(
        self,
        processes=None,
        initializer=None,
        initargs=(),
        maxtasksperchild=None,
        context=None,
        **_,
    ):
        if processes is None:
            processes = multiprocessing.cpu_count()
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.workers = []
        self.closed = False
        self._processes = processes
        self._initializer = (initializer, initargs)
        self._used = []
        for _ in range(processes):
            self.workers.append(_Worker(self.workers, initializer, initargs))
        ControlledPool.pools.append(self)

    # the worker for the next task: those used before, or one fresh one; the default is
    # the fresh one, then taking turns
    def _pick(self):
        fresh = len(self._used) < self._processes
        options = list(range(len(self._used)))
        if fresh:
            options.insert(0, len(self._used))
        elif options:
            turn = len(ControlledPool.schedule) % len(options)
            options = options[turn:] + options[:turn]
        chooser = env.chooser()
        k = chooser.choose(len(options), "worker") if chooser is not None else 0
        w = options[k]
        if w == len(self._used):
            self._used.append(w)
        return w

    def _call(self, func, args, kwargs):
        if self.closed:
            raise ValueError("Pool not running")
        w = self._pick()
        ControlledPool.schedule.append(w)
        return self.workers[w].call(func, args, kwargs)

    def _run(self, func, items, star, chunksize):
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._processes * 4)
            chunksize += 1 if extra else 0
        chunksize = max(1, chunksize)
        replies = []
        for i in range(0, len(items), chunksize):
            replies.append(
                self._call(_apply_chunk, (func, star, items[i : i + chunksize]), {})
            )
        return replies

    def _flat(self, replies):
        out = []
        for ok, value in replies:
            if not ok:
                raise value
            out.extend(value)
        return out

    def map(self, func, iterable, chunksize=None):
        return self._flat(self._run(func, iterable, False, chunksize))

    def starmap(self, func, iterable, chunksize=None):
        return self._flat(self._run(func, iterable, True, chunksize))

    def imap(self, func, iterable, chunksize=1):
        return iter(self._flat(self._run(func, iterable, False, chunksize)))

    def imap_unordered(self, func, iterable, chunksize=1):
        replies = self._run(func, iterable, False, chunksize)
        order = []
        left = list(range(len(replies)))
        chooser = env.chooser()
        while left:
            k = chooser.choose(len(left), "arrival") if chooser is not None else 0
            order.append(left.pop(k))
        return iter(self._flat([replies[i] for i in order]))

    def _async(self, fn, callback, error_callback):
        try:
            result = Result(True, fn())
        except Exception as e:
            result = Result(False, e)
        if result.successful() and callback is not None:
            callback(result.get())
        if not result.successful() and error_callback is not None:
            error_callback(result.exception())
        return result

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return self._async(
            lambda: self.map(func, it, chunksize), callback, error_callback
        )

    def starmap_async(
        self, func, it, chunksize=None, callback=None, error_callback=None
    ):
        return self._async(
            lambda: self.starmap(func, it, chunksize), callback, error_callback
        )

    def apply(self, func, args=(), kwds={}):
        ok, value = self._call(func, args, kwds)
        if not ok:
            raise value
        return value

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._async(
            lambda: self.apply(func, args, kwds), callback, error_callback
        )

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        for w in self.workers:
            w.stop()
        self.workers = []

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        for w in self.workers:
            w.stop()
        self.workers = []

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.terminate()

    # concurrent.futures.Executor
    def submit(self, func, *args, **kwargs):
        return self._async(lambda: self.apply(func, args, kwargs), None, None)

    def shutdown(self, wait=True, cancel_futures=False):
        self.terminate()


class ControlledExecutor(ControlledPool):
    def __init__(
        self,
        max_workers=None,
        mp_context=None,
        initializer=None,
        initargs=(),
        max_tasks_per_child=None,
    ):
        super().__init__(max_workers, initializer, initargs)

    def map(self, func, *iterables, timeout=None, chunksize=1):
        return iter(self._flat(self._run(func, zip(*iterables), True, chunksize)))


class _Context:
    def __init__(self, real):
        self._real = real

    def Pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return ControlledPool(processes, initializer, initargs, maxtasksperchild)

    def cpu_count(self):
        return multiprocessing.cpu_count()

    def get_context(self, method=None):
        return self

    def __getattr__(self, name):
        return getattr(self._real, name)


@contextlib.contextmanager
def controlled(cpus=2):
    """Within this context, pools are controlled and the machine has `cpus` CPUs."""
    import concurrent.futures

    real_context = multiprocessing.get_context
    saved = []

    def patch(owner, name, value):
        saved.append((owner, name, getattr(owner, name)))
        setattr(owner, name, value)

    patch(multiprocessing, "get_context", lambda method=None: _Context(real_context(method)))
    patch(multiprocessing, "Pool", ControlledPool)
    patch(multiprocessing.pool, "Pool", ControlledPool)
    patch(multiprocessing, "cpu_count", lambda: cpus)
    patch(os, "cpu_count", lambda: cpus)
    patch(os, "sched_getaffinity", lambda pid: set(range(cpus)))
    patch(concurrent.futures, "ProcessPoolExecutor", ControlledExecutor)
    ControlledPool.pools = []
    ControlledPool.schedule = []
    try:
        yield ControlledPool
    finally:
        for pool in ControlledPool.pools:
            with contextlib.suppress(Exception):
                pool.terminate()
        for owner, name, value in saved:
            setattr(owner, name, value)


@contextlib.contextmanager
def cpus(n):
    """Real pools, on a machine that looks as if it had n CPUs."""
    saved = (multiprocessing.cpu_count, os.cpu_count)
    multiprocessing.cpu_count = lambda: n
    os.cpu_count = lambda: n
    try:
        yield
    finally:
        multiprocessing.cpu_count, os.cpu_count = saved


def chunk_bounds(total, parts):
    size = max(1, math.ceil(total / parts))
    return [(i, min(total, i + size)) for i in range(0, total, size)]
