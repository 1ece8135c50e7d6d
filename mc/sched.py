"""
Controlled scheduler: owns the interleaving of the worker threads of thread pools.

`install()` has to be called before the code under test is imported. It replaces the
thread pool classes by sub classes, which behave exactly like the originals unless
a `Scheduler` is active. With an active scheduler the tasks are run by pool threads
that only ever run one at a time: at every scheduling point (a line of the code under
test, or a file system operation) the running thread may be preempted.

The schedule is "run the current thread until it finishes" plus a list of deviations: at
a given visit of a point by a given thread, switch to another thread (a preemption).
"""
import concurrent.futures
import concurrent.futures._base as _base
import concurrent.futures.thread as _thread
import functools
import io
import multiprocessing.dummy
import multiprocessing.pool
import os
import shutil
import sys
import threading
import time

from mc.core import REPO

ACTIVE = None

_REAL = {}

# no progress for that long: the running thread is taken to be blocked by a preempted one
BLOCKED_AFTER = 0.3


class SchedulerError(Exception):
    pass


class _Worker:
    def __init__(self, index):
        self.index = index
        self.go = threading.Semaphore(0)
        self.finished = False
        self.thread = None


class Scheduler:
    """
    deviations: list of [label, worker index, occurrence, target worker index]:
        when that worker passes that point the given number of times, switch to the target.
        They have to happen in that order.
    trace: which points to offer:
        'line'  every line of the code under test, and every file operation
        'call'  every function of the given files, and every file operation
        'none'  only those of the deviations
    """

    def __init__(self, deviations=(), trace='none', files=None):
        self.deviations = [tuple(d) for d in deviations]
        self.pending = list(self.deviations)
        self.trace = trace
        self.files = files
        self.tasks = []
        self.next_task = 0
        self.workers = []
        self.by_ident = {}
        self.current = None
        self.points = []  # (label, worker index, occurrence, [other enabled worker indices])
        self.counts = {}
        self.progress = 0
        self.lock = threading.Lock()
        self.all_done = threading.Event()
        self.max_workers = 1
        self.blocked_switches = 0
        self.passed = 0
        self._local_trace_cache = {}
        self._labels = {}

    # -- tasks
    def add_task(self, fn, max_workers):
        self.tasks.append(fn)
        self.max_workers = max_workers

    def run_all(self):
        if threading.get_ident() in self.by_ident:
            return  # nested: called by a task
        if self.next_task >= len(self.tasks):
            return
        self.all_done.clear()
        count = min(self.max_workers, len(self.tasks) - self.next_task)
        self.workers = [_Worker(i) for i in range(count)]
        for worker in self.workers:
            worker.thread = threading.Thread(
                target=self._run_worker, args=(worker,), daemon=True
            )
            worker.thread.start()
        self.current = self.workers[0]
        self.workers[0].go.release()
        last_progress = -1
        waits = 0
        while not self.all_done.wait(BLOCKED_AFTER):
            with self.lock:
                if self.progress != last_progress:
                    last_progress = self.progress
                    continue
                # the current thread seems to wait for another one
                current = self.current
                candidates = [
                    w for w in self.workers if not w.finished and w is not current
                ]
                waits += 1
                if candidates:
                    self.blocked_switches += 1
                    self.current = candidates[waits % len(candidates)]
                    self.current.go.release()
        for worker in self.workers:
            worker.thread.join(10)

    def _run_worker(self, worker):
        self.by_ident[threading.get_ident()] = worker
        worker.go.acquire()
        sys.settrace(self._trace_fn)
        try:
            while True:
                with self.lock:
                    if self.next_task >= len(self.tasks):
                        break
                    task = self.tasks[self.next_task]
                    self.next_task += 1
                task()
                self.point('task-end')
        finally:
            sys.settrace(None)
            self._finish(worker)

    def _finish(self, worker):
        with self.lock:
            worker.finished = True
            self.progress += 1
            if self.current is not worker:
                return
            remaining = [w for w in self.workers if not w.finished]
            if not remaining:
                self.all_done.set()
                return
            self.current = remaining[0]
            self.current.go.release()

    # -- scheduling points
    def point(self, label):
        worker = self.by_ident.get(threading.get_ident())
        if worker is None:
            return
        with self.lock:
            is_current = self.current is worker
        if not is_current:
            worker.go.acquire()  # resumed after having been considered blocked
        target = None
        with self.lock:
            self.progress += 1
            self.passed += 1
            key = (label, worker.index)
            occurrence = self.counts.get(key, 0) + 1
            self.counts[key] = occurrence
            others = [w.index for w in self.workers if not w.finished and w is not worker]
            if self.trace != 'none':
                self.points.append((label, worker.index, occurrence, others))
            if self.pending and self.pending[0][:3] == (label, worker.index, occurrence):
                wanted = self.pending.pop(0)[3]
                if wanted in others:
                    target = self.workers[wanted]
                    self.current = target
        if target is not None:
            target.go.release()
            worker.go.acquire()

    def _is_traced_file(self, filename):
        if not filename.startswith(REPO + os.sep):
            return False
        name = os.path.relpath(filename, REPO)
        if any(d[0].startswith(name + ':') for d in self.deviations):
            return True
        if self.trace == 'none':
            return False
        return self.files is None or name.endswith(tuple(self.files))

    def _trace_fn(self, frame, event, _arg):
        if event != 'call':
            return None
        filename = frame.f_code.co_filename
        name = self._local_trace_cache.get(filename)
        if name is None:
            name = (
                os.path.relpath(filename, REPO) if self._is_traced_file(filename) else ''
            )
            self._local_trace_cache[filename] = name
        if not name:
            return None
        if self.trace == 'none' and not self.pending:
            sys.settrace(None)
            return None
        self.point('%s:%s()' % (name, frame.f_code.co_name))
        if self.trace == 'call':
            return None
        return functools.partial(self._line, name)

    def _line(self, name, frame, event, _arg):
        if event == 'line':
            # the trace function is not called while it is running
            self.point('%s:%d' % (name, frame.f_lineno))
        return self._line_function(name)

    def _line_function(self, name):
        result = self._labels.get(name)
        if result is None:
            result = functools.partial(self._line, name)
            self._labels[name] = result
        return result


class _Future(_base.Future):
    def result(self, timeout=None):
        if ACTIVE:
            ACTIVE.run_all()
        return super().result(timeout)

    def exception(self, timeout=None):
        if ACTIVE:
            ACTIVE.run_all()
        return super().exception(timeout)


def _as_task(future, fn, args, kwargs):
    def task():
        if not future.set_running_or_notify_cancel():
            return
        try:
            result = fn(*args, **kwargs)
        except BaseException as exc:  # pylint: disable=broad-except
            future.set_exception(exc)
        else:
            future.set_result(result)
    return task


def _make_executor_class(real_class):
    class ThreadPoolExecutor(real_class):
        def submit(self, fn, /, *args, **kwargs):
            if not ACTIVE:
                return super().submit(fn, *args, **kwargs)
            future = _Future()
            ACTIVE.add_task(_as_task(future, fn, args, kwargs), self._max_workers)
            return future

        def shutdown(self, wait=True, **kwargs):
            if ACTIVE and wait:
                ACTIVE.run_all()
            super().shutdown(wait=wait, **kwargs)
    return ThreadPoolExecutor


class _ControlledPool:
    def __init__(self, processes=None, initializer=None, initargs=()):
        self._processes = processes or os.cpu_count() or 1
        if initializer:
            initializer(*initargs)

    def _submit(self, fn, args, kwargs=None):
        future = _Future()
        ACTIVE.add_task(_as_task(future, fn, args, kwargs or {}), self._processes)
        return future

    def map(self, func, iterable, chunksize=None):
        futures = [self._submit(func, (item,)) for item in iterable]
        ACTIVE.run_all()
        return [f.result() for f in futures]

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    imap_unordered = imap

    def starmap(self, func, iterable, chunksize=None):
        futures = [self._submit(func, tuple(args)) for args in iterable]
        ACTIVE.run_all()
        return [f.result() for f in futures]

    def apply(self, func, args=(), kwds=None):
        return self._submit(func, args, kwds).result()

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return _AsyncResult([self._submit(func, args, kwds)], single=True)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _AsyncResult([self._submit(func, (item,)) for item in iterable])

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _AsyncResult([self._submit(func, tuple(a)) for a in iterable])

    def close(self):
        pass

    def terminate(self):
        pass

    def join(self):
        ACTIVE.run_all()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        ACTIVE.run_all()


class _AsyncResult:
    def __init__(self, futures, single=False):
        self.futures = futures
        self.single = single

    def get(self, timeout=None):
        results = [f.result() for f in self.futures]
        return results[0] if self.single else results

    def wait(self, timeout=None):
        ACTIVE.run_all()

    def ready(self):
        return all(f.done() for f in self.futures)

    def successful(self):
        return all(f.exception() is None for f in self.futures)


def _with_run_all(real_function):
    @functools.wraps(real_function)
    def wrapper(*args, **kwargs):
        if ACTIVE:
            if args:
                args = (list(args[0]),) + args[1:]
            ACTIVE.run_all()
        return real_function(*args, **kwargs)
    return wrapper


def _with_point(name, real_function):
    @functools.wraps(real_function)
    def wrapper(*args, **kwargs):
        if ACTIVE:
            ACTIVE.point('fs.' + name)
        return real_function(*args, **kwargs)
    return wrapper


def install():
    if _REAL:
        return
    _REAL['ThreadPoolExecutor'] = concurrent.futures.ThreadPoolExecutor
    executor_class = _make_executor_class(_REAL['ThreadPoolExecutor'])
    concurrent.futures.ThreadPoolExecutor = executor_class
    _thread.ThreadPoolExecutor = executor_class
    for name in ('as_completed', 'wait'):
        wrapped = _with_run_all(getattr(concurrent.futures, name))
        setattr(concurrent.futures, name, wrapped)
        setattr(_base, name, wrapped)
    real_pool_class = multiprocessing.pool.ThreadPool
    _REAL['ThreadPool'] = real_pool_class

    def pool(*args, **kwargs):
        if ACTIVE:
            return _ControlledPool(*args, **kwargs)
        return real_pool_class(*args, **kwargs)

    multiprocessing.dummy.Pool = pool

    class ThreadPool(real_pool_class):
        def __new__(cls, *args, **kwargs):
            if ACTIVE:
                return _ControlledPool(*args, **kwargs)
            return super().__new__(cls)

    multiprocessing.pool.ThreadPool = ThreadPool
    for module, name in [
        (os, 'mkdir'), (os, 'rename'), (os, 'replace'), (os, 'remove'), (os, 'unlink'),
        (os, 'rmdir'), (os, 'makedirs'), (shutil, 'rmtree'), (io, 'open')
    ]:
        if module is shutil:
            continue  # has attributes (avoids_symlink_attacks), its operations are hooked
        setattr(module, name, _with_point(name, getattr(module, name)))
    import builtins
    builtins.open = _with_point('open', builtins.open)


class activate:
    def __init__(self, scheduler):
        self.scheduler = scheduler

    def __enter__(self):
        global ACTIVE
        assert ACTIVE is None
        ACTIVE = self.scheduler
        return self.scheduler

    def __exit__(self, *_):
        global ACTIVE
        try:
            self.scheduler.run_all()
        finally:
            ACTIVE = None


def explore_points(points, max_occurrences=None):
    """
    the points at which to preempt:
    max_occurrences: per distinct (label, thread), the first ones and the last one
    """
    last = {}
    for label, worker, occurrence, _ in points:
        last[(label, worker)] = occurrence
    return [
        p for p in points
        if p[3] and (
            not max_occurrences or p[2] <= max_occurrences or p[2] == last[(p[0], p[1])]
        )
    ]
