"""Simulated process pool: real call semantics of multiprocessing.Pool (arguments and
results are pickled across, tasks complete in any order, a worker can die), but which task
completes next is the simulator's choice."""

import pickle
import random

from .errors import SimFault

SCHED = {
    "rng": random.Random(0),
    "crash": set(),  # global task serial numbers at which the worker dies
    "serial": 0,
    "order": [],
    "fired": 0,
    "pools": 0,
}


def reset(seed=0, crash=()):
    SCHED["rng"] = random.Random(seed)
    SCHED["crash"] = set(crash)
    SCHED["serial"] = 0
    SCHED["order"] = []
    SCHED["fired"] = 0
    SCHED["pools"] = 0


class _Task:
    def __init__(self, pool, func, args, kwds, callback=None, error_callback=None):
        self.payload = pickle.dumps((func, args, kwds))
        self.done = False
        self.value = None
        self.error = None
        self.callback = callback
        self.error_callback = error_callback
        self.serial = SCHED["serial"]
        SCHED["serial"] += 1
        pool._pending.append(self)

    def _execute(self):
        SCHED["order"].append(self.serial)
        try:
            if self.serial in SCHED["crash"]:
                SCHED["fired"] += 1
                raise SimFault("worker_crash", f"pool task {self.serial}")
            # a worker process has its own copy of the argument data
            func, args, kwds = pickle.loads(self.payload)
            state = (random.getstate(),)
            import numpy as np

            npstate = np.random.get_state()
            try:
                value = func(*args, **kwds)
            finally:
                random.setstate(state[0])
                np.random.set_state(npstate)
            self.value = pickle.loads(pickle.dumps(value))
        except Exception as e:  # noqa: BLE001
            self.error = e
        self.done = True
        if self.error is None and self.callback:
            self.callback(self.value)
        if self.error is not None and self.error_callback:
            self.error_callback(self.error)


class _AsyncResult:
    def __init__(self, pool, tasks, single, flatten=False):
        self._pool, self._tasks, self._single, self._flat = pool, tasks, single, flatten

    def wait(self, timeout=None):
        while not all(t.done for t in self._tasks):
            self._pool._step()

    def ready(self):
        return all(t.done for t in self._tasks)

    def successful(self):
        return all(t.error is None for t in self._tasks)

    def get(self, timeout=None):
        self.wait()
        for t in self._tasks:
            if t.error is not None:
                raise t.error
        vals = [t.value for t in self._tasks]
        if self._single:
            return vals[0]
        if self._flat:
            return [v for chunk in vals for v in chunk]
        return vals


def _run_star(func, args):
    return func(*args)


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), **kw):
        self.n = processes or 4
        self._pending = []
        SCHED["pools"] += 1
        if initializer:
            initializer(*initargs)

    # scheduler: any of the first n pending tasks (those held by a worker) may finish next
    def _step(self):
        if not self._pending:
            return
        k = SCHED["rng"].randrange(min(self.n, len(self._pending)))
        self._pending.pop(k)._execute()

    def _drain(self):
        while self._pending:
            self._step()

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return _AsyncResult(
            self, [_Task(self, func, args, kwds or {}, callback, error_callback)], True
        )

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return _AsyncResult(self, [_Task(self, func, (a,), {}) for a in it], False)

    def map(self, func, it, chunksize=None):
        return self.map_async(func, it).get()

    def starmap_async(self, func, it, chunksize=None, **k):
        return _AsyncResult(self, [_Task(self, func, tuple(a), {}) for a in it], False)

    def starmap(self, func, it, chunksize=None):
        return self.starmap_async(func, it).get()

    def imap(self, func, it, chunksize=1):
        tasks = [_Task(self, func, (a,), {}) for a in it]
        for t in tasks:
            while not t.done:
                self._step()
            if t.error is not None:
                raise t.error
            yield t.value

    def imap_unordered(self, func, it, chunksize=1):
        tasks = [_Task(self, func, (a,), {}) for a in it]
        left = list(tasks)
        while left:
            self._step()
            done = [t for t in left if t.done]
            for t in done:
                left.remove(t)
                if t.error is not None:
                    raise t.error
                yield t.value

    def close(self):
        pass

    def terminate(self):
        self._pending.clear()

    def join(self):
        self._drain()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _Future:
    def __init__(self, ar):
        self._ar = ar

    def result(self, timeout=None):
        return self._ar.get()

    def done(self):
        return self._ar.ready()

    def exception(self, timeout=None):
        self._ar.wait()
        return self._ar._tasks[0].error


class SimExecutor:
    def __init__(self, max_workers=None, *a, **k):
        self._pool = SimPool(max_workers)

    def submit(self, fn, *a, **k):
        return _Future(self._pool.apply_async(fn, a, k))

    def map(self, fn, *its, timeout=None, chunksize=1):
        return iter(self._pool.starmap(fn, list(zip(*its))))

    def shutdown(self, wait=True, cancel_futures=False):
        self._pool._drain()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
