"""Simulated multiprocessing pool.

Real: the code under test on both sides of the pool (generator and pickling in
the feeder, action application in the caller, test functions in the workers).
Stub: processes, pipes and the pool's helper threads.

Faithful to CPython's Pool: the task iterator is consumed and every task
batch is pickled by a feeder thread that runs concurrently with the caller;
workers take batches in FIFO order, finish them in any order, and work on an
unpickled copy; the first exception of a batch replaces the batch; an
exception of the task iterator or of pickling is delivered as the result of
that batch; results are pickled again on the way back.  Tensors travel by
reference (torch.multiprocessing shares their memory).
"""
import io
import itertools
import pickle
import random
import multiprocessing
import multiprocessing.pool

import torch
import torch.multiprocessing as tmp

from .core import HarnessError
from .sched import Sched, SimKilled


class WorkerCrash(RuntimeError):
    """Injected: an exception escaping a worker's test function."""


_TENSORS = {}


def _tensor_by_ref(i):
    return _TENSORS[i]


class _Pickler(pickle.Pickler):
    def reducer_override(self, obj):
        s = Sched.current
        if s is not None and not s.atomic:
            s.yield_point("pickle")
        if isinstance(obj, torch.Tensor):
            _TENSORS[id(obj)] = obj
            return _tensor_by_ref, (id(obj),)
        return NotImplemented


def dumps(obj):
    f = io.BytesIO()
    _Pickler(f, protocol=pickle.HIGHEST_PROTOCOL).dump(obj)
    return f.getvalue()


def reset_tensors():
    _TENSORS.clear()


class _Batch:
    __slots__ = ("idx", "blob", "error", "n")

    def __init__(self, idx, blob, error, n):
        self.idx, self.blob, self.error, self.n = idx, blob, error, n


class PoolWorld:
    """Per-run knobs and observations of all simulated pools."""

    current = None

    def __init__(self, sim, sched, processes=None, queue_cap=None, worker_fault=None):
        self.sim = sim
        self.sched = sched
        self.processes = processes or (1 + sim.draw(4))
        self.queue_cap = queue_cap or sim.pick((1, 2, 4, 1000))
        self.worker_fault = worker_fault   # callable(batch_no) -> exception or None
        self.observe = None                # callable(list of per-item results) on delivery
        self.batches = 0
        self.delivered = []                # flat list of results in delivery order
        self.worker_rng = random.Random(12345)

    def __enter__(self):
        PoolWorld.current = self
        reset_tensors()
        return self

    def __exit__(self, *a):
        PoolWorld.current = None
        reset_tensors()
        return False


class _Stop(Exception):
    pass


class _Job:
    """One imap/map call."""

    def __init__(self, pool, func, iterable, chunksize, ordered):
        self.pool = pool
        self.world = w = PoolWorld.current
        self.sched = w.sched
        self.func = func
        self.chunksize = chunksize
        self.ordered = ordered
        self.pending = []          # FIFO of _Batch, not yet finished
        self.ready = []            # finished (idx, ok, value)
        self.fed = 0
        self.returned = 0
        self.feeding_done = False
        self.iterable = iterable
        self.prov = self._actions
        self.sched.actions.append(self.prov)
        self.feeder = self.sched.spawn("feeder", self._feed)

    # feeder thread
    def _feed(self):
        it = None
        idx = 0
        try:
            it = iter(self.iterable)
            while True:
                batch = tuple(itertools.islice(it, self.chunksize))
                if not batch:
                    break
                try:
                    blob = dumps((self.func, batch))
                    b = _Batch(idx, blob, None, len(batch))
                except SimKilled:
                    raise
                except Exception as e:
                    self.world.sim.probe("pickle_error")
                    b = _Batch(idx, None, e, len(batch))
                    self._put(b, direct=True)
                    idx += 1
                    continue
                self._put(b)
                idx += 1
        except SimKilled:
            raise
        except Exception as e:
            self.world.sim.probe("generator_error")
            self._put(_Batch(idx, None, e, 0))
        finally:
            self.feeding_done = True

    def _put(self, b, direct=False):
        s = self.sched
        s.block_until(lambda: len(self.pending) < self.world.queue_cap, "queue")
        self.world.sim.log("put %d n=%d" % (b.idx, b.n))
        self.fed += 1
        if direct:
            self.ready.append((b.idx, False, b.error))
        else:
            self.pending.append(b)
        s.yield_point("put")

    # worker side: any of the first <processes> queued batches may finish next
    def _actions(self):
        k = min(len(self.pending), self.pool._processes)
        return [("done:%d" % i, (lambda j=i: self._finish(j))) for i in range(k)]

    def _finish(self, j):
        b = self.pending.pop(j)
        w = self.world
        w.batches += 1
        if j:
            w.sim.probe("out_of_order_batch")
        if b.error is not None:
            self.ready.append((b.idx, False, b.error))
            return
        state = random.getstate()
        random.setstate(w.worker_rng.getstate())
        try:
            try:
                func, args = pickle.loads(b.blob)
                if w.worker_fault is not None:
                    e = w.worker_fault(w.batches)
                    if e is not None:
                        raise e
                val = []
                for a in args:
                    item = list(a) if isinstance(a, list) else a
                    try:
                        val.append(func(a))
                    except Exception as e:
                        e._sim_item = item
                        raise
                blob = dumps(val)
                val = pickle.loads(blob)
                self.ready.append((b.idx, True, val))
            except Exception as e:
                w.sim.probe("worker_exception")
                self.ready.append((b.idx, False, e))
        finally:
            w.worker_rng.setstate(random.getstate())
            random.setstate(state)
        w.sim.log("fin %d" % b.idx)

    def _next_ready(self):
        if self.ordered:
            for k, r in enumerate(self.ready):
                if r[0] == self.returned:
                    return k
            return None
        return 0 if self.ready else None

    def _exhausted(self):
        return self.feeding_done and self.returned >= self.fed

    def batches(self):
        s = self.sched
        try:
            while True:
                s.block_until(lambda: self._next_ready() is not None or self._exhausted(), "result")
                k = self._next_ready()
                if k is None:
                    return
                # unordered: results become visible in the order they were queued
                idx, ok, val = self.ready.pop(k)
                self.returned += 1
                self.world.sim.log("deliver %d %s" % (idx, ok))
                if not ok:
                    # inside this generator a StopIteration would become a RuntimeError
                    raise _Stop(val) if isinstance(val, StopIteration) else val
                self.world.delivered.extend(val)
                if self.world.observe:
                    self.world.observe(val)
                yield val
        finally:
            self.close()

    def close(self):
        if self.prov in self.sched.actions:
            self.sched.actions.remove(self.prov)
        # the real feeder and workers go on after the caller lost interest;
        # nothing observes them any more
        if not self.feeder.done:
            self.feeder.killed = True


class _ImapIter:
    def __init__(self, job):
        self.job = job
        self.it = job.batches()
        self.buf = []

    def __iter__(self):
        return self

    def __next__(self):
        if self.job.world is not PoolWorld.current:
            raise HarnessError("pool iterator outlived its run")
        while not self.buf:
            try:
                self.buf = list(next(self.it))
            except _Stop as e:
                # the real iterator raises what the worker raised: to a for loop this is the end
                raise e.args[0]
        return self.buf.pop(0)

    def next(self, timeout=None):
        return self.__next__()


class AsyncResult:
    def __init__(self, fn):
        self._fn = fn
        self._v = None

    def get(self, timeout=None):
        if self._v is None:
            try:
                self._v = (True, self._fn())
            except Exception as e:
                self._v = (False, e)
        if not self._v[0]:
            raise self._v[1]
        return self._v[1]

    def wait(self, timeout=None):
        try:
            self.get()
        except Exception:
            pass

    def ready(self):
        return self._v is not None

    def successful(self):
        return self._v is not None and self._v[0]


def _star(args):
    f, a = args
    return f(*a)


def _apply(args):
    f, a, kw = args
    return f(*a, **kw)


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        w = PoolWorld.current
        self._processes = w.processes if w is not None else 1
        self._state = "RUN"

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")
        if PoolWorld.current is None:
            raise HarnessError("pool used outside a simulated run")

    def _job(self, func, iterable, chunksize, ordered):
        self._check()
        if chunksize is None:
            iterable = list(iterable)
            chunksize, extra = divmod(len(iterable), self._processes * 4)
            if extra:
                chunksize += 1
            chunksize = max(1, chunksize)
        if chunksize < 1:
            raise ValueError("Chunksize must be 1+, not {0:n}".format(chunksize))
        return _Job(self, func, iterable, chunksize, ordered)

    def imap_unordered(self, func, iterable, chunksize=1):
        return _ImapIter(self._job(func, iterable, chunksize, False))

    def imap(self, func, iterable, chunksize=1):
        return _ImapIter(self._job(func, iterable, chunksize, True))

    def map(self, func, iterable, chunksize=None):
        return list(_ImapIter(self._job(func, iterable, chunksize, True)))

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return AsyncResult(lambda: self.map(func, iterable, chunksize))

    def starmap(self, func, iterable, chunksize=None):
        return self.map(_star, [(func, a) for a in iterable], chunksize)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return AsyncResult(lambda: self.starmap(func, iterable, chunksize))

    def apply(self, func, args=(), kwds={}):
        return self.map(_apply, [(func, args, kwds)], 1)[0]

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        # pickled now, executed when asked for
        blob = dumps((func, args, kwds))
        return AsyncResult(lambda: self.map(_apply, [pickle.loads(blob)], 1)[0])

    def close(self):
        self._state = "CLOSE"

    def terminate(self):
        self._state = "TERMINATE"

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class _Ctx:
    def __init__(self, method=None):
        self._m = method or "spawn"

    Pool = staticmethod(SimPool)

    def get_start_method(self, allow_none=False):
        return self._m

    def cpu_count(self):
        return 4


def install():
    """Replace process pools by the simulated one (process wide, once)."""
    for m in (multiprocessing, tmp):
        m.Pool = SimPool
        m.set_start_method = lambda *a, **k: None
        m.cpu_count = lambda: 4
        m.get_context = lambda method=None: _Ctx(method)
    multiprocessing.pool.Pool = SimPool
    import torch.multiprocessing.pool as tmpp
    tmpp.Pool = SimPool
    import os
    os.cpu_count = lambda: 4
    _install_executor()


def _install_executor():
    import concurrent.futures as cf
    import concurrent.futures.process as cfp

    class SimExecutor:
        def __init__(self, *a, **k):
            self._pool = SimPool()

        def map(self, fn, *its, timeout=None, chunksize=1):
            return self._pool.imap(_star, [(fn, a) for a in zip(*its)], chunksize)

        def submit(self, fn, *a, **k):
            r = self._pool.apply_async(fn, a, k)
            f = cf.Future()
            try:
                f.set_result(r.get())
            except Exception as e:
                f.set_exception(e)
            return f

        def shutdown(self, *a, **k):
            self._pool.close()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.shutdown()

    cf.ProcessPoolExecutor = SimExecutor
    cfp.ProcessPoolExecutor = SimExecutor
