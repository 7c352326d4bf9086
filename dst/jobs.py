"""joblib backend whose workers are simulated threads (joblib's own extension seam)."""
from joblib import parallel as jp
from joblib._parallel_backends import ParallelBackendBase
from . import kernel

STATS = {"tasks": 0, "pools": 0}
KNOBS = {"batch": 1, "cpus": 4}


class _Out:
    __slots__ = ("value", "exc", "ready")

    def __init__(self):
        self.ready = False
        self.value = self.exc = None


class SimBackend(ParallelBackendBase):
    supports_retrieve_callback = True
    supports_sharedmem = True
    uses_threads = True

    def __init__(self, nesting_level=None, inner_max_num_threads=None, **kw):
        super().__init__(nesting_level=nesting_level, inner_max_num_threads=inner_max_num_threads)
        self._queue = []
        self._workers = []
        self._stop = True
        self._busy = False
        self._n = 1

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if n_jobs is None:
            return 1
        if n_jobs < 0:
            n_jobs = max(KNOBS["cpus"] + 1 + n_jobs, 1)
        return n_jobs

    def configure(self, n_jobs=1, parallel=None, **kw):
        n_jobs = self.effective_n_jobs(n_jobs)
        if n_jobs == 1:
            raise jp.FallbackToBackend(jp.SequentialBackend(nesting_level=self.nesting_level)) \
                if hasattr(jp, "FallbackToBackend") else _fallback(self.nesting_level)
        self.parallel = parallel
        self._n = n_jobs
        self._queue = []
        self._workers = []
        self._stop = False
        STATS["pools"] += 1
        return n_jobs

    def compute_batch_size(self):
        return KNOBS["batch"]

    # -- pool --
    def submit(self, func, callback=None):
        out = _Out()
        STATS["tasks"] += 1
        sim = kernel._in_sim()
        if sim is None:                       # outside a run: execute at once, one after the other
            self._queue.append((func, out, callback))
            if not self._busy:
                self._busy = True
                try:
                    while self._queue:
                        self._exec(*self._queue.pop(0))
                finally:
                    self._busy = False
            return out
        self._queue.append((func, out, callback))
        if len(self._workers) < self._n:
            q = self._queue

            def work():
                while True:
                    if not q:
                        if self._stop:
                            return
                        sim.block(lambda: bool(q) or self._stop)
                        continue
                    f, o, cb = q.pop(0)
                    self._exec(f, o, cb)
            self._workers.append(sim.spawn(work, "worker%d" % len(self._workers)))
        sim.point()
        return out

    def _exec(self, func, out, callback):
        try:
            out.value = func()
        except (kernel.SimDeadlock, kernel.StepLimit):
            raise
        except BaseException as e:      # noqa
            out.exc = e
        sim = kernel._in_sim()
        if sim is not None:
            sim.point()
        out.ready = True
        if callback is not None:
            callback(out)

    def retrieve_result_callback(self, out):
        if out.exc is not None:
            raise out.exc
        return out.value

    def _shutdown(self):
        self._stop = True
        self._queue.clear()
        sim = kernel._in_sim()
        if sim is not None:
            me = sim.current
            sim.join([w for w in self._workers if w is not me])
        self._workers = []

    def terminate(self):
        self._shutdown()

    def abort_everything(self, ensure_ready=True):
        self._shutdown()
        if ensure_ready:
            self._stop = False

    def get_nested_backend(self):
        lvl = (self.nesting_level or 0) + 1
        if lvl > 1:
            return jp.SequentialBackend(nesting_level=lvl), None
        return SimBackend(nesting_level=lvl), None


def _fallback(level):
    from joblib._parallel_backends import FallbackToBackend, SequentialBackend
    return FallbackToBackend(SequentialBackend(nesting_level=level))


def install():
    for name in ("threading", "loky", "multiprocessing"):
        jp.register_parallel_backend(name, SimBackend)
    jp.register_parallel_backend("threading", SimBackend, make_default=True)
