"""Deterministic scheduler: real threads, one running at a time, every choice seeded.

Sources of nondeterminism owned here: who runs, when a switch happens, the clock,
lock hand-over, sleeping, injected exceptions.  All decisions come from the run's
schedule spec; decisions that differ from the default ("keep running the current
thread; when it cannot run, the lowest-numbered runnable one") are recorded and are
enough to replay the run.
"""
import _thread
import hashlib
import random
import sys
import time as _time

_real_time = _time.time
_real_monotonic = _time.monotonic
_real_perf = _time.perf_counter
_real_sleep = _time.sleep
_alloc = _thread.allocate_lock
_get_ident = _thread.get_ident

CUR = None          # active Sim or None
HOT = {}            # id(code) -> offsets next to stores other threads may see
NEW, READY, BLOCKED, DONE = range(4)


class SimDeadlock(BaseException):
    pass


class StepLimit(BaseException):
    pass


class SimThread:
    __slots__ = ("tid", "name", "gate", "state", "pred", "wake", "fn", "result",
                 "exc", "ident", "inject_at", "inject_exc", "inject_kind", "count", "prio",
                 "nopreempt", "pending", "in_prange")

    def __init__(self, tid, name, fn, prio):
        self.tid, self.name, self.fn, self.prio = tid, name, fn, prio
        self.gate = _alloc()
        self.gate.acquire()
        self.state = NEW
        self.pred = self.wake = self.result = self.exc = self.ident = None
        self.inject_at = 0
        self.inject_exc = None
        self.inject_kind = None
        self.count = 0
        self.nopreempt = 0
        self.pending = None
        self.in_prange = False


class Sim:
    def __init__(self, sched, max_steps=8000000, max_threads=3000, max_lines=24000000):
        self.sched = sched
        self.mode = sched.get("mode", "rand")
        self.rng = random.Random("sched-%s" % (sched.get("seed"),))
        self.gap = max(1, int(sched.get("gap", 50)))
        self.dec_plan = {int(a): int(b) for a, b in sched.get("dec", [])}
        self.dec_steps = sorted(self.dec_plan)
        self.dec_pos = 0
        self.dec = []
        self.step = 0
        self.max_steps = max_steps
        self.clock = 0.0
        self.threads = []
        self.current = None
        self.nlive = 0
        self.switches = 0
        self.max_live = 0
        self._log = hashlib.blake2b(digest_size=12)
        self._ilog = hashlib.blake2b(digest_size=12)
        self.trace = [] if sched.get("trace") else None
        self.deadlock = None
        self.failed = None
        self.n_sleeps = 0
        self.max_threads = max_threads
        self.fired = {}
        self.forced = 0
        self.loc = ""
        self.lines = 0
        self.max_lines = max_lines
        self.any_at = 0
        self.any_count = 0
        self.any_exc = None
        self.hot_p = 0.0
        self.hot_n = 0                      # hot spots passed while other threads could run
        self.hot_at = frozenset()
        if self.mode == "hot":              # a few switches, each at one uniformly drawn hot spot
            n = max(1, int(sched.get("n", 100)))
            self.hot_at = frozenset(self.rng.randrange(1, n + 1) for _ in range(int(sched.get("k", 1))))
        if self.mode == "pct":
            k = int(sched.get("k", 3))
            n = int(sched.get("n", 2000))
            self.change = sorted(self.rng.randrange(1, n + 1) for _ in range(k))
        self._draw_next()

    # ---- log --------------------------------------------------------------
    def log(self, *a):
        s = "|".join(str(x) for x in a)
        self._log.update(s.encode() + b"\n")
        if self.trace is not None:
            self.trace.append("%d t%d %s" % (self.step, self.current.tid if self.current else -1, s))

    def digest(self):
        return self._log.hexdigest()

    def interleaving(self):
        return self._ilog.hexdigest()

    def now(self):
        return self.clock + self.step * 1e-6

    # ---- choices ----------------------------------------------------------
    def _draw_next(self):
        m = self.mode
        if m == "rand":
            g = self.gap
            self.next_switch = self.step + (1 if g <= 1 else 1 + int(self.rng.expovariate(1.0 / g)))
        elif m == "pct":
            while self.change and self.change[0] <= self.step:
                self.change.pop(0)
            self.next_switch = self.change[0] if self.change else 1 << 60
        elif m == "explicit":
            while self.dec_pos < len(self.dec_steps) and self.dec_steps[self.dec_pos] <= self.step:
                self.dec_pos += 1
            self.next_switch = self.dec_steps[self.dec_pos] if self.dec_pos < len(self.dec_steps) else 1 << 60
        else:                               # "sync": only at blocking points and sync points
            self.next_switch = 1 << 60

    def _runnable(self):
        out = []
        now = None
        for t in self.threads:
            if t.state == READY:
                out.append(t)
            elif t.state == BLOCKED:
                if t.pred is not None and t.pred():
                    out.append(t)
                elif t.wake is not None:
                    if now is None:
                        now = self.now()
                    if t.wake <= now:
                        out.append(t)
        return out

    def _pick(self, cands, default):
        """Choose the next thread among cands; default is the no-decision choice."""
        if self.mode == "explicit":
            tid = self.dec_plan.get(self.step)
            for t in cands:
                if t.tid == tid:
                    return t
            return default
        if self.mode == "pct":
            return max(cands, key=lambda t: (t.prio, -t.tid))
        return cands[self.rng.randrange(len(cands))]

    # ---- thread life ------------------------------------------------------
    def spawn(self, fn, name):
        if len(self.threads) >= self.max_threads:
            raise StepLimit("too many threads")
        t = SimThread(len(self.threads), name, fn, self.rng.random())
        self.threads.append(t)
        self.nlive += 1
        self.max_live = max(self.max_live, self.nlive)
        t.state = READY
        _thread.start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        t.gate.acquire()
        t.ident = _get_ident()
        try:
            t.result = t.fn()
        except SimDeadlock as e:
            t.exc = e
        except BaseException as e:      # noqa
            t.exc = e
        t.inject_exc = None
        t.state = DONE
        self.nlive -= 1
        try:
            nxt = self._next_forced(t)
        except BaseException as e:      # deadlock/step limit: hand over to main
            self.failed = e
            nxt = self.threads[0]
        self.current = nxt
        nxt.gate.release()

    def run(self, fn):
        """Run fn as thread 0 and return its value."""
        global CUR
        t = SimThread(0, "main", fn, self.rng.random())
        t.state = READY
        t.ident = _get_ident()
        self.threads.append(t)
        self.nlive = self.max_live = 1
        self.current = t
        CUR = self
        try:
            return fn()
        finally:
            CUR = None

    def join(self, threads):
        for t in threads:
            if t.state != DONE:
                self.block(lambda t=t: t.state == DONE)

    # ---- switching --------------------------------------------------------
    def _switch(self, nxt):
        me = self.current
        if nxt is me:
            return
        self.switches += 1
        self._ilog.update(("%d:%s;" % (nxt.tid, self.loc)).encode())
        self.loc = ""
        if self.trace is not None:
            self.trace.append("%d t%d -> t%d" % (self.step, me.tid, nxt.tid))
        self.current = nxt
        if nxt.state == BLOCKED:
            nxt.state = READY
            nxt.pred = nxt.wake = None
        nxt.gate.release()
        me.gate.acquire()
        if self.failed is not None and me.tid == 0:
            e, self.failed = self.failed, None
            raise e
        p = me.pending
        if p is not None:
            me.pending = None
            raise p

    def _next_forced(self, me):
        self.step += 1
        self.forced += 1
        if self.step > self.max_steps:
            raise StepLimit("step limit")
        cands = self._runnable()
        if not cands:
            sleepers = [t for t in self.threads if t.state == BLOCKED and t.wake is not None]
            if not sleepers:
                raise SimDeadlock("no runnable thread: " + ", ".join(
                    "t%d(%s)" % (t.tid, t.name) for t in self.threads if t.state == BLOCKED))
            w = min(t.wake for t in sleepers)
            self.clock += max(0.0, w - self.now())
            cands = [t for t in sleepers if t.wake <= self.now() + 1e-12]
        default = cands[0]
        nxt = default
        if len(cands) > 1 or self.mode == "explicit":
            nxt = self._pick(cands, default)
            if nxt is not default:
                self.dec.append((self.step, nxt.tid))
        if nxt.state == BLOCKED:
            nxt.state = READY
            nxt.pred = nxt.wake = None
        return nxt

    def block(self, pred=None, wake=None):
        me = self.current
        me.pred, me.wake = pred, wake
        me.state = BLOCKED
        try:
            nxt = self._next_forced(me)
        except BaseException as e:
            me.state = READY
            me.pred = me.wake = None
            if me.tid == 0:
                raise
            self.failed = e
            nxt = self.threads[0]
            me.state = BLOCKED
            nxt.state = READY
            self._switch(nxt)
            raise
        if nxt is me:
            me.state = READY
            me.pred = me.wake = None
            return
        self._switch(nxt)

    def preempt(self):
        """Called at a yield point when the plan says a switch may happen here."""
        me = self.current
        cands = [t for t in self._runnable() if t is not me]
        if cands:
            if self.mode == "pct":
                me.prio = -self.rng.random() - len(self.dec)
                nxt = self._pick(cands + [me], me)
            else:
                nxt = self._pick(cands, me)
            if nxt is not me:
                self.dec.append((self.step, nxt.tid))
                self._draw_next()
                self._switch(nxt)
                return
        self.loc = ""
        self._draw_next()

    def point(self):
        """Explicit yield point (network byte, task hand-over, lock)."""
        if self.nlive > 1 and not self.current.nopreempt:
            self.step += 1
            if self.step > self.max_steps:
                raise StepLimit("step limit")
            if self.mode == "explicit":
                if self.step >= self.next_switch:
                    self.preempt()
            elif self.mode == "pct":
                self.preempt_prio()
            elif self.rng.random() < 0.3 or self.step >= self.next_switch:
                self.preempt()

    def preempt_prio(self):
        me = self.current
        c = self._runnable()
        if me not in c:
            c.append(me)
        nxt = max(c, key=lambda t: (t.prio, -t.tid))
        if nxt is not me:
            self.dec.append((self.step, nxt.tid))
            self._switch(nxt)

    def sleep(self, d):
        self.n_sleeps += 1
        self.block(wake=self.now() + max(0.0, d))

    # ---- injected exceptions ---------------------------------------------
    def arm(self, n, exc, kind="line"):
        t = self.current
        t.count = 0
        t.inject_at, t.inject_exc, t.inject_kind = n, exc, kind

    def disarm(self):
        t = self.current
        armed = t.inject_exc is not None
        t.inject_exc = None
        t.inject_at = 0
        return armed

    def arm_workers(self, n, exc):
        """Raise exc at the n-th tslearn line executed by any thread but the main one."""
        self.any_at, self.any_exc, self.any_count = n, exc, 0

    def disarm_workers(self):
        self.any_exc = None

    def interrupt(self, thread, exc):
        """Deliver exc to another (parked) thread when it next runs."""
        thread.pending = exc


# ------------------------------------------------------------------ monitoring callbacks
def on_line(code, line):
    s = CUR
    if s is None:
        return
    t = s.current
    s.lines += 1
    if s.lines > s.max_lines:
        s.max_lines += 100000
        raise StepLimit("line limit")
    if t.inject_exc is not None and t.inject_kind == "line":
        t.count += 1
        if t.count >= t.inject_at:
            e, t.inject_exc = t.inject_exc, None
            s.fired["inject"] = s.fired.get("inject", 0) + 1
            s.fired["where"] = "%s:%d" % (code.co_qualname, line)
            raise e
    if s.any_exc is not None and t.tid:
        s.any_count += 1
        if s.any_count >= s.any_at:
            e, s.any_exc = s.any_exc, None
            s.fired["inject-worker"] = s.fired.get("inject-worker", 0) + 1
            s.fired["where"] = "%s:%d" % (code.co_qualname, line)
            raise e
    if s.nlive > 1 and not t.nopreempt:
        s.step += 1
        if s.step >= s.next_switch:
            if s.step > s.max_steps:
                raise StepLimit("step limit")
            s.loc = code.co_name
            s.preempt()
        elif s.step > s.max_steps:
            raise StepLimit("step limit")


def on_instr(code, off):
    s = CUR
    if s is None:
        return
    if s.nlive > 1 and not s.current.nopreempt:
        s.step += 1
        hot = off in HOT.get(id(code), ())
        if hot:
            s.hot_n += 1
        if s.step >= s.next_switch or (hot and (s.hot_n in s.hot_at or (s.hot_p and s.rng.random() < s.hot_p))):
            if s.step > s.max_steps:
                raise StepLimit("step limit")
            s.loc = code.co_name
            s.preempt()


def on_start(code, off):
    s = CUR
    if s is None:
        return
    t = s.current
    if t.inject_exc is not None and t.inject_kind != "line":
        if t.inject_kind == "ext":
            f = code.co_filename
            if not ("/numpy/" in f or "/sklearn/" in f or "/scipy/" in f or "/statsmodels/" in f or "/tslearn/" in f):
                return
        t.count += 1
        if t.count >= t.inject_at:
            e, t.inject_exc = t.inject_exc, None
            s.fired["inject"] = s.fired.get("inject", 0) + 1
            s.fired["where"] = code.co_qualname
            raise e


# ------------------------------------------------------------------ simulated locks & time
def _in_sim():
    s = CUR
    return s if s is not None and s.current is not None and s.current.ident == _get_ident() else None


class SimLock:
    """threading.Lock replacement: simulated inside a run, a real lock outside."""
    def __init__(self):
        self._real = _alloc()
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        s = _in_sim()
        if s is None:
            r = self._real.acquire(blocking, timeout)
            if r:
                self._held = True
            return r
        s.point()
        if self._held:
            if not blocking:
                return False
            wake = None if timeout is None or timeout < 0 else s.now() + timeout
            while self._held:
                s.block(lambda: not self._held, wake)
                if self._held and wake is not None and s.now() >= wake:
                    return False
        self._held = True
        self._real.acquire(False)
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        try:
            self._real.release()
        except RuntimeError:
            pass

    def locked(self):
        return self._held

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _alloc()
        self._held = False


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self._owner == me:
            self._count += 1
            return True
        r = self._block.acquire(blocking, timeout)
        if r:
            self._owner = me
            self._count = 1
        return r

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._block.release()
        return st

    def _acquire_restore(self, st):
        self._block.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0

    def _recursion_count(self):
        return self._count if self._owner == _get_ident() else 0


def sim_sleep(d):
    s = _in_sim()
    if s is None:
        return _real_sleep(d)
    s.sleep(d)


def _clockfn(real):
    def f():
        s = CUR
        return real() if s is None else 1.7e9 + s.now()
    return f


def patch_stdlib():
    import threading
    import queue
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    queue.SimpleQueue = queue._PySimpleQueue
    _time.sleep = sim_sleep
    _time.time = _clockfn(_real_time)
    _time.monotonic = _clockfn(_real_monotonic)
    _time.perf_counter = _clockfn(_real_perf)
    _start0 = threading.Thread.start
    _join0 = threading.Thread.join

    def start(self):
        s = _in_sim()
        if s is None:
            return _start0(self)
        self._sim_started = True

        def body():
            threading._active[_get_ident()] = self
            try:
                self.run()
            finally:
                threading._active.pop(_get_ident(), None)
        self._simthread = s.spawn(body, "thread-" + self.name)

    def join(self, timeout=None):
        st = getattr(self, "_simthread", None)
        s = _in_sim()
        if st is None or s is None:
            return _join0(self, timeout)
        if st.state != DONE:
            s.block(lambda: st.state == DONE,
                    None if timeout is None else s.now() + timeout)
    is_alive0 = threading.Thread.is_alive

    def is_alive(self):
        st = getattr(self, "_simthread", None)
        return is_alive0(self) if st is None else st.state != DONE
    threading.Thread.start = start
    threading.Thread.join = join
    threading.Thread.is_alive = is_alive
