"""One run = one spec (JSON) executed in a forked child; the same spec gives the same run."""
import gc
import hashlib
import json
import os
import pickle
import re
import select
import signal
import sys
import traceback

from . import kernel

RUN_WALL = float(os.environ.get("DST_RUN_WALL", "90"))


KNOWN_KEYS = set()
NOISE = {"rtol": 1e-9, "atol": 1e-12}      # BLAS rounding depends on buffer alignment


class Violation(Exception):
    def __init__(self, kind, detail="", key=None):
        super().__init__(kind, detail)
        self.kind, self.detail, self.key = kind, str(detail)[:1500], key or kind


class Skip(Exception):
    """The generated scenario is not meaningful (counted, never an error)."""


VOLATILE = [(re.compile(r"0x[0-9a-fA-F]+"), "0x"), (re.compile(r"time = [^,]*,"), ""), (re.compile(r"\n"), " "), (re.compile(r"\(file descriptor = \d+"), "("),
            (re.compile(r"file descriptor = \d+"), "fd"), (re.compile(r"/[a-z/]*/dst-[^/]*/r\d+"), "<disk>")]


def short(e):
    """The exception as text, without the parts that change from process to process."""
    t = str(e)
    for p, r in VOLATILE:
        t = p.sub(r, t)
    return "%s: %s" % (type(e).__name__, t[:300])


def _largest(spec):
    """Number of series of the largest dataset a spec describes."""
    if isinstance(spec, dict):
        own = len(spec["sz"]) if isinstance(spec.get("sz"), list) else 0
        return max([own] + [_largest(v) for v in spec.values()])
    if isinstance(spec, (list, tuple)):
        return max([0] + [_largest(v) for v in spec])
    return 0


class Ctx:
    def __init__(self, spec):
        self.spec = spec
        self.h = hashlib.blake2b(digest_size=12)
        self.stats = {"steps": 0, "lines": 0, "switches": 0, "forced": 0, "simtime": 0.0, "sims": 0,
                      "maxlive": 0, "tasks": 0, "prange": 0}
        self.faults = {}
        self.decs = {}
        self.hot_total = 0
        self.ilogs = []
        self.sigs = []
        self.nontrivial = False
        self.tags = {}
        self.sim_obj = None
        self.trace = None
        self.found = {}

    def finding(self, key, detail):
        """A deviation that may be a listed finding: the run goes on, the runner decides."""
        self.found.setdefault(key, str(detail)[:800])

    def note(self, *vals):
        for v in vals:
            self.h.update(_bytes(v))
            self.h.update(b";")

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n
            self.nontrivial = True

    def sig(self, *parts):
        self.sigs.append("/".join(str(p) for p in parts))

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def sim(self, fn, k=0, **kw):
        """Run fn() in a simulation with schedule number k of the spec."""
        from . import jobs, numba_sim
        sched = dict(self.spec.get("scheds", [{"mode": "sync", "seed": 0}])[k])
        knobs = self.spec.get("knobs", {})
        jobs.KNOBS.update({"batch": knobs.get("batch", 1), "cpus": knobs.get("cpus", 4)})
        numba_sim.KNOBS.update({"threads": knobs.get("pthreads", 3), "seed": knobs.get("pseed", 0),
                                "chunk": knobs.get("chunk", "static")})
        numba_sim.STATS["regions"] = numba_sim.STATS["permuted"] = 0
        if self.trace is not None:
            sched["trace"] = 1
        from . import boot
        hot = float(knobs.get("hot") or 0)
        boot.fine_grained(bool(knobs.get("fine")) and _largest(self.spec) < 12, hot > 0 or bool(knobs.get("spots")))
        if sched.get("mode") == "hot":      # as many hot spots as the schedule before met
            sched["n"] = self.hot_total or 100
        if hot and sched.get("mode") == "rand":
            sched["gap"] = max(sched.get("gap", 50), 200)
        s = kernel.Sim(sched, **kw)
        if sched.get("mode") in ("rand", "sync"):
            s.hot_p = hot
        self.sim_obj = s
        t0, p0 = jobs.STATS["tasks"], numba_sim.STATS["iters"]
        try:
            return s.run(fn)
        except kernel.SimDeadlock as e:
            raise Violation("deadlock", e)
        except kernel.StepLimit as e:
            raise Violation("no-progress", "run did not finish within its step bound: %s" % e)
        finally:
            self.decs[str(k)] = s.dec
            st = self.stats
            st["steps"] += s.step
            st["lines"] += s.lines
            st["switches"] += s.switches
            st["forced"] += s.forced
            st["simtime"] += s.now()
            st["sims"] += 1
            self.hot_total = s.hot_n
            st["maxlive"] = max(st["maxlive"], s.max_live)
            st["tasks"] += jobs.STATS["tasks"] - t0
            st["prange"] += numba_sim.STATS["iters"] - p0
            self.ilogs.append(s.interleaving())
            self.note(s.digest(), s.interleaving(), s.step)
            if s.switches > 1:
                self.nontrivial = True
            for kk, v in s.fired.items():
                if kk != "where":
                    self.fault(kk, v)
                else:
                    self.note(v)
            if self.trace is not None:
                self.trace += s.trace or []


def _bytes(v):
    import numpy as np
    if isinstance(v, bytes):
        return v
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return b"".join(_bytes(x) for x in v.ravel())
        return str((v.shape, v.dtype.str)).encode() + np.ascontiguousarray(v).tobytes()
    if isinstance(v, (list, tuple)):
        return b"[" + b",".join(_bytes(x) for x in v) + b"]"
    if isinstance(v, dict):
        return b"{" + b",".join(_bytes(k) + b":" + _bytes(v[k]) for k in v) + b"}"
    if isinstance(v, (float, np.floating)):
        return repr(float(v)).encode()
    if isinstance(v, (bool, int, str, type(None), np.integer, np.bool_)):
        return repr(v).encode()
    if hasattr(v, "detach"):
        return _bytes(v.detach().cpu().numpy())
    return type(v).__name__.encode()


def execute(check, spec, trace=False):
    """Run in this process; returns the result dict."""
    ctx = Ctx(spec)
    if trace:
        ctx.trace = []
    res = {"viol": None, "error": None, "skip": None}
    gc.collect()
    gc.disable()
    try:
        check.run(spec, ctx)
    except Violation as v:
        res["viol"] = {"kind": v.kind, "detail": v.detail, "key": v.key}
    except Skip as s:
        res["skip"] = str(s)
    except kernel.SimDeadlock as e:
        res["viol"] = {"kind": "deadlock", "detail": str(e), "key": "deadlock"}
    except kernel.StepLimit as e:
        res["viol"] = {"kind": "no-progress", "detail": str(e), "key": "no-progress"}
    except BaseException as e:      # noqa
        res["error"] = short(e) + "\n" + traceback.format_exc()[-1800:]
    finally:
        kernel.CUR = None
    if not res["viol"] and not res["error"]:
        for k, d in ctx.found.items():
            if k not in KNOWN_KEYS:
                res["viol"] = {"kind": "finding", "detail": d, "key": k}
                break
    if res["viol"]:
        ctx.note(res["viol"]["kind"])
    res.update(digest=ctx.h.hexdigest(), ilogs=ctx.ilogs, stats=ctx.stats, faults=ctx.faults, decs=ctx.decs,
               found=ctx.found, sigs=ctx.sigs, nontrivial=ctx.nontrivial, tags=ctx.tags)
    if ctx.trace is not None:
        res["trace"] = ctx.trace[-400:]
    return res


def forked(check, spec, wall=None, trace=False):
    """Run the spec in a forked child; returns the result dict or a timeout/crash record."""
    wall = wall or RUN_WALL
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            dn = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get("DST_VERBOSE"):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            res = execute(check, json.loads(json.dumps(spec)), trace)
            data = pickle.dumps(res)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:       # noqa
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = kernel._real_monotonic() + wall
    timed_out = False
    while True:
        left = end - kernel._real_monotonic()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed_out = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return {"viol": None, "error": "timeout after %.0fs" % wall, "timeout": True, "skip": None}
    try:
        return pickle.loads(b"".join(buf))
    except Exception:
        return {"viol": None, "error": "child died, status %r" % (st,), "skip": None, "died": True}


def rand_sched(rng, modes=("rand", "rand", "rand", "pct", "sync")):
    m = rng.choice(modes)
    s = {"mode": m, "seed": rng.randrange(1 << 30)}
    if m == "rand":
        s["gap"] = rng.choice([2, 5, 20, 60, 200, 800])
    elif m == "pct":
        s["k"] = rng.choice([1, 2, 3, 5])
        s["n"] = rng.choice([300, 2000, 8000])
    return s


def spot_scheds(rng, n, modes=("rand", "rand", "pct")):
    """A serial schedule that counts the hot spots, n that switch at one to three of them, one more (needs the knob "spots")."""
    s = [{"mode": "sync", "seed": rng.randrange(1 << 30)}]
    for _ in range(n):
        s.append({"mode": "hot", "seed": rng.randrange(1 << 30), "k": rng.choice([1, 1, 2, 3])})
    return s + [rand_sched(rng, modes)]


def rand_knobs(rng):
    return {"batch": rng.choice([1, 1, 1, 2, 5]), "cpus": rng.choice([2, 3, 4]), "pthreads": rng.choice([2, 3, 4]),
            "chunk": rng.choice(["static", "cyclic", "random"]), "fine": rng.random() < 0.12,
            "pseed": rng.randrange(1 << 20), "hot": rng.choice([0, 0, 0.3, 0.7])}


def in_child(fn):
    """Run fn() in a forked copy of this process (as it is now) and return its picklable value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                val = ("ok", fn())
            except Skip as e:
                val = ("skip", str(e))
            except Violation as e:
                val = ("viol", (e.kind, e.detail, e.key))
            except BaseException as e:          # noqa
                val = ("err", short(e) + "\n" + traceback.format_exc()[-1200:])
            data = pickle.dumps(val)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    kind, val = pickle.loads(b"".join(buf))
    if kind == "skip":
        raise Skip(val)
    if kind == "viol":
        raise Violation(*val)
    if kind == "err":
        raise RuntimeError("in child: " + val)
    return val


class Clean:
    """A pristine process: forked now, it answers every call from a new copy of itself."""

    def __init__(self, handler):
        self.r1, w1 = os.pipe()
        r2, self.w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r1)
                os.close(self.w2)
                while True:
                    n = _readn(r2, 8)
                    if len(n) < 8:
                        break
                    args = pickle.loads(_readn(r2, int.from_bytes(n, "big")))
                    try:
                        val = ("ok", in_child(lambda: handler(*args)))
                    except BaseException as e:      # noqa
                        val = ("err", short(e))
                    data = pickle.dumps(val)
                    _writeall(w1, len(data).to_bytes(8, "big") + data)
            finally:
                os._exit(0)
        os.close(w1)
        os.close(r2)

    def call(self, *args):
        data = pickle.dumps(args)
        _writeall(self.w2, len(data).to_bytes(8, "big") + data)
        n = _readn(self.r1, 8)
        if len(n) < 8:
            raise RuntimeError("clean process died")
        kind, val = pickle.loads(_readn(self.r1, int.from_bytes(n, "big")))
        if kind == "err":
            raise RuntimeError(val)
        return val

    def close(self):
        os.close(self.w2)
        os.close(self.r1)
        os.waitpid(self.pid, 0)


def _readn(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            break
        out += b
    return out


def _writeall(fd, data):
    off = 0
    while off < len(data):
        off += os.write(fd, data[off:off + 65536])


def stable_difference(f, g, tries=5):
    """True if f() and g() differ bit for bit whatever the heap layout (BLAS rounding may depend on alignment)."""
    from . import cmp
    junk, A, B = [], [], []
    for k in range(tries):
        A.append(cmp.freeze(f()))
        junk += [bytearray(24 + 16 * ((k * 7 + j) % 9)) for j in range(40 + k)]
        del junk[k::3]
        B.append(cmp.freeze(g()))
        junk += [bytearray(1000 + 8 * ((k * 5 + j) % 7)) for j in range(11 + k)]
    return all(cmp.diff(a, b, exact=True) for a in A for b in B)
