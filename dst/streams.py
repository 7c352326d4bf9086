"""Simulated clients feeding early-prediction streams over an unreliable link, and the offline reference."""
import warnings

import numpy as np

from . import catalog as cat, cmp, core, data, kernel
from .core import Skip, Violation

EXCS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError}
BADS = ["rows-", "rows+", "feat+", "feat-", "rank2", "rank1", "rank4", "scalar", "ragged", "swap", "norows"]
FORMS = ["array", "array", "fortran", "list", "view", "readonly", "buffer", "int", "f32"]


def gen_stream(rng, train, T, p_bad=0.0, p_fault=0.0, p_crash=0.0):
    """One stream: source series and the events its consumer sees."""
    n = rng.choice([1, 1, 2, 3, 4])
    top = T if rng.random() < 0.75 else rng.randint(1, T)
    sz = [top] * n
    if n > 1 and rng.random() < 0.3:
        sz = [rng.randint(1, top) for _ in range(n)]
        sz[rng.randrange(n)] = top
    src = {"seed": rng.randrange(1 << 20), "sz": sz, "d": train["d"], "kind": rng.choice(["randn", "walk", train["kind"], train["kind"]]), "form": "array"}
    if rng.random() < 0.15:
        src["seed"], src["kind"] = train["seed"], train["kind"]
    ev, pos, got = [], 0, 0
    one = rng.random() < 0.3
    fm = rng.choice(FORMS)
    while pos < top:
        r = rng.random()
        if r < 0.12:
            ev.append(["poll", rng.choice(["none", "next"])])
        elif r < 0.2:
            ev.append(["data", pos, pos, fm])
        elif r < 0.2 + p_bad:
            ev.append(["bad", rng.choice(BADS)])
        elif r < 0.2 + p_bad + p_crash:
            ev.append([rng.choice(["close", "crash"]), int(2 ** rng.uniform(0, 8)), rng.choice(list(EXCS))])
        elif r < 0.3 + p_bad + p_crash:
            ev.append(["wait", round(rng.expovariate(1.0), 3)])
        else:
            k = 1 if one else rng.choice([1, 1, 2, 3, top])
            a, b = pos, min(top, pos + k)
            if rng.random() < p_fault:
                what = rng.choice(["lost", "dup", "late"])
                if what == "lost":
                    a = min(b, a + 1)
                elif what == "dup":
                    a = max(0, a - 1)
                elif b + 1 <= top:
                    ev.append(["data", b, b + 1, fm])
                    got += 1
            ev.append(["data", a, b, fm if rng.random() < 0.7 else rng.choice(FORMS)])
            got += b - a
            pos = b
            if got >= T + 2:
                break
    for _ in range(rng.choice([0, 0, 1, 2])):
        ev.append(rng.choice([["poll", "none"], ["data", 0, 0, fm], ["data", 0, 1, fm]] + ([["bad", rng.choice(BADS)]] if p_bad else [])))
    return {"src": src, "proba": rng.random() < 0.4, "ev": ev}


def gen_streams(rng, n, *a, **kw):
    """n streams; sometimes two consumers get data that is hard to tell apart at the same pace."""
    ss = [gen_stream(rng, *a, **{k: rng.choice(v) for k, v in kw.items()}) for _ in range(n)]
    if n > 1 and rng.random() < 0.3:
        ss[1] = dict(ss[0], src=dict(ss[0]["src"], twin=rng.choice([1, 2, 3, 3, 3])))
    return ss


def sized(v, form):
    """(object to send, the values it carries)"""
    if form == "int":
        v = np.where(np.isfinite(v), np.floor(v), 0).astype(int) if np.isfinite(v).all() else v
        return v, v.astype(float)
    if form == "f32":
        v = v.astype(np.float32)
        return v, v.astype(float)
    if form == "fortran":
        return np.asfortranarray(v), v
    if form == "list":
        return (v.tolist() if v.size else v), v
    if form == "view":
        big = np.full((v.shape[0], v.shape[1] * 2 + 1, v.shape[2]), 77.0)
        big[:, 0:2 * v.shape[1]:2] = v
        return big[:, 0:2 * v.shape[1]:2], v
    if form == "readonly":
        w = v.copy()
        w.flags.writeable = False
        return w, v
    return v.copy(), v


def bad_chunk(kind, v, d):
    n = v.shape[0]
    x = np.ones((n, 1, d)) * 5.0
    if kind == "rows-":
        return x[:-1] if n > 1 else np.ones((3, 1, d))
    if kind == "rows+":
        return np.concatenate([x, x])
    if kind == "feat+":
        return np.ones((n, 1, d + 1))
    if kind == "feat-":
        return np.ones((n, 2, d - 1)) if d > 1 else np.ones((n, 1, 0))
    if kind == "rank2":
        return np.ones((n, 1))
    if kind == "rank1":
        return np.ones((n,))
    if kind == "rank4":
        return np.ones((n, 1, d, 1))
    if kind == "scalar":
        return 3.5
    if kind == "ragged":
        return [[[1.0] * d]] * (n - 1) + [[[1.0] * d, [2.0] * (d + 1)]]
    if kind == "norows":
        return np.ones((0, 1, d))
    # series and features exchanged
    return np.ones((d, 1, n)) if d != n else np.ones((n, 1, d + 2))


class Offline:
    """early_predict on the prefix of one series, asked of an untouched copy of the fitted model."""

    def __init__(self, est, min_t):
        self.est, self.min_t = est, min_t
        self.memo = {}
        self.clean = core.Clean(self._answer)

    def _answer(self, what, blob, shape):
        X = np.frombuffer(blob, float).reshape(shape).copy()
        if what == "stop":
            return cat.outcome(lambda: [cmp.freeze(v) for v in self.est.predict_class_and_earliness(X)])
        return cat.outcome(lambda: [cmp.freeze(v) for v in getattr(self.est, "early_predict" + ("_proba" if what == "proba" else ""))(X)])

    def ask(self, what, X):
        X = np.ascontiguousarray(X, float)
        key = (what, X.shape, X.tobytes())
        if key not in self.memo:
            self.memo[key] = self.clean.call(what, X.tobytes(), X.shape)
        return self.memo[key]

    def close(self):
        self.clean.close()


def length(row):
    """Number of timestamps before the trailing missing ones."""
    k = len(row)
    while k and np.isnan(row[k - 1]).all():
        k -= 1
    return k


def isnan(v):
    return str(v) == "nan"


class Stream:
    def __init__(self, world, j, spec):
        self.w, self.j, self.spec = world, j, spec
        src = data.pad(data.series(spec["src"]))
        self.src = src
        self.n, _, self.d = src.shape
        self.log = np.empty((self.n, 0, self.d))
        self.proba = spec["proba"]
        self.gen = None
        self.dead = False
        self.buf = {}
        self.first_zero = {}
        self.seen = [dict() for _ in range(self.n)]
        self.noted = []

    def open(self):
        f = self.w.est.get_early_predict_proba_generator if self.proba else self.w.est.get_early_predict_generator
        self.gen = f(n_ts=self.n) if self.n > 1 or self.j % 2 else f()
        if self.log.shape[1]:
            self.send(self.log.copy(), "replayed log", self.log)

    # -- what the stream must answer now
    def check(self, out, what):
        w = self.w
        who = "stream %d (%d series%s), %s, %d timestamps received" % (self.j, self.n, ", probabilities" if self.proba else "", what, self.log.shape[1])
        if not (isinstance(out, tuple) and len(out) == 2):
            w.bad("wrong-answer", "%s: %r yielded" % (who, type(out).__name__))
        pred, delay = np.asarray(out[0]), np.asarray(out[1])
        if len(pred) != self.n or delay.shape != (self.n,):
            w.bad("wrong-answer", "%s: shapes %s %s yielded" % (who, pred.shape, delay.shape))
        for i in range(self.n):
            t = length(self.log[i])
            if t < w.min_t:
                if not (all(isnan(v) for v in np.ravel(pred[i])) and isnan(delay[i])):
                    w.bad("answer-before-min_t", "%s: series %d answered %r, %r with %d timestamps, min_t=%d" % (who, i, pred[i], delay[i], t, w.min_t))
                continue
            ref = w.off.ask("proba" if self.proba else "class", self.log[i:i + 1, :t])
            if ref[0] == "err":
                w.bad("no-offline-answer", "%s: the stream answered where early_predict raises %s" % (who, ref[1:]))
            rp, rd = ref[1]
            if self.proba:
                d = cmp.diff(np.asarray(pred[i], float), np.asarray(rp[0], float), rtol=1e-6)
            else:
                d = None if str(pred[i]) == str(rp[0]) or (not isinstance(rp[0], str) and float(pred[i]) == float(rp[0])) else "%r instead of %r" % (pred[i], rp[0])
            if d:
                w.bad("stream-differs", "%s: series %d %s: %s" % (who, i, "probabilities" if self.proba else "class", d))
            if float(delay[i]) != float(rd[0]):
                w.bad("stream-differs", "%s: series %d: delay %r instead of %r" % (who, i, float(delay[i]), float(rd[0])))
            if not 0 <= float(delay[i]) <= w.T - t or float(delay[i]) != int(delay[i]):
                w.bad("impossible-delay", "%s: series %d: delay %r after %d of %d timestamps" % (who, i, float(delay[i]), t, w.T))
            self.seen[i][t] = (pred[i], int(delay[i]))
        w.answers += 1
        self.noted.append((cmp.freeze(np.asarray(pred).astype(str)), np.asarray(delay, float)))

    def expected_error(self):
        """What early_predict raises for the whole prefix, if it does."""
        if self.log.shape[1] > self.w.T:
            return "ValueError"
        rows = [length(r) for r in self.log]
        refs = [self.w.off.ask("proba" if self.proba else "class", self.log[i:i + 1, :t]) for i, t in enumerate(rows) if t >= self.w.min_t]
        for r in refs:
            if r[0] == "err":
                return r[1]
        if self.proba and refs:
            widths = {np.shape(r[1][0])[1] for r in refs}
            if any(t < self.w.min_t for t in rows):
                widths.add(self.w.ncl)
            if len(widths) > 1:         # classifiers that saw different sets of classes
                return "ValueError"
        return None

    def send(self, obj, what, values, how="send"):
        """Returns False when the stream ended with the error early_predict raises too."""
        if values is not None and how == "send" and what != "replayed log":
            self.log = np.append(self.log, values, axis=1)
        err = self.expected_error()
        try:
            out = next(self.gen) if how == "next" else self.gen.send(obj)
        except Exception as e:          # noqa
            if isinstance(e, (Violation, Skip)):
                raise
            if err == type(e).__name__:
                self.dead = True
                self.w.ctx.tag("refused-like-offline")
                return False
            self.w.bad("stream-error", "stream %d: %s after %s, early_predict %s" % (self.j, core.short(e), what, "raises " + err if err else "answers"))
        if err:
            self.w.bad("stream-error", "stream %d: an answer after %s where early_predict raises %s" % (self.j, what, err))
        self.check(out, what)
        if self.w.smash:
            for v in out:
                v = np.asarray(v)
                if v.dtype.kind == "f" and v.flags.writeable:
                    v[...] = -777.0
        return True

    # -- events
    def step(self, e):
        w, ctx = self.w, self.w.ctx
        kind = e[0]
        if kind == "wait":
            w.sim.sleep(e[1])
        elif kind == "poll":
            self.send(None, "a poll", None, "send" if e[1] == "none" else "next")
        elif kind == "data":
            a, b = e[1], e[2]
            v = self.src[:, a:b]
            if e[3] == "buffer":
                obj = self.buf.setdefault(b - a, np.empty((self.n, b - a, self.d)))
                obj[...] = v
                vals = v.copy()
            else:
                obj, vals = sized(v, e[3])
            ctx.fault("reordered", int(a > self.pos))
            ctx.fault("duplicated", int(b > a and a < self.pos))
            self.pos = max(self.pos, b)
            keep = cmp.freeze(obj)
            self.send(obj, "timestamps %d..%d" % (a, b), vals)
            d = cmp.diff(obj, keep, exact=True)
            if d:
                w.bad("chunk-modified", "stream %d: the chunk was modified: %s" % (self.j, d))
            if isinstance(obj, np.ndarray) and obj.flags.writeable:
                obj[...] = -999
        elif kind == "bad":
            obj = bad_chunk(e[1], self.src, self.d)
            keep = cmp.freeze(obj)
            n0 = w.warned()
            self.send(obj, "a bad chunk (%s)" % e[1], None, "bad")
            new = [c for c in w.warnings[n0:] if c[0] == w.sim.current.tid]
            if not any(issubclass(c[1], RuntimeWarning) for c in new):
                w.bad("bad-chunk-silent", "stream %d: no RuntimeWarning for a bad chunk (%s, shape %s)" % (self.j, e[1], np.shape(obj) if e[1] != "ragged" else "ragged"))
            if cmp.diff(obj, keep, exact=True):
                w.bad("chunk-modified", "stream %d: the bad chunk was modified" % self.j)
            ctx.fault("bad-chunk-" + e[1])
        elif kind == "close":
            self.gen.close()
            ctx.fault("stream-closed")
            self.open()
        elif kind == "crash":
            w.sim.arm(e[1], EXCS[e[2]]("injected"), "line")
            try:
                self.gen.send(None)
                died = False
            except (Exception, KeyboardInterrupt):
                died = True
            finally:
                w.sim.disarm()
            if died:
                ctx.fault("stream-killed")
                self.gen.close()
                self.open()
        if w.bad_after_data(self):
            return

    def run(self):
        self.pos = 0
        self.open()
        for e in self.spec["ev"]:
            if self.dead:
                break
            self.step(e)
            self.w.events += 1

    def check_stop(self):
        """The first announced zero delay is where predict_class_and_earliness stops."""
        w = self.w
        for i in range(self.n):
            t = length(self.log[i])
            if t < w.T or not np.isfinite(self.log[i, :w.T]).all():
                continue
            ref = w.off.ask("stop", self.log[i:i + 1, :w.T])
            if ref[0] == "err":
                continue
            cl, stop = ref[1][0][0], int(ref[1][1][0])
            for k in sorted(self.seen[i]):
                if k > stop:
                    break
                p, dl = self.seen[i][k]
                if (dl == 0) != (k == stop):
                    w.bad("stop-differs", "stream %d series %d: delay %d announced at %d, predict_class_and_earliness stops at %d" % (self.j, i, dl, k, stop))
                if k == stop and not self.proba and str(p) != str(cl) and not (not isinstance(cl, str) and float(p) == float(cl)):
                    w.bad("stop-differs", "stream %d series %d: class %r at %d, predict_class_and_earliness says %r" % (self.j, i, p, k, cl))
            w.stops += 1

    def check_batch(self):
        """The whole prefix at once gives the same as series by series."""
        X = self.log[:, :min(self.w.T, self.log.shape[1])]
        if not X.shape[1] or not np.isfinite(X).all() or self.n < 2 or X.shape[1] < self.w.min_t:
            return
        what = "proba" if self.proba else "class"
        a = self.w.off.ask(what, X)
        bs = [self.w.off.ask(what, X[i:i + 1]) for i in range(self.n)]
        if a[0] == "err" or any(b[0] == "err" for b in bs):
            return
        for i, b in enumerate(bs):
            d = cmp.diff(a[1][0][i], b[1][0][0], rtol=1e-6) or cmp.diff(a[1][1][i], b[1][1][0])
            if d:
                self.w.bad("batch-differs", "early_predict of %d series, series %d alone: %s" % (self.n, i, d))


class World:
    def __init__(self, ctx, spec, claim, smash=False):
        self.ctx, self.spec, self.claim, self.smash = ctx, spec, claim, smash
        m = spec["model"]
        self.m = m
        self.est = cat.fit_or_skip(m)
        self.T = max(m["train"]["sz"])
        self.min_t = m["params"].get("min_t", 1)
        self.ncl = len(np.unique(cat.target(m, m["train"])))
        self.off = Offline(self.est, self.min_t)
        self.warnings = []
        self.answers = self.events = self.stops = 0

    def bad(self, kind, detail):
        raise Violation(kind, "%s: %s" % (self.m["est"], detail))

    def bad_after_data(self, stream):
        return False

    def warned(self):
        return len(self.warnings)

    def listen(self):
        """Record every warning with the simulated thread it is reported in."""
        def show(message, category, *a, **kw):
            self.warnings.append((self.sim.current.tid, category))
        warnings.resetwarnings()
        warnings.simplefilter("always")
        warnings.showwarning = show

    def play(self, extra=()):
        """All streams, each driven by its own simulated client."""
        self.streams = [Stream(self, j, s) for j, s in enumerate(self.spec["streams"])]

        def main():
            self.sim = self.ctx.sim_obj
            self.listen()
            with np.errstate(all="ignore"):
                fs = [s.run for s in self.streams] + list(extra)
                if len(fs) == 1:
                    fs[0]()
                    return
                ts = [self.sim.spawn(f, "client%d" % j) for j, f in enumerate(fs)]
                self.sim.join(ts)
            for t in ts:
                if t.exc is not None:
                    raise t.exc
        self.ctx.sim(main)
        for s in self.streams:
            for v in s.noted:
                self.ctx.note(*v)
            self.ctx.sig(s.n, s.proba, *[tuple(e) for e in s.spec["ev"] if e[0] != "wait"])
