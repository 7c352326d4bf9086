"""D04: text export of datasets is lossless and its failures are reported."""
import os
import random
import numpy as np
from .. import cmp, core, disk
from ..core import Violation
from .d02 import attempt

DISK = True
RUNS = {"quick": 1500, "thorough": 150000}
RULE = ("a seeded history of 3-10 saves and loads of seeded datasets (1-6 series, 1-40 timestamps, 1-3 features, equal or different lengths, "
        "arrays, padded arrays or lists, float64/float32/integer, magnitudes from subnormal to the largest double, infinities, interior NaN) on "
        "up to two paths, each under a seeded disk fault (error, short or torn write, full disk, failing open, close or read, short reads), "
        "checked against a map path -> last acknowledged dataset, with retries after healing and loads by a pristine process; "
        "non-trivial = a fault took effect or a saved dataset was loaded; distinct = (dataset shapes, operations, faults hit)")
REAL = ["tslearn.utils text functions", "NumPy text conversion", "Python text I/O", "file system (scratch directory)"]
STUB = ["disk errors injected by an LD_PRELOAD seam below Python", "process restart: a pristine forked process"]
ASSUMPTIONS = ["the text format has no end mark: files cut between two calls are not claimed to be detected", "default number format"]


def gen_data(rng):
    n, d = rng.randint(1, 6), rng.choice([1, 1, 1, 2, 3])
    same = rng.random() < 0.4
    top = rng.choice([1, 2, 3, 5, 9, 40])
    lens = [top if same else rng.randint(1, top) for _ in range(n)]
    return {"lens": lens, "d": d, "seed": rng.randrange(1 << 20), "as": rng.choice(["padded", "list", "arrays", "padded"]),
            "mag": rng.choice(["unit", "unit", "huge", "tiny", "mixed", "int", "f32", "special"])}


def data(s):
    r = random.Random(s["seed"])

    def val():
        m = s["mag"]
        x = r.uniform(-1, 1)
        if m == "huge":
            return x * 1.7e308
        if m == "tiny":
            return x * 5e-310
        if m == "mixed":
            return x * 10.0 ** r.randint(-300, 300)
        if m == "int":
            return float(r.randint(-10 ** 15, 10 ** 15))
        if m == "special":
            return r.choice([0.0, -0.0, float("inf"), -float("inf"), 5e-324, 1.7976931348623157e308, 0.1, 1 / 3, x, 2.0 ** 53 + 2])
        return x
    out = []
    for n in s["lens"]:
        a = np.array([[val() for _ in range(s["d"])] for _ in range(n)])
        if s["mag"] == "special" and n > 2 and r.random() < 0.5:
            a[r.randrange(1, n - 1)] = np.nan
        out.append(a)
    if s["mag"] == "f32":
        out = [a.astype(np.float32) for a in out]
    if s["mag"] == "int" and r.random() < 0.5:
        out = [a.astype(np.int64) for a in out]
    return out


def arg(s):
    a = data(s)
    if s["as"] == "padded":
        from tslearn.utils import to_time_series_dataset
        return to_time_series_dataset(a)
    if s["as"] == "list":
        return [x.tolist() for x in a]
    return a


def compare(got, s):
    """None, or how the loaded array differs from the series of s."""
    want = data(s)
    got = np.asarray(got)
    if got.ndim != 3 or got.shape[0] != len(want) or got.shape[2] != s["d"]:
        return "shape %s for %d series of lengths %s and %d features" % (got.shape, len(want), s["lens"], s["d"])
    if got.shape[1] != max(s["lens"]):
        return "%d timestamps instead of %d" % (got.shape[1], max(s["lens"]))
    for i, w in enumerate(want):
        g = got[i]
        if not np.isnan(g[len(w):]).all():
            return "series %d has values after its end" % i
        w = np.asarray(w, dtype=float)
        g = g[:len(w)]
        ok = (g == w) | (np.isnan(g) & np.isnan(w))
        if not ok.all():
            k = tuple(int(v) for v in np.argwhere(~ok)[0])
            return "series %d value %s: %r instead of %r" % (i, k, float(g[k]), float(w[k]))
        if not (np.signbit(g) == np.signbit(w))[~np.isnan(w)].all():
            return "series %d: sign of zero" % i
    return None


def gen(rng, i, tier):
    ds = [gen_data(rng) for _ in range(rng.randint(1, 3))]
    ops = []
    for _ in range(rng.randint(3, 10)):
        if rng.random() < 0.55:
            f = None
            if rng.random() < 0.6:
                r = rng.random()
                if r < 0.3:
                    f = {"cap": rng.choice([0.0, 0.3, rng.random(), 0.95, 0.999])}
                else:
                    op = rng.choice(["write", "write", "close", "open", "modify", "any"])
                    f = {"op": op, "at": round(rng.random(), 4), "act": rng.choice(["errno", "short", "torn"]) if op == "write" else "errno",
                         "err": rng.choice(["EIO", "ENOSPC", "EDQUOT"]), "sticky": rng.random() < 0.5, "arg": rng.randrange(1000)}
            ops.append(["save", rng.randrange(2), rng.randrange(len(ds)), f, rng.random() < 0.7])
        else:
            f = None
            if rng.random() < 0.6:
                act = rng.choice(["errno", "errno", "short"])
                f = {"op": "read" if act == "short" else rng.choice(["read", "read", "open", "close", "any"]), "nth": rng.choice([1, 1, 2, 3]),
                     "act": act, "err": rng.choice(["EIO", "EACCES", "EMFILE"]), "sticky": rng.random() < 0.5, "arg": rng.randrange(1000)}
            ops.append(["load", rng.randrange(2), f])
    return {"data": ds, "ops": ops, "dseed": rng.randrange(1 << 20)}


def load_in(path):
    from tslearn.utils import load_time_series_txt
    try:
        return ("ok", load_time_series_txt(path))
    except Exception as e:      # noqa
        return ("err", core.short(e))


def run(spec, ctx):
    from tslearn.utils import load_time_series_txt, save_time_series_txt
    d = disk.Disk(spec["dseed"])
    clean = core.Clean(load_in)
    saved = {}
    hits = loads = 0
    try:
        def dry(s):
            p = d.path("dry.txt")
            d.heal()
            for k, n in enumerate(["write", "close", "open", "modify", "any"]):
                d.rule(k, n, 1 << 30, "errno")
            o = attempt(lambda: save_time_series_txt(p, arg(s)), lambda: None)
            out = {n: d.seen(k) for k, n in enumerate(["write", "close", "open", "modify", "any"])}
            d.heal()
            if o[0] != "ok":
                raise Violation("save-fails", "without any fault: %s: %s for %s" % (o[1], o[2], s))
            out["bytes"] = os.path.getsize(p)
            os.unlink(p)
            return out

        def verify(fn, how):
            s = saved[fn]
            r = clean.call(fn)
            if r[0] == "err":
                raise Violation("incomplete-save-acknowledged", "%s: the load fails: %s" % (how, r[1]))
            x = compare(r[1], s)
            if x:
                raise Violation("incomplete-save-acknowledged" if "fault" in how else "not-lossless", "%s: %s" % (how, x))

        for op in spec["ops"]:
            fn = d.path("d%d.txt" % op[1])
            if op[0] == "save":
                s, f = spec["data"][op[2]], op[3]
                dr = dry(s)
                f0 = d.fired()
                if f and "cap" in f:
                    d.capacity(int(dr["bytes"] * f["cap"]))
                elif f:
                    n = max(1, dr[f["op"]])
                    d.rule(0, f["op"], 1 + min(n - 1, int(f["at"] * n)), f["act"], f["err"], f["sticky"], f["arg"])
                a = arg(s)
                before = cmp.freeze(a)
                left = []
                o = attempt(lambda: save_time_series_txt(fn, a), lambda: left.extend(d.open_files()))
                n = d.fired() - f0
                d.heal()
                if n:
                    hits += 1
                    ctx.fault("full-disk" if "cap" in f else "%s-%s" % (f["op"], f["act"]), n)
                if left:
                    raise Violation("handle-left-open", "save_time_series_txt leaves %s open" % left)
                if cmp.diff(cmp.freeze(a), before, exact=True):
                    raise Violation("argument-modified", "save_time_series_txt changed its dataset")
                if o[0] == "ok":
                    saved[fn] = s
                    verify(fn, "saved under fault %s" % f if n else "saved without errors")
                elif not n:
                    raise Violation("save-fails", "without any fault: %s: %s for %s" % (o[1], o[2], s))
                else:
                    saved.pop(fn, None)
                    if op[4]:
                        o = attempt(lambda: save_time_series_txt(fn, a), lambda: None)
                        if o[0] == "err":
                            raise Violation("retry-fails", "after a failed save under %s the retry fails: %s" % (f, o[2]))
                        saved[fn] = s
                        verify(fn, "retried after a failure")
                ctx.sig("save", str(s), str(f), o[0])
            else:
                if fn not in saved:
                    continue
                f = op[2]
                f0 = d.fired()
                if f:
                    d.rule(0, f["op"], f["nth"], f["act"], f["err"], f["sticky"], f["arg"])
                got, left = [], []
                o = attempt(lambda: got.append(load_time_series_txt(fn)), lambda: left.extend(d.open_files()))
                n = d.fired() - f0
                d.heal()
                if n:
                    hits += 1
                    ctx.fault("load-%s-%s" % (f["op"], f["act"]), n)
                if left:
                    raise Violation("handle-left-open", "load_time_series_txt leaves %s open" % left)
                if got:
                    x = compare(got[0], saved[fn])
                    if x:
                        raise Violation("wrong-load", "loaded under %s: %s" % (f, x))
                    loads += 1
                elif not n:
                    raise Violation("load-fails", "without any fault: %s: %s" % (o[1], o[2]))
                ctx.sig("load", str(f), o[0])
        ctx.note(d.hash(), hits, loads)
        ctx.tag("loads", loads)
        ctx.nontrivial = bool(hits or loads)
    finally:
        clean.close()
        d.close()


SHRINK_LISTS = ["ops"]


def shrink(s):
    for k, x in enumerate(s["data"]):
        for n in (1, 2):
            if len(x["lens"]) > n:
                yield dict(s, data=s["data"][:k] + [dict(x, lens=x["lens"][:n])] + s["data"][k + 1:])
        if x["d"] > 1:
            yield dict(s, data=s["data"][:k] + [dict(x, d=1)] + s["data"][k + 1:])
