"""N04: loaders sharing a cache directory do not corrupt each other."""
import os
import shutil

from .. import core, dsets, kernel, net
from ..core import Violation

DISK = True
RUNS = {"quick": 700, "thorough": 60000}
RULE = ("2-4 simulated threads, each with its own loader or a common one (most with caching, some refreshing) on one cache directory, make 1-3 "
        "loads, constructions and listings of few datasets under a seeded schedule that switches at tslearn lines, network pieces, file "
        "system calls and inside every file copy, with network faults on some requests, from an empty, filled or partial cache directory; "
        "every result is the exact data or (after a fault, or while another loader refreshes that dataset) the documented failure; afterwards "
        "the cache serves exact data offline; non-trivial = at least two thread switches; distinct = (thread programs, interleaving hash)")
REAL = ["tslearn.datasets", "urllib, http.client, zipfile, shutil, pathlib, NumPy and SciPy parsers", "file system (scratch directory)"]
STUB = ["sockets (in-memory HTTP server)", "OS thread scheduler (simulated); processes sharing the directory are represented by threads with "
        "separate loader objects", "clock"]
ASSUMPTIONS = ["the archive does not change while loaders overlap", "rename, mkdir and unlink are atomic (one step of the schedule)",
               "while one loader replaces a cached dataset on request (use_cache=False), or an unusable entry of the cache directory, another one "
               "may get the documented failure"]


def gen(rng, i, tier):
    w = dsets.gen_world(rng)
    w["big"] = False
    names = rng.sample(dsets.NAMES, rng.choice([1, 1, 2, 3]))
    refresh = rng.random() < 0.35
    th = []
    listing = rng.random() < 0.15           # loaders constructed while others list the datasets
    for _ in range(rng.choice([2, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.uniform(0.75, 1.0) if listing else rng.random()
            if k < 0.75:
                ops.append({"op": "load", "name": rng.choice(names)})
            elif k < 0.87:
                ops.append({"op": "new"})
            else:
                ops.append({"op": rng.choice(["cached", "lists"])})
        th.append({"ops": ops, "use_cache": not (refresh and rng.random() < 0.5), "shared": rng.random() < 0.3})
    faults = []
    if rng.random() < 0.35:
        faults = [None] * rng.randint(0, 3) + [dsets.gen_net(rng, *rng.choice([(net.HARD + net.SOFT, ".zip"), (net.HARD + net.SOFT, ".zip"), (net.HARD, "summary")])) for _ in range(rng.choice([1, 1, 2]))]
    return {"world": w, "threads": th, "faults": faults, "before": {n: rng.choice(["none", "none", "none", "cached", "empty", "partial", "file"]) for n in names},
            "knobs": {}, "scheds": [core.rand_sched(rng, ("rand", "rand", "rand", "pct"))]}


def points():
    """Every file-system call may be followed or preceded by a switch; copies happen in pieces."""
    def wrap(f):
        def g(*a, **k):
            s = kernel._in_sim()
            if s is not None:
                s.point()
            return f(*a, **k)
        return g
    for n in ("rename", "replace", "unlink", "remove", "rmdir", "mkdir", "listdir", "scandir", "stat", "link", "symlink"):
        setattr(os, n, wrap(getattr(os, n)))

    def copyfileobj(src, dst, length=0):
        s = kernel._in_sim()
        while True:
            b = src.read(97)
            if not b:
                break
            dst.write(b)
            if s is not None:
                dst.flush()
                s.point()
    shutil.copyfileobj = copyfileobj


def run(spec, ctx):
    W = dsets.World(spec, ctx, {"N04"})
    try:
        _run(spec, ctx, W)
    finally:
        W.close()


def _run(spec, ctx, W):
    from tslearn.datasets import UCR_UEA_datasets
    world = spec["world"]
    first = UCR_UEA_datasets(root_dir=W.root)
    for n, b in spec["before"].items():
        p = os.path.join(W.data, n)
        if b == "cached":
            first.load_dataset(n)
        elif b == "file":
            open(p, "w").close()
        elif b != "none":
            os.mkdir(p)
            if b == "partial":
                open(os.path.join(p, "readme.txt"), "w").close()
    want = {n: dsets.expected(n, 0, world) for n in dsets.NAMES}
    lists = dsets.lists_expected(world)
    common = UCR_UEA_datasets(root_dir=W.root)
    loaders = [common if t["shared"] and t["use_cache"] else UCR_UEA_datasets(use_cache=t["use_cache"], root_dir=W.root) for t in spec["threads"]]
    refreshed = {o["name"] for t in spec["threads"] if not t["use_cache"] for o in t["ops"] if o["op"] == "load"}
    fd0 = W.d.open_files()
    W.net.plan = [dict(f) if f else None for f in spec["faults"]]
    f0 = dict(W.net.fired)
    points()
    done = []

    def caller(k):
        L = loaders[k]

        def f():
            for o in spec["threads"][k]["ops"]:
                try:
                    if o["op"] == "load":
                        r = L.load_dataset(o["name"])
                    elif o["op"] == "new":
                        UCR_UEA_datasets(root_dir=W.root)
                        r = None
                    elif o["op"] == "cached":
                        r = L.list_cached_datasets()
                    else:
                        r = L.list_univariate_datasets(), L.list_multivariate_datasets()
                    done.append((k, o, r, None))
                except Exception as e:      # noqa
                    done.append((k, o, None, core.short(e)))
        return f

    def main():
        s = ctx.sim_obj
        ts = [s.spawn(caller(k), "loader%d" % k) for k in range(len(loaders))]
        s.join(ts)
        for t in ts:
            if t.exc is not None:
                raise t.exc
    ctx.sim(main)
    W.net.plan = []
    fault = False
    for k, n in W.net.fired.items():
        if n > f0.get(k, 0):
            ctx.fault("net-" + k, n - f0.get(k, 0))
            fault = fault or k not in net.NOISE
    for k, o, r, e in done:
        who = "thread %d of %d (use_cache=%s): %s" % (k, len(loaders), spec["threads"][k]["use_cache"], o)
        if e is not None:
            raise Violation("concurrent-call-raises", "%s raised %s" % (who, e))
        if o["op"] == "load":
            w = want[o["name"]]
            if w is None or dsets.is_none4(r):
                if not dsets.is_none4(r):
                    raise Violation("concurrent-load-wrong", "%s returned data of an unsupported dataset" % who)
                if w is not None and not fault and o["name"] not in refreshed and spec["before"][o["name"]] not in ("partial", "file"):
                    raise Violation("concurrent-load-fails", "%s failed without any fault (loads of other threads: %s)" % (who, spec["threads"]))
                ctx.tag("load-none")
            else:
                x = dsets.equals(r, w)
                if x:
                    raise Violation("concurrent-load-wrong", "%s: %s" % (who, x))
                ctx.tag("load-data")
        elif o["op"] == "cached":
            bad = [n for n in r if want.get(n) is None and world["layout"].get(n) != "broken"]
            if bad:
                raise Violation("phantom-listed", "%s lists %s" % (who, bad))
        elif o["op"] == "lists" and r != lists:
            raise Violation("list-altered", "%s returns %s instead of %s" % (who, r, lists))
        ctx.note(o["op"], repr(r)[:50])
    # quiescence
    loaded = {o["name"] for k, o, r, e in done if o["op"] == "load" and want[o["name"]] is not None and not dsets.is_none4(r)}
    for n in sorted(spec["before"]):
        if want[n] is None:
            continue
        L = UCR_UEA_datasets(root_dir=W.root)
        n0 = len(W.net.log)
        r = L.load_dataset(n)
        if dsets.is_none4(r) or dsets.equals(r, want[n]):
            raise Violation("cache-damaged", "afterwards load_dataset(%r) returns %s" % (n, "failure" if dsets.is_none4(r) else dsets.equals(r, want[n])))
        if len(W.net.log) > n0 and n in loaded and not fault and n not in refreshed and spec["before"][n] not in ("partial", "file"):
            raise Violation("cache-lost", "%s had been loaded but had to be downloaded again" % n)
        W.net.default = {"kind": "dns"}
        r = UCR_UEA_datasets(root_dir=W.root).load_dataset(n)
        W.net.default = None
        if dsets.is_none4(r) or dsets.equals(r, want[n]):
            raise Violation("cache-damaged", "afterwards, offline, load_dataset(%r) fails or differs" % n)
    left = sorted(W.entries() - {"data home", "UCR_UEA/summaryMultivariate.csv", "UCR_UEA/summaryUnivariate.csv"} - {"UCR_UEA/" + n for n in dsets.NAMES})
    if left:
        raise Violation("leftover-files", "left behind: %s" % left)
    if W.d.open_files() != fd0:
        raise Violation("file-left-open", str(W.d.open_files()))
    ctx.sig([[o["op"] for o in t["ops"]] + [t["use_cache"], t["shared"]] for t in spec["threads"]], ctx.ilogs[-1])


SHRINK_LISTS = ["threads", "faults"]


def shrink(s):
    for k, t in enumerate(s["threads"]):
        if len(t["ops"]) > 1:
            for q in range(len(t["ops"])):
                yield dict(s, threads=s["threads"][:k] + [dict(t, ops=t["ops"][:q] + t["ops"][q + 1:])] + s["threads"][k + 1:])
    for n, b in s["before"].items():
        if b != "none":
            yield dict(s, before=dict(s["before"], **{n: "none"}))
