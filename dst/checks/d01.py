"""D01: a saved model survives restart and answers exactly like the original."""
import os
from .. import catalog as cat, cmp, core, disk, models
from ..core import Skip, Violation

DISK = True
KERAS = True
prepare = cat.warm_keras
FAMS = models.FAMS + ["shapelet"]
RUNS = {"quick": 600, "thorough": 40000}
RULE = ("a seeded history of 3-9 operations on one or two estimator objects of one class and up to three paths (fit, refit with other "
        "hyper-parameters and data, query, save in JSON/pickle/HDF5 to a used or unused path, restart = load of a path in a pristine process "
        "followed by saving and loading the loaded model again) checked against a map path -> last acknowledged save; "
        "non-trivial = at least one saved model was loaded in another process; distinct = (estimator, parameters, operations)")
REAL = ["tslearn serialization code", "json, pickle, h5py and the HDF5 library", "file system (scratch directory)"]
STUB = ["numba JIT (kernels run as Python)", "process restart: a pristine forked process", "disk seam (no faults injected here)"]
ASSUMPTIONS = ["JSON may return sequences as arrays; values are compared, not container types",
               "a save that raises is not an acknowledged save"]


def gen(rng, i, tier):
    f = FAMS[i % len(FAMS)]
    ms = [cat.gen(rng, f, rng.random() < 0.1)]
    for _ in range(rng.choice([0, 1, 2])):
        m = models.variant(rng, f, ms[0]["est"])
        if m:
            ms.append(m)
    if rng.random() < 0.12 and any(big(m) for m in ms):     # files of more than a few blocks
        for m in ms:
            if big(m):
                m["train"]["sz"] = [rng.choice([50, 90])] * 30
                m["qds"] = [dict(q, sz=m["train"]["sz"][:len(q["sz"])]) for q in m["qds"]]
    ops = []
    used = []
    formats = ["json", "pickle"] if f == "shapelet" else models.FORMATS     # LearningShapelets refuses HDF5
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < 0.25:
            ops.append(["fit", rng.randrange(2), rng.randrange(len(ms))])
        elif r < 0.7 or not used:
            p, fmt = rng.randrange(3), rng.choice(formats)
            if used and rng.random() < 0.35:
                p, fmt = rng.choice(used)
            ops.append(["save", rng.randrange(2), p, fmt])
            used.append((p, fmt))
        elif r < 0.8:
            ops.append(["query", rng.randrange(2), rng.randrange(12)])
        else:
            p, fmt = rng.choice(used)
            ops.append(["load", p, fmt])
    return {"models": ms, "ops": ops, "again": [rng.choice(formats)], "dseed": rng.randrange(1 << 20)}


def big(m):
    """May be fitted on many values in reasonable time."""
    return m["params"].get("metric") in ("euclidean", "sqeuclidean", "cityblock") or m["est"] in ("PiecewiseAggregateApproximation", "KShape")


def run(spec, ctx):
    ms = spec["models"]
    d = disk.Disk(spec["dseed"])
    clean = core.Clean(models.load_view)
    try:
        ests = [cat.fit_or_skip(ms[0]), cat.fit_or_skip(ms[-1])]
        of = [ms[0], ms[-1]]
        saved = {}              # path -> (view, model spec, format)
        loads = 0

        def path(p, fmt):
            return d.path("m%d.%s" % (p, fmt))

        def load(p, fmt):
            nonlocal loads
            got = saved.get(path(p, fmt))
            if got is None:
                return
            want, m = got
            r = clean.call(path(p, fmt), fmt, m, spec["again"])
            if r["first"][0] == "err":
                raise Violation("load-fails", "%s saved as %s cannot be loaded: %s: %s" % (m["est"], fmt, r["first"][1], r["first"][2]))
            x = models.differ(r["first"][1], want)
            if x:
                raise Violation("loaded-differs", "%s saved as %s: %s" % (m["est"], fmt, x))
            for f2, o in r["again"].items():
                if o[0] == "err":
                    raise Violation("resave-fails", "%s loaded from %s cannot be saved as %s and loaded again: %s: %s" % (m["est"], fmt, f2, o[1], o[2]))
                x = models.differ(o[1], want)
                if x:
                    raise Violation("loaded-differs", "%s saved as %s, loaded and saved as %s: %s" % (m["est"], fmt, f2, x))
            loads += 1
            ctx.tag("load-" + fmt)

        for op in spec["ops"]:
            if op[0] == "fit":
                k = op[1]
                m = ms[op[2] % len(ms)]
                ests[k].set_params(**cat.build(m).get_params(deep=False))
                o = cat.outcome(lambda: cat.fit(ests[k], m) and None)
                if o[0] == "err":
                    raise Skip("refit rejected")
                of[k] = m
            elif op[0] == "query":
                m = of[op[1]]
                if m["queries"]:
                    q = m["queries"][op[2] % len(m["queries"])]
                    cat.outcome(lambda: cat.query(ests[op[1]], q, cat.xdata(m["qds"][q["x"]]), cat.target(m, m["qds"][q["x"]])))
            elif op[0] == "save":
                k, p, fmt = op[1:]
                est, m, fn = ests[k], of[k], path(p, fmt)
                want = models.view(est, m)
                before = cat.snapshot(est)
                there = os.path.exists(fn)
                data = open(fn, "rb").read() if there else None
                o = cat.outcome(lambda: getattr(est, "to_" + fmt)(fn))
                x = cat.snap_diff(est, before)
                if x:
                    raise Violation("save-changes-model", "%s.to_%s: %s" % (m["est"], fmt, x))
                if fmt == "hdf5" and there:
                    if o[0] == "ok" or open(fn, "rb").read() != data:
                        raise Violation("hdf5-overwritten", "%s.to_hdf5 %s an existing file" % (m["est"], "accepted" if o[0] == "ok" else "changed"))
                    continue
                if o[0] == "ok":
                    saved[fn] = (want, m)
                    ctx.tag("save-" + fmt)
                else:
                    saved.pop(fn, None)
                    if not there and os.path.exists(fn):
                        os.unlink(fn)
                    raise Violation("save-fails", "%s.to_%s: %s: %s" % (m["est"], fmt, o[1], o[2]))
                if d.open_files():
                    raise Violation("handle-left-open", "%s.to_%s leaves %s open" % (m["est"], fmt, d.open_files()))
            else:
                load(op[1], op[2])
            ctx.sig(*op)
        for fn in sorted(saved):
            load(int(os.path.basename(fn)[1]), fn.rsplit(".", 1)[1])
        ctx.note(d.hash(), loads, sorted(os.path.basename(f) for f in saved))
        ctx.tag(ms[0]["est"])
        ctx.sig(ms[0]["est"], sorted((k, str(v)) for m in ms for k, v in m["params"].items()))
        ctx.nontrivial = loads >= 1
    finally:
        clean.close()
        d.close()


SHRINK_LISTS = ["ops"]


def shrink(s):
    if len(s["models"]) > 1:
        yield dict(s, models=s["models"][:1])
    for mm in cat.shrink_model(s["models"][0]):
        yield dict(s, models=[mm] + s["models"][1:])
