"""H03: hyper-parameters and caller-owned objects are never modified."""
import os
import shutil
import tempfile
import numpy as np
from .. import catalog as cat, cmp, core, data, work
from ..core import Skip, Violation

RUNS = {"quick": 2000, "thorough": 80000}
KERAS = True
prepare = cat.warm_keras
RULE = ("either a seeded history of 3-8 operations on one estimator (fit, fit with weights, rejected fit, fit or query cut short by an "
        "exception injected at a source line, query, query whose result is overwritten, save, clone) or 2-5 public function calls, with deep "
        "comparison of get_params() and of every object handed in after each operation; non-trivial = at least two operations ran; distinct = "
        "(estimator or functions, parameters, operation sequence)")
REAL = ["all tslearn estimators, metric, barycenter, preprocessing and utility functions", "scikit-learn bases", "keras/torch"]
STUB = ["numba JIT (kernels run as Python)", "caller: a simulated client owning all arguments", "exceptions injected at tslearn lines"]
ASSUMPTIONS = ["modification is judged by value: replacing a hyper-parameter by an equal object is not reported"]
FAMS = ["knn", "fn", "kmeans", "svc", "fn", "kernelkmeans", "knnc", "fn", "early", "prep", "fn", "kshape", "varima", "fn", "dbscan", "knnr",
        "fn", "piece", "prep", "piece", "mprofile", "fn", "mlpc", "kmeans", "fn", "svr", "kernelkmeans", "knnc", "shapelet"]
EXCS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError}
WEIGHTS = {"KernelKMeans", "TimeSeriesSVC", "TimeSeriesSVR"}


def gen(rng, i, tier):
    f = FAMS[i % len(FAMS)]
    if f == "fn":
        dss = work.gen_data(rng)
        return {"kind": "fn", "dss": dss, "ops": [work.gen_job(rng, len(dss)) for _ in range(rng.randint(2, 5))]}
    m = cat.gen(rng, f, rng.random() < 0.15)
    ops = [["fit", 0]] if rng.random() < 0.8 else []
    for _ in range(rng.randint(3, 7)):
        r = rng.random()
        if r < 0.16:
            ops.append(["fit", int(rng.random() < 0.4)])
        elif r < 0.28:
            ops.append(["bad", rng.choice(["inf", "empty", "str", "nan", "short", "none", "y", "one", "few", "few"])])
        elif r < 0.42:
            ops.append(["cutfit", int(2 ** rng.uniform(0, 11)), rng.choice(list(EXCS))])
        elif r < 0.62:
            ops.append(["query", rng.randrange(20)])
        elif r < 0.8:
            ops.append(["smash", rng.randrange(20)])
        elif r < 0.9:
            ops.append(["save", rng.choice(["json", "pickle", "hdf5"])])
        else:
            ops.append(["clone"])
    if rng.random() < 0.5:
        ops += [["fit", 0], ["query", rng.randrange(20)], ["query", rng.randrange(20)]]
    return {"kind": "est", "model": m, "ops": ops, "scheds": [{"mode": "sync", "seed": 0}]}


def smash(v):
    """Overwrite everything writable in a returned value."""
    if isinstance(v, np.ndarray):
        try:
            if v.dtype.kind == "f":
                v[...] = -12345.5
            elif v.dtype.kind in "iu":
                v[...] = 0
            elif v.dtype.kind in "US":
                v[...] = "?"
        except ValueError:
            pass
    elif isinstance(v, (list, tuple)):
        for x in v:
            smash(x)
        if isinstance(v, list):
            v.clear()
    elif isinstance(v, dict):
        for x in v.values():
            smash(x)


def run(spec, ctx):
    if spec["kind"] == "fn":
        return run_fn(spec, ctx)
    m = spec["model"]
    owned = {k: cat.dec(v) for k, v in m["params"].items()}
    est = cat.cls(m["est"])(**owned)
    X, y = cat.xdata(m["train"]), cat.target(m, m["train"])
    qX = [cat.xdata(d) for d in m["qds"]]
    qy = [cat.target(m, d) for d in m["qds"]]
    w = np.linspace(0.5, 1.5, len(m["train"]["sz"]))
    args = {"parameters": owned, "X": X, "y": y, "query X": qX, "query y": qy, "sample_weight": w}
    before = cmp.freeze(args)
    pbefore = cmp.freeze(est.get_params(deep=False))
    fitted = False
    n = 0
    held = []

    def overwritten(what):
        for name, live, keep in held:
            d = cmp.diff(live, keep, exact=True)
            if d:
                raise Violation("result-overwritten", "%s: what %s had returned was changed by a later %s: %s" % (m["est"], name, what, d))
    for step, op in enumerate(spec["ops"]):
        what = op[0]
        if what == "fit":
            if op[1] and m["est"] in WEIGHTS:
                o = cat.outcome(lambda: est.fit(X, y, sample_weight=w) and None)
            else:
                o = cat.outcome(lambda: cat.fit(est, m, X=X, y=y) and None)
            fitted = o[0] == "ok"
        elif what == "bad":
            if op[1] == "y":
                yy = None if y is None else y[:-1]
                o = cat.outcome(lambda: cat.fit(est, m, X=X, y=yy) and None)
            elif op[1] in ("one", "few"):       # fewer series than clusters or neighbours
                k = 1 if op[1] == "one" else 2
                o = cat.outcome(lambda: cat.fit(est, m, X=X[:k], y=None if y is None else y[:k]) and None)
            else:
                BX = cat.xdata(dict(m["train"], bad=op[1], form="array"))
                bb = cmp.freeze(BX)
                o = cat.outcome(lambda: cat.fit(est, m, X=BX, y=y) and None)
                d = cmp.diff(BX, bb, exact=True)
                if d:
                    raise Violation("input-modified", "%s.fit changed the dataset it rejected: %s" % (m["est"], d))
            ctx.fault("bad-fit", int(o[0] == "err"))
            fitted = False
        elif what == "cutfit":
            def cut():
                ctx.sim_obj.arm(op[1], EXCS[op[2]]("injected"), "line")
                try:
                    cat.fit(est, m, X=X, y=y)
                except (Exception, KeyboardInterrupt) as e:
                    return core.short(e)
                finally:
                    ctx.sim_obj.disarm()
            ctx.note(ctx.sim(cut))
            fitted = False
        elif what in ("query", "smash"):
            if not fitted or not m["queries"]:
                continue
            q = m["queries"][op[1] % len(m["queries"])]

            def ask():
                return cat.outcome(lambda: cat.query(est, q, qX[q["x"]], qy[q["x"]]))
            o = ask()
            if o[0] == "ok" and what == "query":
                held.append((q["m"], o[1], cmp.freeze(o[1])))
                other = cat.xdata(dict(m["qds"][q["x"]], seed=m["qds"][q["x"]]["seed"] + 1))
                cat.outcome(lambda: cat.query(est, q, other, qy[q["x"]]))
                overwritten(q["m"])
                d = cat.same(ask(), ("ok", held[-1][2]), **core.NOISE)
                if d:
                    raise Violation("not-repeatable", "%s.%s asked twice: %s" % (m["est"], q["m"], d))
            if what == "smash" and o[0] == "ok":
                held.clear()        # results may be views of one array of the caller
                keep = cmp.freeze(o)
                snap = cat.snapshot(est)
                smash(o[1])
                d = cat.snap_diff(est, snap)
                if d:
                    raise Violation("result-aliases-model", "%s: changing what %s returned: %s" % (m["est"], q["m"], d))
                # the result may be the caller's own array (documented pass-through), restore the caller's data
                qX = cmp.freeze(before["query X"])
                args["query X"] = qX
                d = cat.same(ask(), keep, **core.NOISE)
                if d:
                    raise Violation("result-aliases-model", "%s.%s changed after its earlier result was overwritten: %s" % (m["est"], q["m"], d))
        elif what == "save":
            if not fitted or not hasattr(est, "to_json"):
                continue
            tmp = tempfile.mkdtemp(prefix="dst-")
            try:
                o = cat.outcome(lambda: getattr(est, "to_" + op[1])(os.path.join(tmp, "m")))
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            ctx.tag("save-" + o[0])
        else:
            from sklearn.base import clone
            clone(est)
        n += 1
        ctx.sig(what, *op[1:])
        overwritten(what)
        when = "%s: operation %d (%s)" % (m["est"], step, what if what not in ("query", "smash") else q["m"])
        d = cmp.diff(est.get_params(deep=False), pbefore, exact=True)
        if d:
            raise Violation("params-changed", "%s: get_params%s" % (when, d))
        for k in args:
            d = cmp.diff(args[k], before[k], exact=True)
            if d:
                raise Violation("input-modified", "%s changed the caller's %s%s" % (when, k, d))
    ctx.tag(m["est"])
    ctx.sig(m["est"], sorted((k, str(v)) for k, v in m["params"].items()))
    ctx.nontrivial = n >= 2


def run_fn(spec, ctx):
    datasets = [data.make(d) for d in spec["dss"]]
    before = cmp.freeze(datasets)
    for j in spec["ops"]:
        ex = work.prepare_extra(j, datasets)
        eb = cmp.freeze(ex)
        live = cat.outcome(lambda: work.run_job(j, datasets, ex))
        o = cmp.freeze(live)
        for name, a, b in (("dataset", datasets, before), ("argument", ex, eb)):
            d = cmp.diff(a, b, exact=True)
            if d:
                raise Violation("input-modified", "%s changed its caller's %s %s" % (j["f"], name, d))
        o2 = cat.outcome(lambda: work.run_job(j, datasets, ex))
        d = cat.same(o2, o, **core.NOISE)
        if d:
            raise Violation("not-repeatable", "%s called twice with the same arguments: %s" % (j["f"], d))
        d = cmp.diff(live, o, exact=True)
        if d:
            raise Violation("result-overwritten", "%s: calling it again changed what it had returned: %s" % (j["f"], d))
        ctx.note(o[1])
        ctx.tag(j["f"])
        ctx.sig(j["f"], sorted((k, str(v)) for k, v in j["kw"].items()))
    ctx.nontrivial = len(spec["ops"]) >= 2


SHRINK_LISTS = ["ops"]


def shrink(s):
    if s["kind"] == "est":
        for mm in cat.shrink_model(s["model"]):
            yield dict(s, model=mm)
