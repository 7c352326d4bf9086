"""S04: fitted models and answers for every n_jobs and every worker schedule."""
import numpy as np
from .. import catalog as cat, cmp, core, data
from ..core import Skip, Violation

RUNS = {"quick": 700, "thorough": 40000}
RULE = ("one estimator fitted and queried with n_jobs under two seeded worker schedules and compared with the serial fit and "
        "queries (or silhouette_score with and without n_jobs); non-trivial = at least two thread switches; distinct = "
        "(estimator, n_jobs, interleaving hash)")
REAL = ["tslearn estimators with n_jobs and the metric/barycenter layers below (interpreted)", "joblib.Parallel", "scikit-learn"]
STUB = ["joblib backend (simulated threads)", "numba JIT and prange runtime", "OS thread scheduler"]
ASSUMPTIONS = ["preemption at tslearn source lines (12% of runs: bytecode instructions) and at worker hand-over points",
               "agreement with serial up to rtol 1e-6; agreement between schedules up to rtol 1e-9 "
               "(BLAS rounding depends on buffer alignment)"]
FAMS = ["knn", "knnc", "kmeans", "svc", "dbscan", "knnr", "kernelkmeans", "svr", "kmeans", "sil", "knn", "dbscan"]


def gen(rng, i, tier):
    f = FAMS[i % len(FAMS)]
    s = {"knobs": core.rand_knobs(rng), "scheds": [core.rand_sched(rng), core.rand_sched(rng)]}
    if f == "sil":
        metric = rng.choice(["dtw", "softdtw", "euclidean", "frechet", "precomputed"])
        ds = data.gen_ds(rng, nmin=4, nmax=6, szmin=3, szmax=6, equal=True if metric == "euclidean" else None,
                         kinds=("randn", "blob", "walk"))
        mp = rng.choice([None, {}]) if metric != "softdtw" else rng.choice([None, {"gamma": 0.5}])
        s.update(kind="sil", metric=metric, ds=ds, mp=mp, n_jobs=rng.choice([2, 3, -1]), k=rng.choice([2, 3]))
        if mp is not None and metric in ("dtw", "frechet") and rng.random() < 0.5:
            s["mp"] = {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 2}
        return s
    m = cat.gen_par(rng, f, True)
    for k, v in (("probability", False), ("max_iter", 30)):
        if f in ("svc", "svr") and k in m["params"]:
            m["params"][k] = v
    m["queries"] = [q for q in m["queries"] if "proba" not in q["m"] or f.startswith("knn")]
    qs = [k for k in range(len(m["queries"]))]
    rng.shuffle(qs)
    s.update(kind="est", model=m, qs=qs[:3])
    return s


TOL = {"rtol": 1e-6, "atol": 1e-8}
NOISE = {"rtol": 1e-9, "atol": 1e-12}


def run(spec, ctx):
    if spec["kind"] == "sil":
        return sil(spec, ctx)
    m = spec["model"]
    nj = m["params"]["n_jobs"]
    serial = dict(m, params=dict(m["params"], n_jobs=None))
    X, y = cat.xdata(m["train"]), cat.target(m, m["train"])
    Xs = [cat.xdata(d) for d in m["qds"]]
    ys = [cat.target(m, d) for d in m["qds"]]

    def go(mm, sim=None):
        est = cat.build(mm)
        out = [cat.outcome(lambda: cat.fit(est, mm, X=X, y=y) and None)]
        fitted = cmp.freeze(cmp.fitted(est)) if out[0][0] == "ok" else {}
        if out[0][0] == "ok":
            for k in spec["qs"]:
                if k < len(mm["queries"]):
                    q = mm["queries"][k]
                    out.append(cat.outcome(lambda: cmp.freeze(cat.query(est, q, Xs[q["x"]], ys[q["x"]]))))
        return out, fitted
    ref, rfit = go(serial)
    if ref[0][0] == "err":
        ctx.tag("fit-rejected")
    outs = []
    for i in range(len(spec["scheds"])):
        out, fit = ctx.sim(lambda: go(m), i)
        ctx.note([o[1] for o in out])
        ctx.sig(m["est"], nj, ctx.ilogs[-1])
        for j, (a, b) in enumerate(zip(out, ref)):
            d = cat.same(a, b, **TOL)
            if d:
                what = "fit" if j == 0 else m["queries"][spec["qs"][j - 1]]["m"]
                raise Violation("n-jobs-dependent", "%s.%s with n_jobs=%r: %s" % (m["est"], what, nj, d))
        d = cmp.diff(fit, rfit, **TOL)
        if d:
            raise Violation("n-jobs-dependent", "%s fitted with n_jobs=%r: attribute %s" % (m["est"], nj, d))
        outs.append((out, fit))
    for a, b in zip(outs[1:], outs):
        for x, z in zip(a[0], b[0]):
            d = cat.same(x, z, **NOISE)
            if d:
                raise Violation("schedule-dependent", "%s n_jobs=%r: two schedules differ: %s" % (m["est"], nj, d))
        d = cmp.diff(a[1], b[1], **NOISE)
        if d:
            raise Violation("schedule-dependent", "%s n_jobs=%r: two schedules differ in %s" % (m["est"], nj, d))
    ctx.tag(m["est"])


def sil(spec, ctx):
    from tslearn.clustering import silhouette_score
    from tslearn.metrics import cdist_dtw
    X = data.make(spec["ds"])
    if spec["metric"] == "precomputed":
        X = cdist_dtw(X)
    lab = np.arange(len(spec["ds"]["sz"])) % min(spec["k"], len(spec["ds"]["sz"]) - 1)
    mp = None if spec["mp"] is None else dict(spec["mp"])

    def call(nj):
        return cat.outcome(lambda: silhouette_score(X, lab, metric=spec["metric"], metric_params=mp, n_jobs=nj))
    ref = call(None)
    res = []
    for i in range(len(spec["scheds"])):
        o = ctx.sim(lambda: call(spec["n_jobs"]), i)
        ctx.note(o[1])
        ctx.sig("sil", spec["metric"], spec["n_jobs"], ctx.ilogs[-1])
        d = cat.same(o, ref, **TOL)
        if d:
            raise Violation("n-jobs-dependent", "silhouette_score(metric=%r) n_jobs=%r: %s" % (spec["metric"], spec["n_jobs"], d))
        res.append(o)
    d = cat.same(res[0], res[-1], **NOISE)
    if d:
        raise Violation("schedule-dependent", "silhouette_score: two schedules differ: %s" % d)
    if mp is not None and mp != spec["mp"]:
        raise Violation("input-modified", "silhouette_score changed metric_params to %r" % mp)
    ctx.tag("silhouette_score")


SHRINK_LISTS = ["qs"]


def shrink(s):
    if s["kind"] == "est":
        for mm in cat.shrink_model(s["model"]):
            yield dict(s, model=mm)
    else:
        for d in data.shrink_ds(s["ds"]):
            if len(d["sz"]) > 3:
                yield dict(s, ds=d)
    if s["knobs"].get("fine"):
        yield dict(s, knobs=dict(s["knobs"], fine=False))
    if len(s["scheds"]) > 1:
        yield dict(s, scheds=s["scheds"][:1])
