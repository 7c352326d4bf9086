"""S05: several caller threads querying one fitted estimator."""
import numpy as np
from .. import catalog as cat, cmp, core
from ..core import Skip, Violation

RUNS = {"quick": 700, "thorough": 60000}
RULE = ("one fitted estimator and 2-4 simulated caller threads each making 1-3 queries (valid and rejected, different lengths "
        "and batch sizes) under a seeded schedule; every answer is compared with the answer of the same query made alone; "
        "non-trivial = at least two thread switches; distinct = (estimator, interleaving hash)")
REAL = ["tslearn estimators (interpreted)", "scikit-learn bases", "joblib.Parallel"]
STUB = ["joblib backend", "numba JIT and prange runtime", "OS thread scheduler and locks (simulated)"]
ASSUMPTIONS = ["preemption at tslearn source lines (15% of runs: bytecode instructions); the estimator bases of scikit-learn are preempted at their lines too, the rest of "
               "scikit-learn and NumPy runs atomically", "reference = the query alone in a forked copy of the fitted model"]


def _extra():
    import os
    import sklearn
    r = os.path.dirname(sklearn.__file__)
    return [os.path.join(r, *p.split("/")) for p in (
        "neighbors/_base.py", "neighbors/_classification.py", "neighbors/_regression.py", "neural_network/_multilayer_perceptron.py",
        "svm/_base.py")]


EXTRA_FILES = _extra()
FAMS = ["knn", "knnc", "knn", "mlpc", "svc", "early", "kmeans", "piece", "kshape", "knnr", "mlpr", "prep", "kernelkmeans", "varima", "svr", "mprofile"]


def gen(rng, i, tier):
    f = FAMS[i % len(FAMS)]
    m = cat.gen_par(rng, f, rng.random() < 0.2)
    n = len(m["queries"])
    th = [[rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([2, 2, 2, 3, 4]))]
    s = core.spot_scheds(rng, 4, ("rand", "rand", "rand", "rand", "pct"))
    kn = core.rand_knobs(rng)
    kn["fine"] = rng.random() < 0.15
    kn["spots"] = True
    return {"model": m, "threads": th, "knobs": kn, "scheds": s, "own": rng.random() < 0.5}


def run(spec, ctx):
    m = spec["model"]
    est = cat.fit_or_skip(m)
    Xs = [cat.xdata(d) for d in m["qds"]]
    ys = [cat.target(m, d) for d in m["qds"]]
    snap = cat.snapshot(est)

    def ask(k, X):
        q = m["queries"][k]
        live = cat.outcome(lambda: cat.query(est, q, X, ys[q["x"]]))
        o = cmp.freeze(live)
        held.append((q["m"], live, o))
        return o
    held = []
    threads = [[k for k in t if k < len(m["queries"])] for t in spec["threads"]]
    ref = {}
    for k in sorted({k for t in threads for k in t}):
        ref[k] = core.in_child(lambda: ask(k, Xs[m["queries"][k]["x"]]))
    for i in range(len(spec["scheds"])):
        once(spec, ctx, m, est, threads, ref, snap, Xs, ask, held, i)
    for k in ref:
        o = ask(k, Xs[m["queries"][k]["x"]])
        d = cat.same(o, ref[k], **core.NOISE)
        if d:
            raise Violation("lasting-interference", "%s.%s after the concurrent calls: %s" % (m["est"], m["queries"][k]["m"], d))
    ctx.tag(m["est"])


def once(spec, ctx, m, est, threads, ref, snap, Xs, ask, held, i):
    got = [[] for _ in threads]
    del held[:]

    def caller(j):
        def f():
            for k in threads[j]:
                x = m["queries"][k]["x"]
                got[j].append(ask(k, cat.xdata(m["qds"][x]) if spec["own"] else Xs[x]))
        return f

    def main():
        s = ctx.sim_obj
        ts = [s.spawn(caller(j), "caller%d" % j) for j in range(len(threads))]
        s.join(ts)
        for t in ts:
            if t.exc is not None:
                raise t.exc
    ctx.sim(main, i)
    for j, t in enumerate(threads):
        for k, o in zip(t, got[j]):
            ctx.note(o[1])
            d = cat.same(o, ref[k], **core.NOISE)
            if d:
                raise Violation("interference", "%s.%s in thread %d of %d: %s" % (m["est"], m["queries"][k]["m"], j, len(threads), d))
            ctx.fault("rejected-query", int(o[0] == "err"))
    for name, live, o in held:
        d = cmp.diff(live, o, exact=True)
        if d:
            raise Violation("result-overwritten", "%s: what %s had returned to one caller was changed by another call: %s" % (m["est"], name, d))
    d = cat.snap_diff(est, snap)
    if d:
        raise Violation("model-changed", "%s after concurrent queries: %s" % (m["est"], d))
    if i:
        ctx.sig(m["est"], ctx.ilogs[-1])


SHRINK_LISTS = ["threads"]


def shrink(s):
    for j, t in enumerate(s["threads"]):
        if len(t) > 1:
            for k in range(len(t)):
                yield dict(s, threads=s["threads"][:j] + [t[:k] + t[k + 1:]] + s["threads"][j + 1:])
    for mm in cat.shrink_model(s["model"]):
        yield dict(s, model=mm)
    if s["knobs"].get("fine"):
        yield dict(s, knobs=dict(s["knobs"], fine=False))
