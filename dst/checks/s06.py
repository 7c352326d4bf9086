"""S06: independent public calls overlapping in several threads."""
from .. import catalog as cat, cmp, core, data, work
from ..core import Skip, Violation

RUNS = {"quick": 700, "thorough": 80000}
RULE = ("2-4 simulated threads each making 1-3 independent public calls (metric functions, matrices, barycenters, transforms, dataset "
        "conversions, generators, fits of separate estimators) on shared input arrays under a seeded schedule; every result is compared "
        "with the same call made alone; non-trivial = at least two thread switches; distinct = (calls, interleaving hash)")
REAL = ["all of tslearn (interpreted)", "NumPy, SciPy, scikit-learn, torch", "joblib.Parallel"]
STUB = ["joblib backend", "numba JIT and prange runtime", "OS thread scheduler and locks (simulated)"]
ASSUMPTIONS = ["preemption at tslearn source lines (12% of runs: bytecode instructions)", "reference = the call alone in a forked process"]
EST = ["kmeans", "kshape", "kernelkmeans", "knn", "knnc", "svc", "prep", "piece", "varima", "dbscan", "early", "mprofile"]


def gen(rng, i, tier):
    dss = work.gen_data(rng)
    th = []
    pool = None
    if rng.random() < 0.35:                 # overlap calls of few functions
        pool = [work.gen_job(rng, len(dss))["f"] for _ in range(2)]
    for _ in range(rng.choice([2, 2, 2, 3, 4])):
        js = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.15:
                js.append({"model": cat.gen_par(rng, rng.choice(EST), rng.random() < 0.3)})
            else:
                js.append(work.gen_job(rng, len(dss), fns=pool))
        th.append(js)
    return {"dss": dss, "threads": th, "knobs": dict(core.rand_knobs(rng), spots=True),
            "scheds": core.spot_scheds(rng, 3, ("rand", "rand", "rand", "pct"))}


def do(j, datasets):
    if "model" in j:
        m = j["model"]

        def f():
            est = cat.build(m)
            cat.fit(est, m)
            out = [cmp.freeze(cmp.fitted(est))]
            for q in m["queries"][:2]:
                X = cat.xdata(m["qds"][q["x"]])
                out.append(cat.outcome(lambda: cat.query(est, q, X, cat.target(m, m["qds"][q["x"]]))))
            return out
        return cat.outcome(f)
    return cat.outcome(lambda: work.run_job(j, datasets))


def name(j):
    return j["model"]["est"] if "model" in j else j["f"]


def run(spec, ctx):
    datasets = [data.make(d) for d in spec["dss"]]
    before = cmp.freeze(datasets)
    ref = [core.in_child(lambda: [do(j, datasets) for j in t]) if len(t) == 1 else
           [core.in_child(lambda: do(j, datasets)) for j in t] for t in spec["threads"]]
    for i in range(len(spec["scheds"])):
        once(spec, ctx, datasets, before, ref, i)


def once(spec, ctx, datasets, before, ref, i):
    got = [[] for _ in spec["threads"]]
    held = []

    def caller(k):
        def f():
            for j in spec["threads"][k]:
                live = do(j, datasets)
                got[k].append(cmp.freeze(live))
                held.append((name(j), live, got[k][-1]))
        return f

    def main():
        s = ctx.sim_obj
        ts = [s.spawn(caller(k), "caller%d" % k) for k in range(len(spec["threads"]))]
        s.join(ts)
        for t in ts:
            if t.exc is not None:
                raise t.exc
    ctx.sim(main, i)
    nerr = 0
    for k, t in enumerate(spec["threads"]):
        for j, o, r in zip(t, got[k], ref[k]):
            d = cat.same(o, r, **core.NOISE)
            if d:
                raise Violation("interference", "%s in thread %d of %d: %s" % (name(j), k, len(spec["threads"]), d))
            nerr += o[0] == "err"
            ctx.note(o[1])
            ctx.tag(name(j))
    for n, live, o in held:
        d = cmp.diff(live, o, exact=True)
        if d:
            raise Violation("result-overwritten", "%s: what it had returned was changed by another call: %s" % (n, d))
    ctx.tag("call-raised", nerr)
    d = cmp.diff(datasets, before, exact=True)
    if d:
        raise Violation("input-modified", "shared input datasets changed: %s" % d)
    if i:
        ctx.sig([[name(j) for j in t] for t in spec["threads"]], ctx.ilogs[-1])


SHRINK_LISTS = ["threads"]


def shrink(s):
    for k, t in enumerate(s["threads"]):
        if len(t) > 1:
            for q in range(len(t)):
                yield dict(s, threads=s["threads"][:k] + [t[:q] + t[q + 1:]] + s["threads"][k + 1:])
    for k, d in enumerate(s["dss"]):
        for d2 in data.shrink_ds(d):
            if len(d2["sz"]) > 1 and d2["d"] == d["d"] and min(d2["sz"]) > 3:
                yield dict(s, dss=s["dss"][:k] + [d2] + s["dss"][k + 1:])
    if s["knobs"].get("fine"):
        yield dict(s, knobs=dict(s["knobs"], fine=False))
