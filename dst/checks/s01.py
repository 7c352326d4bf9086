"""S01: pairwise matrices under every n_jobs and schedule."""
import numpy as np
from .. import cmp, core, data
from ..core import Skip, Violation

RUNS = {"quick": 700, "thorough": 40000}
RULE = ("a pairwise-matrix call (function, one or two datasets, metric parameters, n_jobs, joblib batch size) run "
        "under two seeded schedules of the worker threads; non-trivial = at least two thread switches; distinct = "
        "(function, form, n_jobs, interleaving hash)")
REAL = ["tslearn.metrics (cdist_* and scalar functions, interpreted)", "joblib.Parallel", "numpy", "scipy"]
STUB = ["joblib backend (simulated threads)", "OS thread scheduler", "numba JIT (kernels run as Python)"]
ASSUMPTIONS = ["preemption at source lines (a share of runs: bytecode instructions) of tslearn code and at worker "
               "hand-over points", "the two-series functions are the reference (their own values are P01)"]
FUNCS = ["cdist_dtw", "cdist_ctw", "cdist_frechet", "cdist_soft_dtw", "cdist_soft_dtw_normalized", "cdist_gak", "cdist_sax"]


def gen(rng, i, tier):
    f = FUNCS[i % len(FUNCS)]
    big = tier == "thorough" and rng.random() < 0.3
    p = {}
    if f == "cdist_gak":
        p["sigma"] = rng.choice([0.5, 1.0, 2.5])
    elif f != "cdist_sax":
        gc = rng.choice([None, None, "sakoe_chiba", "itakura"])
        if gc == "sakoe_chiba":
            p.update(global_constraint=gc, sakoe_chiba_radius=rng.choice([1, 2, 3]))
        elif gc == "itakura":
            p.update(global_constraint=gc, itakura_max_slope=rng.choice([1.5, 2.0, 3.0]))
        if "soft" in f:
            p["gamma"] = rng.choice([1.0, 0.3, 2.0, 0.0])
        if f == "cdist_ctw":
            p["max_iter"] = rng.choice([1, 3, 10])
            p["n_components"] = rng.choice([None, 1])
    wide = rng.random() < 0.14 and f != "cdist_ctw"         # many short series: paths taken for large matrices only
    d1 = data.gen_ds(rng, nmax=30, nmin=12, szmax=3, szmin=2) if wide else data.gen_ds(rng, nmax=7 if big else 5, szmax=10 if big else 7, szmin=4 if f == "cdist_ctw" else 2)
    d2 = None
    if rng.random() < 0.6:
        d2 = data.gen_ds(rng, nmax=24, nmin=6, szmax=3, szmin=2) if wide else data.gen_ds(rng, nmax=6 if big else 5, szmax=10 if big else 7, szmin=4 if f == "cdist_ctw" else 2, nmin=1)
        d2["d"] = d1["d"]
    if f == "cdist_sax":
        for d in (d1, d2):
            if d:
                d["sz"] = [len(d["sz"]) and d1["sz"][0]] * len(d["sz"])
    return {"func": f, "params": p, "d1": d1, "d2": d2, "n_jobs": rng.choice([2, 2, 3, 4, -1, -2]),
            "knobs": core.rand_knobs(rng), "scheds": [core.rand_sched(rng), core.rand_sched(rng)],
            "same": d2 is not None and rng.random() < 0.15}


def ints(ds):
    ss = data.series(ds)
    return [np.clip(np.floor(s * 2) + 3, 0, 5).astype(int) for s in ss]


def run(spec, ctx):
    import tslearn.metrics as tm
    f, p = spec["func"], dict(spec["params"])
    if f == "cdist_sax":
        s1 = ints(spec["d1"])
        s2 = ints(spec["d2"]) if spec["d2"] else None
        bp = np.array([-1.5, -0.7, 0.0, 0.7, 1.5])
        X1, X2 = np.array(s1), None if s2 is None else np.array(s2)
        if X2 is not None and (X1.shape[2] != X2.shape[2]):
            raise Skip("dims")

        def scalar(a, b):
            # definition of the SAX distance between two words
            acc = 0.0
            for t in range(len(a)):
                for c in range(a.shape[1]):
                    u, v = int(a[t, c]), int(b[t, c])
                    if abs(u - v) > 1:
                        acc += (bp[max(u, v) - 1] - bp[min(u, v)]) ** 2
            return np.sqrt(acc * 20.0 / len(a))

        def call(n_jobs):
            return tm.cdist_sax(X1, bp, 20, X2, n_jobs=n_jobs)
    else:
        s1 = data.series(spec["d1"])
        s2 = data.series(spec["d2"]) if spec["d2"] else None
        X1 = data.make(spec["d1"])
        X2 = data.make(spec["d2"]) if spec["d2"] else None
        if spec.get("same") and X2 is not None:
            s2, X2 = s1, X1
        fs = {"cdist_dtw": tm.dtw, "cdist_ctw": tm.ctw, "cdist_frechet": tm.frechet, "cdist_soft_dtw": tm.soft_dtw,
              "cdist_soft_dtw_normalized": tm.soft_dtw_normalized, "cdist_gak": tm.gak}[f]

        def scalar(a, b):
            return float(fs(a.copy(), b.copy(), **p))
        cd = getattr(tm, f)

        def call(n_jobs):
            return cd(X1, X2, n_jobs=n_jobs, **p)
    t2 = s1 if s2 is None else s2
    try:
        ref = np.array([[scalar(a, b) if s2 is not None or i <= j else 0.0 for j, b in enumerate(t2)]
                        for i, a in enumerate(s1)])
        if s2 is None:
            ref = np.triu(ref) + np.triu(ref, 1).T
    except Exception as e:
        raise Skip("two-series function rejects the input: " + core.short(e))
    b1, b2 = cmp.freeze(X1), cmp.freeze(X2)
    outs = []
    for k in range(len(spec["scheds"])):
        try:
            out = ctx.sim(lambda: call(spec["n_jobs"]), k)
        except Violation:
            raise
        except Exception as e:
            raise Violation("raised", "%s(n_jobs=%r) raised %s; the two-series function gives values" % (f, spec["n_jobs"], core.short(e)))
        ctx.note(out)
        ctx.sig(f, spec["n_jobs"], s2 is None, ctx.ilogs[-1])
        dd = cmp.diff(out, ref, rtol=1e-6, atol=1e-8)
        if dd and p.get("gamma") == 0.0 and not cmp.diff(out, np.sqrt(ref), rtol=1e-6, atol=1e-8):
            ctx.finding("softdtw-gamma0-not-squared", "%s(gamma=0) returns DTW, the two-series function and the "
                        "documentation say DTW squared: entry %s" % (f, dd))
            dd = None
        if dd:
            raise Violation("wrong-value", "%s(n_jobs=%r, %r) entry %s" % (f, spec["n_jobs"], p, dd))
        dd = cmp.diff(X1, b1, exact=True) or cmp.diff(X2, b2, exact=True)
        if dd:
            raise Violation("input-modified", "%s changed its input: %s" % (f, dd))
        outs.append(out)
    for k, o in enumerate(outs[1:], 1):
        dd = cmp.diff(o, outs[0], exact=True)
        if dd and core.stable_difference(lambda: ctx.sim(lambda: call(spec["n_jobs"]), 0),
                                         lambda: ctx.sim(lambda: call(spec["n_jobs"]), k)):
            raise Violation("schedule-dependent", "%s(n_jobs=%r): two schedules differ: %s" % (f, spec["n_jobs"], dd))
    if spec["n_jobs"] != 1:
        try:
            ser = call(None)
        except Exception as e:
            raise Violation("raised", "%s(n_jobs=None) raised %s" % (f, core.short(e)))
        dd = cmp.diff(outs[0], ser, rtol=1e-7, atol=1e-9)
        if dd:
            raise Violation("n-jobs-dependent", "%s: n_jobs=%r vs None: %s" % (f, spec["n_jobs"], dd))


def shrink(spec):
    for k in ("d1", "d2"):
        if spec[k]:
            for d in data.shrink_ds(spec[k]):
                yield dict(spec, **{k: d})
    if len(spec["scheds"]) > 1:
        for k in range(len(spec["scheds"])):
            yield dict(spec, scheds=spec["scheds"][:k] + spec["scheds"][k + 1:])
    if spec["n_jobs"] != 2:
        yield dict(spec, n_jobs=2)
    kn = dict(spec["knobs"])
    if kn.get("fine") or kn.get("batch") != 1:
        yield dict(spec, knobs=dict(kn, fine=False, batch=1))
