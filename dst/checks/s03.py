"""S03: barycenters under every n_jobs, schedule and worker completion order."""
import numpy as np
from .. import cmp, core, data
from ..core import Skip, Violation

RUNS = {"quick": 600, "thorough": 30000}
RULE = ("a barycenter computation (method, dataset, weights, constraint, iterations, n_jobs) run under two seeded "
        "schedules and compared with the serial one; non-trivial = at least two thread switches; distinct = (method, "
        "n_jobs, interleaving hash)")
REAL = ["tslearn.barycenters and tslearn.metrics (interpreted)", "joblib.Parallel incl. generators", "scipy.optimize L-BFGS-B"]
STUB = ["joblib backend (simulated threads)", "numba JIT and prange runtime", "OS thread scheduler"]
ASSUMPTIONS = ["preemption at tslearn source lines and at worker hand-over points"]
KINDS = ["soft", "dba", "soft", "petitjean", "soft", "dba", "subgrad", "soft"]


def gen(rng, i, tier):
    k = KINDS[i % len(KINDS)]
    wide = rng.random() < 0.12                              # many short series: paths taken for large datasets only
    ds = data.gen_ds(rng, nmax=rng.choice([26, 26, 70]), nmin=12, szmax=4, szmin=3, kinds=("randn", "big", "walk")) if wide else data.gen_ds(rng, nmax=6 if k == "soft" else 5, szmax=6, szmin=3, kinds=("randn", "randn", "randn", "big", "walk"))
    if k == "soft" and len(ds["sz"]) < 3:
        ds["sz"] = ds["sz"] + [ds["sz"][0]]
    mp = {}
    if k == "soft" and rng.random() < 0.3:
        mp = {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": rng.choice([2, 3])}
    return {"kind": k, "ds": ds, "n_jobs": rng.choice([2, 3, 4, -1]), "w": rng.choice(["none", "rand", "rand", "const", "zeros"]),
            "init": rng.choice(["none", "none", "given"]), "max_iter": rng.choice([1, 2, 3, 5, 9] if k != "soft" else [1, 2, 3]), "gamma": rng.choice([0.5, 1.0, 2.0]),
            "mp": mp, "n_init": rng.choice([1, 1, 2]), "bsz": rng.choice([None, None, 4]), "rs": rng.randrange(100),
            "knobs": core.rand_knobs(rng), "scheds": [core.rand_sched(rng), core.rand_sched(rng)]}


def run(spec, ctx):
    import tslearn.barycenters as tb
    X = data.make(spec["ds"])
    n, d = len(spec["ds"]["sz"]), spec["ds"]["d"]
    r = np.random.RandomState(spec["rs"])
    w = {"none": None, "rand": np.round(r.rand(n) + 0.1, 3), "const": np.full(n, 0.3),
         "zeros": np.where(np.arange(n) % 3 == spec["rs"] % 3, 0.0, np.round(r.rand(n) + 0.1, 3))}[spec["w"]]
    init = None
    bsz = spec["bsz"]
    if spec["init"] == "given":
        init = np.round(r.randn(max(spec["ds"]["sz"]), d), 3)
        bsz = None
    k, it = spec["kind"], spec["max_iter"]

    def call(nj):
        if k == "soft":
            return tb.softdtw_barycenter(X, gamma=spec["gamma"], weights=w, max_iter=it, init=init, n_jobs=nj, **mp)
        if k == "dba":
            return tb.dtw_barycenter_averaging(X, barycenter_size=bsz, init_barycenter=init, max_iter=it, weights=w,
                                               metric_params=mp or None, n_init=spec["n_init"], n_jobs=nj)
        if k == "petitjean":
            return tb.dtw_barycenter_averaging_petitjean(X, barycenter_size=bsz, init_barycenter=init, max_iter=it,
                                                         weights=w, metric_params=mp or None, n_jobs=nj)
        return tb.dtw_barycenter_averaging_subgradient(X, barycenter_size=bsz, init_barycenter=init, max_iter=it, weights=w,
                                                       metric_params=mp or None, random_state=spec["rs"])
    mp = dict(spec["mp"])
    before = cmp.freeze([X, w, init, mp])

    def unchanged(when):
        for name, a, b in zip(("dataset", "weights", "initial barycenter", "metric_params"), [X, w, init, mp], before):
            dd = cmp.diff(a, b, exact=True)
            if dd:
                raise Violation("input-modified", "%s (%s) changed its %s: %s" % (k, when, name, dd))
    try:
        ref = call(None)
    except Exception as e:
        raise Skip("serial computation rejects the input: " + core.short(e))
    unchanged("serial")
    ref = cmp.freeze(ref)
    outs = []
    for i in range(len(spec["scheds"])):
        try:
            out = ctx.sim(lambda: call(spec["n_jobs"]), i)
        except Violation:
            raise
        except Exception as e:
            raise Violation("raised", "%s n_jobs=%r raised %s, serial does not" % (k, spec["n_jobs"], core.short(e)))
        ctx.note(out)
        ctx.sig(k, spec["n_jobs"], ctx.ilogs[-1])
        unchanged("n_jobs=%r" % spec["n_jobs"])
        dd = cmp.diff(out, ref, rtol=1e-5, atol=1e-7)
        if dd:
            raise Violation("n-jobs-dependent", "%s n_jobs=%r differs from serial: %s" % (k, spec["n_jobs"], dd))
        outs.append(cmp.freeze(out))
    for k, o in enumerate(outs[1:], 1):
        dd = cmp.diff(o, outs[0], exact=True)
        if dd and core.stable_difference(lambda: ctx.sim(lambda: call(spec["n_jobs"]), 0),
                                         lambda: ctx.sim(lambda: call(spec["n_jobs"]), k)):
            raise Violation("schedule-dependent", "%s n_jobs=%r: two schedules give different bits: %s" % (k, spec["n_jobs"], dd))


def shrink(s):
    for d in data.shrink_ds(s["ds"]):
        yield dict(s, ds=d)
    if s["max_iter"] > 1:
        yield dict(s, max_iter=1)
    if s["n_jobs"] != 2:
        yield dict(s, n_jobs=2)
    if s["w"] != "none":
        yield dict(s, w="none")
    if s["init"] != "none":
        yield dict(s, init="none")
    if s["knobs"].get("fine"):
        yield dict(s, knobs=dict(s["knobs"], fine=False))
