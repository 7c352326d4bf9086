"""K01: clustering results are self-consistent whatever the random choices."""
import numpy as np
from .. import catalog as cat, clus, core
from ..core import Skip, Violation

RUNS = {"quick": 1300, "thorough": 60000}
RULE = ("one k-means, k-shape or kernel k-means fit whose random generator is simulated: seeded draws, unlikely draws (identical series as centres, "
        "a start without members for a cluster, extreme uniforms) and therefore chosen failures of single starts; the fitted attributes are then "
        "checked against each other with independent distances; non-trivial = the fit succeeded with at least two clusters; distinct = "
        "(estimator, parameters, draws)")
REAL = ["TimeSeriesKMeans, KShape, KernelKMeans (interpreted)", "scikit-learn k-means++ initialisation", "joblib.Parallel"]
STUB = ["random generator (simulated RandomState)", "joblib backend", "numba JIT and prange runtime"]
ASSUMPTIONS = ["a successful fit is one with n_iter_ >= 1 (0 is what a fit without any successful start leaves)",
               "KShape.predict normalises its argument, fit takes the series as they are", "ties within 1e-7 relative may be broken either way",
               "KernelKMeans: labels_ equal predict when the iteration stopped before max_iter"]


def gen(rng, i, tier):
    m = clus.gen_model(rng, rng.random() < 0.15)
    return {"model": m, "knobs": core.rand_knobs(rng), "scheds": [core.rand_sched(rng)]}


def start(spec, ctx, X):
    m = spec["model"]
    rs = clus.SimRandom(m["rs"], m["plan"], m["twins"], m["skew"])
    est = clus.estimator(m, rs)
    try:
        ctx.sim(lambda: clus.do_fit(est, m, X))
    except (ValueError, RuntimeError) as e:
        raise Skip("fit: " + core.short(e))
    except Exception as e:      # noqa
        if isinstance(e, (Violation, Skip)):
            raise
        raise Skip("fit: " + core.short(e))
    ctx.fault("steered-draw", rs.steered)
    ctx.fault("failed-start", max(0, len(rs.draws) - m["params"]["n_init"]))
    ctx.sig(m["est"], sorted((k, str(v)) for k, v in m["params"].items()), [d[1].tolist() for d in rs.draws])
    return est, rs


def run(spec, ctx):
    m = spec["model"]
    X = clus.dataset(m)
    m["converges"] = m["train"]["kind"] in ("randn", "walk", "blob") and not m["twins"]
    est, rs = start(spec, ctx, X.copy())
    ctx.tag(m["est"] + ("" if clus.succeeded(est) else "-failed"))
    if not clus.succeeded(est):
        return

    def bad(kind, detail):
        raise Violation(kind, "%s: %s" % (m["est"], detail))
    clus.check_result(m, est, X, bad)
    ctx.note(np.asarray(est.labels_), float(est.inertia_))
    ctx.nontrivial = m["params"]["n_clusters"] > 1


def shrink(spec):
    for mm in cat.shrink_model(spec["model"]):
        yield dict(spec, model=mm)
    m = spec["model"]
    for p in ([], m["plan"][:len(m["plan"]) // 2]):
        if p != m["plan"]:
            yield dict(spec, model=dict(m, plan=p))
