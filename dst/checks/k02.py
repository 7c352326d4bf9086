"""K02: multi-start clustering keeps the best start and always terminates."""
import numpy as np
from .. import catalog as cat, clus, cmp, core
from ..core import Skip, Violation
from . import k01

RUNS = {"quick": 900, "thorough": 40000}
RULE = ("one multi-start clustering whose random generator is simulated (see K01) so that chosen starts fail; each start is replayed alone from the "
        "recorded draws (explicit init array, or the reference kernel k-means), and fits with 1..n_init starts from the same generator are compared; "
        "non-trivial = more than one start was made; distinct = (estimator, parameters, draws)")
REAL, STUB = k01.REAL, k01.STUB
ASSUMPTIONS = k01.ASSUMPTIONS + ["starts of k-means++ cannot be replayed alone; they are compared through growing n_init only",
                                 "a fit in which every start fails may return (n_iter_ = 0)"]


def gen(rng, i, tier):
    m = clus.gen_model(rng, False)
    if isinstance(m["params"].get("init"), dict):
        m["params"]["init"] = "random"
    m["params"]["n_init"] = rng.choice([1, 2, 2, 3, 4])
    if m["est"] != "KernelKMeans" and rng.random() < 0.6:
        m["params"]["init"] = "random"
        m["params"].pop("metric_params", None)
    return {"model": m, "knobs": core.rand_knobs(rng), "scheds": [{"mode": "sync", "seed": 0}]}


def run(spec, ctx):
    m = spec["model"]
    X = clus.dataset(m)
    n_init = m["params"]["n_init"]

    def bad(kind, detail):
        raise Violation(kind, "%s: %s" % (m["est"], detail))

    def fit(**over):
        rs = clus.SimRandom(m["rs"], m["plan"], m["twins"], m["skew"])
        est = clus.estimator(m, rs, **over)

        def go():
            try:
                clus.do_fit(est, m, X.copy())
                return "ok"
            except Exception as e:      # noqa
                return (type(e).__name__, core.short(e))
        return est, rs, ctx.sim(go)
    est, rs, how = fit()
    ctx.fault("steered-draw", rs.steered)
    ctx.sig(m["est"], sorted((k, str(v)) for k, v in m["params"].items()), [d[1].tolist() for d in rs.draws])
    if how != "ok":
        if how[0] in ("RuntimeError", "RuntimeWarning") or (how[0] == "ValueError" and m["params"]["n_clusters"] > len(X)):
            raise Skip("fit: " + how[1])
        bad("internal-error", "fit failed with %s" % how[1])
    tries = len(rs.draws)
    if tries > max(n_init, 10):
        bad("too-many-attempts", "%d starts with n_init=%d" % (tries, n_init))
    # -- growing number of starts
    prev = None
    for k in range(1, n_init + 1):
        e = est if k == n_init else fit(n_init=k)[0]
        ok = clus.succeeded(e)
        if prev is not None and clus.succeeded(prev):
            if not ok:
                bad("lost-start", "n_init=%d fails where n_init=%d succeeds" % (k, k - 1))
            eps = 1e-9 * (1 + abs(prev.inertia_))
            if e.inertia_ > prev.inertia_ + eps:
                bad("not-best", "inertia_ %.12g with n_init=%d, %.12g with n_init=%d" % (e.inertia_, k, prev.inertia_, k - 1))
            if e.inertia_ > prev.inertia_ - eps and abs(e.inertia_ - prev.inertia_) <= eps:
                d = model_diff(m, e, prev)
                if d and e.inertia_ == prev.inertia_:
                    bad("not-first-best", "n_init=%d changes the model without improving it: %s" % (k, d))
        prev = e
    # -- every start alone
    ctx.tag("starts", tries)
    ref = []
    failed = 0
    if tries and m["est"] == "KernelKMeans":
        w = clus.weights(m, len(X))
        w = np.ones(len(X)) if w is None else w
        K = clus.kernel_matrix(est, X)
        for _, d in rs.draws:
            r = clus.kernel_start(K, d, w, est.n_clusters, est.max_iter, est.tol)
            if r == "?":
                ctx.tag("start-decided-by-rounding")
                return
            ref.append(r)
    elif tries and m["params"].get("init", "random") == "random":
        for _, d in rs.draws:
            e = clus.estimator(m, 0, init=X[d].copy(), n_init=1)
            o = cat.outcome(lambda: ctx.sim(lambda: clus.do_fit(e, m, X.copy()) and None))
            if o[0] == "err":
                bad("internal-error", "a start from %s alone failed: %s" % (d.tolist(), o[1:]))
            ref.append((e.labels_, float(e.inertia_), e.n_iter_, e) if clus.succeeded(e) else None)
    else:
        return
    ok = [r for r in ref if r is not None]
    failed = len(ref) - len(ok)
    ctx.fault("failed-start", failed)
    ctx.nontrivial = len(ref) > 1
    want = min(n_init, len(ok))
    if len(ok) > n_init:
        bad("attempts", "%d starts succeeded, n_init=%d" % (len(ok), n_init))
    if len(ok) < n_init and tries < max(n_init, 10):
        bad("gave-up-early", "%d of %d starts succeeded and only %d were made" % (len(ok), n_init, tries))
    if not want:
        ctx.tag("all-starts-failed")
        if clus.succeeded(est):
            bad("success-without-start", "n_iter_=%r although every start failed" % est.n_iter_)
        return
    if not clus.succeeded(est):
        bad("lost-start", "%d starts succeed alone, n_iter_ is 0" % len(ok))
    best = min(r[1] for r in ok)
    eps = 1e-7 * (1 + abs(best))
    if abs(est.inertia_ - best) > eps:
        bad("not-best", "inertia_ %.12g, the starts have %s" % (est.inertia_, [None if r is None else round(r[1], 9) for r in ref]))
    cands = [r for r in ok if r[1] <= best + eps]
    diffs = []
    for r in cands:
        if r[2] != est.n_iter_:
            d = "n_iter_ %r, the start took %r" % (est.n_iter_, r[2])
        elif not np.array_equal(r[0], est.labels_):
            d = "labels_ %s, the start has %s" % (np.asarray(est.labels_).tolist(), np.asarray(r[0]).tolist())
        elif len(r) > 3:
            d = cmp.diff(np.asarray(est.cluster_centers_), np.asarray(r[3].cluster_centers_), rtol=1e-6)
        else:
            d = None
        if d is None:
            break
        diffs.append(d)
    else:
        bad("not-the-best-start", "the model is not the best start: %s" % "; ".join(diffs[:3]))
    ctx.note(np.asarray(est.labels_), float(est.inertia_))


def model_diff(m, a, b):
    if not np.array_equal(a.labels_, b.labels_):
        return "labels_ %s / %s" % (np.asarray(a.labels_).tolist(), np.asarray(b.labels_).tolist())
    if m["est"] != "KernelKMeans":
        return cmp.diff(np.asarray(a.cluster_centers_), np.asarray(b.cluster_centers_), rtol=1e-6)


shrink = k01.shrink
