"""H01: queries are read-only and depend only on model and query."""
import copy
import numpy as np
from .. import catalog as cat, cmp, core
from ..core import Skip, Violation

RUNS = {"quick": 800, "thorough": 60000}
KERAS = True
prepare = cat.warm_keras
RULE = ("one fitted model and a seeded history of 5-12 operations on it (queries on longer/shorter/fewer/reordered/"
        "rejected data, clone, get_params, deepcopy, repr, property reads, series-by-series and permuted queries); "
        "each query is compared with the same query made on the freshly fitted model in a separate process image; "
        "non-trivial = at least two successful queries were compared; distinct = (estimator, parameters, operation sequence)")
REAL = ["all tslearn estimators and transformers with queries", "scikit-learn bases", "keras/torch for LearningShapelets"]
STUB = ["numba JIT (kernels run as Python)", "caller: a simulated client issuing the history"]
ASSUMPTIONS = ["a forked copy of the fitted model, queried once, is the reference answer"]
FAMS = ["knn", "knnc", "knnr", "svc", "svr", "mlpc", "mlpr", "kmeans", "kernelkmeans", "kshape", "early", "mprofile", "prep",
        "piece", "varima", "knn", "knnc", "kmeans", "kshape", "prep", "piece", "early", "varima", "kernelkmeans", "shapelet"]
PER_SERIES = {"predict", "predict_proba", "transform", "kneighbors", "decision_function", "early_predict", "early_predict_proba",
              "predict_class_and_earliness", "predict_proba_and_earliness"}


def gen(rng, i, tier):
    m = cat.gen(rng, FAMS[i % len(FAMS)])
    nq = len(m["queries"])
    ops = []
    app = [k for k, q in enumerate(m["queries"]) if batch_ok(m, q, m["qds"][q["x"]])] or list(range(nq))
    good = [k for k, q in enumerate(m["queries"]) if not m["qds"][q["x"]].get("bad") and m["qds"][q["x"]].get("form") != "list"]
    rng.shuffle(good)
    for _ in range(rng.randint(5, 12 if m["family"] not in ("shapelet",) else 6)):
        r = rng.random()
        if r < 0.2 and good:
            ops.append(["buf", rng.choice(good[:4]), rng.randrange(5)])
        elif r < 0.72:
            ops.append(["q", rng.randrange(nq)])
        elif r < 0.88:
            ops.append([rng.choice(["single", "perm", "sub"]), rng.choice(app)])
        else:
            ops.append([rng.choice(["clone", "params", "deepcopy", "repr", "props"])])
    return {"model": m, "ops": ops}


def refill(ds, salt):
    """Other contents for the same array: the query itself, unrelated series, and series that are hard to tell from it."""
    return [ds, dict(ds, seed=ds["seed"] + 1), dict(ds, twin=1), dict(ds, twin=2), dict(ds, twin=3)][salt]


def n_of(X):
    return len(X)


def take(X, idx):
    """Sub-dataset, each series trimmed to its own length only through common NaN padding."""
    if isinstance(X, list):
        return [X[i] for i in idx]
    S = X[idx]
    keep = S.shape[1]
    while keep > 1 and np.all(np.isnan(S[:, keep - 1])):
        keep -= 1
    return S[:, :keep]


def trim(v):
    v = np.asarray(v)
    if v.dtype.kind == "f" and v.ndim >= 2:
        while v.shape[1] > 0 and np.all(np.isnan(v[:, -1])):
            v = v[:, :-1]
    return v


def rows(val, i):
    """Per-series part i of an answer."""
    if isinstance(val, tuple):
        return tuple(rows(v, i) for v in val)
    return trim(np.asarray(val)[i:i + 1])


def batch_ok(m, q, ds):
    if q["m"] not in PER_SERIES or ds.get("bad"):
        return False
    if ds["kind"] not in ("randn", "walk", "big", "late") or len(ds["sz"]) < 2 or m["train"]["kind"] not in ("randn", "walk", "big", "blob", "late"):
        return False
    if ds["seed"] == m["train"]["seed"]:
        return False
    if m["est"] == "TimeSeriesResampler" and m["params"]["sz"] == -1:
        return False            # documented to depend on the longest series
    if m["est"] == "TimeSeriesImputer" and not m["params"]["keep_trailing_nans"]:
        return False            # documented to fill up to the longest series
    return True


def run(spec, ctx):
    m = spec["model"]
    est = cat.fit_or_skip(m)
    Xs = [cat.xdata(d) for d in m["qds"]]
    ys = [cat.target(m, d) for d in m["qds"]]
    snap = cat.snapshot(est)
    refs = {}

    def ask(q, X, y):
        return cat.outcome(lambda: cmp.freeze(cat.query(est, q, X, y)))

    def ref(k):
        if k not in refs:
            q = m["queries"][k]
            refs[k] = fresh[k]
        return refs[k]
    need = sorted({o[1] for o in spec["ops"] if len(o) == 2})
    bufs = {}
    # reference answers: every query in its own copy of the process, straight after the fit
    fresh = {k: core.in_child(lambda: ask(m["queries"][k], Xs[m["queries"][k]["x"]], ys[m["queries"][k]["x"]])) for k in need}
    for o in spec["ops"]:
        if o[0] == "buf" and (o[1], o[2]) not in fresh:
            q = m["queries"][o[1]]
            fresh[o[1], o[2]] = core.in_child(lambda: ask(q, cat.xdata(refill(m["qds"][q["x"]], o[2])), ys[q["x"]]))
    nok = 0
    for step, op in enumerate(spec["ops"]):
        what = op[0]
        if what == "q":
            q = m["queries"][op[1]]
            out = ask(q, Xs[q["x"]], ys[q["x"]])
            d = cat.same(out, ref(op[1]), **core.NOISE)
            if d:
                raise Violation("history-dependent", "%s.%s after %d operations: %s" % (m["est"], q["m"], step, d))
            nok += out[0] == "ok"
            ctx.fault("rejected-query", int(out[0] == "err"))
            ctx.note(out[1] if out[0] == "ok" else out[1])
        elif what == "buf":             # the caller keeps one array and refills it between its queries
            q = m["queries"][op[1]]
            X = cat.xdata(refill(m["qds"][q["x"]], op[2]))
            b = bufs.setdefault(X.shape, X)
            b[...] = X
            out = ask(q, b, ys[q["x"]])
            d = cat.same(out, fresh[op[1], op[2]], **core.NOISE)
            if d:
                raise Violation("history-dependent", "%s.%s on a refilled array after %d operations: %s" % (m["est"], q["m"], step, d))
            nok += out[0] == "ok"
            ctx.tag("refilled-array")
        elif what in ("single", "perm", "sub"):
            q = m["queries"][op[1]]
            ds, X = m["qds"][q["x"]], Xs[q["x"]]
            full = ref(op[1])
            if not batch_ok(m, q, ds):
                ctx.tag("batch-not-applicable")
                continue
            n = n_of(X)
            rtol, atol = (1e-3, 1e-5) if m["est"] == "LearningShapelets" else (1e-6, 1e-8)   # keras computes in float32
            if full[0] != "ok" and not isinstance(X, list):
                each = [ask(q, take(X, [i]), None) for i in range(n)]
                if all(o[0] == "ok" for o in each):
                    raise Violation("batch-dependent", "%s.%s accepts each of %d series but raises %s: %s for all of them together" % (
                        m["est"], q["m"], n, full[1], full[2]))
            if full[0] != "ok":
                ctx.tag("batch-not-applicable")
                continue
            groups = {"single": [[i] for i in range(n)], "perm": [list(range(n))[::-1]], "sub": [list(range(n))[:n - 1]]}[what]
            for g in groups:
                part = ask(q, take(X, g), None)
                if part[0] == "err":
                    raise Violation("batch-dependent", "%s.%s accepts %d series together but raises %s: %s for series %s" % (
                        m["est"], q["m"], n, part[1], part[2], g))
                for j, i in enumerate(g):
                    d = cmp.diff(rows(part[1], j), rows(full[1], i), rtol=rtol, atol=atol)
                    if d:
                        raise Violation("batch-dependent", "%s.%s: series %d gets another answer in the batch %s than in the whole "
                                        "query: %s" % (m["est"], q["m"], i, g, d))
            nok += 1
            ctx.tag("batch-" + what)
        elif what == "clone":
            from sklearn.base import clone
            c = clone(est)
            d = cmp.diff(c.get_params(deep=False), snap[0], exact=True)
            if d:
                raise Violation("clone-differs", "%s: %s" % (m["est"], d))
        elif what == "params":
            est.get_params(deep=True)
        elif what == "deepcopy":
            if m["est"] != "LearningShapelets":
                copy.deepcopy(est)
        elif what == "repr":
            repr(est)
            getattr(est, "_more_tags", lambda: 0)()
        elif what == "props":
            for a in ("support_vectors_", "support_", "dual_coef_", "intercept_", "n_iter_", "classes_", "shapelets_", "shapelets_as_time_series_"):
                try:
                    getattr(est, a, None)
                except Exception:
                    pass
        ctx.sig(what, op[1] if len(op) > 1 else "")
        d = cat.snap_diff(est, snap)
        if d:
            raise Violation("model-changed", "%s: operation %d (%s %s): %s" % (
                m["est"], step, what, m["queries"][op[1]]["m"] if len(op) > 1 else "", d))
    ctx.tag(m["est"])
    ctx.sig(m["est"], sorted((k, str(v)) for k, v in m["params"].items()))
    ctx.nontrivial = nok >= 2


SHRINK_LISTS = ["ops"]


def shrink(s):
    for mm in cat.shrink_model(s["model"]):
        yield dict(s, model=mm)
