"""Estimators, hyper-parameters, training data and queries, all described by JSON.

A model spec: {"est", "params", "train", "y", "qds", "queries", "family"}.
"""
import copy
import importlib
import warnings

import numpy as np
from . import cmp, data
from .core import Skip

CLS = {
    "KNeighborsTimeSeries": "neighbors", "KNeighborsTimeSeriesClassifier": "neighbors",
    "KNeighborsTimeSeriesRegressor": "neighbors", "TimeSeriesSVC": "svm", "TimeSeriesSVR": "svm",
    "TimeSeriesMLPClassifier": "neural_network", "TimeSeriesMLPRegressor": "neural_network",
    "TimeSeriesKMeans": "clustering", "KernelKMeans": "clustering", "KShape": "clustering",
    "TimeSeriesDBSCAN": "clustering", "NonMyopicEarlyClassifier": "early_classification",
    "MatrixProfile": "matrix_profile", "TimeSeriesResampler": "preprocessing", "TimeSeriesImputer": "preprocessing",
    "TimeSeriesScalerMinMax": "preprocessing", "TimeSeriesScalerMeanVariance": "preprocessing",
    "TimeSeriesFeatureSynchronizer": "preprocessing", "PiecewiseAggregateApproximation": "piecewise",
    "SymbolicAggregateApproximation": "piecewise", "OneD_SymbolicAggregateApproximation": "piecewise",
    "VARIMA": "forecasting", "AutoVARIMA": "forecasting", "LearningShapelets": "shapelets",
}
SERIALIZABLE = [c for c in CLS if c not in ("TimeSeriesSVC", "TimeSeriesSVR", "TimeSeriesMLPClassifier", "TimeSeriesMLPRegressor",
                                            "NonMyopicEarlyClassifier", "TimeSeriesResampler", "TimeSeriesImputer",
                                            "TimeSeriesScalerMinMax", "TimeSeriesScalerMeanVariance", "TimeSeriesFeatureSynchronizer")]
NEEDS_Y = {"KNeighborsTimeSeriesClassifier": "c", "KNeighborsTimeSeriesRegressor": "r", "TimeSeriesSVC": "c", "TimeSeriesSVR": "r",
           "TimeSeriesMLPClassifier": "c", "TimeSeriesMLPRegressor": "r", "NonMyopicEarlyClassifier": "c", "LearningShapelets": "c"}
RANDOMISED = {"TimeSeriesSVC", "TimeSeriesSVR", "TimeSeriesMLPClassifier", "TimeSeriesMLPRegressor", "TimeSeriesKMeans",
              "KernelKMeans", "KShape", "NonMyopicEarlyClassifier", "LearningShapelets"}


def cls(name):
    return getattr(importlib.import_module("tslearn." + CLS[name]), name)


def zero_fill(ts):
    return np.nan_to_num(ts)


def dec(v):
    """JSON value -> parameter value (a new object every time)."""
    if isinstance(v, dict):
        if "__arr__" in v:
            return data.array(v["__arr__"])
        if "__est__" in v:
            return build(v["__est__"])
        if "__idict__" in v:
            return {int(a): b for a, b in v["__idict__"]}
        if "__tuple__" in v:
            return tuple(v["__tuple__"])
        if "__fn__" in v:
            return zero_fill
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def build(m):
    return cls(m["est"])(**{k: dec(v) for k, v in m["params"].items()})


def target(m, ds):
    k = NEEDS_Y.get(m["est"])
    if k is None:
        return None
    n = len(ds["sz"])
    if k == "c":
        lab = data.labels(ds, m.get("ncl", 2))
        kind = m.get("y", "int")
        if kind == "str":
            return np.array(["c%d" % v for v in lab])
        if kind == "uni":
            return np.array(["\u00e9t\u00e9 %d \u4e2d" % v for v in lab])
        if kind == "neg":
            return lab * 2 - 5
        if kind == "wide":
            return lab * 70001 + 300
        return lab
    r = np.random.RandomState(ds["seed"] + 2)
    y = np.round(r.randn(n), 3)
    return np.stack([y, np.round(r.randn(n), 3)], axis=1) if m.get("y") == "multi" else y


def xdata(ds):
    """Dataset for a (possibly deliberately bad) description."""
    bad = ds.get("bad")
    if not bad:
        X = data.make(ds)
        if ds.get("holes"):
            r = np.random.RandomState(ds["seed"] + 9)
            for ts in (X if isinstance(X, list) else X):
                for _ in range(ds["holes"]):
                    ts[r.randint(0, max(1, np.sum(np.isfinite(ts[:, 0])) - 1)), r.randint(ts.shape[1])] = np.nan
        return X
    if bad == "dims":
        return data.array(dict(ds, d=ds["d"] + 1))
    if bad == "inf":
        X = data.array(ds)
        X[0, 0, 0] = np.inf
        return X
    if bad == "empty":
        return np.zeros((0, 3, ds["d"]))
    if bad == "str":
        return np.array([["a", "b"], ["c", "d"]])
    if bad == "nan":
        X = data.array(ds)
        X[-1] = np.nan
        return X
    if bad == "short":
        return data.array(dict(ds, sz=[1] * len(ds["sz"])))
    if bad == "long":
        return data.array(dict(ds, sz=[s + 9 for s in ds["sz"]]))
    if bad == "none":
        return None
    raise ValueError(bad)


def fit(est, m, ds=None, X=None, y=None):
    ds = ds or m["train"]
    X = xdata(ds) if X is None else X
    y = target(m, ds) if y is None else y
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return est.fit(X, y) if y is not None else est.fit(X)


def query(est, q, X, y=None):
    """Execute one query; returns its value."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return query_loud(est, q, X, y)


def query_loud(est, q, X, y=None):
    name, kw = q["m"], dict(q.get("kw", {}))
    if name in ("distance",):
        return est.distance(X[0], X[1 % len(X)])
    if name in ("distance_paa", "distance_sax", "distance_1d_sax"):
        R = est.transform(X)
        return getattr(est, name)(R[0], R[1 % len(R)])
    if name == "inverse_transform":
        return est.inverse_transform(est.transform(X))
    if name == "early_cost":
        return est.early_classification_cost(X, y)
    if name == "cluster_probas":
        return est.get_cluster_probas(X[0])
    if name == "kneighbors_self":
        return est.kneighbors(**kw)
    if name == "score":
        return est.score(X, y)
    if name == "gen":
        X = np.asarray(X)
        g = est.get_early_predict_generator(n_ts=X.shape[0])
        out = []
        for t in range(X.shape[1]):
            out.append(g.send(X[:, t:t + 1]))
        return out
    if name == "predict_self":
        return est.predict(**kw)
    return getattr(est, name)(X, **kw)


def outcome(fn):
    """('ok', value) or ('err', type name); simulator exceptions pass through."""
    try:
        return ("ok", fn())
    except Exception as e:
        return ("err", type(e).__name__, str(e)[:160])


def same(a, b, **kw):
    """None if outcomes agree (value, or exception type)."""
    if a[0] != b[0]:
        return "%s instead of %s" % (_o(a), _o(b))
    if a[0] == "err":
        return None if a[1] == b[1] else "%s instead of %s" % (_o(a), _o(b))
    return cmp.diff(a[1], b[1], **kw)


def _o(a):
    return "a result" if a[0] == "ok" else "%s(%s)" % (a[1], a[2])


# ------------------------------------------------------------------------------------------ generators
def _ds(rng, **kw):
    kinds = kw.pop("kinds", ("randn",) * 5 + ("walk", "big", "int", "ties", "const"))
    return data.gen_ds(rng, kinds=kinds, **kw)


def _queries_ds(rng, train, equal, variable_ok, same_len, n=3, bad=True, badkinds=("dims", "inf", "empty", "str", "nan", "short", "long", "none")):
    out = []
    top = max(train["sz"])
    for k in range(n):
        r = rng.random()
        if bad and k and r < 0.3:
            q = dict(train, seed=rng.randrange(1 << 20), bad=rng.choice(badkinds), form="array")
            out.append(q)
            continue
        old = [o for o in out if not o.get("bad")]
        if old and rng.random() < 0.25:     # another dataset hard to tell from an earlier one
            out.append(dict(rng.choice(old), twin=rng.choice([1, 2, 3])))
            continue
        m = rng.randint(1, 5)
        if same_len:
            sz = [top] * m
        elif equal:
            sz = [max(2, top + rng.choice([-2, -1, 0, 0, 0, 1, 2]))] * m
        else:
            sz = [max(2, top + rng.randint(-3, 3 if variable_ok else 0)) for _ in range(m)]
        q = {"seed": rng.randrange(1 << 20), "sz": sz, "d": train["d"], "kind": rng.choice(["randn", "randn", train["kind"]] + [train["kind"]] * (4 * (train["kind"] == "late"))),
             "form": rng.choice(["array", "array", "fortran", "list"])}
        if len(set(sz)) > 1 and q["form"] == "list" and rng.random() < 0.8:
            q["form"] = "array"
        if rng.random() < 0.15:
            q["seed"], q["kind"] = train["seed"], train["kind"]
            q["sz"] = train["sz"][:]
        out.append(q)
    return out


def _gc(rng):
    g = rng.choice([None, None, "sakoe_chiba", "itakura", "radius"])
    if g == "sakoe_chiba":
        return {"global_constraint": g, "sakoe_chiba_radius": rng.choice([1, 2, 3])}
    if g == "itakura":
        return {"global_constraint": g, "itakura_max_slope": rng.choice([1.5, 2.0])}
    if g == "radius":
        return {"sakoe_chiba_radius": rng.choice([1, 2])}
    return rng.choice([{}, {}, {"global_constraint": None}, {"sakoe_chiba_radius": None, "itakura_max_slope": None}])


def knn(rng, kind, jobs=False):
    metric = rng.choice(["dtw", "dtw", "softdtw", "frechet", "euclidean", "sqeuclidean", "cityblock", "ctw"] + (["sax", "sax"] if kind == "Classifier" else []))
    mp = None
    if metric in ("dtw", "frechet", "ctw"):
        mp = rng.choice([None, {}, _gc(rng)])
    elif metric == "softdtw":
        mp = rng.choice([None, {"gamma": rng.choice([0.1, 1.0])}, {"gamma_sdtw": 0.5}])
    elif metric == "sax":
        mp = rng.choice([None, {"n_segments": rng.choice([2, 3]), "alphabet_size_avg": rng.choice([3, 4]), "scale": rng.random() < 0.5}])
    if mp is not None and rng.random() < 0.15:
        mp["n_jobs"] = 2
    eq = metric in ("euclidean", "sqeuclidean", "cityblock", "sax")
    train = _ds(rng, nmin=4, nmax=7, szmin=4 if metric == "ctw" else 3, szmax=7, equal=True if eq else None)
    if metric == "sax" and train["kind"] in ("ties", "int", "const"):
        train["kind"] = "randn"         # rounding decides the symbol of a value that sits on a breakpoint
    if metric == "sax" and mp is None:
        train["sz"] = [12] * len(train["sz"])
    if metric == "ctw":
        train["sz"] = train["sz"][:4]
    n = len(train["sz"])
    p = {"n_neighbors": rng.randint(1, min(4, n - 1)) if rng.random() < 0.9 else n + rng.randint(0, 2), "metric": metric}
    if mp is not None:
        p["metric_params"] = mp
    if jobs:
        p["n_jobs"] = rng.choice([2, 3, -1])
    if kind:
        p["weights"] = rng.choice(["uniform", "distance"])
    m = {"est": "KNeighborsTimeSeries" + kind, "params": p, "train": train, "y": rng.choice(["int", "str", "neg", "uni", "wide"])}
    if kind == "Regressor" and rng.random() < 0.25:
        m["y"] = "multi"
    m["qds"] = _queries_ds(rng, train, eq, not eq, eq)
    qs = []
    for x in range(len(m["qds"])):
        if kind:
            qs.append({"m": "predict", "x": x})
            if kind == "Classifier":
                qs.append({"m": "predict_proba", "x": x})
        else:
            qs.append({"m": "kneighbors", "x": x, "kw": {"n_neighbors": rng.randint(1, n) if rng.random() < 0.85 else n + rng.randint(1, 3)}})
            qs.append({"m": "kneighbors", "x": x, "kw": {"return_distance": False}})
    if metric != "sax" and not kind:
        qs.append({"m": "kneighbors_self", "x": 0})
    m["queries"] = qs
    return m


def svm(rng, kind, jobs=False):
    kernel = rng.choice(["gak", "gak", "rbf", "linear", "poly", "sigmoid"])
    eq = kernel != "gak"
    train = _ds(rng, nmin=6, nmax=9, szmin=3, szmax=5, equal=True if eq else None, kinds=("randn", "randn", "walk", "big"))
    p = {"kernel": kernel, "C": rng.choice([0.5, 1.0, 10.0]), "gamma": rng.choice(["auto", 0.5, 2.0]), "random_state": rng.randrange(50), "max_iter": 200}
    m = {"est": "TimeSeriesSV" + kind, "params": p, "train": train, "y": rng.choice(["int", "str", "wide"])}
    if kind == "C":
        p["probability"] = rng.random() < 0.3
        if p["probability"]:
            train["sz"] = (train["sz"] * 2)[:12]
    if jobs:
        p["n_jobs"] = rng.choice([2, 3, -1])
    m["qds"] = _queries_ds(rng, train, eq, not eq, eq)
    qs = []
    for x in range(len(m["qds"])):
        qs.append({"m": "predict", "x": x})
        if kind == "C":
            qs.append({"m": "decision_function", "x": x})
            if p["probability"]:
                qs.append({"m": "predict_proba", "x": x})
                qs.append({"m": "predict_log_proba", "x": x})
    m["queries"] = qs
    return m


def mlp(rng, kind, jobs=False):
    train = _ds(rng, nmin=6, nmax=9, szmin=3, szmax=6, equal=True, kinds=("randn", "walk"))
    train["form"] = "array"
    p = {"hidden_layer_sizes": {"__tuple__": [rng.choice([2, 3])]}, "max_iter": rng.choice([2, 4]), "random_state": rng.randrange(50),
         "solver": rng.choice(["adam", "lbfgs", "sgd"])}
    m = {"est": "TimeSeriesMLP" + kind, "params": p, "train": train, "y": rng.choice(["int", "str", "wide"])}
    m["qds"] = _queries_ds(rng, train, True, False, True, badkinds=("dims", "inf", "nan", "short", "none"))
    qs = []
    for x in range(len(m["qds"])):
        qs.append({"m": "predict", "x": x})
        if kind == "Classifier":
            qs.append({"m": "predict_proba", "x": x})
            qs.append({"m": "predict_log_proba", "x": x})
    m["queries"] = qs
    return m


def kmeans(rng, jobs=False):
    metric = rng.choice(["euclidean", "dtw", "softdtw"])
    eq = metric == "euclidean"
    k = rng.choice([1, 2, 2, 3])
    train = _ds(rng, nmin=max(4, k), nmax=6, szmin=3, szmax=5, equal=True if eq else None, kinds=("randn", "blob", "walk", "big", "int"))
    p = {"n_clusters": k, "metric": metric, "max_iter": rng.choice([1, 2, 4]), "n_init": rng.choice([1, 1, 2, 3]), "random_state": rng.randrange(50),
         "init": rng.choice(["k-means++", "random"])}
    if metric == "softdtw":
        p["max_iter_barycenter"] = rng.choice([1, 2])
        p["max_iter"] = rng.choice([1, 2])
        if rng.random() < 0.5:
            p["metric_params"] = {"gamma": rng.choice([0.1, 1.0])}
    if metric == "dtw":
        p["max_iter"] = rng.choice([1, 2])
        p["n_init"] = rng.choice([1, 2])
        if rng.random() < 0.5:
            p["metric_params"] = _gc(rng)
    if rng.random() < 0.2:
        p["dtw_inertia"] = True
    if rng.random() < 0.25:
        p["init"] = {"__arr__": dict(train, sz=[max(train["sz"])] * k, seed=rng.randrange(1 << 20), form="array")}
    if jobs:
        p["n_jobs"] = rng.choice([2, 3, -1])
    m = {"est": "TimeSeriesKMeans", "params": p, "train": train}
    m["qds"] = _queries_ds(rng, train, eq, not eq, eq)
    m["queries"] = [{"m": q, "x": x} for x in range(len(m["qds"])) for q in ("predict", "transform")]
    return m


def kernelkmeans(rng, jobs=False):
    kernel = rng.choice(["gak", "gak", "gak", "rbf", "cosine", "linear"])
    eq = kernel != "gak"
    train = _ds(rng, nmin=4, nmax=7, szmin=3, szmax=5, equal=True if eq else None, kinds=("randn", "blob", "walk"))
    p = {"n_clusters": rng.choice([2, 2, 3]), "kernel": kernel, "max_iter": rng.choice([2, 10]), "n_init": rng.choice([1, 2, 3]), "random_state": rng.randrange(50)}
    if kernel == "gak":
        kp = rng.choice([None, {}, {"sigma": "auto"}, {"sigma": 2.0}, {"sigma": 0.8}])
        if kp is not None:
            p["kernel_params"] = kp
    elif kernel == "rbf":
        p["kernel_params"] = rng.choice([{"gamma": 0.1}, {"gamma": 1.0}])
    if jobs:
        p["n_jobs"] = rng.choice([2, 3, -1])
    m = {"est": "KernelKMeans", "params": p, "train": train}
    m["qds"] = _queries_ds(rng, train, eq, not eq, eq)
    m["queries"] = [{"m": "predict", "x": x} for x in range(len(m["qds"]))]
    return m


def kshape(rng, jobs=False):
    train = _ds(rng, nmin=4, nmax=7, szmin=4, szmax=7, equal=True, kinds=("randn", "blob", "walk"))
    k = rng.choice([1, 2, 2, 3])
    p = {"n_clusters": k, "max_iter": rng.choice([1, 3, 20]), "n_init": rng.choice([1, 2, 3]), "random_state": rng.randrange(50)}
    if rng.random() < 0.2:
        p["init"] = {"__arr__": dict(train, sz=train["sz"][:1] * k, seed=rng.randrange(1 << 20), form="array")}
    m = {"est": "KShape", "params": p, "train": train}
    m["qds"] = _queries_ds(rng, train, True, False, True)
    m["queries"] = [{"m": "predict", "x": x} for x in range(len(m["qds"]))]
    return m


def dbscan(rng, jobs=False):
    metric = rng.choice(["dtw", "softdtw_normalized", "euclidean", "frechet", "ctw"])
    eq = metric == "euclidean"
    train = _ds(rng, nmin=4, nmax=6, szmin=4, szmax=6, equal=True if eq else None, kinds=("randn", "blob", "walk", "ties"))
    if metric == "ctw":
        train["sz"] = train["sz"][:4]
    p = {"metric": metric, "eps": rng.choice([0.5, 1.0, 2.0, 4.0]), "min_ts": rng.choice([1, 2, 3])}
    if metric in ("dtw", "frechet", "ctw") and rng.random() < 0.6:
        p["metric_params"] = _gc(rng)
    if metric == "softdtw_normalized" and rng.random() < 0.6:
        p["metric_params"] = {"gamma": rng.choice([0.1, 1.0])}
    if jobs:
        p["n_jobs"] = rng.choice([2, 3, -1])
    return {"est": "TimeSeriesDBSCAN", "params": p, "train": train, "qds": [train], "queries": []}


def early(rng, jobs=False):
    train = _ds(rng, nmin=8, nmax=14, szmin=4, szmax=7, equal=True, kinds=("randn", "blob", "walk", "late", "late", "late", "late", "late", "offset"))
    train["form"] = "array"
    if train["kind"] == "late":
        train["sz"] = (train["sz"] * 2)[:rng.randint(10, 18)]
    p = {"n_clusters": rng.choice([1, 2, 2, 2, 3]), "min_t": rng.choice([1, 1, 2, 3]), "lamb": rng.choice([1.0, 5.0, 100.0]),
         "cost_time_parameter": rng.choice([0.001, 0.001, 0.02, 0.1, 1.0]), "random_state": rng.randrange(50)}
    r = rng.random()
    if r < 0.3:
        p["base_classifier"] = {"__est__": {"est": "KNeighborsTimeSeriesClassifier", "params": {"n_neighbors": 2, "metric": rng.choice(["dtw", "euclidean"])}}}
    elif r < 0.45:
        p["base_classifier"] = {"__est__": {"est": "TimeSeriesSVC", "params": {"kernel": "rbf", "random_state": 3, "gamma": 0.5, "probability": False}}}
    m = {"est": "NonMyopicEarlyClassifier", "params": p, "train": train, "y": rng.choice(["int", "neg", "str", "uni"])}
    m["qds"] = _queries_ds(rng, train, True, False, True, badkinds=("dims", "inf", "nan", "short", "none", "long"))
    pr = ["predict", "early_predict", "predict_class_and_earliness", "cluster_probas", "early_cost", "gen"]
    if r < 0.3 or r >= 0.45:
        pr += ["predict_proba", "early_predict_proba", "predict_proba_and_earliness"]
    m["queries"] = [{"m": q, "x": x} for x in range(len(m["qds"])) for q in rng.sample(pr, 3)]
    return m


def mprofile(rng, jobs=False):
    train = _ds(rng, nmin=2, nmax=4, szmin=6, szmax=10, dmax=1, equal=True)
    p = {"subsequence_length": rng.choice([2, 3, 4]), "scale": rng.random() < 0.5}
    m = {"est": "MatrixProfile", "params": p, "train": train}
    m["qds"] = _queries_ds(rng, train, rng.random() < 0.7, True, False)
    m["queries"] = [{"m": "transform", "x": x} for x in range(len(m["qds"]))]
    return m


def prep(rng, jobs=False):
    e = rng.choice(["TimeSeriesResampler", "TimeSeriesImputer", "TimeSeriesScalerMinMax", "TimeSeriesScalerMeanVariance", "TimeSeriesFeatureSynchronizer"])
    train = _ds(rng, nmin=2, nmax=5, szmin=4, szmax=8)
    p = {}
    if e == "TimeSeriesResampler":
        p["sz"] = rng.choice([-1, 1, 5, 9])
    elif e == "TimeSeriesImputer":
        p["method"] = rng.choice(["mean", "median", "linear", "ffill", "bfill", "constant", {"__fn__": 1}])
        p["keep_trailing_nans"] = rng.random() < 0.5
        p["value"] = 0.5
        train["holes"] = 1
        train["form"] = rng.choice(["array", "list"])
    elif e == "TimeSeriesScalerMinMax":
        p.update(value_range={"__tuple__": rng.choice([[0.0, 1.0], [-1.0, 2.0]])}, per_timeseries=rng.random() < 0.5, per_feature=rng.random() < 0.5)
    elif e == "TimeSeriesScalerMeanVariance":
        p.update(mu=rng.choice([0.0, 1.5]), std=rng.choice([1.0, 2.0]), per_timeseries=rng.random() < 0.5, per_feature=rng.random() < 0.5)
    else:
        p["reference_feature_index"] = rng.choice([0, train["d"] - 1])
    m = {"est": e, "params": p, "train": train}
    m["qds"] = _queries_ds(rng, train, False, True, False)
    if e == "TimeSeriesImputer":
        for q in m["qds"]:
            if not q.get("bad"):
                q["holes"] = rng.choice([0, 1, 2])
    m["queries"] = [{"m": "transform", "x": x} for x in range(len(m["qds"]))]
    return m


def piece(rng, jobs=False):
    e = rng.choice(["PiecewiseAggregateApproximation", "SymbolicAggregateApproximation", "OneD_SymbolicAggregateApproximation"])
    train = _ds(rng, nmin=2, nmax=5, szmin=8, szmax=10, equal=True)
    p = {"n_segments": rng.choice([2, 3, 4])}
    if e != "PiecewiseAggregateApproximation":
        if train["kind"] in ("ties", "int", "const"):
            train["kind"] = "randn"     # rounding decides the symbol of a value that sits on a breakpoint
        p.update(alphabet_size_avg=rng.choice([3, 5]), scale=rng.random() < 0.5)
    if e.startswith("One"):
        p.update(alphabet_size_slope=rng.choice([3, 4]), sigma_l=rng.choice([None, 0.5]))
    m = {"est": e, "params": p, "train": train}
    m["qds"] = _queries_ds(rng, train, rng.random() < 0.6, True, False)
    pr = ["transform", "inverse_transform", "distance", "distance_paa"]
    if e.startswith("Sym"):
        pr += ["distance_sax"]
    if e.startswith("One"):
        pr = ["transform", "inverse_transform", "distance", "distance_1d_sax"]
    if e.startswith("Sym"):
        pr.remove("distance_paa")
    m["queries"] = [{"m": q, "x": x} for x in range(len(m["qds"])) for q in pr]
    return m


def varima(rng, jobs=False):
    auto = rng.random() < 0.35
    train = _ds(rng, nmin=1, nmax=3, szmin=16, szmax=24, kinds=("randn", "walk", "randn", "big", "int"))
    if auto:
        train["d"] = 1
        p = {"max_p": rng.choice([1, 2]), "max_d": 1, "max_q": rng.choice([0, 1]), "max_iter": 3}
    else:
        p = {"p": rng.choice([0, 1, 2]), "d": rng.choice([0, 1, 2]), "q": rng.choice([0, 0, 1]), "with_constant": rng.random() < 0.7,
             "seasonal_period": rng.choice([None, None, 3]), "max_iter": 3}
    m = {"est": "AutoVARIMA" if auto else "VARIMA", "params": p, "train": train}
    m["qds"] = _queries_ds(rng, train, False, True, False)
    m["queries"] = [{"m": "predict", "x": x, "kw": {"n": rng.choice([1, 2, 4])}} for x in range(len(m["qds"]))]
    m["queries"] += [{"m": "predict_self", "x": 0, "kw": {"n": rng.choice([1, 3])}}]
    return m


def shapelet(rng, jobs=False):
    train = _ds(rng, nmin=4, nmax=6, szmin=8, szmax=10, kinds=("randn", "blob"))
    train["form"] = "array"
    p = {"n_shapelets_per_size": rng.choice([{"__idict__": [[3, 2]]}, {"__idict__": [[3, 1], [4, 2]]}, None]), "max_iter": 1, "batch_size": 4,
         "scale": rng.random() < 0.5, "random_state": rng.randrange(50), "shapelet_length": 0.3, "total_lengths": 2}
    if rng.random() < 0.4:
        p["max_size"] = 12
    m = {"est": "LearningShapelets", "params": p, "train": train, "y": rng.choice(["int", "str", "neg", "uni", "wide"]), "ncl": rng.choice([2, 2, 3])}
    m["qds"] = _queries_ds(rng, train, False, False, False, n=2)
    m["queries"] = [{"m": q, "x": x} for x in range(len(m["qds"])) for q in ("predict", "transform", "predict_proba", "locate")]
    return m


FAMILIES = {
    "knn": lambda r, j=False: knn(r, "", j), "knnc": lambda r, j=False: knn(r, "Classifier", j), "knnr": lambda r, j=False: knn(r, "Regressor", j),
    "svc": lambda r, j=False: svm(r, "C", j), "svr": lambda r, j=False: svm(r, "R", j), "mlpc": lambda r, j=False: mlp(r, "Classifier", j),
    "mlpr": lambda r, j=False: mlp(r, "Regressor", j), "kmeans": kmeans, "kernelkmeans": kernelkmeans, "kshape": kshape,
    "dbscan": dbscan, "early": early, "mprofile": mprofile, "prep": prep, "piece": piece, "varima": varima, "shapelet": shapelet,
}


def gen(rng, family, jobs=False):
    m = FAMILIES[family](rng, jobs)
    m["family"] = family
    if family not in ("shapelet", "varima", "autovarima", "mprofile") and rng.random() < 0.06:
        # many series: paths taken for large datasets only
        for ds in [m["train"]] + m["qds"]:
            if rng.random() < 0.7:
                ds["sz"] = (ds["sz"] * 8)[:rng.randint(14, 24)]
    return m


def gen_par(rng, family, jobs=False):
    """gen() for runs under a simulated prange schedule: SAX distances are sums over segments taken in any order, many of
    them equal in exact arithmetic, so that rounding decides between neighbours; two terms have one sum."""
    m = gen(rng, family, jobs)
    if m["params"].get("metric") == "sax":
        m["params"]["metric_params"] = dict(m["params"].get("metric_params") or {}, n_segments=2)
        for ds in [m["train"]] + m["qds"]:
            ds["d"] = 1
    return m


def fit_or_skip(m, ds=None):
    est = build(m)
    o = outcome(lambda: fit(est, m, ds))
    if o[0] == "err":
        raise Skip("fit rejects: %s %s" % (o[1], o[2]))
    return est


def snapshot(est):
    """What a caller can observe of a fitted estimator: hyper-parameters and public fitted attributes."""
    return cmp.freeze(est.get_params(deep=False)), cmp.freeze(cmp.fitted(est))


def snap_diff(est, snap, ignore=()):
    p, f = est.get_params(deep=False), cmp.fitted(est)
    d = cmp.diff(p, snap[0], exact=True)
    if d:
        return "hyper-parameters changed: %s" % d
    a = {k: v for k, v in f.items() if k not in ignore}
    b = {k: v for k, v in snap[1].items() if k not in ignore}
    d = cmp.diff(a, b, exact=True)
    if d:
        return "fitted attributes changed: %s" % d
    return None


def shrink_model(m):
    if len(m["queries"]) > 1:
        pass
    for d in data.shrink_ds(m["train"]):
        if len(d["sz"]) >= 4 and d["d"] == m["train"]["d"]:
            yield dict(m, train=d)
    for k in list(m["params"]):
        if k in ("n_init", "max_iter") and isinstance(m["params"][k], int) and m["params"][k] > 1:
            yield dict(m, params=dict(m["params"], **{k: 1}))


def warm_keras():
    """Import everything keras loads lazily before the first fork (saves seconds per run)."""
    import inspect
    import random
    from tslearn.shapelets import shapelets as sh
    f = getattr(sh, "_kmeans_init_shapelets", None)
    if f is not None:                   # 10000 random draws per shapelet size by default
        names = [q.name for q in inspect.signature(f).parameters.values() if q.default is not q.empty]
        if "n_draw" in names:
            f.__defaults__ = tuple(60 if n == "n_draw" else v for n, v in zip(names, f.__defaults__))
    m = gen(random.Random(4), "shapelet")
    est = build(m)
    fit(est, m)
    X = xdata(m["train"])
    for q in ("predict", "transform", "locate"):
        query(est, {"m": q}, X)
