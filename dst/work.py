"""Public tslearn functions as JSON-described jobs: {"f": name, "a": [dataset indices], "kw": {...}, "torch": bool}.

Every job works on datasets of a run (2-4 small datasets, the objects are shared between jobs).
"""
import warnings
import numpy as np
from . import catalog as cat, cmp, data

GCS = [{}, {}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 2}, {"sakoe_chiba_radius": 1},
       {"global_constraint": "itakura", "itakura_max_slope": 2.0}]
PAIR = ["dtw", "dtw_path", "soft_dtw", "soft_dtw_normalized", "soft_dtw_alignment", "gak", "unnormalized_gak", "lcss", "lcss_path", "ctw",
        "ctw_path", "frechet", "frechet_path", "dtw_path_from_metric", "lcss_path_from_metric", "frechet_path_from_metric",
        "dtw_limited_warping_length", "dtw_path_limited_warping_length", "dtw_subsequence_path", "subsequence_cost_matrix",
        "subsequence_path", "lb_keogh", "lb_envelope", "acc_dtw", "acc_frechet", "sqeuclid", "softdtw_class"]
CDIST = ["cdist_dtw", "cdist_soft_dtw", "cdist_soft_dtw_normalized", "cdist_gak", "cdist_frechet", "cdist_ctw", "cdist_normalized_cc", "cdist_sax"]
MISC = ["sigma_gak", "gamma_soft_dtw", "sbd_vec", "torch_loss", "masks", "random_walks", "random_walk_blobs", "silhouette"]
BARY = ["euclidean_barycenter", "dba", "dba_petitjean", "dba_subgradient", "softdtw_barycenter"]
UTIL = ["to_ts", "to_ts_dataset", "to_sklearn", "ts_str", "check_dims", "check_equal", "ts_size", "pyts", "stumpy", "check_dataset",
        "check_variable", "ts_zeros"]
PREP = ["resample", "impute", "minmax", "meanvar", "sync", "paa", "sax", "onedsax", "mprofile"]
TORCHABLE = {"dtw", "dtw_path", "soft_dtw", "soft_dtw_normalized", "soft_dtw_alignment", "gak", "lcss", "lcss_path", "frechet", "frechet_path",
             "cdist_dtw", "cdist_soft_dtw", "cdist_frechet", "cdist_gak", "to_ts", "to_ts_dataset", "dtw_path_from_metric"}
GROUPS = [(PAIR, 0.34), (CDIST, 0.16), (MISC, 0.1), (BARY, 0.12), (UTIL, 0.13), (PREP, 0.15)]
EQUAL_ONLY = {"cdist_normalized_cc", "sbd_vec", "euclidean_barycenter", "torch_loss", "cdist_sax", "stumpy"}


def gen_data(rng, n=3):
    """Datasets of one run: same dimension, so that any two can be combined; the last one has equal lengths."""
    d = rng.choice([1, 2, 3])
    out = []
    for k in range(n):
        ds = data.gen_ds(rng, nmin=2, nmax=4, szmin=4, szmax=7, equal=True if k == n - 1 else None, kinds=("randn", "randn", "walk", "big", "int"))
        ds["d"] = d
        out.append(ds)
    if n > 1 and rng.random() < 0.2:
        out[0] = dict(out[n - 1], twin=rng.choice([1, 2, 3]))
    return out


def gen_job(rng, nds, groups=None, fns=None):
    if fns:
        f = rng.choice(fns)
    else:
        gs = groups or GROUPS
        f = rng.choice(rng.choices([g for g, _ in gs], [w for _, w in gs])[0])
    j = {"f": f, "a": [nds - 1 if f in EQUAL_ONLY else rng.randrange(nds) for _ in range(2)], "s": [rng.randrange(4), rng.randrange(4)], "kw": {}}
    kw = j["kw"]
    if f in ("dtw", "dtw_path", "lcss", "lcss_path", "ctw", "frechet", "frechet_path", "cdist_dtw", "cdist_frechet", "cdist_ctw",
             "cdist_soft_dtw", "cdist_soft_dtw_normalized", "ctw_path", "soft_dtw", "soft_dtw_normalized", "soft_dtw_alignment",
             "dtw_path_from_metric", "lcss_path_from_metric", "frechet_path_from_metric", "masks"):
        kw.update(rng.choice(GCS))
    if f in ("ctw", "ctw_path", "cdist_ctw"):
        kw["max_iter"] = 3
    if "soft_dtw" in f and f not in ("gamma_soft_dtw",) or f == "softdtw_class":
        kw["gamma"] = rng.choice([0.1, 1.0])
    if "gak" in f and f != "sigma_gak":
        kw["sigma"] = rng.choice([0.7, 2.0])
    if f.startswith("lcss"):
        kw["eps"] = rng.choice([0.3, 1.0])
    if f.endswith("_from_metric"):
        kw["metric"] = rng.choice(["euclidean", "cityblock"] + (["fn"] if f[0] in "dl" else []))
    if f.startswith("cdist") and f != "cdist_normalized_cc":
        kw["n_jobs"] = rng.choice([None, None, 2])
    if f in ("sigma_gak", "gamma_soft_dtw"):
        kw.update(n_samples=rng.choice([3, 10]), random_state=rng.randrange(20))
    if f in ("random_walks", "random_walk_blobs", "dba_subgradient"):
        kw["random_state"] = rng.randrange(20)
    if f == "random_walks":
        kw.update(n_ts=rng.choice([1, 2, 3]), sz=rng.choice([2, 6]), d=rng.choice([1, 2]), mu=rng.choice([0.0, 0.5]), std=rng.choice([1.0, 0.3]))
    if f == "random_walk_blobs":
        kw.update(n_ts_per_blob=rng.choice([1, 2]), sz=rng.choice([2, 6]), d=rng.choice([1, 2]), n_blobs=rng.choice([1, 2, 3]), noise_level=rng.choice([1.0, 0.2]))
    if f == "dba" or f == "dba_petitjean":
        kw.update(max_iter=2, n_jobs=rng.choice([None, 2]))
        if f == "dba":
            kw["n_init"] = rng.choice([1, 2])
            kw["metric_params"] = rng.choice([None, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 3}, {}])
        j["init"] = rng.random() < 0.5
        j["w"] = rng.random() < 0.5
    if f == "dba_subgradient":
        kw["max_iter"] = 2
        j["init"] = rng.random() < 0.5
        j["w"] = rng.random() < 0.5
    if f == "softdtw_barycenter":
        kw.update(max_iter=2, gamma=1.0, n_jobs=rng.choice([None, 2]))
        j["init"] = rng.random() < 0.5
        j["w"] = rng.random() < 0.5
    if f == "euclidean_barycenter":
        j["w"] = rng.random() < 0.5
    if f in TORCHABLE and rng.random() < 0.2:
        j["torch"] = True
    if f == "silhouette":
        kw.update(metric=rng.choice(["dtw", "softdtw"]), n_jobs=rng.choice([None, 2]), metric_params=rng.choice([None, {}]))
    if f == "resample":
        kw["sz"] = rng.choice([-1, 3, 9])
    if f == "impute":
        kw["method"] = rng.choice(["mean", "linear", "ffill"])
    if f in ("paa", "sax", "onedsax"):
        kw["n_segments"] = rng.choice([2, 3])
    if f == "mprofile":
        kw["subsequence_length"] = rng.choice([2, 3])
    if f == "sync":
        kw["reference_feature_index"] = 0
    return j


def prepare_extra(j, datasets):
    """Mutable caller-owned arguments of a job (weights, initial barycenters, parameter dictionaries)."""
    ex = {}
    X = datasets[j["a"][0]]
    n = len(X)
    if j.get("w"):
        ex["weights"] = np.round(np.random.RandomState(j["s"][0]).rand(n) + 0.1, 3)
        if j["s"][0] % 4 == 0:
            ex["weights"][j["s"][0] // 4 % n] = 0.0
    if j.get("init"):
        top = max(len(x) for x in X)
        ex["init"] = np.round(np.random.RandomState(j["s"][1]).randn(top, np.asarray(X[0]).reshape(len(X[0]), -1).shape[1]), 3)
    if isinstance(j["kw"].get("metric_params"), dict):
        ex["metric_params"] = dict(j["kw"]["metric_params"])
    return ex


def _fn(a, b):
    return float(np.sum(np.abs(np.asarray(a) - np.asarray(b))))


def run_job(j, datasets, ex=None):
    """Execute the job on shared datasets; returns its value."""
    import tslearn.metrics as tm
    import tslearn.utils as tu
    f, kw = j["f"], dict(j["kw"])
    ex = ex if ex is not None else prepare_extra(j, datasets)
    for k in ("metric_params",):
        if k in ex:
            kw[k] = ex[k]
    X, Y = datasets[j["a"][0]], datasets[j["a"][1]]
    a, b = X[j["s"][0] % len(X)], Y[j["s"][1] % len(Y)]
    if j.get("torch"):
        import torch
        if f.startswith("cdist") or f == "to_ts_dataset":
            X, Y = torch.tensor(np.asarray(tu.to_time_series_dataset(X))), torch.tensor(np.asarray(tu.to_time_series_dataset(Y)))
        else:
            a, b = torch.tensor(np.asarray(a)), torch.tensor(np.asarray(b))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return _call(j, f, kw, X, Y, a, b, tm, tu, ex)


def _finite(ts):
    ts = np.asarray(ts)
    return ts[~np.isnan(ts[:, 0])]


def _call(j, f, kw, X, Y, a, b, tm, tu, ex):
    if f in ("dtw", "dtw_path", "soft_dtw", "soft_dtw_normalized", "soft_dtw_alignment", "gak", "unnormalized_gak", "lcss", "lcss_path", "ctw",
             "ctw_path", "frechet", "frechet_path"):
        return getattr(tm, f)(a, b, **kw)
    if f.endswith("_from_metric"):
        if kw.get("metric") == "fn":
            kw["metric"] = _fn
        return getattr(tm, f)(_finite(a) if not j.get("torch") else a, _finite(b) if not j.get("torch") else b, **kw)
    if f in ("dtw_limited_warping_length", "dtw_path_limited_warping_length"):
        return getattr(tm, f)(a, b, max_length=max(len(a), len(b)) + 2)
    if f in ("dtw_subsequence_path", "subsequence_cost_matrix"):
        return getattr(tm, f)(_finite(a)[:3], _finite(b))
    if f == "subsequence_path":
        M = tm.subsequence_cost_matrix(_finite(a)[:3], _finite(b))
        return tm.subsequence_path(M, int(np.argmin(M[-1])))
    if f == "lb_keogh":
        e = tm.lb_envelope(_finite(b)[:4, :1], radius=1)
        return tm.lb_keogh(_finite(a)[:4, :1], radius=1, ts_candidate=_finite(b)[:4, :1]), tm.lb_keogh(_finite(a)[:4, :1], envelope_candidate=e)
    if f == "lb_envelope":
        return tm.lb_envelope(_finite(a), radius=2)
    if f in ("acc_dtw", "acc_frechet"):
        x, y = _finite(a), _finite(b)
        m = tm.compute_mask(x, y)
        return (tm.dtw_accumulated_matrix if f == "acc_dtw" else tm.frechet_accumulated_matrix)(x, y, m)
    if f == "sqeuclid":
        return tm.SquaredEuclidean(_finite(a), _finite(b)).compute()
    if f == "softdtw_class":
        D = tm.SquaredEuclidean(_finite(a), _finite(b))
        s = tm.SoftDTW(D, gamma=kw["gamma"])
        v = s.compute()
        E = s.grad()
        return v, E, D.jacobian_product(E)
    if f == "masks":
        return tm.compute_mask(_finite(a), _finite(b), **kw), tm.sakoe_chiba_mask(5, 6, 2), tm.itakura_mask(6, 6)
    if f in ("cdist_dtw", "cdist_soft_dtw", "cdist_soft_dtw_normalized", "cdist_gak", "cdist_frechet", "cdist_ctw"):
        return getattr(tm, f)(X, Y if j["s"][0] % 2 else None, **kw)
    if f == "cdist_normalized_cc":
        Z = np.ascontiguousarray(tu.to_time_series_dataset(X))
        n = np.linalg.norm(Z, axis=(1, 2))
        return tm.cdist_normalized_cc(Z, Z, n, n, False)
    if f == "sbd_vec":
        Z = np.ascontiguousarray(tu.to_time_series_dataset(X))
        return tm.y_shifted_sbd_vec(Z[0], Z, -1, np.linalg.norm(Z, axis=(1, 2)))
    if f == "cdist_sax":
        from tslearn.piecewise import SymbolicAggregateApproximation
        s = SymbolicAggregateApproximation(n_segments=2, alphabet_size_avg=4, scale=True)
        R = s.fit_transform(X)
        return tm.cdist_sax(R, s.breakpoints_avg_, s._X_fit_dims_[1], n_jobs=kw.get("n_jobs"))
    if f in ("sigma_gak", "gamma_soft_dtw"):
        return getattr(tm, f)(X, **kw)
    if f == "torch_loss":
        import torch
        Z = torch.tensor(np.ascontiguousarray(tu.to_time_series_dataset(X)))
        W = torch.tensor(np.ascontiguousarray(tu.to_time_series_dataset(X))[::-1].copy(), requires_grad=True)
        out = tm.SoftDTWLossPyTorch(gamma=0.5, normalize=bool(j["s"][1] % 2))(Z, W)
        out.sum().backward()
        return out.detach(), W.grad
    if f in ("random_walks", "random_walk_blobs"):
        import tslearn.generators as tg
        if f == "random_walks":
            return tg.random_walks(**kw)
        return tg.random_walk_blobs(**kw)
    if f == "silhouette":
        from tslearn.clustering import silhouette_score
        return silhouette_score(X, np.arange(len(X)) % 2, **kw)
    if f in BARY:
        import tslearn.barycenters as tb
        w = ex.get("weights")
        init = ex.get("init")
        if f == "euclidean_barycenter":
            return tb.euclidean_barycenter(X, weights=w)
        if f == "softdtw_barycenter":
            return tb.softdtw_barycenter(X, weights=w, init=init, **kw)
        g = {"dba": tb.dtw_barycenter_averaging, "dba_petitjean": tb.dtw_barycenter_averaging_petitjean,
             "dba_subgradient": tb.dtw_barycenter_averaging_subgradient}[f]
        return g(X, weights=w, init_barycenter=init, **kw)
    if f == "to_ts":
        return tu.to_time_series(a, remove_nans=bool(j["s"][1] % 2))
    if f == "to_ts_dataset":
        return tu.to_time_series_dataset(X)
    if f == "to_sklearn":
        return tu.to_sklearn_dataset(X, return_dim=True)
    if f == "ts_str":
        s = tu.time_series_to_str(a)
        return s, tu.str_to_time_series(s)
    if f == "check_dims":
        Z = tu.to_time_series_dataset(X)
        return tu.check_dims(Z, (3, Z.shape[1] + 2, Z.shape[2]), extend=True)
    if f == "check_equal":
        return tu.check_equal_size(X)
    if f == "ts_size":
        return [int(tu.ts_size(x)) for x in X]
    if f == "pyts":
        return tu.from_pyts_dataset(tu.to_pyts_dataset(Y)) if False else tu.to_sklearn_dataset(Y)
    if f == "stumpy":
        return tu.to_stumpy_dataset(X)
    if f == "check_dataset":
        return tu.check_dataset(tu.to_time_series_dataset(X), force_univariate=False, force_equal_length=bool(j["s"][0] % 2))
    if f == "check_variable":
        return tu.check_variable_length_input(X)
    if f == "ts_zeros":
        return tu.ts_zeros(4, 2)
    import tslearn.preprocessing as tp
    if f in ("resample", "impute", "minmax", "meanvar", "sync"):
        c = {"resample": tp.TimeSeriesResampler, "impute": tp.TimeSeriesImputer, "minmax": tp.TimeSeriesScalerMinMax,
             "meanvar": tp.TimeSeriesScalerMeanVariance, "sync": tp.TimeSeriesFeatureSynchronizer}[f]
        return c(**kw).fit_transform(X)
    if f == "mprofile":
        from tslearn.matrix_profile import MatrixProfile
        Z = [np.asarray(x)[:, :1] for x in X]
        return MatrixProfile(**kw).fit_transform(Z)
    import tslearn.piecewise as tw
    c = {"paa": tw.PiecewiseAggregateApproximation, "sax": tw.SymbolicAggregateApproximation, "onedsax": tw.OneD_SymbolicAggregateApproximation}[f]
    e = c(**kw)
    R = e.fit_transform(X)
    return R, e.inverse_transform(R)
