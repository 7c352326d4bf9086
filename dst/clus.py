"""Clustering under a simulated source of randomness, and the reference model it is compared with."""
import numpy as np

from . import catalog as cat, data
from .core import Skip, Violation

TIE = 1e-7


class SimRandom(np.random.RandomState):
    """Every draw is seeded, recorded, and can be turned into an unlikely (but possible) one."""

    def __init__(self, seed, plan=(), twins=(), skew=0.0):
        super().__init__(seed)
        self.side = np.random.RandomState(seed + 7)
        self.plan = list(plan)          # per start: None, or what to draw instead
        self.twins = list(twins)        # groups of identical series
        self.skew = skew
        self.draws = []
        self.steered = 0

    def _next(self):
        return self.plan.pop(0) if self.plan else None

    def choice(self, a, size=None, replace=True, p=None):
        out = super().choice(a, size=size, replace=replace, p=p)
        if not replace and size is not None and isinstance(a, (int, np.integer)) and np.size(out) > 1:
            how = self._next()
            if how == "twins" and self.twins:
                g = list(self.twins[self.side.randint(len(self.twins))])
                rest = [i for i in out.tolist() if i not in g]
                out = np.array((g + rest)[:np.size(out)])
                if len(set(out.tolist())) == np.size(out):
                    self.steered += 1
            elif how == "first":
                out = np.arange(np.size(out))
                self.steered += 1
            elif how == "last":
                out = np.arange(a - np.size(out), a)
                self.steered += 1
            self.draws.append(("choice", np.array(out)))
        return out

    def randint(self, low, high=None, size=None, dtype=int):
        out = super().randint(low, high, size=size, dtype=dtype)
        if size is not None and np.size(out) > 1 and high is None:
            how = self._next()
            if how == "hole":           # a cluster nobody starts in
                out = np.where(out == self.side.randint(low), 0 if low > 1 else out, out)
                out = np.where(out == low - 1, 0, out)
                self.steered += 1
            elif how == "single":       # one series alone, all others together
                out = np.zeros_like(out)
                out[:low - 1] = np.arange(1, low)[:np.size(out)]
                self.steered += 1
            elif how == "blocks":
                out = np.arange(np.size(out)) * low // np.size(out)
                self.steered += 1
            self.draws.append(("randint", np.array(out)))
        return out

    def uniform(self, low=0.0, high=1.0, size=None):
        out = super().uniform(low, high, size)
        if self.skew and self.side.rand() < self.skew:
            e = self.side.choice([0.0, 1.0 - 2 ** -53])
            self.steered += 1
            out = low + (high - low) * (np.zeros(size) + e if size is not None else e)
        return out

    def random_sample(self, size=None):
        out = super().random_sample(size)
        if self.skew and self.side.rand() < self.skew:
            e = self.side.choice([0.0, 1.0 - 2 ** -53])
            self.steered += 1
            out = np.zeros(size) + e if size is not None else e
        return out

    def __deepcopy__(self, memo):
        return self


def gen_model(rng, jobs):
    f = rng.choice(["kmeans", "kmeans", "kshape", "kernelkmeans"])
    for _ in range(100):
        m = cat.gen(rng, f, jobs)
        if m["params"]["n_clusters"] > 1 or rng.random() < 0.1:
            break
    t = m["train"]
    t["form"] = "array"
    if f == "kmeans" and t["kind"] == "big" and m["params"]["metric"] == "softdtw":
        t["kind"] = "randn"
    m["params"]["n_init"] = rng.choice([1, 1, 2, 3, 4, 11]) if t["sz"] and m["params"].get("metric") != "softdtw" else rng.choice([1, 2])
    if f == "kmeans" and m["params"]["metric"] == "euclidean":
        m["params"]["max_iter"] = rng.choice([1, 2, 5, 20])
    if f != "kernelkmeans":
        m["params"]["tol"] = rng.choice([1e-6, 1e-6, 0.0, 1e-2])
        if isinstance(m["params"].get("init"), str) and rng.random() < 0.5:
            m["params"]["init"] = "random"
    else:
        m["params"]["max_iter"] = rng.choice([1, 2, 5, 50])
    if f == "kmeans" and rng.random() < 0.12:       # enough series for sums to depend on their order
        if m["params"]["metric"] == "euclidean":
            m["params"]["metric"] = "dtw"
        m["params"]["init"] = "k-means++"
        m["params"]["max_iter"] = 2
        t["kind"], t["sz"], wide = "randn", [3] * rng.randint(9, 20), True
    else:
        wide = False
    n = len(t["sz"])
    m["twins"] = []
    if rng.random() < 0.5:              # identical series make empty clusters likely
        g = rng.sample(range(n), min(n, rng.choice([2, 2, 3])))
        for i in g[1:]:
            t["sz"][i] = t["sz"][g[0]]
        m["twins"].append(sorted(g))
    m["znorm"] = f == "kshape" and rng.random() < 0.6
    m["scale"] = f == "kshape" and not m["znorm"]      # series of very different amplitudes
    how = ["single", "blocks", "hole", "hole", None] if f == "kernelkmeans" else ["twins", "twins", "first", "last", None]
    m["plan"] = [rng.choice(how) for _ in range(rng.choice([0, 3, 6, 12]))]
    if m["twins"] and f == "kshape" and rng.random() < 0.4:    # a good start, then failures up to the limit
        m["plan"] = [rng.choice([None, "first"])] * rng.choice([1, 1, 2]) + ["twins"] * 12
        m["params"]["n_init"] = rng.choice([2, 3, 4])
    m["skew"] = rng.choice([0.0, 0.0, 0.2, 0.6])
    if wide:
        m["skew"] = 0.6
        m["params"]["init"] = "k-means++"
    m["rs"] = rng.randrange(1 << 20)
    m["weights"] = rng.random() < 0.3
    m["qds"], m["queries"] = [], []
    return m


def dataset(m):
    ss = data.series(m["train"])
    for g in m["twins"]:
        g = [i for i in g if i < len(ss)]
        for i in g[1:]:
            ss[i] = ss[g[0]].copy()
    if m["znorm"]:
        ss = [znorm(s) for s in ss]
    if m.get("scale"):
        r = np.random.RandomState(m["rs"] + 3)
        ss = [s * r.choice([0.1, 1.0, 10.0, 100.0]) for s in ss]
    return data.pad(ss)


def znorm(s):
    with np.errstate(all="ignore"):
        return np.nan_to_num((s - s.mean(axis=0)) / s.std(axis=0))


def weights(m, n):
    return np.round(0.5 + np.random.RandomState(m["rs"] + 1).rand(n), 3) if m["weights"] and m["est"] == "KernelKMeans" else None


def estimator(m, rs, **over):
    p = {k: cat.dec(v) for k, v in m["params"].items()}
    p["random_state"] = rs
    p.update(over)
    return cat.cls(m["est"])(**p)


def do_fit(est, m, X):
    w = weights(m, len(X))
    with np.errstate(all="ignore"):
        est.fit(X) if w is None else est.fit(X, sample_weight=w)
    return est


def succeeded(est):
    return getattr(est, "n_iter_", 0) >= 1


# ------------------------------------------------------------------ reference distances
def sbd(X, C):
    """1 - max normalised cross-correlation (multivariate: channels summed)."""
    out = np.empty((len(X), len(C)))
    for i, x in enumerate(X):
        for j, c in enumerate(C):
            cc = sum(np.correlate(x[:, k], c[:, k], "full") for k in range(x.shape[1]))
            den = np.linalg.norm(x) * np.linalg.norm(c)
            out[i, j] = 1.0 if den < 1e-9 else 1 - cc.max() / den
    return out


def distances(m, X, C):
    """Distance of every series to every centre, from the public metric functions."""
    if m["est"] == "KShape":
        return sbd(X, C)
    metric = m["params"]["metric"]
    mp = {k: v for k, v in (m["params"].get("metric_params") or {}).items() if k != "n_jobs"}
    from tslearn import metrics
    if metric == "euclidean":
        return np.sqrt(((X[:, None] - C[None]) ** 2).sum(axis=(2, 3)))
    if metric == "dtw":
        return metrics.cdist_dtw(X, C, **mp)
    return metrics.cdist_soft_dtw(X, C, **mp)


def inertia(m, X, C, D, labels):
    if m["params"].get("dtw_inertia") and m["params"].get("metric") != "dtw":
        from tslearn.metrics import cdist_dtw
        D = cdist_dtw(X, C)
    return float(np.mean(D[np.arange(len(X)), labels] ** 2))


def kernel_matrix(est, X, Y=None):
    """The kernel of a fitted KernelKMeans, from public functions."""
    kp = dict(est.kernel_params or {})
    if est.kernel == "gak":
        from tslearn.metrics import cdist_gak
        kp["sigma"] = est.sigma_gak_
        return cdist_gak(X, Y, **kp)
    from sklearn.metrics.pairwise import pairwise_kernels
    return pairwise_kernels(X.reshape(len(X), -1), None if Y is None else Y.reshape(len(Y), -1), metric=est.kernel, **kp)


def kernel_dist(K, labels, w, k):
    D = np.empty((len(K), k))
    for j in range(k):
        s = labels == j
        if not s.any():
            return None
        D[:, j] = 2 - 2 * (w[s] * K[:, s]).sum(axis=1) / w[s].sum()
    return D


def ambiguous(D):
    if D.shape[1] < 2:
        return False
    s = np.sort(D, axis=1)
    return bool((s[:, 1] - s[:, 0] < TIE * (1 + np.abs(s[:, 0]))).any())


def kernel_start(K, labels, w, k, max_iter, tol):
    """One start of kernel k-means: None when a cluster empties, "?" when rounding decides, else (labels, inertia, iterations)."""
    old = np.inf
    L = np.asarray(labels)
    for it in range(max_iter):
        D = kernel_dist(K, L, w, k)
        if D is None:
            return None
        if ambiguous(D):
            return "?"
        L = D.argmin(axis=1)
        if len(set(L.tolist())) < k:
            return None
        I = D.min(axis=1).sum()
        if abs(abs(old - I) - tol) < 1e-9:
            return "?"
        if abs(old - I) < tol:
            break
        old = I
    return L, float(I), it + 1


def wrong_label(D, labels):
    """A series not in its nearest cluster (ties allowed), as text."""
    best = D.min(axis=1)
    got = D[np.arange(len(D)), labels]
    bad = np.argwhere(got > best + TIE * (1 + np.abs(best)))
    if len(bad):
        i = int(bad[0, 0])
        return "series %d is in cluster %d at %.9g, cluster %d is at %.9g" % (i, labels[i], got[i], D[i].argmin(), best[i])


def check_result(m, est, X, bad):
    """Everything the fitted attributes promise about each other (K01)."""
    k, n = est.n_clusters, len(X)
    L = np.asarray(est.labels_)
    if L.shape != (n,) or not np.issubdtype(L.dtype, np.integer):
        bad("labels", "labels_ is %s %s" % (L.shape, L.dtype))
    if sorted(set(L.tolist())) != list(range(k)):
        bad("empty-cluster", "labels_ %s with n_clusters=%d" % (L.tolist(), k))
    if not 1 <= est.n_iter_ <= est.max_iter:
        bad("n_iter", "n_iter_=%r with max_iter=%d" % (est.n_iter_, est.max_iter))
    if not np.isfinite(est.inertia_):
        bad("inertia", "inertia_ is %r" % (est.inertia_,))
    P = np.asarray(est.predict(X))
    if m["est"] == "KernelKMeans":
        w = weights(m, n)
        w = np.ones(n) if w is None else w
        K = kernel_matrix(est, X)
        D = kernel_dist(K, L, w, k)
        t = wrong_label(D, P)
        if t:
            bad("predict", "predict on the training data: %s" % t)
        if est.n_iter_ < est.max_iter and not ambiguous(D) and m["converges"] and (P != L).any():
            bad("labels", "labels_ %s but predict says %s (converged after %d iterations)" % (L.tolist(), P.tolist(), est.n_iter_))
        if est.n_iter_ < est.max_iter and (P == L).all():
            I = D.min(axis=1).sum()
            if abs(I - est.inertia_) > 1e-6 * (1 + abs(I)) + est.tol:
                bad("inertia", "inertia_=%.9g, labels_ have %.9g" % (est.inertia_, I))
        return
    C = np.asarray(est.cluster_centers_)
    if C.shape[0] != k or C.ndim != 3 or C.shape[2] != X.shape[2] or not np.isfinite(C).all():
        bad("centers", "cluster_centers_ of shape %s, finite: %s" % (C.shape, bool(np.isfinite(C).all())))
    D = distances(m, X, C)
    E = D                               # KShape.predict normalises its argument, fit does not
    if m.get("scale"):
        E = distances(m, np.array([znorm(x) for x in X]), C)
    for what, lab, D in (("labels_", L, D), ("predict on the training data", P, E)):
        t = wrong_label(D, lab)
        if t:
            bad("labels" if what == "labels_" else "predict", "%s: %s" % (what, t))
    D = distances(m, X, C)
    I = inertia(m, X, C, D, L)
    if abs(I - est.inertia_) > 1e-6 * (abs(I) + 1e-3 * float(np.mean(D ** 2))) + 1e-12:
        bad("inertia", "inertia_=%.9g, labels_ and cluster_centers_ give %.9g" % (est.inertia_, I))
    if m["est"] == "TimeSeriesKMeans":
        T = np.asarray(est.transform(X))
        if not np.allclose(T, D, rtol=1e-6, atol=1e-9 * (1 + np.abs(D).max())):
            bad("transform", "transform differs from the distances to cluster_centers_ by %.3g" % np.abs(T - D).max())
