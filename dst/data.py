"""Small seeded inputs described by JSON, so that runs can be replayed and shrunk."""
import numpy as np


def gen_ds(rng, nmax=5, szmax=8, dmax=2, nmin=2, szmin=3, equal=None, kinds=("randn",) * 6 + ("const", "int", "ties", "big")):
    n = rng.randint(nmin, nmax)
    top = rng.randint(szmin, szmax)
    if equal is None:
        equal = rng.random() < 0.45
    sz = [top] * n if equal else [rng.randint(szmin, top) for _ in range(n)]
    return {"seed": rng.randrange(1 << 20), "sz": sz, "d": rng.randint(1, dmax), "kind": rng.choice(list(kinds)),
            "form": rng.choice(["array", "array", "array", "fortran", "list", "pad"])}


def series(ds):
    r = np.random.RandomState(ds["seed"])
    out = []
    k = ds["kind"]
    for i, s in enumerate(ds["sz"]):
        x = r.randn(s, ds["d"])
        if k == "int":
            x = np.floor(x * 3)
        elif k == "ties":
            x = np.round(x)
        elif k == "const" and i % 3 == 0:
            x = np.zeros_like(x) + i
        elif k == "big":
            x = x * 50 + 100 * i
        elif k == "offset":     # differences far below the values
            x = 0.02 * x + 1e5 + 0.04 * labels(ds)[i] * (np.arange(s) >= s // 2)[:, None]
        elif k == "walk":
            x = np.cumsum(x, axis=0)
        elif k == "zero":
            x = np.zeros_like(x)
        elif k == "alt":
            x = np.zeros_like(x) + ((-1.0) ** np.arange(s))[:, None]
        elif k == "ramp":
            x = np.zeros_like(x) + np.arange(s)[:, None]
        elif k == "late":       # two groups told apart by an early move; the class shows soon in one and at the end in the other
            g = r.randint(2)
            t = np.arange(s)[:, None]
            x = 0.4 * x + 4.0 * labels(ds)[i] * (t >= (1 if g else s - 1))
            x[1:3] += np.array([[8.0], [-8.0]])[:len(x[1:3])] * g
        elif k == "blob":
            x = 0.1 * x + (i % 3) * 3 * np.sin(np.arange(s)[:, None] + (i % 3))
        x = np.round(x, 4)
        if ds.get("twin") == 3 and s > 3:       # one early move; later prefixes have the same first and last points and sums
            step = 8 if x[1, 0] < 4 else -8
            x[1] += step
            x[2] -= step
        elif ds.get("twin") and s > 3:  # other series with the same shapes, sums, extremes, first and last points
            x[1:-1] = x[-2:0:-1].copy()
        out.append(x)
    if ds.get("twin") == 2 and len({len(x) for x in out}) == 1:
        out = out[:1] + out[:0:-1] if len(out) > 2 else out[::-1]      # the same series in another order
    return out


def pad(ss, extra=0):
    n, m, d = len(ss), max(len(s) for s in ss) + extra, ss[0].shape[1]
    X = np.full((n, m, d), np.nan)
    for i, s in enumerate(ss):
        X[i, :len(s)] = s
    return X


def make(ds):
    """The dataset object handed to tslearn: array, Fortran-ordered array or list of arrays."""
    ss = series(ds)
    f = ds.get("form", "array")
    if f == "list":
        return [s.copy() for s in ss]
    if f == "pad":
        return pad(ss, 1)
    X = pad(ss)
    if f == "fortran":
        return np.asfortranarray(X)
    return X


def array(ds):
    return pad(series(ds))


def labels(ds, k=2):
    r = np.random.RandomState(ds["seed"] + 1)
    y = np.arange(len(ds["sz"])) % k
    r.shuffle(y)
    return y


def fill(buf, ds):
    """Refill a dataset object in place with the content of ds (same shapes)."""
    for dst, src in zip(buf, make(ds)):
        dst[...] = src


def shrink_ds(ds):
    out = []
    if len(ds["sz"]) > 1:
        out.append(dict(ds, sz=ds["sz"][:-1]))
    if any(s > 3 for s in ds["sz"]):
        out.append(dict(ds, sz=[max(3, s - 1) for s in ds["sz"]]))
    if ds["d"] > 1:
        out.append(dict(ds, d=1))
    if ds.get("form", "array") != "array":
        out.append(dict(ds, form="array"))
    if ds.get("twin"):
        out.append({k: v for k, v in ds.items() if k != "twin"})
    if ds["kind"] != "randn":
        out.append(dict(ds, kind="randn"))
    return out
