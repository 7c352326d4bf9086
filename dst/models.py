"""Shared parts of the persistence checks: generating saves, loading in a pristine process, comparing models."""
import os
from . import catalog as cat, cmp, core
from .checks.h02 import pick

FORMATS = ["json", "pickle", "hdf5"]
FAMS = ["knn", "knnc", "kmeans", "kernelkmeans", "kshape", "piece", "mprofile", "varima", "knnr", "dbscan", "knn", "kmeans", "piece", "kshape",
        "kernelkmeans", "varima"]


def variant(rng, f, est):
    for _ in range(60):
        m = cat.gen(rng, f, rng.random() < 0.1)
        if m["est"] == est:
            return m
    return None


def view(est, m, nq=6):
    """Everything a caller can see of a fitted estimator: class, hyper-parameters, public attributes, answers."""
    ans = []
    for q in m["queries"][:nq]:
        X, y = cat.xdata(m["qds"][q["x"]]), cat.target(m, m["qds"][q["x"]])
        ans.append(cat.outcome(lambda: cmp.freeze(cat.query(est, q, X, y))))
    nested = {k: cmp.freeze(v.get_params(deep=False)) for k, v in cmp.fitted(est).items()
              if hasattr(v, "get_params") and hasattr(v, "fit")}
    fit = pick(cmp.fitted(est))
    return {"cls": type(est).__name__, "params": cmp.freeze(est.get_params(deep=False)), "fit": {k: v for k, v in fit.items() if k not in nested},
            "nested": nested, "answers": ans}


def differ(got, want, tol=core.NOISE):
    """None, or how a loaded model differs from the saved one."""
    if got["cls"] != want["cls"]:
        return "class %s instead of %s" % (got["cls"], want["cls"])
    d = cmp.diff(got["params"], want["params"], **tol)
    if d:
        return "hyper-parameter %s" % d
    for k, v in want["fit"].items():
        d = "missing" if k not in got["fit"] else cmp.diff(got["fit"][k], v, **tol)
        if d:
            return "model parameter %s: %s" % (k, d)
    for k, v in want["nested"].items():
        d = "not an estimator" if k not in got["nested"] else cmp.diff(got["nested"][k], v, **tol)
        if d:
            return "model parameter %s: %s" % (k, d)
    for k, (a, b) in enumerate(zip(got["answers"], want["answers"])):
        d = cat.same(a, b, **tol)
        if d:
            return "answer %d: %s" % (k, d)
    return None


def load_view(path, fmt, m, again=None):
    """Executed in a pristine process: load, look, optionally save again and load that."""
    c = cat.cls(m["est"])
    out = {"first": None, "again": {}}
    o = cat.outcome(lambda: getattr(c, "from_" + fmt)(path))
    if o[0] == "err":
        out["first"] = o
        return out
    est = o[1]
    out["first"] = ("ok", view(est, m))
    for f2 in again or ():
        p2 = path + ".again-" + f2
        o = cat.outcome(lambda: getattr(est, "to_" + f2)(p2))
        if o[0] == "ok":
            o = cat.outcome(lambda: view(getattr(c, "from_" + f2)(p2), m))
        out["again"][f2] = o
        try:
            os.unlink(p2)
        except OSError:
            pass
    return out
