"""H05: a fixed random_state makes results reproducible and leaves the global generators alone."""
import random
import numpy as np
from .. import catalog as cat, cmp, core, data, work
from ..core import Skip, Violation

RUNS = {"quick": 900, "thorough": 60000}
RULE = ("one estimator (fit, then queries) or one randomised function with an integer random_state, executed in 2-4 simulated processes that "
        "differ in the state of the global NumPy/Python/torch generators, in what ran before, in object identity and hash order (seeded "
        "hashes for estimator objects, heap perturbation) and in the time; non-trivial = executed successfully in at least two processes; "
        "distinct = (estimator or function, parameters, environments)")
REAL = ["all tslearn estimators except LearningShapelets, randomised functions", "scikit-learn bases"]
STUB = ["numba JIT (kernels run as Python)", "global random generators (seeded per simulated process)", "object hashes of VARIMA objects (seeded)",
        "process: forked copies"]
ASSUMPTIONS = ["rounding differences below 1e-9 relative (BLAS results depend on buffer alignment) are not reported"]
FAMS = ["kmeans", "kshape", "kernelkmeans", "svc", "svr", "early", "mlpc", "mlpr", "fn", "varima", "fn", "kmeans", "kshape", "kernelkmeans",
        "auto", "fn", "dbscan", "knn", "knnc", "knnr", "piece", "prep", "fn", "auto", "early", "mprofile"]
FNS = ["sigma_gak", "gamma_soft_dtw", "random_walks", "random_walk_blobs", "dba_subgradient", "dba", "dba_petitjean", "softdtw_barycenter",
       "euclidean_barycenter", "silhouette", "sil_sample"]


def gen(rng, i, tier):
    f = FAMS[i % len(FAMS)]
    envs = [{"np": rng.randrange(1 << 20), "burn": rng.choice([0, 1, 7, 700]), "hash": rng.randrange(1 << 20), "heap": rng.randrange(1 << 20),
             "hist": rng.choice([None, None, "rand", "fit", "fits", "fn"]), "time": rng.choice([0, 1, 10 ** 6])} for _ in range(rng.choice([2, 2, 3, 4]))]
    s = {"envs": envs, "hseed": rng.randrange(1 << 20)}
    if f == "fn":
        s["dss"] = work.gen_data(rng)
        if rng.random() < 0.25:
            s["job"] = {"f": "sil_sample", "a": [0, 0], "s": [rng.randrange(4), rng.randrange(4)],
                        "kw": {"metric": rng.choice(["dtw", "softdtw", "euclidean"]), "random_state": rng.randrange(20)}}
            s["job"]["a"] = [2, 2]
            s["dss"][2]["sz"] = [s["dss"][2]["sz"][0]] * 8
        else:
            s["job"] = work.gen_job(rng, len(s["dss"]), fns=FNS[:-1])
        return s
    if f == "auto":
        for _ in range(200):
            m = cat.gen(rng, "varima")
            if m["est"] == "AutoVARIMA":
                break
        if rng.random() < 0.6:          # data on which several models fit equally well
            m["train"]["kind"] = rng.choice(["alt", "alt", "ramp", "ties"])
            m["params"]["max_p"] = 2
            m["params"]["default_d_for_non_stationarity"] = rng.choice([0, 1])
    else:
        m = cat.gen(rng, f, rng.random() < 0.1)
    if f == "kmeans" and rng.random() < 0.5:
        m["params"]["n_init"] = rng.choice([2, 3])
    s["model"] = m
    return s


def environ(env, est_cls, hseed):
    """Put this (forked) process into the described environment."""
    r = random.Random(env["heap"])
    junk = [bytearray(r.randrange(16, 5000)) for _ in range(60)]
    del junk[::2]
    np.random.seed(env["np"])
    np.random.rand(env["burn"])
    random.seed(env["np"])
    import torch
    torch.manual_seed(env["np"])
    import tslearn.forecasting as tf
    k = random.Random(env["hash"])

    def h(self):
        v = self.__dict__.get("__dst_hash")
        if v is None:
            v = self.__dict__["__dst_hash"] = k.getrandbits(60)
        return v
    tf.VARIMA.__hash__ = h
    if env["hist"] == "rand":
        np.random.rand(3)
    elif env["hist"] in ("fit", "fits"):
        g = random.Random(hseed)
        for _ in range(1 if env["hist"] == "fit" else 3):
            m = cat.gen(g, g.choice(["kmeans", "kshape", "kernelkmeans", "svc", "early", "mlpc"]))
            cat.outcome(lambda: cat.fit(cat.build(m), m))
    elif env["hist"] == "fn":
        g = random.Random(hseed)
        dss = work.gen_data(g)
        ds = [data.make(d) for d in dss]
        for _ in range(3):
            j = work.gen_job(g, 3, fns=FNS[:-1])
            cat.outcome(lambda: work.run_job(j, ds))
    return junk


def in_env(spec, env):
    junk = environ(env, None, spec["hseed"])
    s0, r0 = np.random.get_state(), random.getstate()
    out = []
    if "job" in spec:
        j = spec["job"]
        ds = [data.make(d) for d in spec["dss"]]
        if j["f"] == "sil_sample":
            from tslearn.clustering import silhouette_score
            X = ds[2]
            lab = np.arange(len(X)) % 2
            out.append(cat.outcome(lambda: silhouette_score(X, lab, sample_size=5, **j["kw"])))
        else:
            out.append(cat.outcome(lambda: cmp.freeze(work.run_job(j, ds))))
    else:
        from .h02 import pick
        m = spec["model"]
        est = cat.build(m)
        out.append(cat.outcome(lambda: cat.fit(est, m) and None))
        if out[0][0] == "ok":
            fit = pick(cmp.fitted(est))
            for k, v in cmp.fitted(est).items():
                if hasattr(v, "get_params"):
                    fit[k] = cmp.freeze(v.get_params(deep=False))
            out.append(("ok", fit))
            for q in m["queries"][:6]:
                X, y = cat.xdata(m["qds"][q["x"]]), cat.target(m, m["qds"][q["x"]])
                out.append(cat.outcome(lambda: cmp.freeze(cat.query(est, q, X, y))))
    s1, r1 = np.random.get_state(), random.getstate()
    moved = [n for n, a, b in (("NumPy", s0, s1), ("Python", r0, r1)) if cmp.diff(list(a), list(b), exact=True)]
    return out, moved, len(junk)


def run(spec, ctx):
    name = spec["job"]["f"] if "job" in spec else spec["model"]["est"]
    res = []
    for env in spec["envs"]:
        out, moved, _ = core.in_child(lambda: in_env(spec, env))
        res.append(out)
        if "NumPy" in moved:
            raise Violation("global-rng-used", "%s advanced the global %s generator" % (name, "/".join(moved)))
        ctx.fault("process-history", int(bool(env["hist"])))
        ctx.fault("global-rng-state")
        ctx.fault("hash-order")
        ctx.sig(env["hist"], env["burn"])
    a = res[0]
    labels = ["result" if "job" in spec else "fit", "fitted attributes"] + ([q["m"] for q in spec["model"]["queries"]] if "model" in spec else [])
    for k, b in enumerate(res[1:]):
        for lab, x, y in zip(labels, b, a):
            d = cat.same(x, y, **core.NOISE)
            if d:
                raise Violation("not-reproducible", "%s: %s differs between two runs with the same arguments (%s / %s): %s" % (
                    name, lab, spec["envs"][0], spec["envs"][k + 1], d))
            if cmp.diff(x[1], y[1], exact=True):
                ctx.tag("rounding-only")
    ctx.tag(name)
    if a[0][0] != "ok":
        raise Skip("rejected")
    ctx.note(a[0][0], len(res))
    ctx.sig(name, sorted((k, str(v)) for k, v in (spec["job"]["kw"] if "job" in spec else spec["model"]["params"]).items()))
    ctx.nontrivial = True


SHRINK_LISTS = ["envs"]


def shrink(s):
    for k, e in enumerate(s["envs"]):
        if e["hist"]:
            yield dict(s, envs=s["envs"][:k] + [dict(e, hist=None)] + s["envs"][k + 1:])
    if "model" in s:
        for mm in cat.shrink_model(s["model"]):
            yield dict(s, model=mm)
