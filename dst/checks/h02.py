"""H02: refitting after any history equals fitting a new estimator."""
import numpy as np
from .. import catalog as cat, cmp, core
from ..core import Skip, Violation

RUNS = {"quick": 800, "thorough": 60000}
KERAS = True
prepare = cat.warm_keras
RULE = ("one estimator object and a seeded history of 1-5 fits with other hyper-parameters and data, rejected fits, fits cut short by an "
        "exception injected at a source line, set_params calls and queries, followed by set_params + fit; compared with a new estimator "
        "fitted on the same data in a forked process; non-trivial = final fit succeeded after at least one earlier fit attempt; "
        "distinct = (estimator, final parameters, operation sequence)")
REAL = ["all tslearn estimators and transformers", "scikit-learn bases", "keras/torch for LearningShapelets"]
STUB = ["numba JIT (kernels run as Python)", "caller: a simulated client issuing the history", "exceptions injected at tslearn lines"]
ASSUMPTIONS = ["attributes left over from earlier fits that a new estimator would not have are not compared (only attributes a new one has)"]
FAMS = ["knn", "knnc", "knnr", "svc", "kmeans", "kernelkmeans", "kshape", "early", "mprofile", "prep", "piece", "varima", "mlpc", "dbscan",
        "knn", "knnc", "kmeans", "svr", "prep", "piece", "piece", "varima", "kernelkmeans", "kshape", "early", "mlpr", "shapelet"]
EXCS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError}


def variant(rng, f, est):
    for _ in range(60):
        m = cat.gen(rng, f, rng.random() < 0.1)
        if m["est"] == est:
            return m
    return None


def gen(rng, i, tier):
    f = FAMS[i % len(FAMS)]
    last = cat.gen(rng, f)
    if rng.random() < (0.3 if f in ("piece", "prep", "svc", "svr") else 0.12):             # a fit on very few series
        last["train"] = dict(last["train"], sz=last["train"]["sz"][:rng.choice([1, 2, 2])])
    ms = [last] + [m for m in (variant(rng, f, last["est"]) for _ in range(rng.choice([1, 2, 3]))) if m]
    if rng.random() < 0.5:              # one hyper-parameter (or only the data) differs from the final model
        m = ms[-1]
        keys = list(m["params"])
        keep = rng.choice(keys) if keys and rng.random() < 0.8 else None
        ms[-1] = dict(m, params={k: (m["params"].get(k, v) if k == keep else v) for k, v in last["params"].items()})
        r = rng.random()
        if r < 0.5:
            ms[-1]["train"] = last["train"]
        elif r < 0.8:
            ms[-1]["train"] = dict(last["train"], twin=rng.choice([1, 2, 3]))
    ops = []
    for _ in range(rng.randint(1, 5 if f != "shapelet" else 2)):
        k = rng.randrange(len(ms))
        r = rng.random()
        if r < 0.5:
            ops.append(["fit", k])
        elif r < 0.62:
            ops.append(["bad", k, rng.choice(["inf", "empty", "str", "nan", "short", "none", "dims", "y"])])
        elif r < 0.82:
            ops.append(["cut", k, int(2 ** rng.uniform(0, 11)), rng.choice(list(EXCS))])
        elif r < 0.9:
            ops.append(["set", k])
        else:
            ops.append(["query", rng.randrange(20)])
    return {"models": ms, "ops": ops, "buf": rng.random() < 0.5, "scheds": [{"mode": "sync", "seed": 0}]}


def params_of(m):
    return cat.build(m).get_params(deep=False)


def run(spec, ctx):
    ms = spec["models"]
    last = ms[0]
    est = cat.build(ms[-1])
    fitted_with, tried = None, 0
    arrays = {}

    def mine(ds, use):
        """The caller's data; a caller may keep one array per shape and use, and refill it between calls."""
        X = cat.xdata(ds)
        if not spec.get("buf") or not isinstance(X, np.ndarray) or X.dtype.kind != "f":
            return X
        b = arrays.setdefault((use, X.shape, X.flags.f_contiguous), X)
        b[...] = X
        return b
    for op in spec["ops"]:
        what = op[0]
        if what == "query":
            if fitted_with is not None and fitted_with["queries"]:
                q = fitted_with["queries"][op[1] % len(fitted_with["queries"])]
                X = mine(fitted_with["qds"][q["x"]], "query")
                o = cat.outcome(lambda: cat.query(est, q, X, cat.target(fitted_with, fitted_with["qds"][q["x"]])))
                ctx.note(o[1] if o[0] == "err" else 0)
                ctx.tag("history-query")
            continue
        m = ms[op[1] % len(ms)]
        est.set_params(**params_of(m))
        if what == "set":
            ctx.tag("set_params")
            continue
        tried += 1
        if what == "fit":
            o = cat.outcome(lambda: cat.fit(est, m, X=mine(m["train"], "fit")) and None)
            ctx.tag("history-fit-" + o[0])
            fitted_with = m if o[0] == "ok" else fitted_with
        elif what == "bad":
            if op[2] == "y":
                y = cat.target(m, m["train"])
                y = None if y is None else y[:-1]
                o = cat.outcome(lambda: cat.fit(est, m, y=y) and None)
            else:
                X = cat.xdata(dict(m["train"], bad=op[2], form="array"))
                o = cat.outcome(lambda: cat.fit(est, m, X=X) and None)
            ctx.fault("bad-fit", int(o[0] == "err"))
        else:
            X = mine(m["train"], "fit")

            def cut():
                ctx.sim_obj.arm(op[2], EXCS[op[3]]("injected"), "line")
                try:
                    cat.fit(est, m, X=X)
                    return "completed"
                except Exception as e:
                    return core.short(e)
                except KeyboardInterrupt as e:
                    return core.short(e)
                finally:
                    ctx.sim_obj.disarm()
            ctx.note(ctx.sim(cut))

    def final(e, get):
        o = cat.outcome(lambda: cat.fit(e, last, X=get(last["train"], "fit")) and None)
        out = [o]
        if o[0] == "ok":
            for q in last["queries"][:5]:
                X = get(last["qds"][q["x"]], "query")
                y = cat.target(last, last["qds"][q["x"]])
                out.append(cat.outcome(lambda: cmp.freeze(cat.query(e, q, X, y))))
        return out

    def fresh():
        e = cat.build(last)
        out = final(e, lambda ds, use: cat.xdata(ds))
        return out, pick(cmp.fitted(e)) if out[0][0] == "ok" else {}
    ref, rfit = core.in_child(fresh)
    want = params_of(last)
    est.set_params(**want)
    got = final(est, mine)
    d = cmp.diff(est.get_params(deep=False), params_of(last), exact=True)
    if d:
        raise Violation("params-changed", "%s: after the fit: %s" % (last["est"], d))
    tol = {"rtol": 1e-3, "atol": 1e-4} if last["est"] == "LearningShapelets" else {"rtol": 1e-7, "atol": 1e-10}
    if ref[0][0] == "ok":
        for name, a, b in zip(["fit"] + [q["m"] for q in last["queries"]], got, ref):
            d = cat.same(a, b, **tol)
            if d:
                raise Violation("past-shows", "%s.%s after %s: %s" % (last["est"], name, [o[0] for o in spec["ops"]], d))
        fit = pick(cmp.fitted(est))
        for k in rfit:
            d = "missing" if k not in fit else cmp.diff(fit[k], rfit[k], **tol)
            if d:
                raise Violation("past-shows", "%s.%s after %s: %s" % (last["est"], k, [o[0] for o in spec["ops"]], d))
        ctx.note(sorted(rfit))
    elif got[0][0] == "ok":
        raise Violation("past-shows", "%s: a new estimator rejects the data (%s), the used one accepts it" % (last["est"], ref[0][1]))
    ctx.tag(last["est"])
    ctx.sig(last["est"], sorted((k, str(v)) for k, v in last["params"].items()), [o[0] for o in spec["ops"]])
    ctx.nontrivial = tried > 0 and ref[0][0] == "ok"


def pick(f):
    """Plain-valued attributes (nested estimators are compared through the queries)."""
    out = {}
    for k, v in f.items():
        if hasattr(v, "get_params") or type(v).__module__.split(".")[0] in ("keras", "sklearn"):
            continue
        if isinstance(v, dict) and any(hasattr(x, "get_params") for x in v.values()):
            continue
        out[k] = cmp.freeze(v)
    return out


SHRINK_LISTS = ["ops"]


def shrink(s):
    if len(s["models"]) > 2:
        for k in range(1, len(s["models"])):
            yield dict(s, models=s["models"][:k] + s["models"][k + 1:])
