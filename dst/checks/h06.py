"""H06: incremental training of MLPs follows the history of successful calls."""
import copy
import pickle
import numpy as np
from .. import cmp, core, data
from ..core import Skip, Violation
from .h04 import EXCS, cut, where

RUNS = {"quick": 700, "thorough": 60000}
RULE = ("one TimeSeriesMLPClassifier or TimeSeriesMLPRegressor and a seeded history of 4-12 operations: fit, partial_fit, warm-started fits, "
        "set_params, queries, pickling and copying, calls the model must reject (other length, other number of features, NaN, unknown or too few "
        "labels, missing classes, bad hyper-parameters), and training calls cut by an exception at a seeded tslearn call or external call before training starts; a "
        "scikit-learn MLP is given the successful calls alone, on flattened series; non-trivial = at least two trainings and one "
        "rejected or cut call; distinct = (estimator, parameters, operations)")
REAL = ["TimeSeriesMLPClassifier, TimeSeriesMLPRegressor", "scikit-learn MLPs"]
STUB = ["caller: a simulated client", "injected exceptions"]
ASSUMPTIONS = ["scikit-learn's MLP on flattened series is the reference", "after a training call cut inside scikit-learn the history ends with a cold fit"]
SHRINK_LISTS = ["ops"]
BAD = ["len", "shape", "feat", "nan", "inf", "ylen", "ynew", "none", "yone", "text", "classes"]


def gen(rng, i, tier):
    clf = i % 3 != 2
    d = rng.choice([1, 1, 2, 3])
    p = {"hidden_layer_sizes": rng.choice([[2], [3], [3, 2]]), "max_iter": rng.choice([1, 2, 4]), "random_state": rng.randrange(50),
         "solver": rng.choice(["adam", "adam", "sgd", "lbfgs"]), "warm_start": rng.random() < 0.5}
    if p["solver"] == "sgd":
        p["learning_rate"] = rng.choice(["constant", "adaptive", "invscaling"])
    if p["solver"] != "lbfgs" and rng.random() < 0.2:
        p["batch_size"] = rng.choice([2, 3])
    if rng.random() < 0.2:
        p["activation"] = rng.choice(["tanh", "logistic", "identity"])
    if p["solver"] != "lbfgs" and rng.random() < 0.15:
        p["early_stopping"] = True
        p["validation_fraction"] = 0.4
    lab = rng.choice(["int", "str", "multi"]) if clf else rng.choice(["one", "two"])
    szs = [rng.randint(2, 6), rng.randint(2, 6)]

    def ds(first=0.75):
        sz = szs[0] if rng.random() < first else szs[1]
        return {"seed": rng.randrange(1 << 20), "sz": [sz] * rng.randint(6, 10), "d": d, "kind": rng.choice(["randn", "walk", "int"]),
                "form": rng.choice(["array", "array", "list", "fortran"])}
    ops = []
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        if r < 0.2:
            ops.append(["fit", ds(0.8)])
        elif r < 0.45:
            ops.append(["pfit", ds(0.95), rng.random() < 0.6, rng.random() < 0.3])
        elif r < 0.62:
            ops.append(["ask", ds(0.95)])
        elif r < 0.72:
            ops.append([rng.choice(["badfit", "badpfit", "badpfit"]), ds(0.9), rng.choice(BAD)])
        elif r < 0.76:
            ops.append(["badask", ds(0.9), rng.choice(BAD[:5])])
        elif r < 0.84:
            ops.append(["set", rng.choice([["warm_start", True], ["warm_start", False], ["max_iter", 1], ["max_iter", 3], ["alpha", 0.1],
                                           ["learning_rate_init", 0.01], ["random_state", 7]])])
        elif r < 0.9:
            ops.append(["move", rng.choice(["pickle", "deepcopy"])])
        else:
            ops.append([rng.choice(["cutfit", "cutpfit"]), ds(0.9), round(rng.random(), 4), rng.choice(list(EXCS)), rng.choice(["call", "ext"])])
    return {"clf": clf, "params": p, "lab": lab, "ops": ops, "knobs": dict(core.rand_knobs(rng), fine=False), "scheds": [{"mode": "sync", "seed": 0}]}


def target(spec, d, bad=None):
    n = len(d["sz"])
    r = np.random.RandomState(d["seed"] + 1)
    if spec["clf"]:
        k = 3 if spec["lab"] == "multi" else 2
        y = np.arange(n) % k
        r.shuffle(y)
        if bad == "yone":
            y[:] = 0
        if bad == "ynew":
            y[0] = 7
        if spec["lab"] == "str":
            y = np.array(["a", "bb", "ccc", "d", "e", "f", "g", "zz"])[y]
    else:
        y = np.round(r.randn(n) if spec["lab"] == "one" else r.randn(n, 2), 3)
    return y[:-1] if bad == "ylen" else y


def xdata(d, bad=None):
    d = dict(d)
    if bad == "len":
        d["sz"] = [s + 1 for s in d["sz"]]
    if bad == "feat":
        d["d"] += 1
    X = data.make(dict(d, form="array") if bad else d)
    if bad == "nan":
        X[0, 0, 0] = np.nan
    elif bad == "inf":
        X[-1, -1, -1] = np.inf
    elif bad == "shape":                        # as many numbers, other shape
        X = X.reshape(len(X), -1, 1) if X.shape[2] > 1 else X.reshape(len(X), 1, -1)
    elif bad == "none":
        X = None
    elif bad == "text":
        X = "series"
    return X


def flat(X):
    X = np.asarray(X, dtype=float)
    return X.reshape(len(X), -1).copy()


def classes(spec):
    return (np.array(["a", "bb"]) if spec["lab"] == "str" else np.arange(3 if spec["lab"] == "multi" else 2)) if spec["clf"] else None


def run(spec, ctx):
    from sklearn import neural_network as sk
    import tslearn.neural_network as tn
    kind = "Classifier" if spec["clf"] else "Regressor"
    p = dict(spec["params"])
    p["hidden_layer_sizes"] = tuple(p["hidden_layer_sizes"])
    est, ref = getattr(tn, "TimeSeriesMLP" + kind)(**p), getattr(sk, "MLP" + kind)(**p)
    fitted, dims, tainted = False, None, False
    trained = refused = 0

    def bad(kind_, step, detail):
        raise Violation(kind_, "%s, operation %d (%s): %s" % (type(est).__name__, step, spec["ops"][step][0], detail))

    def attempt(f):
        try:
            with np.errstate(all="ignore"):
                return "ok", f()
        except (Exception, KeyboardInterrupt) as e:
            if isinstance(e, (Violation, Skip)):
                raise
            return "err", e

    def args(what, op, d, y):
        kw = {"classes": classes(spec)} if what == "pfit" and spec["clf"] and op[2] else {}
        if what == "pfit" and op[3]:
            kw["sample_weight"] = 0.25 + np.random.RandomState(d["seed"]).randint(4, size=len(y))
        return kw

    def compare(step, d):
        X = xdata(d)
        Xf = flat(X)
        for q in ["predict"] + (["predict_proba", "predict_log_proba"] if spec["clf"] else []) + ["score"]:
            a = (target(spec, d),) if q == "score" else ()
            want = attempt(lambda: getattr(ref, q)(Xf, *a))
            got = attempt(lambda: cmp.freeze(getattr(est, q)(X, *a)))
            if got[0] != want[0]:
                bad("query-" + ("refused" if got[0] == "err" else "accepted"), step, "%s: %s, scikit-learn: %s" % (q, short(got), short(want)))
            if got[0] == "ok":
                if q == "predict" and spec["clf"]:
                    P = np.sort(ref.predict_proba(Xf), axis=1)
                    sure = P[:, -1] - P[:, -2] > 1e-5
                    t = None if (np.asarray(got[1])[sure] == want[1][sure]).all() else "labels differ"
                elif q == "score" and spec["clf"]:
                    P = np.sort(ref.predict_proba(Xf), axis=1)
                    t = cmp.diff(got[1], want[1], rtol=1e-6) if (P[:, -1] - P[:, -2] > 1e-5).all() else None
                else:
                    t = cmp.diff(got[1], want[1], rtol=1e-5, atol=1e-7)
                if t:
                    bad("answers", step, "%s differs from the model trained by the successful calls alone: %s" % (q, t))
        for a in ("n_iter_", "t_", "n_layers_", "n_outputs_"):
            if hasattr(ref, a) and getattr(est, a, None) != getattr(ref, a):
                bad("attributes", step, "%s=%r, should be %r" % (a, getattr(est, a, None), getattr(ref, a)))
        for a in ("coefs_", "intercepts_"):
            for u, v in zip(getattr(est, a), getattr(ref, a)):
                t = cmp.diff(np.asarray(u), np.asarray(v), rtol=1e-5, atol=1e-8)
                if t:
                    bad("attributes", step, "%s: %s" % (a, t))
        if est.n_features_in_ != np.shape(X)[2]:
            bad("n_features", step, "n_features_in_=%r for %d features" % (est.n_features_in_, np.shape(X)[2]))

    def short(o):
        return "accepted" if o[0] == "ok" else core.short(o[1])

    for step, op in enumerate(spec["ops"]):
        what = op[0]
        if what == "set":
            for m in (est, ref):
                m.set_params(**{op[1][0]: op[1][1]})
            continue
        if what == "move":
            est = pickle.loads(pickle.dumps(est)) if op[1] == "pickle" else copy.deepcopy(est)
            ref = pickle.loads(pickle.dumps(ref)) if op[1] == "pickle" else copy.deepcopy(ref)
            continue
        d = op[1]
        warm = ref.warm_start
        if (tainted and what != "fit") or (p.get("early_stopping") and what in ("pfit", "badpfit", "cutpfit")):
            continue
        if what in ("fit", "pfit"):
            if tainted:                         # a cold fit forgets the cut call
                for m in (est, ref):
                    m.set_params(warm_start=False)
                warm = False
            X, y = xdata(d), target(spec, d)
            keep = cmp.freeze(X)
            kw = args(what, op, d, y)
            name = "partial_fit" if what == "pfit" else "fit"
            if fitted and (what == "pfit" or warm) and np.shape(X)[1:] != dims:
                got = attempt(lambda: getattr(est, name)(X, y, **kw))
                if got[0] == "ok":
                    bad("accepted", step, "%s of a model of shape %s accepted series of shape %s" % (name, dims, np.shape(X)[1:]))
                refused += 1
                ctx.fault("rejected-call", 1)
                continue
            if what == "pfit" and not hasattr(type(ref)(**ref.get_params()), "partial_fit"):
                if attempt(lambda: est.partial_fit(X, y, **kw))[0] == "ok":
                    bad("accepted", step, "partial_fit with solver lbfgs")
                continue
            before = copy.deepcopy(ref)
            want = attempt(lambda: getattr(ref, name)(flat(X), y, **kw))
            got = attempt(lambda: ctx.sim(lambda: getattr(est, name)(X, y, **kw)))
            if got[0] != want[0]:
                bad("refused" if got[0] == "err" else "accepted", step, "%s: %s, scikit-learn: %s" % (name, short(got), short(want)))
            t = cmp.diff(X, keep, exact=True)
            if t:
                bad("input-modified", step, t)
            if want[0] == "err":
                ref = before
                refused += 1
                ctx.fault("rejected-call", 1)
                if fitted and what == "fit" and not warm:
                    tainted = True
                continue
            if got[1] is not est:
                bad("return", step, "%s does not return the estimator" % name)
            fitted, tainted, dims = True, False, np.shape(X)[1:]
            trained += 1
            compare(step, d)
        elif what == "ask":
            if not fitted:
                got = attempt(lambda: est.predict(xdata(d)))
                if got[0] == "ok":
                    bad("accepted", step, "a model that was never trained answers")
            elif np.shape(xdata(d))[1:] == dims:
                compare(step, d)
        elif what == "badask":
            if attempt(lambda: est.predict(xdata(d, op[2])))[0] == "ok" and fitted and np.shape(xdata(d)) and dims == np.shape(xdata(d))[1:]:
                bad("accepted", step, "predict accepted bad data (%s)" % op[2])
            refused += 1
        elif what in ("badfit", "badpfit"):
            name = "fit" if what == "badfit" else "partial_fit"
            if what == "badfit" and (not warm or op[2] in ("ynew", "yone")) and fitted and op[2] not in ("nan", "inf", "none", "text"):
                continue                        # a cold fit may train or fail half way: nothing is promised about the old model
            if not hasattr(type(ref)(**ref.get_params()), name):
                continue
            X, y = xdata(d, op[2]), target(spec, d, op[2])
            kw = {"classes": classes(spec)} if what == "badpfit" and spec["clf"] and op[2] != "none" else {}
            if op[2] == "classes":
                if not (kw and fitted):
                    continue
                kw["classes"] = np.append(kw["classes"], "zzz" if spec["lab"] == "str" else 9)
            before = copy.deepcopy(ref)
            if not fitted and op[2] in ("len", "shape", "feat", "ynew", "yone", "ylen"):
                continue                        # not bad yet, or scikit-learn has taken note of the classes before it refuses
            if op[2] == "yone" or (op[2] == "ynew" and not spec["clf"]):
                continue
            want = attempt(lambda: getattr(ref, name)(flat(X), y, **kw))
            if want[0] == "ok" and np.shape(X)[1:] == dims:
                ref = before
                continue
            ref = before
            got = attempt(lambda: getattr(est, name)(X, y, **kw))
            if got[0] == "ok":
                bad("accepted", step, "%s accepted bad data (%s)" % (name, op[2]))
            if not isinstance(got[1], (ValueError, TypeError, AttributeError)):
                raise Violation("internal-error", "%s on bad data (%s): %s" % (name, op[2], core.short(got[1])))
            refused += 1
            ctx.fault("rejected-call", 1)
        else:                                   # cutfit, cutpfit
            name = "fit" if what == "cutfit" else "partial_fit"
            if not hasattr(type(ref)(**ref.get_params()), name):
                continue
            X, y = xdata(d), target(spec, d)
            if fitted and (what == "cutpfit" or warm) and np.shape(X)[1:] != dims:
                continue
            kw = {"classes": classes(spec)} if what == "cutpfit" and spec["clf"] else {}
            was = [np.array(c) for c in getattr(est, "coefs_", [])]
            old = getattr(est, "t_", None), getattr(est, "n_iter_", None)
            r = cut(ctx, lambda: getattr(est, name)(X, y, **kw), op[2], op[3], op[4])
            now = [np.array(c) for c in getattr(est, "coefs_", [])]
            if r is None or r == "completed":
                tainted = True
                continue
            refused += 1
            same = len(was) == len(now) and all(np.array_equal(u, v) for u, v in zip(was, now)) and old == (
                getattr(est, "t_", None), getattr(est, "n_iter_", None))
            if not same or (fitted and what == "cutfit" and not warm):
                tainted = True                  # the training had begun
            elif not fitted:
                tainted = True
        if fitted and not tainted:
            probe = {"seed": 5, "sz": [dims[0]] * 4, "d": dims[1], "kind": "randn", "form": "array"}
            compare(step, probe)
        elif fitted is False and not tainted and what not in ("ask", "badask") and hasattr(est, "coefs_"):
            bad("half-trained", step, "weights exist after a rejected call")
        ctx.sig(what, *op[2:])
    ctx.sig(type(est).__name__, sorted((k, str(v)) for k, v in p.items()))
    ctx.tag("trainings", trained)
    ctx.nontrivial = trained >= 2 and refused >= 1


def shrink(spec):
    if spec["params"]["hidden_layer_sizes"] != [2]:
        yield dict(spec, params=dict(spec["params"], hidden_layer_sizes=[2]))
