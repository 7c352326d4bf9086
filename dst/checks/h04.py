"""H04: a failed or interrupted call leaves a fitted estimator fully usable."""
from .. import boot, catalog as cat, cmp, core
from ..core import Skip, Violation

RUNS = {"quick": 900, "thorough": 80000}
KERAS = True
prepare = cat.warm_keras
RULE = ("one fitted model, reference answers taken in forked copies, then 3-8 failing calls: queries cut by an exception (MemoryError, "
        "KeyboardInterrupt, RuntimeError, OSError) raised at a seeded tslearn source line, at a seeded call of any numpy/scipy/sklearn/tslearn "
        "Python function, or inside a seeded worker thread, and queries on rejected data, each followed by comparison of parameters, public "
        "fitted attributes and later answers; or a fit cut at a seeded operation followed by a normal fit compared with a fit of a new "
        "estimator; non-trivial = at least one injected failure fired; distinct = (estimator, parameters, operations)")
REAL = ["all tslearn estimators and transformers", "scikit-learn bases", "joblib.Parallel", "keras/torch for LearningShapelets"]
STUB = ["numba JIT (kernels run as Python)", "joblib workers (simulated threads)", "caller: a simulated client", "injected exceptions"]
ASSUMPTIONS = ["C code of numpy/scipy/sklearn fails only where its Python wrapper is entered"]
FAMS = ["knn", "knnc", "knnr", "svc", "kmeans", "kernelkmeans", "kshape", "early", "mprofile", "prep", "piece", "varima", "mlpc", "dbscan",
        "knn", "knnc", "svr", "mlpr", "piece", "prep", "early", "varima", "kmeans", "kernelkmeans", "shapelet"]
EXCS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError, "OSError": OSError,
        "IndexError": IndexError, "ValueError": ValueError, "AttributeError": AttributeError, "TypeError": TypeError}


def gen(rng, i, tier):
    f = FAMS[i % len(FAMS)]
    m = cat.gen(rng, f, rng.random() < 0.3)
    nq = len(m["queries"])
    s = {"model": m, "scheds": [core.rand_sched(rng)], "knobs": core.rand_knobs(rng)}
    s["knobs"]["fine"] = False
    if rng.random() < 0.3 or not nq:
        s["kind"] = "fit"
        s["ops"] = [["fit", rng.random(), rng.choice(list(EXCS)), rng.choice(["ext", "call", "ext", "worker"])]
                    for _ in range(rng.randint(1, 3))]
        return s
    s["kind"] = "query"
    ops = []
    for _ in range(rng.randint(3, 8 if f != "shapelet" else 4)):
        r = rng.random()
        if r < 0.8:
            ops.append(["cut", rng.randrange(nq), rng.random(), rng.choice(list(EXCS)),
                        rng.choice(["line", "line", "line", "ext", "ext", "call", "worker"])])
        else:
            ops.append(["ask", rng.randrange(nq)])
    s["ops"] = ops
    return s


def cut(ctx, call, frac, exc, kind):
    """Run call() with an injected failure at relative position frac; returns what happened."""
    e = EXCS[exc]("injected")
    big = 1 << 40

    def body(n):
        sim = ctx.sim_obj
        if kind == "worker":
            sim.arm_workers(n, e)
        else:
            if kind == "ext":
                boot.all_calls(True)
            sim.arm(n, e, kind)
        t = sim.current
        try:
            call()
            return "completed", t.count, sim.any_count
        except (Exception, KeyboardInterrupt) as x:
            return core.short(x), t.count, sim.any_count
        finally:
            sim.disarm()
            sim.disarm_workers()
            boot.all_calls(False)

    # count the places in a copy of the process, then fail at the chosen one
    _, here, there = core.in_child(lambda: ctx.sim(lambda: body(big)))
    n = there if kind == "worker" else here
    if n == 0:
        return None
    at = 1 + int(frac * n)
    before = dict(ctx.faults)
    out = ctx.sim(lambda: body(at))
    fired = sum(ctx.faults.values()) > sum(before.values())
    ctx.fault("%s-at-%s" % (exc, kind), int(fired))
    ctx.note(out[0])
    return out[0] if fired else None


def where(ctx):
    return ctx.sim_obj.fired.get("where", "?") if ctx.sim_obj else "?"


def run(spec, ctx):
    m = spec["model"]
    if spec["kind"] == "fit":
        return run_fit(spec, ctx)
    est = cat.fit_or_skip(m)
    Xs = [cat.xdata(d) for d in m["qds"]]
    ys = [cat.target(m, d) for d in m["qds"]]
    snap = cat.snapshot(est)

    def ask(q):
        return cat.outcome(lambda: cmp.freeze(cat.query(est, q, Xs[q["x"]], ys[q["x"]])))
    qs = m["queries"]
    nq = len(qs)
    used = sorted({o[1] for o in spec["ops"]})
    more = sorted(set(used) | {(u + 1) % nq for u in used[:2]})
    ref = {k: core.in_child(lambda: ask(qs[k])) for k in more}
    fired = 0
    for step, op in enumerate(spec["ops"]):
        q = qs[op[1]]
        if op[0] == "ask":
            o = ask(q)
            ctx.fault("rejected-query", int(o[0] == "err"))
            what = q["m"]
        else:
            r = cut(ctx, lambda: cat.query(est, q, Xs[q["x"]], ys[q["x"]]), op[2], op[3], op[4])
            fired += r is not None
            what = "%s failing with %s at %s" % (q["m"], op[3], where(ctx))
        d = cat.snap_diff(est, snap)
        if d:
            raise Violation("model-changed", "%s after %s: %s" % (m["est"], what, d))
        nxt = [op[1], more[(step + 1) % len(more)]]
        for k in nxt:
            d = cat.same(ask(qs[k]), ref[k], **core.NOISE)
            if d:
                raise Violation("answers-changed", "%s.%s after %s: %s" % (m["est"], qs[k]["m"], what, d))
        ctx.sig(op[0], op[1], *op[3:])
    ctx.tag(m["est"])
    ctx.sig(m["est"], sorted((k, str(v)) for k, v in m["params"].items()))
    ctx.nontrivial = fired >= 1


def run_fit(spec, ctx):
    from .h02 import pick
    m = spec["model"]
    est = cat.build(m)
    params = cmp.freeze(est.get_params(deep=False))

    def final(e):
        o = cat.outcome(lambda: cat.fit(e, m) and None)
        out = [o]
        if o[0] == "ok":
            for q in m["queries"][:3]:
                X, y = cat.xdata(m["qds"][q["x"]]), cat.target(m, m["qds"][q["x"]])
                out.append(cat.outcome(lambda: cmp.freeze(cat.query(e, q, X, y))))
        return out

    def fresh():
        e = cat.build(m)
        out = final(e)
        return out, pick(cmp.fitted(e)) if out[0][0] == "ok" else {}
    ref, rfit = core.in_child(fresh)
    if ref[0][0] != "ok":
        raise Skip("fit rejects")
    fired = 0
    for op in spec["ops"]:
        r = cut(ctx, lambda: cat.fit(est, m), op[1], op[2], op[3])
        fired += r is not None
        d = cmp.diff(est.get_params(deep=False), params, exact=True)
        if d:
            raise Violation("params-changed", "%s.fit failing with %s at %s: hyper-parameters %s" % (m["est"], op[2], where(ctx), d))
        ctx.sig("fit", op[2], op[3])
    got = final(est)
    what = "%s after a fit failing at %s" % (m["est"], where(ctx))
    for name, a, b in zip(["fit"] + [q["m"] for q in m["queries"]], got, ref):
        d = cat.same(a, b, rtol=1e-3, atol=1e-4) if m["est"] == "LearningShapelets" else cat.same(a, b, rtol=1e-7, atol=1e-10)
        if d:
            raise Violation("refit-differs", "%s: %s: %s" % (what, name, d))
    if m["est"] != "LearningShapelets":
        fit = pick(cmp.fitted(est))
        for k in rfit:
            d = "missing" if k not in fit else cmp.diff(fit[k], rfit[k], rtol=1e-7, atol=1e-10)
            if d:
                raise Violation("refit-differs", "%s: %s: %s" % (what, k, d))
    ctx.tag("fit-" + m["est"])
    ctx.sig(m["est"], sorted((k, str(v)) for k, v in m["params"].items()))
    ctx.nontrivial = fired >= 1


SHRINK_LISTS = ["ops"]


def shrink(s):
    if s["kind"] == "query":
        for mm in cat.shrink_model(s["model"]):
            yield dict(s, model=mm)
