"""E02: a stream survives bad chunks and is isolated from other streams."""
import numpy as np
from .. import catalog as cat, cmp, core, streams
from ..core import Violation

RUNS = {"quick": 400, "thorough": 60000}
RULE = ("one fitted early classifier, 1-4 streams driven by simulated client threads under a seeded schedule, with bad chunks, reused and "
        "overwritten chunk buffers, overwritten answers, streams closed or killed by an exception at a source line and reopened from their log, and an "
        "offline client; every answer is compared with early_predict on that stream's own timestamps; non-trivial = a fault was injected or two "
        "clients interleaved; distinct = (batch size, kind, event sequence)")
REAL = ["NonMyopicEarlyClassifier and its base classifiers (interpreted)", "scikit-learn bases"]
STUB = ["sensors, link and client threads (simulated)", "clock", "OS thread scheduler", "numba JIT (kernels run as Python)"]
ASSUMPTIONS = ["preemption at tslearn source lines", "a bad chunk is one whose shape does not fit; chunks holding text are outside the claim",
               "a killed stream is abandoned by its client, which opens a new one and sends its log"]
SHRINK_LISTS = ["streams", "offline"]


def gen(rng, i, tier):
    m = cat.gen(rng, "early", False)
    T = max(m["train"]["sz"])
    ss = streams.gen_streams(rng, rng.choice([1, 2, 2, 3, 4]), m["train"], T, p_bad=[0.1, 0.3], p_fault=[0, 0.1], p_crash=[0, 0, 0.1])
    off = [[rng.randrange(len(m["queries"])), round(rng.expovariate(1.0), 3)] for _ in range(rng.choice([0, 0, 2, 3]))]
    off = [o for o in off if m["queries"][o[0]]["m"] != "gen"]
    kn = core.rand_knobs(rng)
    kn["fine"] = rng.random() < 0.1
    return {"model": m, "streams": ss, "offline": off, "smash": rng.random() < 0.5, "knobs": kn,
            "scheds": [core.rand_sched(rng, ("rand", "rand", "rand", "pct", "sync"))]}


def run(spec, ctx):
    m = spec["model"]
    w = streams.World(ctx, spec, "E02", spec["smash"])
    try:
        snap = cat.snapshot(w.est)
        Xs = [cat.xdata(d) for d in m["qds"]]
        ys = [cat.target(m, d) for d in m["qds"]]
        plan = [(k % len(m["queries"]), t) for k, t in spec["offline"]] if m["queries"] else []

        def ask(k, quiet):
            q = m["queries"][k]
            f = cat.query if quiet else cat.query_loud
            return cat.outcome(lambda: cmp.freeze(f(w.est, q, Xs[q["x"]], ys[q["x"]])))
        ref = {k: core.in_child(lambda: ask(k, True)) for k in {k for k, _ in plan}}

        def offline():
            for k, t in plan:
                w.sim.sleep(t)
                o = ask(k, False)
                d = cat.same(o, ref[k], **core.NOISE)
                if d:
                    raise Violation("offline-differs", "%s while streams were open: %s" % (m["queries"][k]["m"], d))
        w.play([offline] if plan else [])
        d = cat.snap_diff(w.est, snap)
        if d:
            raise Violation("model-changed", "streams changed the model: %s" % d)
    finally:
        w.off.close()
    ctx.tag("answers", w.answers)
    ctx.tag("streams", len(w.streams))


def shrink(spec):
    for j, s in enumerate(spec["streams"]):
        ev = s["ev"]
        for k in range(len(ev)):
            yield dict(spec, streams=spec["streams"][:j] + [dict(s, ev=ev[:k] + ev[k + 1:])] + spec["streams"][j + 1:])
    for mm in cat.shrink_model(spec["model"]):
        yield dict(spec, model=mm)
