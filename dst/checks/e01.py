"""E01: streaming early classification equals offline early prediction."""
from .. import catalog as cat, core, streams

RUNS = {"quick": 400, "thorough": 60000}
RULE = ("one fitted early classifier and 1-3 streams; each stream's consumer receives seeded chunks of timestamps (any size, empty ones, polls, "
        "lost, duplicated and reordered timestamps, series that end early) over simulated time; every answer is compared with early_predict on the "
        "timestamps received so far, asked series by series of an untouched copy of the model; non-trivial = at least 2 answers at or after "
        "min_t; distinct = (batch size, kind, event sequence)")
REAL = ["NonMyopicEarlyClassifier and its base classifiers (interpreted)", "scikit-learn bases"]
STUB = ["sensors and link (simulated)", "clock", "numba JIT (kernels run as Python)"]
ASSUMPTIONS = ["a stream given more timestamps than the training series ends with the error early_predict raises",
               "series that ended are padded with NaN after their last timestamp"]
SHRINK_LISTS = ["streams"]


def gen(rng, i, tier):
    m = cat.gen(rng, "early", False)
    T = max(m["train"]["sz"])
    f = rng.choice([0.0, 0.0, 0.25])
    ss = [streams.gen_stream(rng, m["train"], T, p_fault=f) for _ in range(rng.choice([1, 1, 2, 3]))]
    return {"model": m, "streams": ss, "scheds": [{"mode": "sync", "seed": 0}]}


def run(spec, ctx):
    w = streams.World(ctx, spec, "E01")
    try:
        w.play()
        for s in w.streams:
            s.check_stop()
            s.check_batch()
    finally:
        w.off.close()
    ctx.tag("answers", w.answers)
    ctx.tag("stops-compared", w.stops)
    ctx.tag(spec["model"]["params"].get("base_classifier", {}).get("__est__", {}).get("est", "default-1NN"))
    ctx.nontrivial = sum(len(x) for s in w.streams for x in s.seen) >= 2


def shrink(spec):
    for j, s in enumerate(spec["streams"]):
        ev = s["ev"]
        for k in range(len(ev)):
            yield dict(spec, streams=spec["streams"][:j] + [dict(s, ev=ev[:k] + ev[k + 1:])] + spec["streams"][j + 1:])
    for mm in cat.shrink_model(spec["model"]):
        yield dict(spec, model=mm)
