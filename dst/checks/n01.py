"""N01: the dataset cache never serves incomplete or altered data."""
from .. import dsets

CLAIM = {"N01"}
DISK = True
RUNS = {"quick": 1200, "thorough": 60000}
RULE = ("an archive site with 5 datasets (TXT, ARFF, both, relational ARFF, unsupported) and a list of 5-14 operations (two thirds of the runs: 1-3 faulty loads of one dataset): new loaders, loads "
        "(cached or refreshing) that meet network faults, disk faults or a crash at a seeded disk operation, new archive versions, listings; "
        "every returned dataset must be one complete archived version, the one the cache may hold or the current one if downloaded; "
        "non-trivial = at least one fault took effect; distinct = (operation kind, cache state, faults, outcome)")
REAL = ["tslearn.datasets", "urllib, http.client, zipfile, csv, NumPy and SciPy parsers", "file system (scratch directory)"]
STUB = ["the sockets: an in-memory HTTP server without TLS (dst/net.py)", "disk errors and crashes injected by an LD_PRELOAD seam",
        "process restart after a crash: the loader objects are rebuilt in the surviving process", "clock (waiting costs simulated time)"]
ASSUMPTIONS = ["a crash is the death of the process: what it had written stays readable", "an HTML page or an undetectably short body served "
               "instead of a CSV list is outside the claim (no checksum exists to detect it); for ZIP archives it is inside"]
MIX = [5, 4, 3, 4, 4]


def gen(rng, i, tier):
    if i % 3:
        w = dsets.gen_world(rng)
        return {"knobs": {}, "scheds": [{"mode": "sync", "seed": 0}], "world": w, "ops": dsets.gen_short(rng, w)}
    return {"knobs": {}, "scheds": [{"mode": "sync", "seed": 0}], "world": dsets.gen_world(rng), "ops": dsets.gen_ops(rng, MIX, rng.randint(5, 14), 7)}


def run(spec, ctx, claim=CLAIM):
    W = dsets.World(spec, ctx, claim)

    def main():
        for op in spec["ops"]:
            W.do(op)
        W.recover()
    try:
        ctx.sim(main)
    finally:
        W.close()


SHRINK_LISTS = ["ops"]
shrink = dsets.shrink_ops
