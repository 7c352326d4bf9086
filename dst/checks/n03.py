"""N03: loading recovers by itself once faults stop and leaves nothing behind."""
from .. import dsets
from . import n01

DISK = True
RUNS = {"quick": 700, "thorough": 60000}
RULE = ("the archive world of N01 with network faults, disk faults and crashes, then a fault-free phase with a new loader in which every dataset "
        "must load with at most one download and then without network, and the listing of the cache must agree with what can be loaded; no "
        "operation may leave temporary files or open files behind (after a crash or a failing removal they are only required to stay hidden); "
        "non-trivial = at least one fault took effect; distinct = (operation kind, cache state, faults, outcome)")
REAL, STUB, ASSUMPTIONS = n01.REAL, n01.STUB, n01.ASSUMPTIONS
MIX = [3, 5, 4, 6, 5]
SHRINK_LISTS = ["ops"]
shrink = dsets.shrink_ops


def gen(rng, i, tier):
    return {"knobs": {}, "scheds": [{"mode": "sync", "seed": 0}], "world": dsets.gen_world(rng), "ops": dsets.gen_ops(rng, MIX, rng.randint(5, 14))}


def run(spec, ctx):
    n01.run(spec, ctx, {"N03"})
