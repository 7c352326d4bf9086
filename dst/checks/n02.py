"""N02: failing downloads give the documented fallback, never a crash."""
from .. import dsets, net
from . import n01

DISK = True
RUNS = {"quick": 700, "thorough": 60000}
RULE = ("the archive world of N01 with most operations meeting network faults (name resolution, refused or timed-out connections, TLS errors, HTTP "
        "errors, HTML instead of a ZIP, resets, timeouts and truncation at seeded bytes, corrupt or wrong archives) or disk errors; a failing "
        "load must return four None with a RuntimeWarning, constructing loaders and everything that needs no network must keep working; "
        "non-trivial = at least one fault took effect; distinct = (operation kind, cache state, faults, outcome)")
REAL, STUB, ASSUMPTIONS = n01.REAL, n01.STUB, n01.ASSUMPTIONS + ["a server that never answers is outside the claim (the code sets no timeout)"]
MIX = [3, 9, 3, 1, 6]
SHRINK_LISTS = ["ops"]
shrink = dsets.shrink_ops


def gen(rng, i, tier):
    w = dsets.gen_world(rng)
    if i % 4 == 0:
        # one fault kind everywhere it can hit
        k = (net.HARD + net.SOFT + ["other", "send-reset"])[(i // 4) % (len(net.HARD + net.SOFT) + 2)]
        ops = dsets.gen_ops(rng, [1, 0, 0, 0, 1], rng.randint(5, 10))
        for o in ops:
            if o["op"] == "load" and k not in ("", None):
                o["net"] = [dict(dsets.gen_net(rng, [k]))]
                o.pop("offline", None)
        return {"knobs": {}, "scheds": [{"mode": "sync", "seed": 0}], "world": w, "ops": ops}
    return {"knobs": {}, "scheds": [{"mode": "sync", "seed": 0}], "world": w, "ops": dsets.gen_ops(rng, MIX, rng.randint(5, 14))}


def run(spec, ctx):
    n01.run(spec, ctx, {"N02"})
