"""D02: saving is never acknowledged unless the file is complete."""
import os
from .. import catalog as cat, cmp, core, disk, models
from ..core import Violation

DISK = True
RUNS = {"quick": 500, "thorough": 40000}
RULE = ("one or two fitted models and a seeded list of 3-8 saves (JSON/pickle/HDF5, fresh or used path), each under a seeded disk fault plan "
        "(error, short or torn write, full disk, failing open/close/truncate/rename at a seeded position among the operations that save "
        "performs, or a disk filling up after a seeded number of bytes), followed, when the save raised, by healing the disk and retrying; "
        "every acknowledged file is loaded by a pristine process and compared with the saved model; "
        "non-trivial = at least one injected fault took effect; distinct = (estimator, formats, fault plans, positions hit)")
REAL = ["tslearn serialization code", "json, pickle, h5py and the HDF5 library", "file system (scratch directory)"]
STUB = ["numba JIT (kernels run as Python)", "disk errors injected by an LD_PRELOAD seam below Python and HDF5", "process restart: a pristine forked process"]
ASSUMPTIONS = ["faults hit the system calls of the save itself, not those of a later load",
               "a disk that returns success has stored the data (no silent corruption)"]


def plan(rng):
    r = rng.random()
    if r < 0.25:
        return {"cap": rng.choice([0.0, rng.random(), rng.random(), 0.97, 0.999])}
    op = rng.choice(["write", "write", "write", "close", "close", "trunc", "open", "modify", "any", "rename"])
    if op == "write":
        act = rng.choice(["errno", "errno", "short", "torn", "torn"])
    else:
        act = "errno"
    out = {"op": op, "at": round(rng.random(), 4) if rng.random() < 0.7 else 0.9999, "act": act,
           "err": rng.choice(["EIO", "ENOSPC", "EDQUOT", "EFBIG"]) if op in ("write", "trunc", "modify", "any") else
           rng.choice(["EIO", "EACCES", "EMFILE", "ENOSPC"]) if op == "open" else "EIO",
           "sticky": rng.random() < 0.5, "arg": rng.randrange(1000)}
    return out


def gen(rng, i, tier):
    f = models.FAMS[i % len(models.FAMS)]
    ms = [cat.gen(rng, f, rng.random() < 0.1)]
    if rng.random() < 0.5:
        m = models.variant(rng, f, ms[0]["est"])
        if m:
            ms.append(m)
    ops = []
    for _ in range(rng.randint(3, 8)):
        ops.append({"m": rng.randrange(2), "path": rng.randrange(3), "fmt": rng.choice(models.FORMATS),
                    "fault": plan(rng) if rng.random() < 0.85 else None, "retry": rng.random() < 0.8})
    return {"models": ms, "ops": ops, "dseed": rng.randrange(1 << 20)}


def attempt(f, look):
    """("ok",) or ("err", type, text); `look` is called while a possible exception is still being handled."""
    try:
        f()
    except BaseException as e:      # noqa
        look()
        return ("err", type(e).__name__, core.short(e))
    look()
    return ("ok",)


def arm(d, est, fmt, fault, dry):
    """Turns a fault plan into rules for this save: positions are relative to an undisturbed save of the same model (a dry run)."""
    if "cap" in fault:
        d.capacity(int(dry["bytes"] * fault["cap"]))
        return
    n = max(1, dry.get(fault["op"], 1))
    d.rule(0, fault["op"], 1 + min(n - 1, int(fault["at"] * n)), fault["act"], fault["err"], fault["sticky"], fault["arg"])


def dryrun(d, est, fmt):
    p = d.path("dry." + fmt)
    never = 1 << 30
    d.heal()
    names = ["open", "write", "close", "trunc", "rename", "modify", "any"]
    for k, n in enumerate(names):
        d.rule(k, n, never, "errno")
    o = cat.outcome(lambda: getattr(est, "to_" + fmt)(p))
    out = {n: d.seen(k) for k, n in enumerate(names)}
    d.heal()
    if o[0] != "ok":
        raise Violation("save-fails", "%s.to_%s without any fault: %s: %s" % (type(est).__name__, fmt, o[1], o[2]))
    out["bytes"] = os.path.getsize(p)
    os.unlink(p)
    return out


def run(spec, ctx):
    ms = spec["models"]
    d = disk.Disk(spec["dseed"])
    clean = core.Clean(models.load_view)
    try:
        ests = [cat.fit_or_skip(m) for m in (ms[0], ms[-1])]
        views = [models.view(e, m) for e, m in zip(ests, (ms[0], ms[-1]))]
        hits = 0

        def check(fn, fmt, m, want, how):
            r = clean.call(fn, fmt, m, [])
            if r["first"][0] == "err":
                raise Violation("incomplete-save-acknowledged", "%s.to_%s returned normally %s but the file cannot be loaded: %s: %s"
                                % (m["est"], fmt, how, r["first"][1], r["first"][2]))
            x = models.differ(r["first"][1], want)
            if x:
                raise Violation("incomplete-save-acknowledged", "%s.to_%s returned normally %s but the loaded model differs: %s"
                                % (m["est"], fmt, how, x))

        for op in spec["ops"]:
            k, fmt, m = op["m"], op["fmt"], (ms[0], ms[-1])[op["m"]]
            est, want, fn = ests[k], views[k], d.path("m%d.%s" % (op["path"], op["fmt"]))
            if fmt == "hdf5" and os.path.exists(fn):
                os.unlink(fn)
            dry = dryrun(d, est, fmt)
            f0 = d.fired()
            if op["fault"]:
                arm(d, est, fmt, op["fault"], dry)
            o = attempt(lambda: getattr(est, "to_" + fmt)(fn), lambda: None)
            fired = d.fired() - f0
            d.heal()
            if fired:
                hits += 1
                ctx.fault("full-disk" if "cap" in op["fault"] else "%s-%s" % (op["fault"]["op"], op["fault"]["act"]), fired)
            how = "under %s" % (op["fault"],)
            ctx.sig(fmt, str(op["fault"]), bool(fired), o[0])
            ctx.tag("save-%s-%s" % (fmt, o[0]))
            if o[0] == "ok":
                check(fn, fmt, m, want, how)
            elif not fired:
                raise Violation("save-fails", "%s.to_%s without any fault: %s: %s" % (m["est"], fmt, o[1], o[2]))
            elif op["retry"]:
                o2 = attempt(lambda: getattr(est, "to_" + fmt)(fn), lambda: None)
                if o2[0] == "err":
                    raise Violation("retry-fails", "%s.to_%s failed (%s: %s) %s; with the disk healed the retry on the same path fails: %s: %s"
                                    % (m["est"], fmt, o[1], o[2], how, o2[1], o2[2]))
                check(fn, fmt, m, want, "when retried after a failure")
                ctx.tag("retry-" + fmt)
        for k in (0, 1):
            x = models.differ(models.view(ests[k], (ms[0], ms[-1])[k]), views[k])
            if x:
                raise Violation("failed-save-changes-model", "%s after the saves: %s" % (ms[0]["est"], x))
        ctx.note(d.hash(), hits)
        ctx.tag(ms[0]["est"])
        ctx.sig(ms[0]["est"])
        ctx.nontrivial = hits >= 1
    finally:
        clean.close()
        d.close()


SHRINK_LISTS = ["ops"]


def shrink(s):
    for k, o in enumerate(s["ops"]):
        if o["fault"] and o["fault"].get("sticky"):
            yield dict(s, ops=s["ops"][:k] + [dict(o, fault=dict(o["fault"], sticky=False))] + s["ops"][k + 1:])
    if len(s["models"]) > 1:
        yield dict(s, models=s["models"][:1])
    for mm in cat.shrink_model(s["models"][0]):
        yield dict(s, models=[mm] + s["models"][1:])
