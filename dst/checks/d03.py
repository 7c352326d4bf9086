"""D03: a torn model file is rejected, never loaded as a different model."""
import os
from .. import catalog as cat, core, disk, models
from ..core import Violation
from .d02 import arm, attempt, dryrun, plan

DISK = True
RUNS = {"quick": 450, "thorough": 40000}
RULE = ("two fitted models of one class and a seeded list of 3-8 steps on up to two paths per format: save in a process that dies at a seeded disk "
        "operation (optionally leaving a torn write), save under a disk error, truncation of a file at a seeded byte, load under a seeded read "
        "fault (error, short reads, premature end of file, failing open or close); after every step a pristine process loads the file and the "
        "result must be an exception or one of the models passed to a save on that path (the new one if the save was acknowledged); open "
        "descriptors are listed after every call; non-trivial = at least one crash, truncation or fault took effect; "
        "distinct = (estimator, steps, positions)")
REAL = ["tslearn serialization code", "json, pickle, h5py and the HDF5 library", "file system (scratch directory)"]
STUB = ["numba JIT (kernels run as Python)", "crashes and disk errors injected by an LD_PRELOAD seam below Python and HDF5",
        "process death: the forked saving process exits at the chosen operation", "process restart: a pristine forked process"]
ASSUMPTIONS = ["process death, not power loss: what write() accepted stays in the file",
               "premature end of file during a read is injected for JSON and pickle; HDF5 files are truncated instead"]


def gen(rng, i, tier):
    f = models.FAMS[i % len(models.FAMS)]
    ms = [cat.gen(rng, f, rng.random() < 0.1)]
    if rng.random() < 0.7:
        m = models.variant(rng, f, ms[0]["est"])
        if m:
            ms.append(m)
    ops = []
    for _ in range(rng.randint(3, 8)):
        r = rng.random()
        o = {"m": rng.randrange(2), "path": rng.randrange(2), "fmt": rng.choice(models.FORMATS)}
        if r < 0.5:
            o["do"] = "crash"
            o["fault"] = {"op": rng.choice(["any", "any", "write", "write", "modify", "close", "trunc", "rename"]), "act": "exit",
                          "at": round(rng.random(), 4) if rng.random() < 0.8 else 0.9999, "err": "EIO", "sticky": False, "arg": rng.randrange(1000)}
            if o["fault"]["op"] == "write" and rng.random() < 0.7:
                o["fault"]["act"] = "tornexit"
        elif r < 0.6:
            o["do"] = "save"
            o["fault"] = plan(rng) if rng.random() < 0.6 else None
        elif r < 0.75:
            o["do"] = "cut"
            o["at"] = rng.choice([0.0, round(rng.random(), 4), round(rng.random(), 4), 0.99, "last", "last"])
        else:
            o["do"] = "load"
            act = rng.choice(["errno", "errno", "short", "eof"])
            o["fault"] = {"op": "read" if act != "errno" else rng.choice(["read", "read", "open", "close", "any"]), "nth": rng.choice([1, 1, 2, 3, 5, 9]), "act": act,
                          "err": rng.choice(["EIO", "EIO", "EACCES", "ENOENT", "EMFILE"]), "sticky": rng.random() < 0.5, "arg": rng.randrange(1000)}
        ops.append(o)
    return {"models": ms, "ops": ops, "dseed": rng.randrange(1 << 20)}


def run(spec, ctx):
    ms = (spec["models"][0], spec["models"][-1])
    d = disk.Disk(spec["dseed"])
    clean = core.Clean(models.load_view)
    c = cat.cls(ms[0]["est"])
    try:
        ests = [cat.fit_or_skip(m) for m in ms]
        views = [models.view(e, m) for e, m in zip(ests, ms)]
        content = {}            # path -> set of models that may be there, None: nothing acknowledged yet
        hits = 0

        def verdict(fn, fmt, how, must=None):
            cand = [must] if must is not None else sorted(content.get(fn, ()))
            first = clean.call(fn, fmt, ms[(cand or [0])[0]], [])["first"]
            if first[0] == "err":
                if must is not None:
                    raise Violation("acknowledged-save-lost", "%s saved as %s: %s the load fails: %s: %s" % (ms[0]["est"], fmt, how, first[1], first[2]))
                ctx.tag("rejected")
                return
            why = "nothing was saved there"
            for k in cand:
                if k != cand[0]:        # answers to the queries of that model
                    first = clean.call(fn, fmt, ms[k], [])["first"]
                why = models.differ(first[1], views[k])
                if why is None:
                    ctx.tag("loaded")
                    return
            raise Violation("torn-file-loaded", "%s in %s: %s the file loads as a model that was never saved there: %s" % (ms[0]["est"], fmt, how, why))

        def handles(what):
            left = d.open_files()
            if left:
                raise Violation("handle-left-open", "%s.%s leaves %s open" % (ms[0]["est"], what, left))

        for op in spec["ops"]:
            k, fmt = op["m"], op["fmt"]
            est, fn = ests[k], d.path("m%d.%s" % (op["path"], fmt))
            must = None
            if op["do"] in ("crash", "save"):
                if fmt == "hdf5" and os.path.exists(fn):
                    os.unlink(fn)
                    content.pop(fn, None)
                dry = dryrun(d, est, fmt)
                content.setdefault(fn, set()).add(k)
                if op["fault"]:
                    f0 = d.fired()
                if op["do"] == "crash":
                    pid = os.fork()
                    if pid == 0:
                        code = 3
                        try:
                            arm(d, est, fmt, op["fault"], dry)
                            getattr(est, "to_" + fmt)(fn)
                            code = 0
                        except BaseException:       # noqa
                            pass
                        finally:
                            os._exit(code)
                    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
                    how = "after a crash (%s)" % op["fault"]
                    if code == disk.CRASHED:
                        hits += 1
                        ctx.fault("crash-" + op["fault"]["op"])
                    elif code:
                        raise Violation("save-fails", "%s.to_%s without a fault exits with %d" % (ms[k]["est"], fmt, code))
                    else:
                        must = k
                    ctx.sig("crash", fmt, op["fault"]["op"], op["fault"]["at"], code)
                else:
                    if op["fault"]:
                        arm(d, est, fmt, op["fault"], dry)
                    o = attempt(lambda: getattr(est, "to_" + fmt)(fn), lambda: handles("to_" + fmt))
                    if op["fault"] and d.fired() > f0:
                        hits += 1
                        ctx.fault("save-error")
                    d.heal()
                    how = "after a save (%s) under %s" % (o[0], op["fault"])
                    if o[0] == "err" and o[1] == "Violation":
                        raise Violation("handle-left-open", o[2])
                    must = k if o[0] == "ok" else None
                    ctx.sig("save", fmt, str(op["fault"]), o[0])
                if must is not None:
                    content[fn] = {k}
                verdict(fn, fmt, how, must)
            elif not os.path.exists(fn):
                continue
            elif op["do"] == "cut":
                n = os.path.getsize(fn)
                at = n - 1 if op["at"] == "last" else int(n * op["at"])
                if n == 0:
                    continue
                os.truncate(fn, max(0, at))
                hits += 1
                ctx.fault("truncated-file")
                verdict(fn, fmt, "cut from %d to %d bytes" % (n, at))
                ctx.sig("cut", fmt, op["at"])
            else:
                f = dict(op["fault"])
                if fmt == "hdf5" and f["act"] == "eof":
                    f["act"] = "errno"
                f0 = d.fired()
                d.rule(0, f["op"], f["nth"], f["act"], f["err"], f["sticky"], f["arg"])
                got = []
                o = attempt(lambda: got.append(getattr(c, "from_" + fmt)(fn)), lambda: handles("from_" + fmt))
                n = d.fired() - f0
                d.heal()
                if o[0] == "err" and o[1] == "Violation":
                    raise Violation("handle-left-open", o[2])
                if n:
                    hits += 1
                    ctx.fault("load-%s-%s" % (f["op"], f["act"]), n)
                how = "loaded under %s" % f
                if got:
                    match = None
                    for kk in sorted(content.get(fn, ())):
                        v = models.view(got[0], ms[kk])
                        match = models.differ(v, views[kk])
                        if match is None:
                            break
                    else:
                        raise Violation("torn-file-loaded", "%s in %s: %s the file loads as a model that was never saved there: %s"
                                        % (ms[0]["est"], fmt, how, match))
                ctx.sig("load", fmt, str(f), o[0])
                ctx.tag("load-%s-%s" % (fmt, o[0]))
        ctx.note(d.hash(), hits)
        ctx.tag(ms[0]["est"])
        ctx.sig(ms[0]["est"])
        ctx.nontrivial = hits >= 1
    finally:
        clean.close()
        d.close()


SHRINK_LISTS = ["ops"]


def shrink(s):
    if len(s["models"]) > 1:
        yield dict(s, models=s["models"][:1])
    for mm in cat.shrink_model(s["models"][0]):
        yield dict(s, models=[mm] + s["models"][1:])
