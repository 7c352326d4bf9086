"""Command line: check / replay / one / selftest."""
import argparse
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known-findings.txt")


def load_check(pid, boot_it=True):
    from . import boot
    from . import core
    core.KNOWN_KEYS.update(k for k, _ in known_for(pid))
    mod = importlib.import_module("dst.checks." + pid.lower())
    if getattr(mod, "DISK", False):
        from . import disk
        disk.preload()
        disk.setup()
    if boot_it:
        boot.boot(keras=getattr(mod, "KERAS", False))
        boot.monitor(getattr(mod, "EXTRA_FILES", ()))
        if hasattr(mod, "prepare"):
            mod.prepare()
        gc.collect()
        gc.freeze()
    return mod


def spec_for(mod, pid, seed, tier, i):
    rng = random.Random("%s|%s|%s" % (pid, seed, i))
    spec = mod.gen(rng, i, tier)
    spec["check"] = pid
    return json.loads(json.dumps(spec))


def known_for(pid):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                rest = ln.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                out.append((key[len("key="):], what))
    return out


# ------------------------------------------------------------------ pool
def worker(mod, pid, seed, tier, n, w, nw, fd, tend):
    from . import core, kernel
    for i in range(w, n, nw):
        if kernel._real_monotonic() > tend:
            break
        spec = spec_for(mod, pid, seed, tier, i)
        res = core.forked(mod, spec)
        if res.get("timeout"):
            r2 = core.forked(mod, spec, wall=2 * core.RUN_WALL)
            if r2.get("timeout"):
                res = {"viol": {"kind": "hang", "key": "hang", "detail": "run did not end within %.0f s (twice)" % core.RUN_WALL},
                       "error": None, "skip": None}
            else:
                res = r2
        if i < 12 and not res.get("error") and not res.get("viol"):
            r2 = core.forked(mod, spec)
            res["recheck"] = bool(r2.get("digest") == res.get("digest"))
        res["i"] = i
        if not res.get("viol"):
            res.pop("decs", None)
        data = pickle.dumps(res)
        data = len(data).to_bytes(4, "big") + data
        off = 0
        while off < len(data):
            off += os.write(fd, data[off:off + 65536])
    os._exit(0)


def run_pool(mod, pid, seed, tier, n, nw, cap, nostop=False):
    from . import kernel
    t0 = kernel._real_monotonic()
    fds, pids, bufs, res = [], [], {}, []
    for w in range(nw):
        r, wr = os.pipe()
        p = os.fork()
        if p == 0:
            try:
                os.close(r)
                worker(mod, pid, seed, tier, n, w, nw, wr, t0 + cap)
            except BaseException as e:      # noqa
                sys.stderr.write("worker failed: %r\n" % (e,))
            finally:
                os._exit(1)
        os.close(wr)
        fds.append(r)
        pids.append(p)
        bufs[r] = b""
    live = set(fds)
    stop_at = None
    while live:
        rl, _, _ = select.select(list(live), [], [], 1.0)
        for r in rl:
            b = os.read(r, 1 << 20)
            if not b:
                live.discard(r)
                continue
            bufs[r] += b
            while len(bufs[r]) >= 4:
                ln = int.from_bytes(bufs[r][:4], "big")
                if len(bufs[r]) < 4 + ln:
                    break
                res.append(pickle.loads(bufs[r][4:4 + ln]))
                bufs[r] = bufs[r][4 + ln:]
                if res[-1].get("viol") and stop_at is None and not nostop and not is_known(pid, res[-1]["viol"]):
                    stop_at = kernel._real_monotonic() + 8
        if stop_at and kernel._real_monotonic() > stop_at:
            break
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(p, 0)
    for r in fds:
        os.close(r)
    res.sort(key=lambda x: x["i"])
    return res, kernel._real_monotonic() - t0


def is_known(pid, viol):
    return any(k == viol["key"] for k, _ in known_for(pid))


# ------------------------------------------------------------------ minimise
def explicit(spec, res):
    s = json.loads(json.dumps(spec))
    for k, dec in (res.get("decs") or {}).items():
        s.setdefault("scheds", [{"mode": "sync", "seed": 0}])[int(k)] = {"mode": "explicit", "dec": dec}
    return s


def ddmin(items, ok, deadline):
    from . import kernel
    n = 2
    while len(items) >= 1 and kernel._real_monotonic() < deadline:
        size = max(1, len(items) // n)
        for a in range(0, len(items), size):
            cand = items[:a] + items[a + size:]
            if kernel._real_monotonic() > deadline:
                return items
            if ok(cand):
                items = cand
                n = max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(mod, spec, res, budget):
    from . import core, kernel
    t0 = kernel._real_monotonic()
    deadline = t0 + budget
    kind = res["viol"]["kind"]
    wall = min(core.RUN_WALL, 30)

    def fails(s):
        r = core.forked(mod, s, wall=wall)
        return r if r.get("viol") and r["viol"]["kind"] == kind else None
    best, bres = spec, res
    tried = 0
    # 1. workload and faults, schedules still seeded
    shrinkers = []
    if hasattr(mod, "shrink"):
        shrinkers.append(mod.shrink)
    progress = True
    while progress and kernel._real_monotonic() < deadline - budget * 0.4:
        progress = False
        for name in getattr(mod, "SHRINK_LISTS", ("ops", "faults")):
            if isinstance(best.get(name), list) and best[name]:
                def ok(c):
                    nonlocal best, bres, tried
                    s = dict(best)
                    s[name] = c
                    tried += 1
                    r = fails(s)
                    if r:
                        best, bres = s, r
                    return bool(r)
                before = len(best[name])
                ddmin(list(best[name]), ok, deadline - budget * 0.4)
                progress |= len(best[name]) < before
        for sh in shrinkers:
            for cand in sh(best):
                if kernel._real_monotonic() > deadline - budget * 0.4:
                    break
                tried += 1
                r = fails(json.loads(json.dumps(cand)))
                if r:
                    best, bres, progress = cand, r, True
                    break
    # 2. schedule as an explicit list of forced switches, then fewer of them
    ex = explicit(best, bres)
    r = fails(ex)
    if r:
        best, bres = ex, r
        for k in range(len(best.get("scheds", []))):
            sc = best["scheds"][k]
            if sc.get("mode") != "explicit" or not sc.get("dec"):
                continue

            def ok(c):
                nonlocal best, bres, tried
                s = json.loads(json.dumps(best))
                s["scheds"][k]["dec"] = c
                tried += 1
                rr = fails(s)
                if rr:
                    best, bres = s, rr
                return bool(rr)
            if ok([]):
                continue
            ddmin(list(best["scheds"][k]["dec"]), ok, deadline)
    return best, bres, tried


# ------------------------------------------------------------------ check
def cmd_check(a):
    from . import core, kernel
    pid = a.id.upper()
    t0 = kernel._real_monotonic()
    seed = int(a.seed if a.seed is not None else os.environ.get("VERIF_SEED", "1"))
    tier = a.tier
    mod = load_check(pid)
    tboot = kernel._real_monotonic() - t0
    n = a.runs or mod.RUNS[tier]
    cap = a.cap or (getattr(mod, "CAP", 240.0) if tier == "quick" else 780.0)
    nw = a.workers or min(8, os.cpu_count() or 4)
    res, wall = run_pool(mod, pid, seed, tier, n, nw, cap)
    viols = [r for r in res if r.get("viol")]
    known = [r for r in viols if is_known(pid, r["viol"])]
    viols = [r for r in viols if not is_known(pid, r["viol"])]
    errors = [r for r in res if r.get("error")]
    good = [r for r in res if not r.get("error")]
    ev = evidence(mod, pid, tier, seed, res, good, wall, tboot, n)
    ev["violations"] = len(viols)
    seen = set()
    for r in res:
        seen.update(r.get("found") or {})
        if r.get("viol"):
            seen.add(r["viol"]["key"])
    for key, what in known_for(pid):
        if key in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        else:
            print("note: listed finding %s did not show in this run" % key)
    ev["wall_s"] = round(kernel._real_monotonic() - t0, 2)
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        write_json(os.path.join(HERE, "evidence", pid + ".json"), ev)
    c = ev["coverage"]
    print("%s %s seed=%d: %d runs (%d skipped, %d harness errors) in %.0f s, %d distinct non-trivial, %d steps, %d switches, faults %s"
          % (pid, tier, seed, len(res), c["skipped"], len(errors), wall, c["distinct_nontrivial"], c["steps"],
             c["switches"], c["faults_injected"]))
    rc = 0
    if errors:
        for r in errors[:3]:
            print("HARNESS-ERROR run %d: %s" % (r["i"], r["error"]))
        rc = 2
    if viols:
        byk = {}
        for r in viols:
            byk.setdefault(r["viol"]["key"], r)
        for r in list(byk.values())[:3]:
            spec = spec_for(mod, pid, seed, tier, r["i"])
            budget = 30.0 if tier == "quick" else 90.0
            if a.no_min or r["viol"]["kind"] == "hang":
                best, bres, tried = spec, r, 0
            else:
                try:
                    best, bres, tried = minimise(mod, spec, r, budget / min(len(byk), 3))
                except Exception as e:      # noqa  the violation is reported in any case
                    print("minimiser failed: %s" % core.short(e))
                    best, bres, tried = spec, r, 0
            path = os.path.join(a.out or os.path.join(HERE, "replays"), "%s-seed%d-run%d.json" % (pid, seed, r["i"]))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            write_json(path, {"property": pid, "seed": seed, "run": r["i"], "violation": bres["viol"],
                              "digest": bres.get("digest"), "spec": best, "original_violation": r["viol"],
                              "minimiser_runs": tried, "replay": "./run.sh replay " + path})
            print("  %s: %s" % (bres["viol"]["kind"], bres["viol"]["detail"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    return rc


def write_json(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    os.replace(tmp, path)


def evidence(mod, pid, tier, seed, res, good, wall, tboot, n):
    faults, tags, tot = {}, {}, {}
    ilogs, sigs = set(), set()
    for r in good:
        for k, v in (r.get("faults") or {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in (r.get("tags") or {}).items():
            tags[k] = tags.get(k, 0) + v
        for k, v in (r.get("stats") or {}).items():
            tot[k] = max(tot.get(k, 0), v) if k == "maxlive" else tot.get(k, 0) + v
        ilogs.update(r.get("ilogs") or [])
        if r.get("nontrivial"):
            sigs.update(r.get("sigs") or [r.get("digest")])
    rechecks = [r["recheck"] for r in good if "recheck" in r]
    samples = []
    for i in (0, 1, 2):
        if i < len(res):
            sp = spec_for(mod, pid, seed, tier, i)
            samples.append(json.dumps(sp)[:1200])
    per_h = 3600.0 / max(wall, 1e-6)
    return {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(res), "distinct_nontrivial": len(sigs), "rule": mod.RULE, "samples": samples,
            "planned_runs": n, "skipped": sum(1 for r in good if r.get("skip")),
            "harness_errors": sum(1 for r in res if r.get("error")),
            "runs_per_hour": int(len(res) * per_h), "seeds_per_hour": int(len(res) * per_h),
            "simulations": tot.get("sims", 0), "steps": tot.get("steps", 0), "lines_executed_in_tslearn": tot.get("lines", 0),
            "switches": tot.get("switches", 0), "forced_switches": tot.get("forced", 0),
            "max_live_threads": tot.get("maxlive", 0), "worker_tasks": tot.get("tasks", 0),
            "prange_iterations": tot.get("prange", 0), "simulated_time_s": round(tot.get("simtime", 0.0), 3),
            "distinct_interleavings": len(ilogs), "faults_injected": faults, "events": tags,
            "determinism_rechecks": {"repeated": len(rechecks), "identical": sum(rechecks)},
            "real_components": getattr(mod, "REAL", []), "stubbed_components": getattr(mod, "STUB", []),
            "boot_s": round(tboot, 2), "search_wall_s": round(wall, 2),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": 0.0, "violations": 0,
    }


# ------------------------------------------------------------------ replay / debug
def cmd_replay(a):
    from . import core
    rec = json.load(open(a.file))
    pid = rec["property"]
    mod = load_check(pid)
    r = core.forked(mod, rec["spec"], wall=240, trace=True)
    want = rec["violation"]
    if r.get("timeout") and want["kind"] == "hang":
        r["viol"] = want
    if r.get("error") and not r.get("viol"):
        print("replay error: %s" % r["error"])
        return 2
    if not r.get("viol"):
        print("replay: no violation (property holds on this tree for this schedule)")
        return 0
    same = r["viol"]["kind"] == want["kind"] and r.get("digest") == rec.get("digest")
    for ln in (r.get("trace") or [])[-a.lines:]:
        print("   ", ln)
    print("  %s: %s" % (r["viol"]["kind"], r["viol"]["detail"]))
    print("  digest %s (recorded %s): %s" % (r.get("digest"), rec.get("digest"),
                                             "identical execution" if same else "different execution"))
    print("VIOLATION property=%s replay=%s" % (pid, a.file))
    return 1


def cmd_one(a):
    from . import core
    pid = a.id.upper()
    mod = load_check(pid)
    for i in range(a.run, a.run + a.count):
        spec = spec_for(mod, pid, a.seed, a.tier, i)
        if a.show:
            print(json.dumps(spec))
        r = core.forked(mod, spec, wall=300) if not a.inline else core.execute(mod, spec)
        print(i, "VIOL" if r["viol"] else "ERR" if r["error"] else "skip" if r["skip"] else "ok",
              r["viol"] or r["error"] or r["skip"] or "", r.get("digest"),
              {k: v for k, v in (r.get("stats") or {}).items() if v}, r.get("faults"), r.get("tags"))
    return 0


def cmd_scan(a):
    """All violations of a seed range, grouped, without minimising (for triage)."""
    import re
    pid = a.id.upper()
    mod = load_check(pid)
    res, wall = run_pool(mod, pid, a.seed, a.tier, a.runs, 8, a.cap, nostop=True)
    groups = {}
    for r in res:
        if r.get("viol") or r.get("error"):
            t = (r["viol"]["kind"] + ": " + r["viol"]["detail"]) if r.get("viol") else "ERROR " + r["error"][-600:]
            k = re.sub(r"[-+]?[0-9]+(\.[0-9]+)?(e[-+]?[0-9]+)?", "#", t)[:a.width // 2]
            groups.setdefault(k, []).append((r["i"], t))
    for k, v in sorted(groups.items(), key=lambda kv: -len(kv[1])):
        print("%4d  runs %s\n      %s" % (len(v), [i for i, _ in v[:6]], v[0][1][:a.width]))
    print("%d runs, %d skipped, %.0f s, tags %s" % (len(res), sum(1 for r in res if r.get("skip")), wall, sum_tags(res)))
    return 0


def sum_tags(res):
    t = {}
    for r in res:
        for k, v in (r.get("tags") or {}).items():
            t[k] = t.get(k, 0) + v
    return t


def cmd_selftest(a):
    """Digest of the first runs of each check: print them so that several processes can be compared."""
    from . import core
    for pid in a.ids:
        mod = load_check(pid.upper())
        h = hashlib.blake2b(digest_size=12)
        bad = 0
        for i in range(a.runs):
            spec = spec_for(mod, pid.upper(), a.seed, "quick", i)
            r1 = core.forked(mod, spec)
            r2 = core.forked(mod, spec)
            if r1.get("digest") != r2.get("digest"):
                bad += 1
                print("  run %d differs: %s %s" % (i, r1.get("digest"), r2.get("digest")))
            h.update(str(r1.get("digest")).encode())
        print("SELFTEST %s runs=%d differing=%d digest=%s" % (pid.upper(), a.runs, bad, h.hexdigest()))
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    p = sub.add_parser("check")
    p.add_argument("id")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    p.add_argument("--seed", type=int)
    p.add_argument("--runs", type=int)
    p.add_argument("--cap", type=float)
    p.add_argument("--workers", type=int)
    p.add_argument("--no-min", action="store_true")
    p.add_argument("--no-evidence", action="store_true")
    p.add_argument("--out")
    p = sub.add_parser("replay")
    p.add_argument("file")
    p.add_argument("--lines", type=int, default=25)
    p = sub.add_parser("one")
    p.add_argument("id")
    p.add_argument("run", type=int)
    p.add_argument("--count", type=int, default=1)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--show", action="store_true")
    p.add_argument("--inline", action="store_true")
    p = sub.add_parser("scan")
    p.add_argument("id")
    p.add_argument("--runs", type=int, default=500)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--cap", type=float, default=600)
    p.add_argument("--width", type=int, default=300)
    p = sub.add_parser("selftest")
    p.add_argument("ids", nargs="+")
    p.add_argument("--runs", type=int, default=20)
    p.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    from . import disk
    try:
        rc = {"check": cmd_check, "replay": cmd_replay, "one": cmd_one, "scan": cmd_scan, "selftest": cmd_selftest}[a.cmd](a)
    finally:
        disk.cleanup()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
