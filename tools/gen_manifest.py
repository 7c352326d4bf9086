"""Writes MANIFEST.json from the checks that exist; properties without a check are listed as not applicable."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PURE = ("a value-level fact about one deterministic call: no scheduling, time, I/O, randomness, crash or multi-party "
        "behaviour for it to depend on, so simulation adds nothing over calling the function; its schedule- and "
        "history-dependent side is claimed under the S and H properties")
TECH = {
    "S": "deterministic simulation: seeded scheduler over the real worker/caller threads, differential and history oracle",
    "H": "deterministic simulation: seeded operation histories with fault injection against a reference model (fresh estimator)",
    "D": "deterministic simulation: seeded disk faults and crashes on the real serialisation code, durability oracle",
    "N": "deterministic simulation: simulated network and disk with seeded faults, crashes and interleavings, reference-data oracle",
    "E": "deterministic simulation: seeded chunk deliveries, faults and interleaved streams, offline prediction as reference",
    "K": "deterministic simulation: seeded random choices and injected restart failures, invariant checks against a reference model",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in sys.argv[1:] and os.path.exists(os.path.join(V, "dst/checks/%s.py" % i.lower())):
        checks.append({"property": i, "quick_cmd": "./run.sh check %s --tier quick" % i,
                       "thorough_cmd": "./run.sh check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i[0]], "level": "exploration",
                       "level_note": "seeded search: held on every simulated run executed; not a claim about every input, schedule and fault"})
    else:
        na.append({"property": i, "reason": PURE if i[0] == "P" else "no check built yet"})
m = {"version": 1, "setup_cmd": "mkdir -p evidence replays", "hooks": {"guard": "none: no hooks in /repo", "enable": "nothing to enable", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
