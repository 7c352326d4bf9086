"""Rewrite section 2's per-property part of DESIGN.md from the checks' own constants (between the markers)."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = json.load(open(os.path.join(V, "tools", "oracles.json")))


def consts(f):
    t = ast.parse(open(f).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and getattr(n.targets[0], "id", "") in ("RUNS", "RULE", "REAL", "STUB", "ASSUMPTIONS"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


base = {}
parts = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    f = os.path.join(V, "dst", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        continue
    c = consts(f)
    fam = p["id"][0]
    base.setdefault(fam, c)
    c = dict({k: v for k, v in base[fam].items() if k in ("REAL", "STUB", "ASSUMPTIONS")}, **c)
    o = ORACLE[p["id"]]
    parts.append("### %s %s\n\n*Run*: %s.\n\n*Oracle*: %s\n\n*Beyond the tests*: %s\n\n*Real*: %s. *Simulated*: %s. *Assumed*: %s. *Runs*: %d quick, %d thorough.\n" % (
        p["id"], p["title"], c["RULE"][0].upper() + c["RULE"][1:], o[0], o[1], "; ".join(c["REAL"]), "; ".join(c["STUB"]), "; ".join(c["ASSUMPTIONS"]),
        c["RUNS"]["quick"], c["RUNS"]["thorough"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- generated: properties -->\n", "<!-- end generated -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(parts) + "\n" + s[j:])
