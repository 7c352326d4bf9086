"""The dataset archive world: server contents, expected arrays, operations on loaders, and the cache model."""
import io
import os
import random
import shutil
import sys
import tempfile
import warnings
import zipfile

import numpy as np

from . import cmp, core, disk, kernel, net
from .core import Violation

# asked name -> name on the server (the documented corrections of misnamed datasets)
RENAMED = {"AtrialFibrillation": "AtrialFibrilation", "CinCECGtorso": "CinCECGTorso", "StarlightCurves": "StarLightCurves",
           "MixedShapes": "MixedShapesRegularTrain"}
NAMES = ["Alpha", "BetaFly", "Gamma", "StarLightCurves", "AtrialFibrilation"]
ASKED = NAMES + ["StarlightCurves", "AtrialFibrillation"]
MISSING = "DoesNotExist"
# broken: malformed test file; half: no TXT test file; mixed: that, but complete ARFF files
LAYOUTS = ["txt", "txt", "txt", "arff", "both", "mv-arff", "ts", "broken", "half", "mixed"]
UNSUPPORTED = ("ts", "broken", "half")
CSV_U, CSV_M = "/aeon-toolkit/Archives/summaryUnivariate.csv", "/aeon-toolkit/Archives/summaryMultivariate.csv"


_memo = {}


def memo(f):
    def g(*a):
        k = (f.__name__, a[0], a[1], a[2]["seed"]) + tuple(a[3:])
        if k not in _memo:
            _memo[k] = f(*a)
        return _memo[k]
    return g


@memo
def _arrays(name, version, world, part):
    r = random.Random("%s/%s/%s/%s" % (world["seed"], name, version, part))
    big = world.get("big", False)
    n = r.randint(90, 120) if big else r.randint(2, 6)         # big: files of several copy buffers
    m = random.Random("%s/%s/%s" % (world["seed"], name, version))
    sz, d = (m.randint(110, 140) if big else m.randint(2, 9)), m.randint(2, 3)
    lay = world["layout"][name]
    if lay != "mv-arff":
        d = 1
    g = np.random.RandomState(r.randrange(1 << 31))
    X = np.round(g.randn(n, sz, d) * 3, 3)
    y = [int(c) for c in g.choice([1, 2, 3, 7], n)]
    return X, y


def _txt(X, y):
    return "".join("  ".join([str(c)] + [repr(float(v)) for v in row[:, 0]]) + "\n" for row, c in zip(X, y))


def _arff(name, X, y):
    d = X.shape[2]
    out = ["@relation %s" % name]
    cls = "@attribute target {1,2,3,7}"
    if d == 1:
        out += ["@attribute att%d numeric" % k for k in range(X.shape[1])] + [cls, "@data"]
        out += [",".join(repr(float(v)) for v in row[:, 0]) + ",%d" % c for row, c in zip(X, y)]
    else:
        out += ["@attribute input relational"] + ["@attribute t%d numeric" % k for k in range(X.shape[1])] + ["@end input", cls, "@data"]
        out += ['"' + "\\n".join(",".join(repr(float(v)) for v in row[:, k]) for k in range(d)) + '",%d' % c for row, c in zip(X, y)]
    return "\n".join(out) + "\n"


@memo
def expected(name, version, world):
    """The four arrays a load of this version must return, or None when the archive has no supported format."""
    lay = world["layout"][name]
    if lay in UNSUPPORTED:
        return None
    out = []
    for part in ("TRAIN", "TEST"):
        X, y = _arrays(name, version, world, part)
        out += [X, np.array(y) if lay in ("txt", "both") else np.array([str(c) for c in y])]
    return out


@memo
def archive(name, version, world):
    lay = world["layout"][name]
    members = [("readme.txt", "%s version %s\n" % (name, version) * 3)]
    for part in ("TRAIN", "TEST"):
        X, y = _arrays(name, version, world, part)
        if lay in ("txt", "both") or lay in ("broken", "half", "mixed") and part == "TRAIN":
            members.append(("%s_%s.txt" % (name, part), _txt(X, y)))
        if lay == "broken" and part == "TEST":
            members.append(("%s_%s.txt" % (name, part), random.Random("broken/%s/%s" % (world["seed"], name)).choice(
                ["", "1 2.0 3.0\n2 3.0\n", "<html></html>", "1 2.0 3.0\n2 x 4.0\n"])))
        if lay in ("arff", "both", "mv-arff", "mixed"):
            members.append(("%s_%s.arff" % (name, part), _arff(name, X, y)))
        if lay in ("ts", "both"):
            members.append(("%s_%s.ts" % (name, part), "@problemName %s\n" % name + _txt(X, y)))
    r = random.Random("order/%s/%s" % (world["seed"], name))
    r.shuffle(members)
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED if world.get("deflate") else zipfile.ZIP_STORED) as z:
        for n, t in members:
            z.writestr(zipfile.ZipInfo(n, (2026, 1, 1, 0, 0, 0)), t)
    return b.getvalue()


def lists(world):
    uni = [n for n in NAMES if world["layout"][n] != "mv-arff"] + ["CinCECGtorso"]
    mul = [n for n in NAMES if world["layout"][n] == "mv-arff"] + ["PenDigits"]
    return [{"StarLightCurves": "StarlightCurves"}.get(n, n) for n in uni], mul


def lists_expected(world):
    fix = {"StarlightCurves": "StarLightCurves", "CinCECGtorso": "CinCECGTorso"}
    u, m = lists(world)
    return [fix.get(n, n) for n in u], m


def csvs(world):
    u, m = lists(world)
    pad = "x" * (60 if world.get("big") else 5)
    return ("problem,number_classes,note\n" + "".join("%s,%d,%s\n" % (n, 2 + k, pad) for k, n in enumerate(u)),
            "Problem,TrainSize,note\n" + "".join("%s,%d,%s\n" % (n, 10 + k, pad) for k, n in enumerate(m)))


class Server:
    """What the archive site holds now."""

    def __init__(self, world):
        self.world = world
        self.version = {n: 0 for n in NAMES}

    def route(self, path):
        u, m = csvs(self.world)
        if path == CSV_U:
            return u.encode()
        if path == CSV_M:
            return m.encode()
        name = os.path.basename(path)
        if name.endswith(".zip") and name[:-4] in NAMES and path.startswith("/aeon-toolkit/"):
            return archive(name[:-4], self.version[name[:-4]], self.world)
        return None


def gen_world(rng):
    lay = {n: rng.choice(LAYOUTS) for n in NAMES}
    lay["Alpha"] = rng.choice(["txt", "txt", "arff", "both", "mv-arff"])
    return {"seed": rng.randrange(1 << 30), "layout": lay, "deflate": rng.random() < 0.35, "big": rng.random() < 0.15}


def gen_net(rng, kinds, path=".zip"):
    k = rng.choice(kinds)
    f = {"kind": k, "path": path, "at": rng.choice([0.0, 0.999, rng.random(), rng.random(), rng.random()])}
    if k == "corrupt":
        f["bit"] = rng.randrange(8)
        f["digit"] = rng.random() < 0.6
    if k == "other":
        f["other"] = "/aeon-toolkit/%s.zip" % rng.choice(NAMES)
    return f


def gen_disk(rng, crash=False):
    op = rng.choice(["write", "write", "write", "create", "open", "mkdir", "rename", "rename", "unlink", "rmdir", "close", "modify", "modify"])
    if op == "write":
        act = rng.choice(["tornexit", "exit"]) if crash else rng.choice(["errno", "errno", "torn", "short"])
    else:
        act = "exit" if crash else "errno"
    return {"op": op, "nth": rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 8, 11, 15]), "act": act,
            "err": rng.choice(["EIO", "ENOSPC", "EACCES"]), "sticky": rng.random() < 0.4, "arg": rng.randrange(1000)}


def catch(f):
    """(value or None, exception or None, warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            v, e = f(), None
        except Exception as ex:         # noqa
            v, e = None, ex
    return v, e, [(x.category, str(x.message)) for x in w]


def equals(got, want):
    """None, or how the loaded arrays differ from these."""
    for n, g, w in zip(("X_train", "y_train", "X_test", "y_test"), got, want):
        if not isinstance(g, np.ndarray):
            return "%s is %s" % (n, type(g).__name__)
        if g.shape != w.shape:
            return "%s has shape %s instead of %s" % (n, g.shape, w.shape)
        if w.dtype.kind == "f":
            if not np.array_equal(g, w):
                return "%s has other values" % n
        elif [str(a) for a in g] != [str(a) for a in w] or (w.dtype.kind in "iu") != (g.dtype.kind in "iu"):
            return "%s is %s instead of %s" % (n, list(g), list(w))
    return None


def same(a, b):
    return len(a) == len(b) and all(type(x) is type(y) and (x is None or (x.dtype == y.dtype and np.array_equal(x, y))) for x, y in zip(a, b))


def is_none4(v):
    return isinstance(v, tuple) and len(v) == 4 and all(x is None for x in v)


def canonical(name):
    return RENAMED.get(name, name)


class World:
    """One run: server, network, disk, cache model and the operations on loaders.  Violations name the guarantee they break."""

    def __init__(self, spec, ctx, claims):
        self.ctx, self.claims = ctx, claims
        self.world = spec["world"]
        self.d = disk.Disk(spec["world"]["seed"])
        self.root = self.d.path("data home")
        self.server = Server(self.world)
        self.net = net.Net(self.server.route, spec["world"]["seed"])
        net.install(self.net)
        self.poss = {n: {None} for n in NAMES}
        self.lists_seen = False
        self.refresh = "N03" in claims
        self.loader = None
        self.crashed = False
        self.disturbed = False          # a disk fault or crash may have left files behind

    @property
    def data(self):
        return os.path.join(self.root, "UCR_UEA")

    def bad(self, claim, kind, text):
        if claim in self.claims:
            raise Violation(kind, text)
        self.ctx.tag("breaks-%s-%s" % (claim, kind))       # decided by the check of that property

    # -- one operation under faults -------------------------------------------------
    def step(self, op, fn):
        """Run fn under the faults of op; returns (value, exception, warnings, facts)."""
        ent0, fds0 = self.entries(), self.d.open_files()
        self.net.plan = [dict(f) for f in op.get("net", []) if f]
        self.net.default = {"kind": "dns"} if op.get("offline") else None
        n0, f0, fired0 = len(self.net.log), self.d.fired(), dict(self.net.fired)
        if op.get("crash"):
            pid = os.fork()
            if pid == 0:
                try:
                    self.d.apply(op.get("disk", []))
                    fn()
                    os._exit(0)
                except BaseException:       # noqa
                    os._exit(1)
            _, st = os.waitpid(pid, 0)
            died = os.waitstatus_to_exitcode(st) == disk.CRASHED
            if died:
                self.ctx.fault("crash-" + op["disk"][0]["op"])
                self.crashed = self.disturbed = True
            self.net.plan, self.net.default = [], None
            return None, None, [], {"died": died}
        self.d.apply(op.get("disk", []))
        ki = None
        try:
            v, e, w = catch(fn)
        except KeyboardInterrupt as ex:
            v, e, w, ki = None, None, [], ex
        df = self.d.fired() - f0
        kinds = set()
        for k, r in enumerate(op.get("disk", [])):
            if self.d.fired_by(k):
                kinds.add(r["op"])
                self.ctx.fault("disk-%s-%s" % (r["op"], r["act"]), self.d.fired_by(k))
        self.d.heal()
        nf = []
        for k, n in self.net.fired.items():
            if n > fired0.get(k, 0):
                self.ctx.fault("net-" + k, n - fired0.get(k, 0))
                if k not in net.NOISE:
                    nf.append(k)
        off = op.get("offline")
        self.net.plan, self.net.default = [], None
        zips = [x for x in self.net.log[n0:] if x[0].endswith(".zip")]
        fact = {"df": df, "nf": nf, "zips": zips, "ki": ki, "died": False, "off": off, "reqs": len(self.net.log) - n0,
                "blank": len([x for x in self.net.log[n0:] if not x[0]])}
        if df and not kinds <= {"write"}:
            self.disturbed = True
        if not (df and not kinds <= {"write"}):
            fds = [x for x in self.d.open_files() if x not in fds0]
            if fds and e is None:
                self.bad("N03", "file-left-open", "%s left open: %s" % (op["op"], fds))
            new = sorted(self.entries() - ent0 - {"data home", "UCR_UEA", "UCR_UEA/summaryMultivariate.csv", "UCR_UEA/summaryUnivariate.csv"}
                         - ({"UCR_UEA/" + canonical(op["name"])} if "name" in op else set()))
            if new:
                self.bad("N03", "leftover-files", "%s left behind %s (%s)" % (op, new, "failed" if (e or ki or is_none4(v)) else "succeeded"))
        return v, e, w, fact

    def entries(self):
        out = set("tmp/" + x for x in os.listdir(tempfile.tempdir))
        out |= set(x for x in os.listdir(self.d.dir) if x != "tmp")
        if os.path.isdir(self.data):
            out |= set("UCR_UEA/" + x for x in os.listdir(self.data))
        return out

    # -- operations -------------------------------------------------------------------
    def new(self, op):
        from tslearn.datasets import UCR_UEA_datasets
        made = []

        def fn():
            made.append(UCR_UEA_datasets(use_cache=op.get("use_cache", True), root_dir=self.root))
        v, e, w, f = self.step(op, fn)
        if f["died"]:
            op = {"op": "new", "use_cache": op.get("use_cache", True), "offline": op.get("after") == "offline"}
            v, e, w, f = self.step(op, fn)
        elif op.get("crash"):
            self.new(dict(op, crash=False, disk=[]))
            self.lists_seen = True
            return
        if f["ki"]:
            if self.loader is None:
                self.new({"op": "new", "use_cache": True})
            return
        if e is not None:
            if f["df"]:
                self.new({"op": "new", "use_cache": op.get("use_cache", True), "offline": True})
                return
            self.bad("N02", "constructor-fails", "UCR_UEA_datasets() under %s: %s" % (op.get("net") or ("offline" if f["off"] else "no fault"), core.short(e)))
        if made:
            self.loader = made[-1]
        elif self.loader is None:
            raise core.Skip("no loader")
        if not (f["df"] or f["nf"] or f["off"] or f["died"]):
            self.lists_seen = True
        self.ctx.sig("new", sorted(f["nf"]), bool(f["df"]), bool(f["off"]))

    def load(self, op):
        name, c = op["name"], canonical(op["name"])
        L = self.loader
        known = c in NAMES
        poss = self.poss.get(c, {None})
        sup = known and self.world["layout"][c] not in UNSUPPORTED
        v, e, w, f = self.step(op, lambda: L.load_dataset(name))
        if f["died"] or op.get("crash"):
            cur = self.server.version.get(c)
            if sup and not (L.use_cache and None not in poss):
                self.poss[c] = poss | {None, cur}
            self.ctx.sig("crash-load", op["disk"][0]["op"], f["died"])
            if f["died"]:
                self.new({"op": "new", "use_cache": op.get("next_cache", True), "offline": op.get("after") == "offline"})
            return
        ctext = "load_dataset(%r) with use_cache=%s under %s" % (
            name, L.use_cache, [x for x in (op.get("net"), op.get("disk"), "offline" if f["off"] else "") if x] or "no fault")
        cached = None not in poss
        net_bad = f["nf"] or f["off"]
        outcome = "ki" if f["ki"] else "err" if e is not None else "none" if is_none4(v) else "data"
        self.ctx.sig("load", L.use_cache, cached, sorted(f["nf"]), bool(f["df"]), bool(f["off"]), outcome)
        self.ctx.tag("load-" + outcome)
        if f["ki"]:
            if f["df"]:
                self.poss[c] = poss | {None}
            return
        if e is not None:
            self.bad("N02", "load-raises", "%s raised %s" % (ctext, core.short(e)))
            if sup:
                self.poss[c] = poss | {None, self.server.version[c]}
            return
        cur = self.server.version[c] if known else None
        if is_none4(v):
            if not any(issubclass(x[0], RuntimeWarning) for x in w):
                self.bad("N02", "silent-failure", "%s returned None without a RuntimeWarning (warnings: %s)" % (ctext, [x[0].__name__ for x in w]))
            if not sup:
                return
            if L.use_cache and cached and not f["df"]:
                self.bad("N01", "cached-copy-not-used", "%s failed although version %s is cached: %s" % (ctext, sorted(poss), w))
            if not (net_bad or f["df"]):
                self.bad("N03", "load-fails", "%s failed: %s" % (ctext, w))
            if f["df"]:
                self.poss[c] = poss | {None, cur}
            elif "other" in f["nf"] or not L.use_cache and "corrupt" in f["nf"]:
                self.poss[c] = poss | {None}
            return
        if not (isinstance(v, tuple) and len(v) == 4):
            self.bad("N02", "odd-result", "%s returned %s" % (ctext, type(v)))
            return
        if not sup:
            self.bad("N01", "altered-data", "%s returned data for a dataset that cannot be provided" % ctext)
            return
        asked = bool(f["zips"])
        if asked and L.use_cache and cached and not f["df"]:
            self.bad("N01", "cached-copy-not-used", "%s downloaded again although version %s is cached" % (ctext, sorted(poss)))
        if not L.use_cache and not asked:
            self.bad("N01", "not-refreshed", "%s answered from the cache" % ctext)
        cand = {cur} if asked else {x for x in poss if x is not None}
        diffs = {x: equals(v, expected(c, x, self.world)) for x in sorted(cand)}
        ok = [x for x, t in diffs.items() if t is None]
        if not ok:
            if not L.use_cache and not (net_bad or f["df"]):
                self.bad("N03", "not-fresh", "%s did not return the current version %s (earlier versions may be cached: %s): %s" % (ctext, cur, sorted(poss - {None}), diffs))
            self.bad("N01", "altered-data", "%s returned wrong data (%s): %s" % (ctext, "downloaded" if asked else "cached", diffs or "nothing was ever cached"))
            self.poss[c] = set(range(self.server.version[c] + 1)) | {None}
            return
        self.poss[c] = {ok[0]}

    def lists(self, op):
        L = self.loader
        v, e, w, f = self.step(op, lambda: (L.list_univariate_datasets(), L.list_multivariate_datasets(), L.list_datasets()))
        if e is not None:
            if self.lists_seen and not f["df"]:
                self.bad("N02", "lists-lost", "list_datasets(): %s although the lists were downloaded before" % core.short(e))
            return
        u, m = lists_expected(self.world)
        if v != (u, m, u + m):
            self.bad("N01", "list-altered", "list_datasets() returns %s instead of %s" % (v[:2], (u, m)))

    def cached(self, op):
        v, e, w, f = self.step(dict(op, offline=True), lambda: list(self.loader.list_cached_datasets()))
        if f["df"]:
            return
        if e is not None:
            self.bad("N02", "list-cached-raises", core.short(e))
            return
        for n in v:
            if n not in NAMES:
                self.bad("N03", "phantom-listed", "list_cached_datasets() lists %r" % n)
            elif self.poss[n] == {None} and self.world["layout"][n] != "broken":
                self.bad("N03", "phantom-listed", "list_cached_datasets() lists %s, which was never loaded" % n)
        for n in NAMES:
            if None not in self.poss[n] and n not in v:
                self.bad("N03", "cached-not-listed", "%s is cached but not listed: %s" % (n, v))

    def baseline(self, op):
        import csv
        import tslearn
        fn = os.path.join(os.path.dirname(tslearn.__file__), ".cached_datasets", "singleTrainTest.csv")
        want = {}
        with open(fn) as fh:
            for row in csv.DictReader(fh, delimiter=";"):
                if row[""] in ("Adiac", "Beef"):
                    want[row[""]] = {"C45": float(row["C45"])}
        v, e, w, f = self.step(dict(op, offline=True), lambda: self.loader.baseline_accuracy(["Adiac", "Beef"], ["C45"]))
        if e is not None:
            self.bad("N02", "baseline-needs-network", "baseline_accuracy(): %s" % core.short(e))
        elif v != want:
            self.bad("N02", "baseline-wrong", "%s instead of %s" % (v, want))

    def cache_all(self, op):
        before = {n: set(p) for n, p in self.poss.items()}
        L = self.loader
        v, e, w, f = self.step_all(op)
        if f["died"] or op.get("crash"):
            for n in NAMES:
                if self.world["layout"][n] not in UNSUPPORTED and not (L.use_cache and None not in before[n]):
                    self.poss[n] = before[n] | {None, self.server.version[n]}
            if f["died"]:
                self.new({"op": "new", "use_cache": True, "offline": op.get("after") == "offline"})
            return
        if e is not None:
            if not self.lists_seen or f["df"]:
                for n in NAMES:
                    self.poss[n] = before[n] | {None, self.server.version[n]}
                return
            self.bad("N02", "cache-all-raises", "cache_all() under %s: %s" % (op.get("net"), core.short(e)))
            self.poss = {n: set(range(self.server.version[n] + 1)) | {None} for n in NAMES}
            return
        if self.lists_seen and not f["df"] and not f["ki"]:
            asked = {x[0].rsplit("/", 1)[-1][:-4] for x in f["zips"]}
            due = [n for n in NAMES if self.world["layout"][n] not in UNSUPPORTED and (not L.use_cache or before[n] == {None}) and n not in asked]
            if len(due) > f["blank"]:
                self.bad("N02", "cache-all-stops", "cache_all() under %s never asked for %s" % (op.get("net"), due))
        for n in NAMES:
            if self.world["layout"][n] in UNSUPPORTED or (L.use_cache and None not in before[n]):
                continue
            if f["df"] or f["nf"] or f["ki"] or f["off"]:
                self.poss[n] = before[n] | {None, self.server.version[n]}
            else:
                self.poss[n] = {self.server.version[n]} | (before[n] - {None} if L.use_cache else set())

    def step_all(self, op):
        keep = self.disturbed
        ent = self.entries
        names = {"UCR_UEA/" + n for n in NAMES}
        self.entries = lambda: ent() - names
        try:
            return self.step(dict(op, op="cache_all"), self.loader.cache_all)
        finally:
            del self.entries
            self.disturbed = self.disturbed or keep

    def extract(self, op):
        """extract_from_zip_url called directly."""
        from tslearn.datasets import extract_from_zip_url
        from tslearn.datasets.ucr_uea import BASE_URL
        target = self.d.path("extracted")
        shutil.rmtree(target, ignore_errors=True)
        os.mkdir(target)
        f0 = op.get("name")
        v, e, w, f = self.step({k: x for k, x in op.items() if k != "name"}, lambda: extract_from_zip_url(BASE_URL + f0 + ".zip", target_dir=target))
        bad = f["nf"] or f["off"]
        self.ctx.sig("extract", sorted(f["nf"]), bool(f["df"]), v is not None)
        if f["ki"]:
            return
        if e is not None:
            if not f["df"]:
                self.bad("N02", "extract-raises", "extract_from_zip_url under %s raised %s" % (op.get("net"), core.short(e)))
        elif v is None:
            if not (bad or f["df"]) and f0 in NAMES:
                self.bad("N02", "extract-fails", "extract_from_zip_url without faults returned None")
            if not any(issubclass(x[0], RuntimeWarning) for x in w):
                self.bad("N02", "silent-failure", "extract_from_zip_url returned None without a RuntimeWarning (%s)" % op.get("net"))
        else:
            src = f0
            for k in op.get("net", []):
                if k and k["kind"] == "other" and "other" in f["nf"]:
                    src = os.path.basename(k["other"])[:-4]
            want = zipfile.ZipFile(io.BytesIO(archive(src, self.server.version[src], self.world))) if src in NAMES else None
            have = {n: open(os.path.join(target, n), "rb").read() for n in sorted(os.listdir(target))}
            if want is None or have != {n: want.read(n) for n in want.namelist()}:
                self.bad("N02", "extract-incomplete", "extract_from_zip_url reported success under %s %s but the files differ from the archive: %s"
                         % (op.get("net"), op.get("disk"), sorted(have)))

    def bump(self, op):
        self.server.version[op["name"]] += 1

    def do(self, op):
        getattr(self, op["op"])(op)
        self.ctx.note(op["op"], sorted(self.entries()), len(self.net.log), repr(self.net.log[-3:]))

    # -- after the faults ---------------------------------------------------------------
    def recover(self):
        """Network and disk work again: everything loads with one download each, then offline."""
        self.new({"op": "new", "use_cache": True})
        for n in self.world.get("names", NAMES):
            if self.world["layout"][n] in UNSUPPORTED:
                continue
            n0 = len(self.net.log)
            self.load({"op": "load", "name": n})
            k = len([x for x in self.net.log[n0:] if x[0].endswith(".zip")])
            if k > 1:
                self.bad("N03", "repeated-download", "load_dataset(%r) downloaded %d times once the faults had stopped" % (n, k))
            self.load({"op": "load", "name": n, "offline": True})
            if self.refresh:
                keep = self.loader
                self.bump({"name": n})
                self.new({"op": "new", "use_cache": False})
                self.load({"op": "load", "name": n})
                self.loader = keep
                self.load({"op": "load", "name": n, "offline": True})
        self.cached({"op": "cached"})
        self.lists({"op": "lists"})

    def close(self):
        self.ctx.stats["simtime"] += self.net.simtime
        self.ctx.note(self.d.hash())
        self.d.close()


def gen_ops(rng, mix, n, soft=2):
    """A list of operations; mix: weights of (plain load, net-fault load, disk-fault load, crash load, rest)."""
    ops = [{"op": "new", "use_cache": rng.random() < 0.75, "net": [gen_csv(rng)] if rng.random() < 0.3 else []}]
    names = rng.sample(ASKED, rng.randint(1, 3))
    while len(ops) < n:
        k = rng.choices(["plain", "net", "disk", "crash", "rest"], mix)[0]
        o = {"op": "load", "name": rng.choice(names) if rng.random() < 0.9 else rng.choice(ASKED + [MISSING])}
        if k == "net":
            o["net"] = [gen_net(rng, net.HARD + net.SOFT * soft + net.NOISE + ["other", "send-reset", "interrupt"]) for _ in range(rng.choice([1, 1, 1, 3]))]
        elif k == "disk":
            o["disk"] = [gen_disk(rng)]
            if rng.random() < 0.2:
                o["net"] = [gen_net(rng, net.HARD + net.SOFT)]
        elif k == "crash":
            o.update(crash=True, disk=[gen_disk(rng, True)], after=rng.choice(["offline", "online"]), next_cache=rng.random() < 0.8)
        elif k == "rest":
            j = rng.choice(["new", "new", "new", "bump", "bump", "lists", "cached", "baseline", "cache_all", "new-disk", "new-crash", "extract"])
            if j == "bump":
                o = {"op": "bump", "name": canonical(rng.choice(names))}
            elif j.startswith("new"):
                o = {"op": "new", "use_cache": rng.random() < 0.6}
                if j == "new-disk":
                    o["disk"] = [gen_disk(rng)]
                elif j == "new-crash":
                    o.update(crash=True, disk=[gen_disk(rng, True)], after=rng.choice(["offline", "online"]))
                elif rng.random() < 0.6:
                    o["net"] = [gen_csv(rng)]
                    ops.append(o)
                    o = {"op": "lists"}
                elif rng.random() < 0.3:
                    o["offline"] = True
            elif j == "cache_all":
                o = {"op": "cache_all", "net": [gen_net(rng, net.HARD + net.SOFT)] if rng.random() < 0.5 else []}
            elif j == "extract":
                o = {"op": "extract", "name": rng.choice(NAMES + [MISSING]), "net": [gen_net(rng, net.HARD + net.SOFT + ["other"])] if rng.random() < 0.8 else [],
                     "disk": [gen_disk(rng)] if rng.random() < 0.25 else []}
            else:
                o = {"op": j}
        elif rng.random() < 0.25:
            o["offline"] = True
        ops.append(o)
    if rng.random() < 0.3:              # a cached dataset, a new version of it, a refresh
        c = canonical(rng.choice(names))
        at = rng.randrange(1, len(ops) + 1)
        ops[at:at] = [{"op": "load", "name": c}, {"op": "bump", "name": c}, {"op": "new", "use_cache": False}, {"op": "load", "name": c}]
    return ops


def gen_short(rng, world):
    """A few faulty loads of one dataset, each followed by an undisturbed one: cheap, so that many are run."""
    n = rng.choice(NAMES)
    world["names"] = [n]
    world["big"] = rng.random() < 0.35
    if world["layout"][n] in UNSUPPORTED:
        world["layout"][n] = "txt"
    ops = [{"op": "new", "use_cache": rng.random() < 0.7}]
    if rng.random() < 0.2:
        ops += [{"op": "new", "use_cache": rng.random() < 0.7, "net": [gen_csv(rng)]}, {"op": "lists"}]
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.3:
            ops.append({"op": "bump", "name": n})
        if rng.random() < 0.2:
            ops.append({"op": "new", "use_cache": rng.random() < 0.4})
        o = {"op": "load", "name": n}
        k = rng.random()
        if k < 0.5:
            o["net"] = [gen_net(rng, net.SOFT + ["corrupt"] * 4 + ["other"] + net.HARD[10:])]
        elif k < 0.7:
            o["disk"] = [gen_disk(rng)]
        else:
            o.update(crash=True, disk=[gen_disk(rng, True)], after=rng.choice(["offline", "online"]), next_cache=rng.random() < 0.8)
        ops.append(o)
        if rng.random() < 0.7:
            ops.append({"op": "load", "name": n, "offline": rng.random() < 0.5})
    return ops


def gen_csv(rng):
    return gen_net(rng, net.HARD + net.NOISE + ["send-reset", "interrupt"] + ["truncate", "reset", "chunk-truncate"] * 4, rng.choice(["summaryMultivariate", "summaryUnivariate"]))


def shrink_ops(s):
    w = s["world"]
    if w.get("big"):
        yield dict(s, world=dict(w, big=False))
    for k, o in enumerate(s["ops"]):
        for f in ("net", "disk", "offline"):
            if o.get(f) and not (f == "disk" and o.get("crash")):
                yield dict(s, ops=s["ops"][:k] + [{a: b for a, b in o.items() if a != f}] + s["ops"][k + 1:])
        if o.get("disk") and o["disk"][0].get("sticky"):
            yield dict(s, ops=s["ops"][:k] + [dict(o, disk=[dict(o["disk"][0], sticky=False)])] + s["ops"][k + 1:])
