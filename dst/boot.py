"""Process set-up: import order matters (seams before tslearn)."""
import ast
import dis
import gc
import os
import sys
import types
import warnings

REPO = os.environ.get("DST_REPO", "/repo")
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
TOOL = 4
SRC = os.path.join(REPO, "tslearn") + os.sep
_done = False


def boot(keras=False, jit=False):
    """Import tslearn with all seams in place; returns the tslearn package."""
    global _done
    if _done:
        import tslearn
        return tslearn
    _done = True
    warnings.simplefilter("ignore")
    import numpy, scipy, sklearn, h5py, torch, pandas      # noqa  (real locks for these)
    import scipy.optimize, scipy.stats, scipy.interpolate, scipy.spatial.distance  # noqa
    import sklearn.cluster, sklearn.svm, sklearn.neighbors, sklearn.neural_network  # noqa
    import sklearn.linear_model, sklearn.model_selection, sklearn.metrics  # noqa
    import statsmodels.tsa.stattools   # noqa
    torch.set_num_threads(1)
    import numba                       # noqa
    from . import kernel, jobs, numba_sim
    kernel.patch_stdlib()
    import joblib                      # noqa
    jobs.install()
    if not jit:
        numba_sim.install()
    import tslearn
    assert os.path.realpath(tslearn.__file__).startswith(os.path.realpath(SRC)), tslearn.__file__
    import tslearn.barycenters, tslearn.clustering, tslearn.datasets, tslearn.early_classification  # noqa
    import tslearn.forecasting, tslearn.generators, tslearn.matrix_profile, tslearn.metrics  # noqa
    import tslearn.neighbors, tslearn.neural_network, tslearn.piecewise, tslearn.preprocessing  # noqa
    import tslearn.svm, tslearn.utils, tslearn.hdftools  # noqa
    if keras:
        import tslearn.shapelets       # noqa
    monitor()
    return tslearn


CODES = []


def _codes(pred):
    seen = set()
    stack = [f.__code__ for f in gc.get_objects()
             if isinstance(f, types.FunctionType) and pred(f.__code__.co_filename)]
    while stack:
        c = stack.pop()
        if c in seen and any(c is s for s in CODES):
            continue
        seen.add(c)
        CODES.append(c)
        stack += [k for k in c.co_consts if isinstance(k, types.CodeType)]


def monitor(extra=()):
    from . import kernel
    m = sys.monitoring
    ev = m.events
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "dst")
        m.register_callback(TOOL, ev.LINE, kernel.on_line)
        m.register_callback(TOOL, ev.PY_START, kernel.on_start)
        m.register_callback(TOOL, ev.INSTRUCTION, kernel.on_instr)
    extra = tuple(extra)
    _codes(lambda fn: fn.startswith(SRC) or fn in extra)
    for c in CODES:
        m.set_local_events(TOOL, c, ev.LINE | ev.PY_START)
    _hot_spots()


def fine_grained(on, hot=False):
    """Preemption between bytecode instructions instead of lines; hot: also around the
    instructions that store into objects other threads may see."""
    from . import kernel
    m = sys.monitoring
    ev = m.events
    for c in CODES:
        e = ev.INSTRUCTION if on else ev.LINE
        if hot and id(c) in kernel.HOT:
            e |= ev.INSTRUCTION
        m.set_local_events(TOOL, c, e | ev.PY_START)


MUTATORS = {"append", "update", "pop", "clear", "extend", "fill", "setdefault", "add", "popitem", "insert", "remove", "sort",
            "discard", "appendleft", "put", "resize", "partition", "shuffle", "popleft"}


def _root(e):
    """'attr' / variable name a store target goes through."""
    attr = False
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred, ast.Call)):
        attr = attr or isinstance(e, ast.Attribute)
        e = e.func if isinstance(e, ast.Call) else e.value
    return attr, e.id if isinstance(e, ast.Name) else None


def _shared_store_lines(tree):
    """Lines of statements that store through an attribute, a parameter, a closure or a module variable."""
    lines = set()
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.Lambda)) or isinstance(fn, ast.Lambda) or fn.name == "__init__":
            continue
        own = set()
        for n in ast.walk(fn):
            tg = []
            if isinstance(n, ast.Assign):
                a, r = _root(n.value) if isinstance(n.value, (ast.Attribute, ast.Subscript, ast.Name)) else (False, None)
                if a or (r is not None and r not in own):
                    continue                        # an alias: stays shared
                tg = n.targets
            elif isinstance(n, (ast.For, ast.comprehension)):
                tg = [n.target]
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                tg = [n.optional_vars]
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        own.add(x.id)
        for n in ast.walk(fn):
            hot = False
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                            a, r = _root(x)
                            hot = hot or a or r not in own
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr", "vars", "globals"):
                    hot = True
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    a, r = _root(n.func.value)
                    hot = hot or a or (r is not None and r not in own)
                for k in n.keywords:
                    if k.arg == "out":
                        a, r = _root(k.value)
                        hot = hot or a or r not in own
            if hot:
                lines.update(range(n.lineno, n.end_lineno + 1))
    return lines


def _hot_spots():
    """kernel.HOT: code id -> offsets just before and just after stores other threads may see."""
    from . import kernel
    kernel.HOT.clear()
    shared = {}
    for c in CODES:
        fn = c.co_filename
        if fn not in shared:
            try:
                with open(fn) as f:
                    shared[fn] = _shared_store_lines(ast.parse(f.read()))
            except (OSError, SyntaxError):
                shared[fn] = set()
        if c.co_name in ("__init__", "<module>"):
            continue
        offs, after = set(), False
        for i in dis.get_instructions(c):
            if after:
                offs.add(i.offset)
                after = False
            op = i.opname
            if op in ("STORE_ATTR", "STORE_GLOBAL", "DELETE_ATTR", "STORE_DEREF") or (
                    (op.startswith(("STORE_SUBSCR", "DELETE_SUBSCR", "CALL")) and i.positions.lineno in shared[fn])):
                offs.add(i.offset)
                after = True
        if offs:
            kernel.HOT[id(c)] = frozenset(offs)


def all_calls(on):
    """Call events of every Python function of the process, not only tslearn's."""
    m = sys.monitoring
    m.set_events(TOOL, m.events.PY_START if on else 0)
