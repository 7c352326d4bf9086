"""numba under simulation.

JIT is disabled (NUMBA_DISABLE_JIT=1), so kernels run as the Python they are written in
and every line is a preemption point.  Functions declared parallel=True get their outermost
prange loops rewritten: the loop body becomes a function of the loop index, run by
simulated threads.  Names assigned in the body are private to an iteration (numba's rule)
except reduction variables (only ever updated by augmented assignment), which are shared.
A loop that cannot be rewritten under these rules runs its iterations one after the other
in a seeded order.
"""
import ast
import inspect
import random
import textwrap

import numba
from . import kernel

STATS = {"regions": 0, "iters": 0, "threads": 0, "permuted": 0}
KNOBS = {"threads": 3, "seed": 0, "chunk": "static"}
TRANSFORMED = []        # (qualname, n loops rewritten, n fallback)
_orig_njit = numba.njit
_orig_prange = numba.prange


def _fold(ops, parts):
    if not ops:
        return ()
    acc = [0 if o == "+" else 1 for o in ops]
    for p in parts:
        acc = [a + v if o == "+" else a * v for o, a, v in zip(ops, acc, p)]
    return tuple(acc)


def run_prange(args, body, ops=()):
    """Run body(i) for every i; returns the folded reduction values (one per entry of ops).

    As in numba, reduction variables are private to a thread and combined in thread order.
    """
    idx = list(range(*args))
    sim = kernel._in_sim()
    if sim is None or sim.current.nopreempt or len(idx) < 2 or KNOBS["threads"] < 2 or sim.current.in_prange:
        return _fold(ops, [body(i) for i in idx])
    STATS["regions"] += 1
    STATS["iters"] += len(idx)
    n = min(KNOBS["threads"], len(idx))
    rng = random.Random("prange-%s-%s" % (KNOBS["seed"], len(idx)))     # same for every schedule of a run
    if KNOBS["chunk"] == "static":
        chunks = [idx[k * len(idx) // n:(k + 1) * len(idx) // n] for k in range(n)]
    elif KNOBS["chunk"] == "cyclic":
        chunks = [idx[k::n] for k in range(n)]
    else:
        rng.shuffle(idx)
        chunks = [idx[k::n] for k in range(n)]
    STATS["threads"] += n
    me = sim.current
    me.in_prange = True              # numba runs inner parallel loops sequentially
    try:
        def mk(c):
            def f():
                return _fold(ops, [body(i) for i in c])
            return f
        ts = [sim.spawn(mk(c), "prange") for c in chunks[1:]]
        for t in ts:
            t.in_prange = True
        err = None
        first = ()
        try:
            first = mk(chunks[0])()
        except (kernel.SimDeadlock, kernel.StepLimit):
            raise
        except BaseException as e:      # noqa
            err = e
        sim.join(ts)
    finally:
        me.in_prange = False
    for t in ts:
        if err is None and t.exc is not None:
            err = t.exc
    if err is not None:
        raise err
    return _fold(ops, [first] + [t.result for t in ts])


def sim_prange(*args):
    """prange reached outside a rewritten loop: a plain range, as in sequential numba code."""
    return range(*args)


def permuted(*args):
    idx = list(range(*args))
    if kernel._in_sim() is not None:
        STATS["permuted"] += 1
        random.Random("perm-%s-%s" % (KNOBS["seed"], STATS["permuted"])).shuffle(idx)
    return idx


class _Names(ast.NodeVisitor):
    def __init__(self):
        self.store, self.aug, self.load = set(), {}, set()

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.aug.setdefault(n.target.id, set()).add(
                "+" if isinstance(n.op, (ast.Add, ast.Sub)) else "*" if isinstance(n.op, ast.Mult) else "?")
        else:
            self.visit(n.target)
        self.visit(n.value)

    def visit_Name(self, n):
        (self.store if isinstance(n.ctx, ast.Store) else self.load).add(n.id)


def _is_prange(node):
    if not isinstance(node, ast.Call):
        return False
    f = node.func
    return (isinstance(f, ast.Name) and f.id in ("prange", "pndindex")) or \
           (isinstance(f, ast.Attribute) and f.attr == "prange")


class _Rewriter(ast.NodeTransformer):
    def __init__(self, fdef):
        self.fdef = fdef
        self.n = self.fallback = 0
        self.loops = [n for n in ast.walk(fdef) if isinstance(n, ast.For) and _is_prange(n.iter)]
        self.params = {a.arg for a in fdef.args.args + fdef.args.kwonlyargs + fdef.args.posonlyargs}

    def visit_FunctionDef(self, node):
        if node is self.fdef:
            self.generic_visit(node)
        return node

    def visit_For(self, node):
        if not _is_prange(node.iter):
            self.generic_visit(node)
            return node
        body = _Names()
        for s in node.body:
            body.visit(s)
        inside = set()
        for loop in self.loops:
            inside |= {id(n) for n in ast.walk(loop)}
        outer = _Names()
        for s in ast.walk(self.fdef):
            if isinstance(s, ast.Name) and id(s) not in inside:
                outer.visit(s)
        # reductions: only updated by += / -= or by *= in the body, and live outside the loop
        red = sorted(v for v in body.aug if v not in body.store and v in outer.store)
        private = body.store | (set(body.aug) - set(red)) - {getattr(node.target, "id", None)}
        bad = (not isinstance(node.target, ast.Name) or node.orelse
               or any(isinstance(n, (ast.Return, ast.Yield, ast.Break)) for s in node.body for n in ast.walk(s))
               or any(len(body.aug[v]) != 1 or "?" in body.aug[v] or v in body.load for v in red)
               or any((v in outer.store or v in self.params) and v in outer.load for v in private))
        if bad:
            self.fallback += 1
            node.iter.func = ast.copy_location(ast.Name("__sim_permuted__", ast.Load()), node.iter)
            return node
        self.n += 1
        name = "__prange_body_%d" % self.n
        ops = ["".join(body.aug[v]) for v in red]
        src = "def %s(%s):\n" % (name, node.target.id)
        for v, o in zip(red, ops):
            src += "    %s = %d\n" % (v, 0 if o == "+" else 1)
        src += "    pass\n    return (%s)\n" % "".join(v + ", " for v in red)
        fn = ast.parse(src).body[0]
        stmts = [_Continue(red).visit(s) for s in node.body]
        k = len(red)
        fn.body = fn.body[:k] + stmts + fn.body[k + 1:]
        call = "__r = __sim_prange__((), %s, %r)" % (name, tuple(ops))
        call = ast.parse(call).body[0]
        call.value.args[0] = ast.Tuple(node.iter.args, ast.Load())
        tail = [ast.parse("%s %s= __r[%d]" % (v, o, j)).body[0] for j, (v, o) in enumerate(zip(red, ops))]
        out = [fn, call] + tail
        for x in out:
            for n in ast.walk(x):
                if not hasattr(n, "lineno"):
                    continue
            ast.copy_location(x, node)
        for x in [fn] + fn.body[:k] + fn.body[-1:] + [call] + tail:
            for n in ast.walk(x):
                if x in (fn,) and n is not fn:
                    continue
                n.lineno = n.end_lineno = node.lineno
                n.col_offset = n.end_col_offset = 0
        return out


class _Continue(ast.NodeTransformer):
    """`continue` of the parallel loop itself becomes `return`."""
    def __init__(self, red):
        self.red = red

    def visit_For(self, n):
        return n

    def visit_While(self, n):
        return n

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=ast.Tuple([ast.Name(v, ast.Load()) for v in self.red], ast.Load())), n)


def transform(func):
    try:
        src = textwrap.dedent(inspect.getsource(func))
        tree = ast.parse(src)
        fdef = tree.body[0]
        if not isinstance(fdef, ast.FunctionDef) or func.__closure__:
            return func
        if not any(_is_prange(n) for n in ast.walk(fdef)):
            return func
        fdef.decorator_list = []
        rw = _Rewriter(fdef)
        tree.body[0] = rw.visit(fdef)
        ast.fix_missing_locations(tree)
        ast.increment_lineno(tree, func.__code__.co_firstlineno - 1)
        g = func.__globals__
        g["__sim_prange__"] = run_prange
        g["__sim_permuted__"] = permuted
        ns = {}
        exec(compile(tree, func.__code__.co_filename, "exec"), g, ns)
        new = ns[fdef.name]
        new.__defaults__ = func.__defaults__
        new.__kwdefaults__ = func.__kwdefaults__
        new.__doc__ = func.__doc__
        TRANSFORMED.append((func.__module__ + "." + func.__name__, rw.n, rw.fallback))
        return new
    except (SyntaxError, OSError, TypeError, KeyError) as e:      # keep the code as written
        TRANSFORMED.append((getattr(func, "__qualname__", "?"), 0, repr(e)))
        return func


def sim_njit(*args, **kw):
    par = kw.get("parallel", False)
    if args and callable(args[0]):
        f = args[0]
        return transform(f) if par and f.__module__.startswith("tslearn") else f

    def deco(f):
        return transform(f) if par and f.__module__.startswith("tslearn") else f
    return deco


def install():
    assert numba.config.DISABLE_JIT, "NUMBA_DISABLE_JIT=1 expected"
    numba.njit = sim_njit
    _jit = numba.jit

    def jit(*a, **k):
        return sim_njit(*a, **k)
    numba.jit = jit
    numba.prange = sim_prange
