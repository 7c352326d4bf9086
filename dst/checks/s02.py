"""S02: data-parallel kernels under every distribution and interleaving of their iterations."""
import numpy as np
from .. import cmp, core, data
from ..core import Violation

RUNS = {"quick": 900, "thorough": 60000}
RULE = ("a call that reaches a numba parallel=True kernel, run under two seeded schedules with 2-4 simulated numba "
        "threads and static, cyclic or random distribution of the iterations; non-trivial = at least two thread "
        "switches; distinct = (kernel, threads, distribution, interleaving hash)")
REAL = ["tslearn kernels (bodies of the prange loops, interpreted)", "tslearn.piecewise", "SoftDTWLossPyTorch", "torch autograd", "numpy"]
STUB = ["numba parallel runtime (simulated threads, private reductions)", "numba JIT", "OS thread scheduler"]
ASSUMPTIONS = ["prange semantics as documented by numba: names assigned in the loop are private to an iteration, "
               "augmented-assignment variables are reductions, arrays are shared",
               "preemption between source lines, in a share of runs between bytecode instructions"]
KINDS = ["cc", "cc_self", "shift", "paa_inv", "sax_inv", "sax_dist", "oned_inv", "oned_dist", "oned_tr", "loss", "loss",
         "fast_batch", "fast_grad", "jacobian"]


def gen(rng, i, tier):
    k = KINDS[i % len(KINDS)]
    return {"kind": k, "n": rng.randint(2, 6) if rng.random() < 0.9 else rng.randint(12, 40), "sz": rng.choice([4, 6, 8, 9]), "d": rng.randint(1, 3), "n2": rng.randint(1, 4),
            "seed": rng.randrange(1 << 20), "seg": rng.choice([2, 3, 4]), "norms": rng.random() < 0.5, "a": rng.randint(3, 6),
            "gamma": rng.choice([0.5, 1.0]), "normalize": rng.random() < 0.4, "radius": rng.choice([None, 1, 2]),
            "scale": rng.random() < 0.4, "knobs": core.rand_knobs(rng),
            "scheds": [core.rand_sched(rng), core.rand_sched(rng)]}


def build(s):
    """Returns (call, ref or None); call() builds its own inputs and returns arrays."""
    import tslearn.metrics as tm
    r = np.random.RandomState(s["seed"])
    n, sz, d, k = s["n"], s["sz"], s["d"], s["kind"]
    X = np.round(r.randn(n, sz, d), 3)
    Y = np.round(r.randn(s["n2"], sz, d), 3)
    if k in ("cc", "cc_self"):
        Z = X if k == "cc_self" else Y
        n1 = np.linalg.norm(X, axis=(1, 2)) if s["norms"] else -np.ones(n)
        n2 = (np.linalg.norm(Z, axis=(1, 2)) if s["norms"] else -np.ones(len(Z)))

        def ncc(a, b):
            best = -np.inf
            for sh in range(-(sz - 1), sz):
                u = a[max(0, sh):sz + min(0, sh)]
                v = b[max(0, -sh):sz - max(0, sh)]
                best = max(best, float((u * v).sum()))
            return best / (np.linalg.norm(a) * np.linalg.norm(b))
        ref = np.array([[ncc(a, b) for b in Z] for a in X])
        if k == "cc_self":
            np.fill_diagonal(ref, 0.0)
        return (lambda: tm.cdist_normalized_cc(X.copy(), Z.copy(), n1.copy(), n2.copy(), k == "cc_self")), ref
    if k == "shift":
        ref_ts = np.round(r.randn(sz, d), 3)
        nr = np.linalg.norm(ref_ts) if s["norms"] else -1.0
        ns = np.linalg.norm(X, axis=(1, 2)) if s["norms"] else -np.ones(n)
        return (lambda: tm.y_shifted_sbd_vec(ref_ts.copy(), X.copy(), nr, ns.copy())), None
    if k in ("paa_inv", "sax_inv", "sax_dist", "oned_inv", "oned_dist", "oned_tr"):
        import tslearn.piecewise as tp
        seg = min(s["seg"], sz // 2)
        sz2 = seg * (sz // seg)
        X = X[:, :sz2]
        if k == "paa_inv":
            m = tp.PiecewiseAggregateApproximation(n_segments=seg).fit(X)
        elif k.startswith("sax"):
            m = tp.SymbolicAggregateApproximation(n_segments=seg, alphabet_size_avg=s["a"], scale=s["scale"]).fit(X)
        else:
            m = tp.OneD_SymbolicAggregateApproximation(n_segments=seg, alphabet_size_avg=s["a"], alphabet_size_slope=3,
                                                       scale=s["scale"]).fit(X)
        if k == "oned_tr":
            return (lambda: m.transform(X.copy())), None
        R = m.transform(X)
        L = sz2 // seg
        if k == "paa_inv":
            return (lambda: m.inverse_transform(R.copy())), np.repeat(R, L, axis=1)
        if k == "sax_inv":
            ref = np.repeat(m.breakpoints_avg_middle_[R], L, axis=1)
            if s["scale"]:
                ref = ref * m.std_ + m.mu_
            return (lambda: m.inverse_transform(R.copy())), ref
        if k == "oned_inv":
            return (lambda: m.inverse_transform(R.copy())), None
        if k == "sax_dist":
            def call():
                return np.array([[m.distance_sax(R[i].copy(), R[j].copy()) for j in range(min(n, 3))] for i in range(min(n, 3))])
            return call, None

        def call():
            return np.array([[m.distance_1d_sax(R[i].copy(), R[j].copy()) for j in range(min(n, 3))] for i in range(min(n, 3))])
        return call, None
    if k == "loss":
        import torch
        A = np.round(r.randn(n, sz, d), 3)
        B = np.round(r.randn(n, max(2, sz - 2), d), 3)
        kw = {} if s["radius"] is None else {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": s["radius"] + 2}
        norm = s["normalize"]
        if norm:
            B = np.round(r.randn(n, sz, d), 3)

        def call():
            a = torch.tensor(A, requires_grad=True)
            b = torch.tensor(B, requires_grad=True)
            loss = tm.SoftDTWLossPyTorch(gamma=s["gamma"], normalize=norm, **kw)
            v = loss(a, b)
            v.mean().backward()
            return [v.detach().numpy().copy(), a.grad.numpy().copy(), b.grad.numpy().copy()]
        sd = tm.soft_dtw_normalized if norm else tm.soft_dtw
        ref = np.array([float(sd(A[i], B[i], gamma=s["gamma"], **kw)) for i in range(n)])
        return call, ref
    if k == "jacobian":
        x, y = X[0], np.round(r.randn(max(1, sz - 1), d), 3)
        E = r.rand(len(x), len(y))

        def call():
            return tm.SquaredEuclidean(x.copy(), y.copy()).jacobian_product(E.copy())
        ref = 2 * (E.sum(1)[:, None] * x - E @ y)
        return call, ref
    import tslearn.metrics.soft_dtw_fast as sf
    fwd, bwd = getattr(sf, "_njit_soft_dtw_batch", None), getattr(sf, "_njit_soft_dtw_grad_batch", None)
    if fwd is None or bwd is None:
        raise core.Skip("batched kernels are gone")
    D = r.rand(n, sz, sz - 1)

    def call():
        R = np.zeros((n, sz + 2, sz + 1))
        fwd(D.copy(), R, s["gamma"])
        if k == "fast_batch":
            return R
        Dp = np.zeros((n, sz + 1, sz))
        Dp[:, :sz, :sz - 1] = D
        E = np.zeros((n, sz + 2, sz + 1))
        bwd(Dp, R, E, s["gamma"])
        return E[:, 1:sz + 1, 1:sz].copy()
    return call, None


def run(spec, ctx):
    from .. import numba_sim
    call, ref = build(spec)
    ser = call()
    first = ser[0] if isinstance(ser, list) else ser
    if ref is not None:
        dd = cmp.diff(first, ref, rtol=1e-5, atol=1e-6 if spec["kind"] == "loss" else 1e-9)
        if dd:
            raise Violation("wrong-value", "%s run alone: %s" % (spec["kind"], dd))
    outs = []
    for k in range(len(spec["scheds"])):
        try:
            out = ctx.sim(call, k)
        except Violation:
            raise
        except Exception as e:
            raise Violation("raised", "%s under threads raised %s" % (spec["kind"], core.short(e)))
        ctx.note(out)
        ctx.sig(spec["kind"], spec["knobs"]["pthreads"], spec["knobs"]["chunk"], ctx.ilogs[-1])
        ctx.tag("parallel_regions", numba_sim.STATS["regions"])
        dd = cmp.diff(out, ser, rtol=1e-9, atol=1e-12)
        if dd:
            raise Violation("schedule-dependent", "%s: parallel run differs from sequential run: %s" % (spec["kind"], dd))
        outs.append(out)


def shrink(s):
    if len(s["scheds"]) > 1:
        for k in range(len(s["scheds"])):
            yield dict(s, scheds=s["scheds"][:k] + s["scheds"][k + 1:])
    for f, lo in (("n", 2), ("d", 1), ("n2", 1)):
        if s[f] > lo:
            yield dict(s, **{f: s[f] - 1})
    if s["sz"] > 4:
        yield dict(s, sz=4)
    kn = s["knobs"]
    if kn.get("fine") or kn["pthreads"] > 2:
        yield dict(s, knobs=dict(kn, fine=False, pthreads=2))
