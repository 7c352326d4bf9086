"""Value comparison and snapshots of observable state."""
import copy
import numpy as np


def _np(x):
    if hasattr(x, "detach"):
        return x.detach().cpu().numpy()
    return x


def diff(a, b, rtol=1e-7, atol=1e-9, exact=False, path=""):
    """None when equal, otherwise a text naming the first difference."""
    a, b = _np(a), _np(b)
    if isinstance(a, np.generic):
        a = a.item() if a.dtype != object else a
    if isinstance(b, np.generic):
        b = b.item() if b.dtype != object else b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            try:
                a, b = np.asarray(a), np.asarray(b)
            except Exception:
                return "%s: types %s / %s" % (path, type(a).__name__, type(b).__name__)
        if a.shape != b.shape:
            return "%s: shapes %s / %s" % (path, a.shape, b.shape)
        if a.dtype == object or b.dtype == object:
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                d = diff(x, y, rtol, atol, exact, "%s[%d]" % (path, i))
                if d:
                    return d
            return None
        if a.dtype.kind in "USOb" or b.dtype.kind in "USOb":
            if not np.array_equal(a, b):
                return "%s: %r / %r" % (path, a.tolist()[:8], b.tolist()[:8])
            return None
        if exact:
            ok = np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f")
        else:
            with np.errstate(all="ignore"):
                scale = np.nanmax(np.abs(np.where(np.isfinite(b), b, 0.0))) if b.size else 0.0
                ok = np.allclose(a, b, rtol=rtol, atol=atol + rtol * scale * 1e-2, equal_nan=True)
        if ok:
            return None
        with np.errstate(all="ignore"):
            bad = ~((a == b) | ((a != a) & (b != b)))
            w = np.argwhere(bad)
            # report the worst one
            dd = np.where(bad, np.nan_to_num(np.abs(a.astype(float) - b.astype(float)), nan=np.inf), -1)
            k = np.unravel_index(np.argmax(dd), dd.shape) if dd.shape else ()
        return "%s%s: %r instead of %r (%d of %d entries differ)" % (
            path, list(map(int, k)), _it(a[k]), _it(b[k]), len(w), a.size)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: keys %s" % (path, sorted(map(str, set(a) ^ set(b))))
        for k in a:
            d = diff(a[k], b[k], rtol, atol, exact, "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: lengths %d / %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, rtol, atol, exact, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, float) or isinstance(b, float):
        try:
            if a == b or (a != a and b != b):
                return None
            if not exact and np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
                return None
        except TypeError:
            pass
        return "%s: %r instead of %r" % (path, a, b)
    if type(a) is type(b) and hasattr(a, "get_params") and not isinstance(a, type):
        d = diff(a.get_params(), b.get_params(), rtol, atol, exact, path + ".params")
        return d or diff(fitted(a), fitted(b), rtol, atol, exact, path)
    if a is b:
        return None
    if isinstance(a, np.random.RandomState) and isinstance(b, np.random.RandomState):
        return diff(list(a.get_state()), list(b.get_state()), exact=True, path=path)
    try:
        if a == b:
            return None
    except Exception:
        pass
    if type(a) is type(b) and type(a).__eq__ is object.__eq__:
        va, vb = getattr(a, "__dict__", None), getattr(b, "__dict__", None)
        if va is not None and vb is not None and type(a).__module__.startswith("tslearn"):
            return diff(va, vb, rtol, atol, exact, path)
        return None                     # opaque objects of one type
    return "%s: %r instead of %r" % (path, a, b)


def _it(v):
    try:
        return v.item()
    except Exception:
        return v


def fitted(est):
    """Public fitted attributes: names ending in one underscore, not starting with one."""
    out = {}
    for k, v in vars(est).items():
        if k.endswith("_") and not k.startswith("_") and not k.endswith("__"):
            out[k] = v
    return out


def freeze(v):
    """Deep copy of a value for later comparison (estimators keep type and state)."""
    if hasattr(v, "detach"):
        return v.detach().clone()
    try:
        return copy.deepcopy(v)
    except Exception:
        return v
