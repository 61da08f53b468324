"""Outcome capture and comparison between native and pure results."""

import math
import signal
import warnings

import numpy as np
import scipy.sparse as sp

from .engine import Hang

RTOL, ATOL = 1e-7, 1e-9


class Raised:
    def __init__(self, e):
        self.e = e
        self.name = type(e).__name__

    def __repr__(self):
        return "Raised(%s: %s)" % (self.name, str(self.e)[:200])


def attempt(fn, *a, **k):
    """run fn; an exception becomes a Raised value"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return fn(*a, **k)
    except Exception as e:  # Hang is a BaseException: passes through
        return Raised(e)


def is_sparse_list(x):
    return isinstance(x, list) and hasattr(x, "todense") and hasattr(x, "size")


def dense(x):
    """canonical dense form (nested python lists) of any result"""
    if isinstance(x, Raised):
        return x
    if sp.issparse(x):
        return x.toarray().tolist()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if is_sparse_list(x):
        return densify(x)
    if isinstance(x, (list, tuple)):
        return [dense(v) if isinstance(v, (list, tuple, np.ndarray)) else v for v in x]
    return x


def densify(x):
    """independent densification of a sparse_list (does not call todense)"""
    if not isinstance(x.size, int):
        raise ValueError("sparse result has no integer size: %r" % (x.size,))
    out = []
    for row in x:
        r = [0.0] * x.size
        for k, v in row.items():
            if not isinstance(k, int) or not (0 <= k < x.size):
                raise ValueError("sparse key %r outside size %r" % (k, x.size))
            r[k] = v
        out.append(r)
    return out


def num_close(a, b, rtol=RTOL, atol=ATOL):
    if a is b:
        return True
    ta, tb = isinstance(a, (int, float, np.number, bool, np.bool_)), isinstance(
        b, (int, float, np.number, bool, np.bool_)
    )
    if ta and tb:
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    if ta != tb:
        return False
    return a == b


def same(a, b, rtol=RTOL, atol=ATOL):
    """deep comparison of dense forms"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            return False
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not same(x, y, rtol, atol):
                return False
        return True
    return num_close(a, b, rtol, atol)


def fast_same(a, b, rtol=RTOL, atol=ATOL):
    """vectorised path for numeric arrays, falls back to same()"""
    try:
        x = np.asarray(a, dtype=float)
        y = np.asarray(b, dtype=float)
    except (ValueError, TypeError):
        return same(a, b, rtol, atol)
    if x.shape != y.shape:
        return False
    with np.errstate(all="ignore"):
        eq = (x == y) | (np.isnan(x) & np.isnan(y))
        if eq.all():
            return True
        fin = np.isfinite(x) & np.isfinite(y)
        ok = eq | (fin & (np.abs(x - y) <= atol + rtol * np.maximum(np.abs(x), np.abs(y))))
    return bool(ok.all())


def first_diff(a, b, rtol=RTOL, atol=ATOL):
    if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return None, a, b
    if len(a) != len(b):
        return "len %d vs %d" % (len(a), len(b)), a, b
    for i, (x, y) in enumerate(zip(a, b)):
        if not same(x, y, rtol, atol):
            return i, x, y
    return None, a, b


def compare(R, key, native, pure, X=None, rtol=RTOL, atol=ATOL, what="", **detail):
    """native is the reference. Both are raw results or Raised."""
    R.validated()
    if isinstance(native, Raised):
        # the reference refuses this input: nothing to compare (see C24)
        R.count("reference_refused")
        return True
    if isinstance(pure, Raised):
        R.fail(key + ":raised", "%s: implementation raised %r where the reference answers" % (what, pure),
               input=X, reference=dense(native), **detail)
        return False
    n = dense(native)
    try:
        p = dense(pure)
    except Exception as e:
        R.fail(key + ":malformed", "%s: malformed result: %s" % (what, e), input=X, result=repr(pure), **detail)
        return False
    if not fast_same(n, p, rtol, atol):
        i, x, y = first_diff(n, p, rtol, atol)
        row = None
        try:
            row = X[i] if X is not None and isinstance(i, int) else X
        except Exception:
            row = X
        R.fail(key, "%s: differs from the reference at row %s: reference %r, got %r" % (what, i, x, y),
               row=row, input=X, reference=n, got=p, **detail)
        return False
    R.outcome(n if len(str(n)) < 20000 else hash(str(n)))
    return True


def tie_tolerant_labels(scores, labels_native, labels_pure, classes, tol=1e-9):
    """predict() may pick another label only where native scores tie to tol"""
    bad = []
    for i, (a, b) in enumerate(zip(labels_native, labels_pure)):
        if a == b:
            continue
        s = scores[i]
        if isinstance(s, (list, tuple)):
            try:
                if abs(s[classes.index(a)] - s[classes.index(b)]) <= tol * max(1, max(map(abs, s))):
                    continue
            except ValueError:
                pass
        else:
            if abs(s) <= tol and b in classes:
                continue
        bad.append(i)
    return bad
