"""C28: the shared matrix helpers agree with numpy."""

import copy
import itertools
import math
import operator

import numpy as np
from pure_sklearn import base, utils
from pure_sklearn.utils import sparse_list
from scipy.special import expit as np_expit, logsumexp as np_logsumexp, softmax as np_softmax

from ..cmp import Raised, attempt, densify, is_sparse_list, same
from ..dom import SPARSE_ENCODINGS

INF, NAN = float("inf"), float("nan")
BOUNDS = {
    "quick": "all matrices of up to 2x3 and 3x2 over {0, 1, -2.5} and all of up to 2x2 over {0, -0.0, 1, 1e300, -1e-300, inf, nan, 7 (int), True}; all pairs of matrices with every combination of shapes up to 2x2 for the binary "
             "helpers; dense and 3 sparse encodings with known and unknown width; every column selection of length 0-3 with repetition, order and negative or outside numbers; scalars over 60 magnitudes; vectors of length 1-4",
    "thorough": "alphabets and shapes one larger",
}
ASSUMPTIONS = ["products and sums are compared to 1e-12 relative, exponentials and logarithms to 1e-12 relative or 1e-300 absolute", "sparse helpers that map stored elements are compared on the stored elements"]
ALPHA = [0, 1.0, -2.5]
WILD = [0, -0.0, 1.0, 1e300, -1e-300, INF, NAN, 7, True]


def mats(n, k, alpha):
    rows = [list(r) for r in itertools.product(alpha, repeat=k)]
    return [[list(r) for r in c] for c in itertools.product(rows, repeat=n)]


def norm(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return densify(x) if is_sparse_list(x) else x


def alike(a, b):
    return not isinstance(a, Raised) and same(norm(a), norm(b), 1e-12, 1e-300)


def frozen(x):
    return (type(x).__name__, repr(x), getattr(x, "size", None), getattr(x, "dtype", None))


def try_(R, key, f, args, want, must=True, **kw):
    """f(*args) equals want (None: any refusal required), arguments unchanged"""
    before = [frozen(a) for a in args]
    got = attempt(f, *args)
    R.trans()
    R.state(key, [b[1] for b in before], kw)
    if want is None:
        R.check(isinstance(got, Raised), key, "%r returned instead of an error" % (got,), args=repr(args)[:300], **kw)
    elif not (isinstance(got, Raised) and not must):
        ok = attempt(alike, got, want)
        R.check(ok is True, key, "%r instead of %r" % (got if isinstance(got, Raised) else attempt(norm, got), norm(want)), args=repr(args)[:300], **kw)
    after = [frozen(a) for a in args]
    R.check(before == after, key + ":argument", "an argument changed", args=repr(args)[:300], before=repr(before)[:300], **kw)
    return got


def sparse_forms(M):
    if not all(isinstance(v, (int, float)) for r in M for v in r):
        return
    for name, enc in SPARSE_ENCODINGS:
        yield name, enc(M)
    yield "from dense", utils.tosparse([list(r) for r in M])


def single(shapes, alpha):
    """helpers of one matrix"""

    def scenario(ch, R):
        n, k = ch.choose("shape", shapes)
        head = ch.choose("first row", [list(r) for r in itertools.product(alpha, repeat=k)])
        for M in [[head] + m for m in (mats(n - 1, k, alpha) if n > 1 else [[]])]:
            A = np.array(M, dtype=float)
            c = lambda: copy.deepcopy(M)
            try_(R, "C28:transpose", base.transpose, [c()], A.T)
            try_(R, "C28:ravel", base.ravel, [c()], A.ravel())
            try_(R, "C28:shape", utils.shape, [c()], A.shape)
            try_(R, "C28:ndim", utils.ndim, [c()], 2)
            with np.errstate(all="ignore"):
                for fn, np_fn in ((abs, np.abs), (lambda v: v * 2 + 1, lambda a: a * 2 + 1)):
                    try_(R, "C28:apply_2d", base.apply_2d, [c(), fn], np_fn(A))
                for axis in (0, 1):
                    for fn, np_fn in ((len, lambda a, axis: np.full(a.shape[1 - axis], a.shape[axis])), (sum, np.sum)) + (() if np.isnan(A).any() else ((max, np.max), (min, np.min))):
                        if fn is sum and (np.isinf(A).any() or np.isnan(A).any()):
                            continue
                        try_(R, "C28:apply_axis_2d", base.apply_axis_2d, [c(), fn, axis], np_fn(A, axis=axis), axis=axis)
            try_(R, "C28:apply_axis_2d", base.apply_axis_2d, [c(), sum, 2], None)
            try_(R, "C28:apply_2d_sparse", base.apply_2d_sparse, [c(), abs], None)
            # round trip through the sparse form
            S = attempt(utils.tosparse, c())
            if R.check(not isinstance(S, Raised) and is_sparse_list(S) and S.size == k and utils.issparse(S) and not utils.issparse(M), "C28:tosparse", "%r" % (S,), matrix=repr(M)):
                R.check(alike(S, A) and all(v != 0 for r in S for v in r.values()), "C28:tosparse", "%r" % (S,), matrix=repr(M))
            for name, S in sparse_forms(M):
                try_(R, "C28:todense", utils.todense, [S], A, encoding=name)
                try_(R, "C28:shape", utils.shape, [S], A.shape, encoding=name)
                try_(R, "C28:ndim", utils.ndim, [S], 2, encoding=name)
                with np.errstate(all="ignore"):
                    np_sum = A.sum(axis=0)
                for f, more, want in ((base.transpose, [], A.T), (base.ravel, [], A.ravel()), (base.apply_2d, [abs], abs(A)), (base.apply_axis_2d, [sum, 0], np_sum),
                                      (lambda a: base.operate_2d(a, c(), max), [], A), (lambda a: base.dot([0.0] * k, a), [], A * 0 @ np.ones(k))):
                    # no sparse form: refused, or the numpy value
                    got = attempt(f, S, *more)
                    R.check(isinstance(got, Raised) or attempt(alike, got, want) is True, "C28:refused", "%s answers %r for sparse data" % (getattr(f, "__name__", "helper"), got), matrix=repr(M))
                with np.errstate(all="ignore"):
                    got = try_(R, "C28:apply_2d_sparse", base.apply_2d_sparse, [S, lambda v: v * 2], A * 2, encoding=name)
                    R.check(isinstance(got, Raised) or (is_sparse_list(got) and [list(r) for r in got] == [list(r) for r in S] and got.dtype == S.dtype), "C28:apply_2d_sparse", "other structure", matrix=repr(M))
                try_(R, "C28:apply_axis_2d", base.apply_axis_2d, [S, lambda vs: sorted(map(repr, vs)), 1], [sorted(map(repr, r.values())) for r in S], encoding=name)

    return scenario


def columns(shapes, alpha):
    def scenario(ch, R):
        n, k = ch.choose("shape", shapes)
        head = ch.choose("first row", [list(r) for r in itertools.product(alpha, repeat=k)])
        cols = list(range(-k - 1, k + 2))
        for M in [[head] + m for m in (mats(n - 1, k, alpha) if n > 1 else [[]])]:
            A = np.array(M, dtype=float)
            forms = [("dense", lambda: copy.deepcopy(M))] + [(nm, lambda enc=enc: enc(M)) for nm, enc in SPARSE_ENCODINGS]
            for name, mk in forms:
                for j in cols:
                    try_(R, "C28:slice_column", base.slice_column, [mk(), j], A[:, j] if -k <= j < k else None, form=name)
                for m in range(0, 4 if k < 3 else 3):
                    for idx in itertools.product(cols, repeat=m):
                        ok = all(-k <= j < k for j in idx)
                        for t in (list, tuple):
                            if m == 0 and name != "dense":
                                continue
                            try_(R, "C28:slice_column", base.slice_column, [mk(), t(idx)], A[:, list(idx)].reshape(n, m) if ok else None, form=name)
                for bad in (None, 1.0, "0", [0.5], ["a"], {0}, [None]):
                    try_(R, "C28:slice_column", base.slice_column, [mk(), bad], None, form=name)
            # width unknown: a missing key is a zero
            U = sparse_list([{j: v for j, v in enumerate(r) if v} for r in M])
            for j in range(k):
                try_(R, "C28:slice_column", base.slice_column, [U, j], A[:, j], form="unknown width")
            for idx in itertools.product(range(k), repeat=2):
                try_(R, "C28:slice_column", base.slice_column, [U, list(idx)], A[:, list(idx)], form="unknown width")

    return scenario


def binary(shapes, alpha):
    def scenario(ch, R):
        sa = ch.choose("shape A", shapes)
        sb = ch.choose("shape B", shapes)
        M = ch.choose("A", mats(sa[0], sa[1], alpha if sa[0] * sa[1] > 2 else alpha + [1e200]))
        A = np.array(M, dtype=float)
        for N in mats(sb[0], sb[1], alpha if sb[0] * sb[1] > 2 else alpha + [1e200]):
            B = np.array(N, dtype=float)
            eq = sa == sb
            with np.errstate(all="ignore"):
                for fn, np_fn in ((operator.add, np.add), (operator.mul, np.multiply), (max, np.maximum), (operator.sub, np.subtract)):
                    try_(R, "C28:operate_2d", base.operate_2d, [copy.deepcopy(M), copy.deepcopy(N), fn], np_fn(A, B) if eq else None)
                try_(R, "C28:matmult_same_dim", base.matmult_same_dim, [copy.deepcopy(M), copy.deepcopy(N)], A * B if eq else None)
                dot = A.dot(B.T) if sa[1] == sb[1] else None
                try_(R, "C28:dot_2d", base.dot_2d, [copy.deepcopy(M), copy.deepcopy(N)], dot)
                try_(R, "C28:dot", base.dot, [list(M[0]), copy.deepcopy(N)], None if dot is None else dot[0])
            Ss, Ts = list(sparse_forms(M)), list(sparse_forms(N))
            for i, (x, S) in enumerate(Ss):
                y, T = Ts[(i + 1) % len(Ts)]
                y2, T2 = Ts[i]
                for T_ in (T, T2):
                    try_(R, "C28:matmult_same_dim", base.matmult_same_dim, [S, T_], A * B if eq else None, forms=(x, y))
                if dot is not None:
                    try_(R, "C28:dot", base.dot, [S[0], copy.deepcopy(N)], dot[0], form=x)
                    try_(R, "C28:dot_2d", base.dot_2d, [S, copy.deepcopy(N)], dot, form=x)
                try_(R, "C28:matmult_same_dim", base.matmult_same_dim, [S, copy.deepcopy(N)], A * B if eq else None, must=False)
                try_(R, "C28:matmult_same_dim", base.matmult_same_dim, [copy.deepcopy(N), S], A * B if eq else None, must=False)

    return scenario


SCALARS = sorted({s * v for s in (1.0, -1.0) for v in (0.0, 5e-324, 1e-308, 1e-300, 1e-20, 1e-8, 0.1, 0.5, 1.0, 2.0, 10.0, 36.0, 37.5, 100.0, 700.0, 708.0, 709.0, 709.5, 709.8, 710.0, 744.0, 745.0, 746.0, 1000.0, 1e6, 1e300, 1.7e308, INF)}) + [NAN, 1, 0, -3, True]


def scalars():
    def scenario(ch, R):
        i = ch.choose("value", range(len(SCALARS)))
        x = SCALARS[i]
        with np.errstate(all="ignore"):
            try_(R, "C28:safe_exp", base.safe_exp, [x], np.exp(float(x)))
            try_(R, "C28:safe_log", base.safe_log, [x], np.log(float(x)))
            try_(R, "C28:expit", base.expit, [x], np_expit(float(x)))

    return scenario


def vectors(n):
    vals = [0.0, 1.0, -2.5, 30.0, 709.0, -800.0, 1e4, 1e300, -1e300, 5e-324, -INF, INF, NAN, 3]

    def scenario(ch, R):
        k = ch.choose("length", range(1, n + 1))
        lead = ch.choose("first", range(len(vals)))
        for rest in itertools.product(vals if k < 4 else vals[:9:2] + vals[10:13], repeat=k - 1):
            v = [vals[lead]] + list(rest)
            a = np.array(v, dtype=float)
            with np.errstate(all="ignore"):
                try_(R, "C28:sfmax", base.sfmax, [list(v)], np_softmax(a))
                try_(R, "C28:sfmax", lambda d: list(base.sfmax(d).values()), [dict(zip((5, 0, 9, 2), v))], np_softmax(a))
                try_(R, "C28:logsumexp", base.logsumexp, [list(v)], np_logsumexp(a))
                if not np.isnan(np.cumsum(a)).any() and np.abs(a).max() < 1e299:
                    try_(R, "C28:accumu", lambda l: list(base.accumu(l)), [list(v)], np.cumsum(a))
                try_(R, "C28:shape", utils.shape, [list(v)], (k,))
                try_(R, "C28:ndim", utils.ndim, [list(v)], 1)
                try_(R, "C28:ravel", base.ravel, [list(v)], a, must=False)
        R.check(isinstance(attempt(base.sfmax, {}), dict), "C28:sfmax", "a row without stored values")

    return scenario


def scenarios(tier):
    deep = tier == "thorough"
    small = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]
    return [
        ("one matrix", single(small + ([(3, 3)] if deep else []), ALPHA)),
        ("unusual values", single([(1, 1), (1, 2), (2, 1), (2, 2)] if deep else [(1, 1), (1, 2), (2, 1)], WILD)),
        ("unusual values 2x2", single([(2, 2)], WILD[:6:2] + WILD[5:7])),
        ("columns", columns(small if deep else small[:6], ALPHA)),
        ("two matrices", binary([(1, 1), (1, 2), (2, 1), (2, 2)] + ([(1, 3)] if deep else []), ALPHA)),
        ("scalars", scalars()),
        ("vectors", vectors(5 if deep else 4)),
    ]
