"""C07: scalers and normalizers."""

import copy
import itertools

import numpy as np
import scipy.sparse as sp
from pure_sklearn.preprocessing import normalize_pure
from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, Normalizer, StandardScaler, normalize

from ..cmp import Raised, attempt, compare, dense
from ..dom import SPARSE_ENCODINGS, call, convert, enc_dense, native, quiet_fit

BOUNDS = {
    "quick": "normalize/Normalizer: all matrices of shape <=3x2 and 2x3 over {-3,0,1,2}, 3 norms, both axes, 4 encodings; scalers: "
             "all 3x2 training matrices over {-2,0,1}, entries of 14 orders of magnitude from 1e-300 to 1e150, all parameter settings, transformed on every row over 6 values incl. NaN where accepted; up to 5000 rows or columns",
    "thorough": "normalize: also 3x3 over {-2,0,1}; scalers: 3x2 over 4 values",
}
ASSUMPTIONS = ["values whose squares are finite", "norms returned for sparse zero rows are not compared (scikit-learn reports 0 there, 1 for dense)"]


def choose_matrix(ch, n, m, vals):
    return [[ch.choose("x%d,%d" % (i, j), vals) for j in range(m)] for i in range(n)]


def norms(shapes, vals):
    def scenario(ch, R):
        n, m = ch.choose("shape", shapes)
        X = choose_matrix(ch, n, m, vals)
        Xn = np.array(X, dtype=float)
        R.state(X)
        for norm in ("l1", "l2", "max"):
            for axis in (0, 1):
                ref = attempt(normalize, Xn, norm=norm, axis=axis, return_norm=True)
                R.trans(2)
                got = attempt(normalize_pure, enc_dense(X), norm=norm, axis=axis, return_norm=True)
                ok = isinstance(got, (tuple, list)) and len(got) == 2
                compare(R, "C07:normalize", ref[0], got[0] if ok else got, X, what="normalize %s axis %d" % (norm, axis))
                compare(R, "C07:norms", ref[1], got[1] if ok else got, X, what="norms %s axis %d" % (norm, axis))
                compare(R, "C07:normalize", ref[0], attempt(normalize_pure, enc_dense(X), norm, axis), X,
                        what="normalize %s axis %d" % (norm, axis))
            ref = attempt(normalize, sp.csr_matrix(Xn), norm=norm)
            for name, enc in SPARSE_ENCODINGS:
                R.trans()
                compare(R, "C07:normalize:sparse", ref, attempt(normalize_pure, enc(X), norm=norm), X,
                        what="normalize %s sparse %s" % (norm, name))
            est = Normalizer(norm=norm).fit(Xn)
            p = convert(R, est, "C07:normalizer")
            if p is not None:
                ref = native(est, "transform", Xn)
                compare(R, "C07:normalizer", ref, call(R, p, "transform", enc_dense(X)), X, what="Normalizer " + norm)
                for name, enc in SPARSE_ENCODINGS[:2]:
                    compare(R, "C07:normalizer:sparse", ref, call(R, p, "transform", enc(X)), X, what="Normalizer %s sparse %s" % (norm, name))

    return scenario


SCALERS = [
    ("std", lambda: StandardScaler()), ("std-nomean", lambda: StandardScaler(with_mean=False)),
    ("std-nostd", lambda: StandardScaler(with_std=False)), ("std-none", lambda: StandardScaler(with_mean=False, with_std=False)),
    ("minmax", lambda: MinMaxScaler()), ("minmax-neg", lambda: MinMaxScaler(feature_range=(-2, 3))),
    ("minmax-half", lambda: MinMaxScaler(feature_range=(0.25, 0.5))), ("maxabs", lambda: MaxAbsScaler()),
]
NAN = float("nan")


def scaler(n, m, vals):
    ax = [-2.0, 0.0, 1, 0.3, 1e6, NAN]
    rows = [list(r) for r in itertools.product(ax, repeat=m)]
    finite = [r for r in rows if not any(v != v for v in r)]

    def scenario(ch, R):
        name, mk = ch.choose("scaler", SCALERS)
        part = ch.flag("partial_fit")
        X = choose_matrix(ch, n, m, vals)
        Xn = np.array(X, dtype=float)
        est = mk()
        if part:
            est.partial_fit(Xn[:1])
            est.partial_fit(Xn[1:])
        else:
            quiet_fit(est, Xn)
        p = convert(R, est, "C07:scaler")
        if p is None:
            return
        R.state(name, part, X)
        compare(R, "C07:" + name, native(est, "transform", np.array(rows)), call(R, p, "transform", enc_dense(rows)), rows, what=name, fit=X)
        if name in ("std-nomean", "std-none", "maxabs"):
            ref = native(est, "transform", sp.csr_matrix(np.array(finite)))
            for en, enc in SPARSE_ENCODINGS:
                compare(R, "C07:sparse:" + name, ref, call(R, p, "transform", enc(finite)), finite, what="%s sparse %s" % (name, en), fit=X)

    return scenario


MAGS = [1e-300, 1e-160, 1e-150, 1e-30, 1e-20, 1e-12, 1e-9, 1e-6, 1e-3, 1e4, 1e9, 1e20, 1e100, 1e150]


def magnitudes(ch, R):
    """entries of every order of magnitude next to each other"""
    m = ch.choose("magnitude", MAGS)
    other = ch.choose("second row", [None, 0.0, 1.0] + MAGS)
    a, b = ch.choose("a", [-3.0, 0.0, 1.0]), ch.choose("b", [4.0, 0.0, -1.0])
    X = [[a * m, b * m]] + ([[other, -2.0 * other]] if other is not None else [])
    Xn = np.array(X)
    R.state(X)
    for norm in ("l1", "l2", "max"):
        for axis in (0, 1):
            ref = attempt(normalize, Xn, norm=norm, axis=axis)
            R.trans()
            compare(R, "C07:normalize:magnitude", ref, attempt(normalize_pure, enc_dense(X), norm=norm, axis=axis), X, atol=0,
                    what="normalize %s axis %d" % (norm, axis))
        ref = attempt(normalize, sp.csr_matrix(Xn), norm=norm)
        R.trans()
        compare(R, "C07:normalize:magnitude", ref, attempt(normalize_pure, SPARSE_ENCODINGS[0][1](X), norm=norm), X, atol=0,
                what="normalize %s sparse" % norm)
        est = Normalizer(norm=norm).fit(Xn)
        p = convert(R, est, "C07:normalizer")
        if p is not None:
            compare(R, "C07:normalizer:magnitude", native(est, "transform", Xn), call(R, p, "transform", enc_dense(X)), X, atol=0, what="Normalizer " + norm)
    F = np.array([[a * m, 1.0], [b * m, 2.0], [m, other if other is not None else 3.0]])
    for name, mk in SCALERS:
        est = mk()
        if isinstance(attempt(quiet_fit, est, F), Raised):
            R.count("native_fit_refused")
            continue
        p = convert(R, est, "C07:scaler")
        if p is not None:
            rows = F.tolist() + [[0.0, 0.0], [m, -m], [5 * m, 5.0]]
            ref = native(est, "transform", np.array(rows))
            if not isinstance(ref, Raised):
                compare(R, "C07:magnitude:" + name, ref, call(R, p, "transform", enc_dense(rows)), rows, what=name, fit=F.tolist())


def wide(rows_, cols):
    """many rows, many columns"""

    def scenario(ch, R):
        n = ch.choose("rows", rows_)
        m = ch.choose("columns", cols if n <= 300 else [1, 2])
        if m > 3000 and n > 2:
            R.validated()
            return
        fill = ch.choose("fill", ["full", "few", "last", "empty rows"])
        scale = ch.choose("scale", [1e-200, 1e-9, 1.0, 1e9, 1e140])
        keep = {"full": lambda i, j: True, "few": lambda i, j: (i * 3 + j) % 11 == 0, "last": lambda i, j: j == m - 1, "empty rows": lambda i, j: i % 2 == 1}[fill]
        X = [[((i * 5 + j * 3) % 9 - 4) * scale if keep(i, j) else 0.0 for j in range(m)] for i in range(n)]
        Xn = np.array(X)
        R.state(n, m, fill, scale)
        for norm in ("l1", "l2", "max"):
            for axis in (0, 1):
                R.trans()
                compare(R, "C07:normalize:wide", attempt(normalize, Xn, norm=norm, axis=axis), attempt(normalize_pure, enc_dense(X), norm=norm, axis=axis), X, atol=0,
                        what="normalize %s axis %d" % (norm, axis))
            R.trans()
            compare(R, "C07:normalize:wide", attempt(normalize, sp.csr_matrix(Xn), norm=norm), attempt(normalize_pure, SPARSE_ENCODINGS[0][1](X), norm=norm), X, atol=0,
                    what="normalize %s sparse" % norm)
        for name, mk in SCALERS:
            est = quiet_fit(mk(), Xn)
            p = convert(R, est, "C07:scaler")
            if p is None:
                continue
            rows = X[:3] + [[0.0] * m, [scale * j for j in range(m)], [scale if j == m // 2 else 0.0 for j in range(m)]]
            ref = native(est, "transform", np.array(rows))
            compare(R, "C07:wide:" + name, ref, call(R, p, "transform", enc_dense(rows)), rows, what=name)
            if name in ("std-nomean", "std-none", "maxabs"):
                ref = native(est, "transform", sp.csr_matrix(np.array(rows)))
                for en, enc in SPARSE_ENCODINGS:
                    compare(R, "C07:wide:sparse:" + name, ref, call(R, p, "transform", enc(rows)), rows, what="%s sparse %s" % (name, en))

    return scenario


def scenarios(tier):
    t = tier == "thorough"
    shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)]
    return [
        ("normalize", norms(shapes, [-3.0, 0.0, 1, 2.0] if t else [-3.0, 0.0, 1])),
        ("normalize4", norms([(1, 1), (1, 2), (2, 2), (1, 3), (1, 4)], [-3.0, -0.5, 0.0, 1, 2.0])),
        ("magnitudes", magnitudes),
        ("wide", wide([1, 2, 17, 101, 260, 1030, 5000], [1, 2, 33, 300, 1030, 5000] + ([3000, 70000] if t else []))),
        ("scalers", scaler(3, 2, [-2.0, 0.0, 1.0] if not t else [-2.0, 0.0, 1.0, 0.1])),
        ("scalers3", scaler(2, 3, [-2.0, 0.0, 1.5] if not t else [-2.0, 0.0, 1.5])),
    ] + ([("normalize33", norms([(3, 3)], [-2.0, 0.0, 1.0]))] if t else [])
