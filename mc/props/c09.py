"""C09: SimpleImputer and MissingIndicator."""

import itertools

import numpy as np
from sklearn.impute import MissingIndicator, SimpleImputer

from ..cmp import Raised, attempt, compare, dense
from ..dom import call, convert, native

NAN = float("nan")
BOUNDS = {
    "quick": "every fit matrix 3x2 and 2x3 over {marker, a, b}, every strategy, markers NaN / numbers / strings / None, indicator on and off, "
             "features all/missing-only, error_on_new on/off, every transform row over {marker, a, b, c} in one batch, in reverse, every second one singly and selected ordered pairs",
    "thorough": "additionally 4x2 and 3x3 fit matrices",
}
ASSUMPTIONS = ["transform input contains NaN only when NaN is the marker (the native transformers refuse it otherwise)"]

KINDS = [
    ("nan", NAN, [1.0, 2.5], [1.0, 4.0], float),
    ("zero", 0.0, [1.0, 2.5], [2.5, NAN][:1], float),
    ("-1", -1, [0.0, 3.0], [0.0, -2.0], float),
    ("int", 0, [1, 5], [2, 5], int),
    ("str", "?", ["x", "y"], ["x", ""], object),
    ("empty", "", ["x", "y"], ["y", "z"], object),
    ("none", None, ["x", "y"], ["y", "z"], object),
    ("nanobj", NAN, ["x", "y"], ["y", "z"], object),
]


def to_np(X, dt):
    return np.array(X, dtype=dt)


def strategies(kind):
    if kind[4] is object:
        return [("most_frequent", None), ("constant", None), ("constant", "fill")]
    return [("mean", None), ("median", None), ("most_frequent", None), ("constant", None), ("constant", 7 if kind[4] is int else -0.5)] + ([("constant", NAN)] if kind[4] is float else [])


def batches(kind, m, pairs):
    al = [kind[1]] + list(dict.fromkeys(kind[2][:1] + kind[3]))
    rows = [list(r) for r in itertools.product(al, repeat=m)]
    out = [rows, rows[::-1]] + [[r] for r in rows][:9]
    if pairs:
        few = rows[:: max(1, len(rows) // 3)][:4]
        out += [[a, b] for a in few for b in few if a != b][: 6 if m < 3 else 3]
    return out


def judge(R, est, p, X, key, dt, **det):
    Xn = to_np(X, dt)
    R.state(key, X, det.get('fit'), det.get('fill'))
    ref = native(est, "transform", Xn)
    keep = [list(r) for r in X]
    got = call(R, p, "transform", keep)
    if isinstance(ref, Raised):
        R.check(isinstance(got, Raised), key + ":not-refused", "the native transformer refuses this input, the converted one answers",
                input=X, reference=ref, got=got, **det)
        return
    compare(R, key, ref, got, X, what="transform", **det)


def fit_matrix(ch, kind, n, m):
    al = [kind[1]] + kind[2]
    return [[ch.choose("x%d,%d" % (i, j), al) for j in range(m)] for i in range(n)]


def fit_imputer(est, X, kind):
    if est.strategy != "most_frequent" or kind[4] is not object:
        return est.fit(to_np(X, kind[4]))
    # scipy 1.11 cannot take the mode of strings: install the statistics the fit would find
    est.set_params(strategy="constant").fit(to_np(X, kind[4]))
    stats = []
    for col in zip(*X):
        known = sorted(v for v in col if not (v == kind[1] or v != v))
        stats.append(max(known, key=known.count) if known else NAN)
    est.set_params(strategy="most_frequent")
    est.statistics_ = np.array(stats, dtype=object)
    return est


def imputer(n, m, pairs=True):
    def scenario(ch, R):
        kind = ch.choose("marker", KINDS)
        ind = ch.flag("add_indicator")
        X = fit_matrix(ch, kind, n, m)
        for strat, fill in strategies(kind):
            est = SimpleImputer(missing_values=kind[1], strategy=strat, fill_value=fill, add_indicator=ind)
            if isinstance(attempt(fit_imputer, est, X, kind), Raised):
                R.count("native_fit_refused")
                R.validated()
                continue
            p = convert(R, est, "C09:imputer:%s:%s" % (kind[0], strat), fit=X)
            if p is None:
                continue
            # natively every row is imputed on its own: one reference call per model
            bs = batches(kind, m, pairs)
            ref = dense(native(est, "transform", to_np(bs[0], kind[4])))
            if isinstance(ref, Raised):
                raise AssertionError("reference refused %r" % (ref,))
            table = {repr(r): v for r, v in zip(bs[0], ref)}
            judge(R, est, p, bs[0], "C09:imputer:%s:%s:%s" % (kind[0], strat, ind), kind[4], fit=X, fill=fill)
            for b in bs[1:]:
                key = "C09:imputer:%s:%s:%s" % (kind[0], strat, ind)
                R.state(key, b, X, fill)
                compare(R, key, [table[repr(r)] for r in b], call(R, p, "transform", [list(r) for r in b]), b, what="transform", fit=X, fill=fill)

    return scenario


def indicator(n, m):
    def scenario(ch, R):
        kind = ch.choose("marker", KINDS)
        X = fit_matrix(ch, kind, n, m)
        for feats in ("missing-only", "all"):
            for eon in (True, False):
                for sp in ("auto", True) if feats == "all" else ("auto",):
                    est = MissingIndicator(missing_values=kind[1], features=feats, error_on_new=eon, sparse=sp)
                    if isinstance(attempt(est.fit, to_np(X, kind[4])), Raised):
                        R.count("native_fit_refused")
                        R.validated()
                        continue
                    p = convert(R, est, "C09:indicator:%s" % kind[0], fit=X)
                    if p is None:
                        continue
                    for b in batches(kind, m, sp == "auto"):
                        judge(R, est, p, b, "C09:indicator:%s:%s:%s" % (kind[0], feats, eon), kind[4], fit=X, sparse=sp)

    return scenario


def wide(widths):
    """many columns; some never seen; extreme magnitudes"""
    EMPTY = {"none": lambda j, m: False, "first": lambda j, m: j == 0, "last": lambda j, m: j == m - 1, "alternate": lambda j, m: j % 2 == 0,
             "all but one": lambda j, m: j != m // 2, "block": lambda j, m: m // 3 <= j < 2 * m // 3}

    def scenario(ch, R):
        m = ch.choose("columns", widths)
        empty = ch.choose("columns never seen", sorted(EMPTY))
        scale = ch.choose("scale", [1e-300, 1e-7, 1.0, 1e150])
        mark = ch.choose("marker", [NAN, -1.0, 0.0])
        n = ch.choose("rows", [1, 2, 5, 8])
        fit = [[mark if EMPTY[empty](j, m) or (i * 3 + j) % 4 == 1 else scale * ((i * 5 + j * 3) % 7 + 1) for j in range(m)] for i in range(n)]
        X = [[scale * (1 + j % 3) for j in range(m)], [mark] * m] + [[mark if (j * s + s) % 5 < 2 else scale * (j % 4 + 1) for j in range(m)] for s in (1, 2, 3)]
        X += [[mark if j == q else scale for j in range(m)] for q in sorted({0, m // 2, m - 1})]
        for strat, fill in [("mean", None), ("median", None), ("most_frequent", None), ("constant", None), ("constant", 7.5 * scale), ("constant", NAN)]:
            for ind in (False, True):
                est = SimpleImputer(missing_values=mark, strategy=strat, fill_value=fill, add_indicator=ind)
                if isinstance(attempt(est.fit, np.array(fit)), Raised):
                    R.count("native_fit_refused")
                    R.validated()
                    continue
                p = convert(R, est, "C09:wide")
                if p is not None:
                    for b in (X, X[::-1], X[1:2]):
                        judge(R, est, p, b, "C09:wide:%s:%s" % (strat, ind), float, fit=fit, fill=fill)
        for feats in ("missing-only", "all"):
            for eon in (True, False):
                est = MissingIndicator(missing_values=mark, features=feats, error_on_new=eon)
                est.fit(np.array(fit))
                p = convert(R, est, "C09:wide")
                if p is not None:
                    for b in [X, X[::-1]] + [[x] for x in X]:
                        judge(R, est, p, b, "C09:wide:indicator:%s:%s" % (feats, eon), float, fit=fit)

    return scenario


def scenarios(tier):
    t = tier == "thorough"
    return [("imputer 3x2", imputer(3, 2)), ("imputer 2x3", imputer(2, 3, False)), ("indicator 3x2", indicator(3, 2)),
            ("indicator 2x3", indicator(2, 3)), ("indicator 1x4", indicator(1, 4)),
            ("wide", wide([1, 4, 10, 11, 33, 130] + ([300] if t else [])))] + (
        [("imputer 4x2", imputer(4, 2, False)), ("imputer 3x3", imputer(3, 3, False))] if t else [])
