"""C05: linear classifiers."""

import copy
import functools

import numpy as np
from sklearn.linear_model import (LogisticRegression, PassiveAggressiveClassifier, Perceptron, RidgeClassifier, SGDClassifier)
from sklearn.svm import LinearSVC

from ..cmp import Raised, attempt, compare, dense, tie_tolerant_labels
from ..dom import LABELS, SPARSE_ENCODINGS, call, convert, enc_dense, labels_for, native, quiet_fit

BOUNDS = {
    "quick": "binary: all 2-feature coefficient vectors over 5 values x 3 intercepts; 3 classes: all 3x2 coefficient matrices over "
             "3 values x 4 intercept vectors; 4 classes: 1 feature over 4 values; 13 estimator/probability modes; all rows over 7 "
             "values in 4 encodings; fitted models over all labellings of 5 points x 16 settings; up to 5000 features and 12 classes",
    "thorough": "3 classes over 4 values; binary with 3 features; fitted labellings of 6 points",
}
ASSUMPTIONS = ["finite inputs; modified_huber probabilities are not offered by the implementation (refused) and are not compared"]
AXIS = [-2.0, -0.5, 0.0, 0.5, 1.0, 3, 2000.0]

MODES = {
    "lr-ovr": lambda: LogisticRegression(multi_class="ovr"),
    "lr-ovr-liblinear": lambda: LogisticRegression(multi_class="ovr", solver="liblinear"),
    "lr-auto": lambda: LogisticRegression(),
    "lr-auto-liblinear": lambda: LogisticRegression(solver="liblinear"),
    "lr-multi": lambda: LogisticRegression(multi_class="multinomial"),
    "lr-multi-saga": lambda: LogisticRegression(multi_class="multinomial", solver="saga"),
    "ridge": lambda: RidgeClassifier(),
    "sgd-log": lambda: SGDClassifier(loss="log"),
    "sgd-hinge": lambda: SGDClassifier(),
    "sgd-mh": lambda: SGDClassifier(loss="modified_huber"),
    "perceptron": lambda: Perceptron(),
    "pa": lambda: PassiveAggressiveClassifier(),
    "svc": lambda: LinearSVC(),
}
M1 = ["decision_function", "predict"]
MP = ["predict_proba", "predict_log_proba"]


@functools.lru_cache(None)
def base(mode, k, nf):
    X = np.zeros((2 * k, nf))
    for i in range(2 * k):
        X[i, i % nf] = i * (1.0 if k <= 4 and nf <= 3 else 0.5 / k)
    return quiet_fit(MODES[mode](), X, np.arange(2 * k) % k)


def crafted(mode, k, coef, intercept, classes):
    nf = len(coef[0])
    e = copy.copy(base(mode, k, nf))
    e.coef_ = np.array(coef, dtype=float)
    e.intercept_ = intercept if isinstance(intercept, float) else np.array(intercept, dtype=float)
    if mode == "ridge":
        lb = copy.copy(e._label_binarizer)
        lb.classes_ = np.array(classes)
        e._label_binarizer = lb
    else:
        e.classes_ = np.array(classes)
    return e


def judge(R, e, p, X, key, strict=True, mode="", **det):
    Xn = np.array(X, dtype=float)
    ms = list(M1)
    if mode.startswith("lr") or mode == "sgd-log":
        ms += MP
    dec = native(e, "decision_function", Xn)
    for m in ms:
        ref = native(e, m, Xn)
        R.state(key, m, mode, det)
        encs = [("dense", enc_dense)] + (SPARSE_ENCODINGS if m in ("decision_function", ms[-1]) else SPARSE_ENCODINGS[:1])
        for name, enc in encs:
            got = call(R, p, m, enc(X))
            if m == "predict" and not strict and not isinstance(got, Raised):
                bad = tie_tolerant_labels(dense(dec), dense(ref), got, e.classes_.tolist())
                R.check(not bad, key + ":predict", "labels differ at rows %s" % bad, reference=dense(ref), got=got, mode=mode, **det)
            else:
                compare(R, key + ":" + m, ref, got, X, what="%s (%s)" % (m, name), mode=mode, **det)


@functools.lru_cache(None)
def rows(nf):
    if nf == 1:
        return [[a] for a in AXIS]
    if nf == 2:
        return [[a, b] for a in AXIS for b in AXIS]
    a3 = [-2.0, 0.0, 1.0, 2000.0]
    return [[a, b, c] for a in a3 for b in a3 for c in a3]


def binary(nf, vals):
    def scenario(ch, R):
        mode = ch.choose("estimator", list(MODES))
        coef = [[ch.choose("coef%d" % j, vals) for j in range(nf)]]
        b = ch.choose("intercept", [[0.0], [-0.5], [1.0]] + ([0.0] if mode in ("ridge", "lr-ovr-liblinear", "svc") else []))
        lab = ["range", "gap", "str", "upper", "float", "bool", "offset"][int(4 * (sum(coef[0]) + (b[0] if isinstance(b, list) else 3))) % 7]
        e = crafted(mode, 2, coef, b, labels_for(lab, 2))
        p = convert(R, e, "C05:bin")
        if p is not None:
            judge(R, e, p, rows(nf), "C05:bin", mode=mode, coef=coef, b=b, labels=lab)

    return scenario


def multi(k, nf, vals, bs):
    def scenario(ch, R):
        mode = ch.choose("estimator", list(MODES))
        coef = [[ch.choose("coef%d,%d" % (i, j), vals) for j in range(nf)] for i in range(k)]
        b = ch.choose("intercept", bs)
        lab = ["range", "gap", "str", "upper", "float", "offset"][int(2 * sum(map(sum, coef))) % 6]
        e = crafted(mode, k, coef, b, labels_for(lab, k))
        p = convert(R, e, "C05:multi")
        if p is not None:
            judge(R, e, p, rows(nf)[::3] if nf == 2 else rows(nf), "C05:multi", mode=mode, coef=coef, b=b, labels=lab)

    return scenario


PTS = np.array([[0.0, 1.0], [0.5, -1.0], [1.0, 0.5], [1.5, 0.0], [-1.0, 2.0], [0.25, 0.25], [2.0, -1.5]])
FIT = [
    lambda: LogisticRegression(), lambda: LogisticRegression(fit_intercept=False), lambda: LogisticRegression(solver="liblinear"),
    lambda: LogisticRegression(multi_class="ovr"), lambda: LogisticRegression(multi_class="multinomial", solver="newton-cg"),
    lambda: LogisticRegression(class_weight="balanced", solver="sag", max_iter=20, random_state=0),
    lambda: LogisticRegression(penalty="l1", solver="liblinear", C=0.5), lambda: RidgeClassifier(),
    lambda: RidgeClassifier(fit_intercept=False, normalize=True), lambda: SGDClassifier(loss="log", random_state=0),
    lambda: SGDClassifier(average=True, random_state=0), lambda: SGDClassifier(fit_intercept=False, loss="squared_hinge", random_state=0),
    lambda: Perceptron(random_state=0, penalty="l1"), lambda: PassiveAggressiveClassifier(random_state=0, fit_intercept=False),
    lambda: LinearSVC(random_state=0), lambda: LinearSVC(fit_intercept=False, random_state=0, loss="hinge"),
    lambda: LinearSVC(multi_class="crammer_singer", random_state=0), lambda: RidgeClassifier(class_weight="balanced", solver="lsqr"),
]


def fitted(npts):
    def scenario(ch, R):
        i = ch.choose("estimator", range(len(FIT)))
        lab = ch.choose("labels", ["gap", "str"])
        k = ch.choose("k", [2, 3])
        y = list(range(k)) + [ch.choose("y%d" % j, range(k)) for j in range(npts - k)]
        e = FIT[i]()
        quiet_fit(e, PTS[:npts], np.array([LABELS[lab][v] for v in y]))
        p = convert(R, e, "C05:fit")
        mode = "lr" if isinstance(e, LogisticRegression) else "sgd-log" if getattr(e, "loss", "") == "log" else "other"
        if p is not None:
            judge(R, e, p, rows(2)[::2], "C05:fit", strict=False, mode=mode, est=i, y=y)

    return scenario


def big(widths):
    """many features, many classes, coefficients and values of every magnitude (sums are exact: small integers times a power of two)"""

    def scenario(ch, R):
        mode = ch.choose("estimator", list(MODES))
        k = ch.choose("k", [2, 3, 5, 11, 12])
        nf = ch.choose("features", widths)
        ce, xe = ch.choose("coefficient exponent", [-500, -60, -3, 0, 60, 300]), ch.choose("value exponent", [-500, 0, 60, 300])
        if nf > 3000 and (k > 3 or (ce, xe) != (0, 0)) or nf not in widths[1:3] and (ce, xe) not in ((0, 0), (-60, 60), (-500, 300)):
            R.validated()
            return
        rows_ = 1 if k == 2 else k
        coef = [[((i * 5 + j * 3 + 1) % 7 - 3) * 2.0 ** ce for j in range(nf)] for i in range(rows_)]
        b = [((i * 2) % 5 - 1) * 2.0 ** (ce + xe) for i in range(rows_)]
        e = crafted(mode, k, coef, b, list(range(-2, 3 * k - 2, 3)))
        p = convert(R, e, "C05:big")
        if p is not None:
            X = [[0.0] * nf] + [[((j * s + s) % 5 - 2) * 2.0 ** xe for j in range(nf)] for s in (1, 2, 3, 6)] + [[2.0 ** xe * (j == q) for j in range(nf)] for q in {0, nf - 1}]
            judge(R, e, p, X, "C05:big", strict=False, mode=mode, k=k, features=nf, exponents=(ce, xe))

    return scenario


def scenarios(tier):
    t = tier == "thorough"
    sc = [
        ("binary2", binary(2, [-1.0, -0.5, 0.0, 1.0, 2.0])),
        ("multi3", multi(3, 2, [-1.0, 0.0, 0.5, 2.0] if t else [-1.0, 0.0, 0.5], [[0.0, 0.0, 0.0], [-0.5, 0.5, 0.0]])),
        ("multi4", multi(4, 1, [-1.0, 0.0, 0.5], [[0.0] * 4, [0.5, 0.0, -0.5, 0.5]])),
        ("big", big([1, 10, 101, 300, 1030, 5000] + ([70000] if t else []))),
        ("fitted", fitted(6 if t else 5)),
    ]
    if t:
        sc.append(("binary3", binary(3, [-1.0, 0.0, 0.5, 1.0])))
    return sc
