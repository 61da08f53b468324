"""C06: naive Bayes and dummy classifiers."""

import copy
import functools
import math

import numpy as np
from sklearn.dummy import DummyClassifier
from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB

from ..cmp import Raised, attempt, compare, dense
from ..dom import LABELS, call, convert, enc_dense, enc_sparse_dict, labels_for, native, quiet_fit

BOUNDS = {
    "quick": "GaussianNB: 1-3 classes, all means/variances/priors over 3/3/3 values (1 feature) and 2 features over 2 values; "
             "Multinomial/ComplementNB: all count tables over {0,1,5}; DummyClassifier: all priors over {0,1,2,5}^k normalised, k<=4; "
             "1-130 features with variances 1e-300..1e12; rows over an alphabet reaching 1e8 and 1e160; fitted models over all labellings of 5 points",
    "thorough": "3 features for the discrete models; fitted labellings of 6 points",
}
ASSUMPTIONS = ["rows for which the native model itself answers NaN are outside the domain",
               "one-class discrete models: scikit-learn 0.23.2 itself returns two probability columns for one class, only labels are compared",
               "counts are non-negative (the native models refuse others when fitting)"]
M = ["predict_log_proba", "predict_proba", "predict"]


def judge(R, e, p, X, key, clear=False, **det):
    Xn = np.array(X, dtype=float)
    ref = {m: native(e, m, Xn) for m in M}
    ok = [not any(math.isnan(v) for v in r) for r in dense(ref["predict_log_proba"])]
    rows = [x for x, o in zip(X, ok) if o]
    if not rows:
        R.count("reference_nan_models")
        R.validated()
        return
    if not all(ok):
        R.count("reference_nan_rows", len(X) - len(rows))
    ms = M
    if not isinstance(ref[M[0]], Raised) and ref[M[0]].shape[1] != len(e.classes_):
        R.count("reference_ill_formed")
        ms = ["predict"]
    for m in ms:
        r = ref[m][np.array(ok)] if not isinstance(ref[m], Raised) else ref[m]
        if m == "predict" and clear:  # many summands: a rounding error may decide a tie
            top = [sorted(v) for v in dense(e._joint_log_likelihood(np.array(rows)))]
            keep = [len(v) < 2 or not v[-1] - v[-2] <= 1e-9 * max(1.0, abs(v[-1])) for v in top]
            rows = [x for x, o in zip(rows, keep) if o]
            r = r[np.array(keep)]
            if not rows:
                continue
        R.state(key, m, det)
        compare(R, key + ":" + m, r, call(R, p, m, enc_dense(rows)), rows, what=m, **det)


AX = [-1e8, -40.0, -1.0, 0.0, 0.5, 2, 1e3, 1e160]


@functools.lru_cache(None)
def gbase(k, nf):
    X = np.arange(2 * k * nf, dtype=float).reshape(2 * k, nf)
    return GaussianNB().fit(X, np.arange(2 * k) % k)


PRIORS = {1: [[1.0]], 2: [[0.5, 0.5], [0.25, 0.75], [1.0, 0.0]], 3: [[0.25, 0.25, 0.5], [0.0, 0.5, 0.5], [1 / 3] * 3]}


def gaussian(k, nf, thetas, sigmas):
    def scenario(ch, R):
        prior = ch.choose("prior", PRIORS[k])
        th = [[ch.choose("theta%d,%d" % (i, j), thetas) for j in range(nf)] for i in range(k)]
        sg = [[ch.choose("sigma%d,%d" % (i, j), sigmas) for j in range(nf)] for i in range(k)]
        lab = ["gap", "str", "upper", "float"][int(sum(map(sum, th)) * 2 + len(str(sg))) % 4]
        e = copy.copy(gbase(k, nf))
        e.theta_, e.sigma_, e.class_prior_ = np.array(th), np.array(sg), np.array(prior)
        e.classes_ = np.array(labels_for(lab, k))
        p = convert(R, e, "C06:gauss")
        if p is not None:
            X = [[a] for a in AX] if nf == 1 else [[a, b] for a in AX for b in AX]
            judge(R, e, p, X, "C06:gauss", theta=th, sigma=sg, prior=prior, labels=lab)

    return scenario


CNT = [0, 1, 0.5, 7, 1e4]


def discrete(nf):
    def scenario(ch, R):
        cls = ch.choose("estimator", [MultinomialNB, ComplementNB])
        k = ch.choose("classes", [1, 2, 3])
        alpha = ch.choose("alpha", [1.0, 0.25, 0.0])
        opt = ch.choose("prior", ["fit", "uniform", "given"]) if cls is MultinomialNB else ch.choose("norm", [False, True])
        tab = [[ch.choose("count%d,%d" % (i, j), [0, 1, 5]) for j in range(nf)] for i in range(k)]
        lab = ["gap", "str", "upper", "float"][sum(map(sum, tab)) % 4]
        kw = {}
        if cls is MultinomialNB:
            kw["fit_prior"] = opt == "fit"
            if opt == "given":
                kw["class_prior"] = {1: [1.0], 2: [1.0, 0.0], 3: [0.25, 0.75, 0.0]}[k]
        else:
            kw["norm"] = opt
        X = np.array(tab + [tab[0]], dtype=float)
        labels = labels_for(lab, k)
        try:
            e = quiet_fit(cls(alpha=alpha, **kw), X, np.array(labels + labels[:1]))
        except Exception:
            R.count("native_fit_refused")
            R.validated()
            return
        p = convert(R, e, "C06:discrete")
        if p is not None:
            rows = [[a, b] for a in CNT for b in CNT]
            if nf == 3:
                rows = [r + [c] for r in rows for c in (0, 2)]
            judge(R, e, p, rows, "C06:" + cls.__name__, table=tab, alpha=alpha, opt=opt, labels=lab)

    return scenario


def dummy():
    def scenario(ch, R):
        k = ch.choose("classes", [1, 2, 3, 4])
        w = [ch.choose("weight%d" % i, [0.0, 1.0, 2.0, 5.0]) for i in range(k)]
        lab = ch.choose("labels", ["range", "gap", "str", "upper", "float", "offset"] + (["bool"] if k == 2 else []))
        if sum(w) == 0:
            R.validated()
            return
        y = np.array(labels_for(lab, k))
        e = quiet_fit(DummyClassifier(strategy="prior"), np.zeros((k, 2)), y, sample_weight=w)
        p = convert(R, e, "C06:dummy")
        if p is None:
            return
        for X in ([[0.0, 1.0]], [[1.0, 2.0], [3.0, 4.0], [0.0, 0.0]]):
            judge(R, e, p, X, "C06:dummy", weights=w, labels=lab)
            for m in M:
                compare(R, "C06:dummy:sparse", native(e, m, np.array(X)), call(R, p, m, enc_sparse_dict(X)), X, what=m + " sparse", weights=w)

    return scenario


PTS = np.array([[0.0, 1.0], [0.5, 2.0], [1.0, 0.5], [1.5, 0.0], [2.0, 2.0], [0.25, 3.0]])


def fitted(npts):
    def scenario(ch, R):
        i = ch.choose("estimator", range(6))
        lab = ch.choose("labels", ["gap", "str"])
        part = ch.flag("partial_fit")
        y = [ch.choose("y%d" % j, [0, 1, 2]) for j in range(npts)]
        e = [GaussianNB(), GaussianNB(priors=[0.5, 0.5, 0.0][: len(set(y))] if len(set(y)) != 1 else [1.0], var_smoothing=0.01),
             MultinomialNB(), MultinomialNB(alpha=0.1, fit_prior=False), ComplementNB(), ComplementNB(norm=True, alpha=0.1)][i]
        X, yl = PTS[:npts], np.array([LABELS[lab][v] for v in y])
        if part:
            e.partial_fit(X[:3], yl[:3], classes=np.unique(yl))
            e.partial_fit(X[3:], yl[3:])
        else:
            e.fit(X, yl)
        p = convert(R, e, "C06:fit")
        if p is not None:
            rows = [[a, b] for a in (0.0, 0.3, 1, 4.0, 50.0) for b in (0.0, 0.7, 2.0, 100.0)]
            judge(R, e, p, rows, "C06:fit:%s" % type(e).__name__, y=y, part=part, est=i)

    return scenario


def wide(sizes):
    """many features, whose variances are all small or all large"""

    def scenario(ch, R):
        nf = ch.choose("features", sizes)
        s0, s1 = ch.choose("variance 0", WIDE), ch.choose("variance 1", WIDE)
        e = copy.copy(gbase(2, 1))
        d = np.sqrt(max(s0, s1))
        e.theta_ = np.array([[0.0] * nf, [d / nf] * nf])
        e.sigma_ = np.array([[s0] * nf, [s1] * nf])
        e.class_prior_ = np.array([0.5, 0.5])
        e.classes_ = np.array(labels_for("str", 2))
        p = convert(R, e, "C06:wide")
        if p is not None:
            X = [[0.0] * nf, [d / nf] * nf, [d] * nf, [d * (i % 3 - 1) for i in range(nf)]]
            judge(R, e, p, X, "C06:wide", True, features=nf, sigma=(s0, s1))
        for cls in (MultinomialNB, ComplementNB):
            tab = np.array([[(i + 1) % 3 * s1 for i in range(nf)], [i % 2 * s0 for i in range(nf)]])
            e = attempt(quiet_fit, cls(alpha=1e-10 if s0 < s1 else 1.0), tab, np.array([4, 2]))
            if isinstance(e, Raised):
                continue
            p = convert(R, e, "C06:wide")
            if p is not None:
                judge(R, e, p, [[0.0] * nf, [1.0] * nf, [i % 2 * 1e3 for i in range(nf)]], "C06:wide:" + cls.__name__, True, features=nf, scale=(s0, s1))

    return scenario


WIDE = [1e-300, 1e-20, 1e-9, 1e-3, 1.0, 1e3, 1e12]


def scenarios(tier):
    t = tier == "thorough"
    return [
        ("gaussian1", gaussian(1, 1, [-1.0, 0.0, 2.0], [0.25, 1.0, 1e-9])),
        ("gaussian2", gaussian(2, 1, [-1.0, 0.0, 2.0], [0.25, 1.0, 1e-9])),
        ("gaussian3", gaussian(3, 1, [-1.0, 0.5, 2.0], [0.25, 1.0, 1e-9] if t else [0.25, 1.0])),
        ("gaussian2x2", gaussian(2, 2, [-1.0, 0.5], [0.25, 4.0])),
        ("discrete2", discrete(2)),
        ("wide", wide([1, 2, 33, 65, 130, 520] + ([1100, 3000] if t else []))),
        ("dummy", dummy()),
        ("fitted", fitted(6 if t else 5)),
    ] + ([("discrete3", discrete(3))] if t else [])
