"""C03: gradient boosting classifiers."""

import functools

import numpy as np
from sklearn.dummy import DummyClassifier
from sklearn.ensemble import GradientBoostingClassifier, RandomForestClassifier
from sklearn.linear_model import LogisticRegression
from sklearn.naive_bayes import GaussianNB
from sklearn.tree import DecisionTreeClassifier

from ..cmp import Raised, compare, tie_tolerant_labels
from ..dom import LABELS, call, convert, enc_dense, labels_for, native as dom_native, quiet_fit
from ..trees import T_F32, make_tree, wrap_reg

BOUNDS = {
    "quick": "binary: all sequences of 1-3 stages over 7 trees x 2 losses x 5 initial estimators x 2-3 learning rates; "
             "3 classes: all assignments of 1 stage (7 trees) and 2 stages (3 trees); 4 classes: 1 stage; fitted models over all "
             "labellings of 5 points",
    "thorough": "binary 4 stages; 3 classes 2 stages over 5 trees; 4 classes 2 stages over 2 trees; fitted labellings of 6 points",
}
ASSUMPTIONS = ["labels are compared exactly when the raw scores are exact (zero initial score, dyadic trees), otherwise up to a "
               "relative tie of 1e-9 in the native raw scores",
               "initial estimators see the row in single precision natively; rows here are exactly representable"]

GRID = [[a, b] for a in (-1.0, 0.0, 0.5, 1.0, 3) for b in (-1.0, 0.0, 0.25, 2.0)]
# leaf values: exact dyadic numbers, including ones that push scores past exp()'s range
SPECS = [
    ([1, -1, -1], [2, -1, -1], [0, -2, -2], [0.25, -2, -2], [0.0, -0.5, 0.5]),
    ([1, -1, -1], [2, -1, -1], [0, -2, -2], [0.25, -2, -2], [0.0, 0.5, -0.5]),
    ([-1], [-1], [-2], [-2.0], [0.5]),
    ([1, -1, -1], [2, -1, -1], [1, -2, -2], [0.0, -2, -2], [0.0, -800.0, 800.0]),
    ([1, -1, 3, -1, -1], [2, -1, 4, -1, -1], [0, -2, 1, -2, -2], [0.0, -2, 0.25, -2, -2], [0.0, 2.0, 0.0, -1.5, 0.25]),
    ([-1], [-1], [-2], [-2.0], [0.0]),
    ([1, -1, -1], [2, -1, -1], [1, -2, -2], [1.0, -2, -2], [0.0, -36.0, 2000.0]),
]
TREES = None


@functools.lru_cache(None)
def tree(i):
    l, r, f, t, v = SPECS[i]
    return wrap_reg(make_tree(l, r, f, t, [[x] for x in v], 2, 1), 2)


XI = np.array([[0.0, 1.0], [0.5, -1.0], [1.0, 0.5], [1.5, 0.0], [-1.0, 2.0], [0.5, 0.25], [2.0, 1.0], [-1.0, -1.0]])


def points(k):
    """at least one point of every class (native code trusts the class counts of its parts)"""
    X = XI if k <= 8 else np.concatenate([XI, XI + 0.25])[:k]
    return X, np.array([i % k for i in range(len(X))])


@functools.lru_cache(None)
def init_est(kind, k):
    XI, y = points(k)
    if kind == "prior":
        return DummyClassifier(strategy="prior").fit(np.zeros((len(y) + 3, 2)), np.concatenate([y, [0, 0, 1]]))
    if kind == "zero":
        return "zero"
    if kind == "certain":  # probabilities 0 and 1: the clipped corner
        return DecisionTreeClassifier(random_state=0).fit(XI, y)
    if kind == "lr":
        return quiet_fit(LogisticRegression(), XI, y)
    if kind == "nb":
        return GaussianNB(var_smoothing=0.5).fit(XI, y)
    if kind == "rf":
        return RandomForestClassifier(n_estimators=3, max_depth=2, random_state=0).fit(XI, y)


@functools.lru_cache(None)
def base(k, loss):
    XI, y = points(k)
    return GradientBoostingClassifier(loss=loss, n_estimators=1, max_depth=1).fit(XI, y)


def gb_native(k, loss, ids, init, lr, classes):
    import copy

    est = copy.copy(base(k, loss))
    K = 1 if k == 2 else k
    arr = np.empty((len(ids), K), dtype=object)
    for i, row in enumerate(ids):
        for j, t in enumerate(row):
            arr[i, j] = tree(t)
    est.estimators_ = arr
    assert est.loss_.K == K and (init == "zero" or len(init_est(init, k).classes_) == k), (k, init)
    est.classes_ = np.array(classes)
    est.init_ = init_est(init, k)
    est.init = est.init_
    est.learning_rate = lr
    est.n_estimators = len(ids)
    return est


def ref_rows(est, m, Xn):
    """native answer row by row.  scikit-learn 0.23.2 mis-reads the initial scores of a batch when the initial
    estimator returns them column-major (GaussianNB does): its own single-row answers are the reference there"""
    out = [dom_native(est, m, Xn[i : i + 1]) for i in range(len(Xn))]
    bad = [o for o in out if isinstance(o, Raised)]
    return bad[0] if bad else np.concatenate(out)


def judge(R, est, p, key, strict, **det):
    Xn = np.array(GRID, dtype=float)
    native = ref_rows if det.get("init") == "nb" else dom_native
    dec = native(est, "decision_function", Xn).tolist()
    for m in ("predict_proba", "predict_log_proba"):
        R.state(key, m, det)
        compare(R, key + ":" + m, native(est, m, Xn), call(R, p, m, enc_dense(GRID)), GRID, what=m, **det)
    ref = native(est, "predict", Xn).tolist()
    got = call(R, p, "predict", enc_dense(GRID))
    R.state(key, "predict", det)
    if isinstance(got, Raised) or strict or len(got) != len(ref):
        compare(R, key + ":predict", np.array(ref), got, GRID, what="predict", scores=dec, **det)
    else:
        bad = tie_tolerant_labels(dec, ref, got, est.classes_.tolist())
        R.check(not bad, key + ":predict", "labels differ at rows %s" % bad, reference=ref, got=got, scores=dec, **det)
    R.outcome(dec)


INITS = ["prior", "zero", "certain", "lr", "nb"]


def binary(maxn):
    def scenario(ch, R):
        loss = ch.choose("loss", ["deviance", "exponential"])
        init = ch.choose("init", INITS + ["rf"])
        lr = ch.choose("learning_rate", [1.0, 0.5, 0.1])
        n = ch.choose("stages", range(1, maxn + 1))
        ids = [[ch.choose("tree%d" % i, range(len(SPECS)))] for i in range(n)]
        lab = ["range", "gap", "str", "upper"][(n + sum(i[0] for i in ids)) % 4]
        est = gb_native(2, loss, ids, init, lr, labels_for(lab, 2))
        p = convert(R, est, "C03:bin")
        if p is not None:
            judge(R, est, p, "C03:bin:" + loss, init == "zero" and lr != 0.1, ids=ids, init=init, lr=lr, loss=loss)

    return scenario


def multi(k, stages, menu, inits, lrs):
    def scenario(ch, R):
        init = ch.choose("init", inits)
        lr = ch.choose("learning_rate", lrs)
        ids = [[ch.choose("tree%d,%d" % (i, j), menu) for j in range(k)] for i in range(stages)]
        lab = ["range", "gap", "str", "float"][sum(map(sum, ids)) % 4]
        est = gb_native(k, "deviance", ids, init, lr, labels_for(lab, k))
        p = convert(R, est, "C03:multi")
        if p is not None:
            judge(R, est, p, "C03:multi", init == "zero" and lr != 0.1, ids=ids, init=init, lr=lr, k=k)

    return scenario


def fitted(npts):
    def scenario(ch, R):
        loss = ch.choose("loss", ["deviance", "exponential"])
        opts = ch.choose("options", [
            dict(max_depth=1), dict(max_depth=3, learning_rate=1.0), dict(subsample=0.7), dict(init="zero"),
            dict(max_leaf_nodes=3), dict(init=LogisticRegression(), learning_rate=0.5),
            dict(n_iter_no_change=1, validation_fraction=0.4),
        ])
        lab = ch.choose("labels", ["gap", "str"])
        k = 2 if loss == "exponential" else ch.choose("k", [2, 3])
        y = list(range(k)) + [ch.choose("y%d" % i, range(k)) for i in range(npts - k)]
        yl = np.array([LABELS[lab][v] for v in y])
        est = GradientBoostingClassifier(loss=loss, n_estimators=4, random_state=2, **opts)
        try:
            est = quiet_fit(est, XI[:npts], yl)
        except ValueError:
            R.count("native_fit_refused")
            return
        p = convert(R, est, "C03:fit")
        if p is not None:
            judge(R, est, p, "C03:fit:" + loss, False, y=y, opts=str(opts))

    return scenario


def many(stages):
    """many stages, many classes, learning rates of every magnitude"""

    def scenario(ch, R):
        k = ch.choose("k", [2, 3, 5, 12])
        loss = ch.choose("loss", ["deviance", "exponential"]) if k == 2 else "deviance"
        init = ch.choose("init", ["prior", "zero", "lr"])
        lr = ch.choose("learning_rate", [1.5, 3.0, 7.0, 100.0, 1024.0, 1e-3, 1e-9, 1e-300])
        n = ch.choose("stages", stages)
        first = ch.choose("first", range(3))
        K = 1 if k == 2 else k
        ids = [[(first + i * 5 + j * (i + 1)) % len(SPECS) for j in range(K)] for i in range(n)]
        est = gb_native(k, loss, ids, init, lr, list(range(-1, 2 * k - 1, 2)))
        p = convert(R, est, "C03:many")
        if p is not None:
            judge(R, est, p, "C03:many:" + loss, False, n=n, first=first, init=init, lr=lr, k=k)

    return scenario


def stages(counts):
    """very many stages"""

    def scenario(ch, R):
        k = ch.choose("k", [2, 3])
        loss = ch.choose("loss", ["deviance", "exponential"]) if k == 2 else "deviance"
        lr = ch.choose("learning_rate", [1.0, 0.125])
        n = ch.choose("stages", counts)
        K = 1 if k == 2 else k
        # one large constant pulls one way, every later stage a little the other way: each stage matters to the end
        ids = [[(4 if i % 3 else 1 - i % 2) if (i + j) % 5 else (6 if i == 1 else 5) for j in range(K)] for i in range(n)]
        last = ch.choose("last", [0, 1, 4])
        ids[-1] = [last if j == 0 else 5 for j in range(K)]
        est = gb_native(k, loss, ids, "zero", lr, list(range(k)))
        p = convert(R, est, "C03:stages")
        if p is not None:
            judge(R, est, p, "C03:stages:" + loss, False, n=n, lr=lr, k=k, last=last)

    return scenario


def scenarios(tier):
    t = tier == "thorough"
    sc = [
        ("binary", binary(4 if t else 3)),
        ("multi3x1", multi(3, 1, range(len(SPECS)), INITS + ["rf"], [1.0, 0.5, 0.1])),
        ("multi3x2", multi(3, 2, [0, 1, 3, 5] if t else [0, 1, 3], ["prior", "zero", "nb"], [1.0, 0.1])),
        ("multi4x1", multi(4, 1, range(len(SPECS)) if t else [0, 1, 3, 4], ["prior", "zero"], [1.0])),
        ("many", many([1, 2, 10, 41] + ([100, 400] if t else []))),
        ("stages", stages([99, 101, 128, 257, 513, 1030] + ([5000] if t else []))),
        ("fitted", fitted(7 if t else 6)),
    ]
    if t:
        sc.append(("multi4x2", multi(4, 2, [0, 3], ["prior", "zero"], [0.5])))
    return sc
