"""C02: forests and bagging."""

import functools

import numpy as np
from sklearn.base import clone
from sklearn.dummy import DummyClassifier
from sklearn.ensemble import BaggingClassifier, ExtraTreesClassifier, RandomForestClassifier
from sklearn.linear_model import LogisticRegression, RidgeClassifier, SGDClassifier
from sklearn.svm import LinearSVC
from sklearn.naive_bayes import GaussianNB, MultinomialNB
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import MinMaxScaler
from sklearn.tree import DecisionTreeClassifier

from ..dom import labels_for, LABELS, convert, quiet_fit
from ..trees import T_F32, axis_values, make_tree, wrap_clf
from .c01 import check_all

M = ["predict_proba", "predict", "predict_log_proba"]
BOUNDS = {
    "quick": "forests: all sequences of 1-3 members over 6 member trees x 1-4 classes x 4 label alphabets; bagging: all "
             "ordered pairs of 7 feature lists x members; fitted: all labellings of 6 rows x member kinds x sampling options",
    "thorough": "forests up to 4 members; bagging triples; fitted with 5 seeds",
}
ASSUMPTIONS = ["finite inputs", "members are supported probabilistic classifiers"]

GRID = [[a, b] for a in (-1.0, 0.0, T_F32, 0.3, 0.5, 0.5000000001, 2) for b in (-1.0, 0.0, 0.25, 1.0)]
FAR = [[a, b] for a in (-1e6, -40.0, 0.0, 40.0, 1e6) for b in (-1e6, -30.0, 0.0, 30.0, 1e6)]


def member(i, k, nf=2):
    """six member trees over 2 features and k classes (dyadic leaf contents)"""
    e = lambda *v: (list(v) + [0.0] * k)[:k] if any((list(v) + [0.0] * k)[:k]) else [1.0] * k
    specs = [
        ([1, -1, -1], [2, -1, -1], [0, -2, -2], [0.5, -2, -2], [[1.0] * k, e(1.0), e(0.0, 1.0)]),
        ([1, -1, -1], [2, -1, -1], [1, -2, -2], [0.0, -2, -2], [[1.0] * k, e(1.0, 1.0), e(0.0, 0.0, 4.0)]),
        ([-1], [-1], [-2], [-2.0], [[1.0] * k]),
        ([1, -1, 3, -1, -1], [2, -1, 4, -1, -1], [0, -2, 1, -2, -2], [T_F32, -2, 0.25, -2, -2],
         [[1.0] * k, e(3.0, 1.0), [1.0] * k, e(1.0, 3.0), e(0.0, 1.0, 1.0)]),
        ([-1], [-1], [-2], [-2.0], [e(0.0, 0.0, 0.0, 8.0)]),
        ([1, -1, -1], [2, -1, -1], [0, -2, -2], [0.0, -2, -2], [[1.0] * k, e(0.0, 2.0), e(2.0)]),
    ]
    l, r, f, t, v = specs[i]
    return wrap_clf(make_tree(l, r, f, t, v, nf, k), nf, np.arange(k, dtype=float))


def forest_native(kind, members, k, classes):
    cls = RandomForestClassifier if kind == "rf" else ExtraTreesClassifier
    est = cls(n_estimators=1, bootstrap=False, max_depth=1, random_state=0).fit(np.eye(max(k, 2))[:k, :2] if k > 1 else [[0.0, 1.0]], np.arange(k))
    est.estimators_ = members
    est.classes_ = np.array(classes)
    est.n_classes_ = k
    est.n_features_ = 2
    return est


def forests(maxlen):
    def scenario(ch, R):
        kind = ch.choose("ensemble", ["rf", "et"])
        k = ch.choose("classes", [1, 2, 3, 4])
        n = ch.choose("members", list(range(1, maxlen + 1)))
        ids = [ch.choose("member%d" % i, range(6)) for i in range(n)]
        lab = ["range", "gap", "str", "float"][(sum(ids) + n) % 4]
        est = forest_native(kind, [member(i, k) for i in ids], k, labels_for(lab, k))
        p = convert(R, est, "C02:forest")
        if p is not None:
            check_all(R, est, p, GRID, "C02:forest", M, sparse=True, ids=ids, k=k, labels=lab)

    return scenario


NEEDS2 = ("lr", "ridge", "svc", "sgd", "sgdlog")
FEATS = [[0, 1], [1, 0], [0], [1], [0, 0], [1, 1, 0], [0, 1, 0, 1]]
XB = np.array([[0.0, 1.0], [0.25, -1.0], [1.0, 0.5], [1.5, 0.0], [-1.0, 2.0], [0.5, 0.25]])


@functools.lru_cache(None)
def fit_member(kind, feats, classes):
    """a member fitted on a feature subset, having seen only `classes`"""
    base = {
        "tree": DecisionTreeClassifier(max_depth=2, random_state=0),
        "nb": GaussianNB(var_smoothing=0.1),
        "lr": LogisticRegression(),
        "dummy": DummyClassifier(strategy="prior"),
        "pipe": make_pipeline(MinMaxScaler(), DecisionTreeClassifier(max_depth=1, random_state=0)),
        "rf": RandomForestClassifier(n_estimators=2, max_depth=2, random_state=0),
        "ridge": RidgeClassifier(),
        "svc": LinearSVC(random_state=0),
        "sgd": SGDClassifier(random_state=0),
        "sgdlog": SGDClassifier(loss="log", random_state=0),
        "mnb": make_pipeline(MinMaxScaler(), MultinomialNB()),
    }[kind]
    y = np.array([classes[i % len(classes)] for i in range(6)])
    return quiet_fit(base, XB[:, list(feats)], y)


def bagging_native(members, feats, k, classes):
    est = BaggingClassifier(DecisionTreeClassifier(max_depth=1), n_estimators=1, random_state=0)
    est.fit(np.arange(2 * k).reshape(k, 2), np.arange(k))
    est.base_estimator = est.base_estimator_ = clone(members[0])
    est.estimators_ = members
    est.n_estimators = len(members)
    est.estimators_features_ = [np.array(f) for f in feats]
    est.classes_ = np.array(classes)
    est.n_classes_ = k
    est.n_features_ = 2
    return est


def class_subsets(k):
    """which classes a member saw"""
    return {2: [(0, 1), (0,), (1,)], 3: [(0, 1, 2), (0, 2), (1,), (1, 2)]}[k]


def bagging(n, kinds):
    def scenario(ch, R):
        k = ch.choose("classes", [2, 3])
        lab = {2: "str", 3: "gap"}[k]
        members, feats, desc = [], [], []
        for i in range(n):
            kind = ch.choose("kind%d" % i, kinds)
            f = ch.choose("features%d" % i, FEATS)
            sub = ch.choose("seen%d" % i, class_subsets(k) if kind not in NEEDS2 else [c for c in class_subsets(k) if len(c) > 1])
            members.append(fit_member(kind, tuple(f), sub))
            feats.append(f)
            desc.append((kind, f, sub))
        est = bagging_native(members, feats, k, labels_for(lab, k))
        p = convert(R, est, "C02:bag")
        if p is not None:
            ref_ok = all(len(d[2]) == k for d in desc)
            ms = M if ref_ok else M
            check_all(R, est, p, GRID + FAR, "C02:bag" + ("" if ref_ok else ":partial"), ms, sparse=all(d[0] not in ("nb", "pipe", "mnb") for d in desc), members=desc)

    return scenario


def fitted(nseeds):
    def scenario(ch, R):
        fam = ch.choose("ensemble", ["rf", "et", "bag-tree", "bag-nb", "bag-lr", "bag-dummy", "bag-ridge", "bag-svc"])
        boot = ch.flag("bootstrap")
        mf = ch.choose("max_features", [1.0, 0.5])
        bf = ch.flag("bootstrap_features") if fam.startswith("bag") else False
        seed = ch.choose("seed", range(nseeds))
        lab = ch.choose("labels", ["gap", "str"])
        y = [0, 1] + [ch.choose("y%d" % i, [0, 1, 2]) for i in range(4)]
        yl = np.array([LABELS[lab][v] for v in y])
        if fam in ("rf", "et"):
            cls = RandomForestClassifier if fam == "rf" else ExtraTreesClassifier
            est = cls(n_estimators=3, bootstrap=boot, max_features=mf, random_state=seed)
        else:
            base = {"tree": DecisionTreeClassifier(random_state=0), "nb": GaussianNB(var_smoothing=0.1), "lr": LogisticRegression(),
                    "dummy": DummyClassifier(strategy="prior"), "ridge": RidgeClassifier(),
                    "svc": LinearSVC(random_state=0)}[fam[4:]]
            est = BaggingClassifier(base, n_estimators=3, bootstrap=boot, max_features=mf,
                                    bootstrap_features=bf, max_samples=0.7, random_state=seed)
        try:
            est = quiet_fit(est, XB, yl)
        except Exception:  # the native library cannot fit this draw
            R.count("native_fit_refused")
            R.validated()
            return
        p = convert(R, est, "C02:fit:" + fam)
        if p is not None:
            check_all(R, est, p, GRID, "C02:fit:" + fam, M, sparse=fam != "bag-nb", y=y, seed=seed, boot=boot, mf=mf, bf=bf)

    return scenario


def many(sizes):
    """many members, many classes, many columns"""

    def scenario(ch, R):
        fam = ch.choose("ensemble", ["rf", "et", "bag", "bag-wide", "bag-subset"])
        n = ch.choose("members", sizes)
        k = ch.choose("classes", [2, 3, 5, 12])
        first = ch.choose("first", range(6))
        ids = [(first + i * (1 + i // 6)) % 6 for i in range(n)]
        labs = list(range(-3, 3 * k - 3, 3))
        if fam in ("rf", "et"):
            est = forest_native(fam, [member(i, k) for i in ids], k, labs)
            X = GRID
        elif fam == "bag":
            est = bagging_native([member(i, k) for i in ids], [FEATS[i % 2] for i in range(n)], k, labs)
            X = GRID
        elif fam == "bag-subset":
            # members which saw some classes only
            subs = [(0, 1), (1,), (k - 1,), (0, k - 1), tuple(range(k))]
            ms = [fit_member(["tree", "dummy", "nb"][i % 3], (0, 1), subs[(i + first) % 5]) for i in range(n)]
            est = bagging_native(ms, [FEATS[i % 2] for i in range(n)], k, labs)
            X = GRID
        else:
            nf = 40
            est = bagging_native([member(i, k) for i in ids], [[(i * 7 + first) % nf, (i * 11 + 3) % nf] for i in range(n)], k, labs)
            est.n_features_ = nf
            X = [[(a if j % 2 else b) + 0.125 * (j % 5) for j in range(nf)] for a, b in GRID]
        p = convert(R, est, "C02:many")
        if p is not None:
            check_all(R, est, p, X, "C02:many:" + fam, M, sparse=fam != "bag-subset", n=n, k=k, first=first)

    return scenario


def scenarios(tier):
    t = tier == "thorough"
    kinds = ["tree", "nb", "lr", "dummy", "pipe", "rf"]
    sc = [
        ("forests", forests(4 if t else 3)),
        ("bagging1", bagging(1, kinds + ["mnb", "ridge", "svc", "sgd", "sgdlog"])),
        ("bagging2", bagging(2, kinds if t else ["tree", "nb"])),
        ("many", many([5, 10, 33, 64, 101, 257, 520] + ([1000, 2000] if t else []))),
        ("fitted", fitted(5 if t else 1)),
    ]
    return sc
