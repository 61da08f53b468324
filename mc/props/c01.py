"""C01: tree routing and leaf decoding."""

import functools
import itertools

import numpy as np
import scipy.sparse as sp
from sklearn.tree import (
    DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeClassifier, ExtraTreeRegressor,
)

from ..cmp import attempt, compare
from ..dom import (LABELS, SPARSE_ENCODINGS, call, convert, enc_dense, labels_for, native, quiet_fit)
from ..trees import T_F32, axis_values, choose_structure, make_tree, wrap_clf, wrap_reg

THR = [-0.5, 0.0, T_F32]
BOUNDS = {
    "quick": "every tree shape with <=4 leaves, both node numberings, 2 features, 3 thresholds per split; "
             "every row of the threshold-neighbourhood grid; leaf alphabets of 5 vectors on <=3 leaves; "
             "6 label alphabets; fitted trees over every labelling of 4-5 points",
    "thorough": "as quick with <=5 leaves (2 features) and <=4 leaves (3 features)",
}
ASSUMPTIONS = [
    "finite numeric inputs representable in single precision (the native estimator refuses others)",
    "scikit-learn 0.23.2 as installed is the reference",
]


@functools.lru_cache(None)
def grid(thr, nf):
    vals = axis_values(thr)
    if nf == 1:
        return [[a] for a in vals]
    if nf == 2:
        return [[a, b] for a in vals for b in vals]
    v = [x for x in vals if x not in (-1e9, 1e9)][:8] + [-1e9, 1e9]
    return [[a, b, c] for a in v for b in v for c in v]


def check_all(R, est, pure, X, key, methods, sparse=True, **detail):
    Xn = np.array(X, dtype=float)
    ref = {m: native(est, m, Xn) for m in methods}
    for m in methods:
        R.state(key, m, detail)
        compare(R, key + ":" + m, ref[m], call(R, pure, m, enc_dense(X)), X, what=m, **detail)
    if sparse:
        for name, enc in SPARSE_ENCODINGS:
            m = methods[-1]
            compare(R, key + ":sparse:" + m, ref[m], call(R, pure, m, enc(X)), X,
                    what=m + " on sparse input, " + name, **detail)


def routing(max_leaves, nf, thr):
    def scenario(ch, R):
        left, right, feature, threshold, internal, leafs = choose_structure(ch, max_leaves, nf, thr)
        n = len(left)
        # leaf values identify the leaf: class i is the argmax of leaf i
        k = max(2, len(leafs))
        cval = [[1.0] * k for _ in range(n)]
        rval = [[-99.0] for _ in range(n)]
        for j, l in enumerate(leafs):
            cval[l] = [1.0 + (3.0 + j if c == j else 0.25 * c) for c in range(k)]
            rval[l] = [j * 1.25 - 1.0]
        X = grid(tuple(thr), nf)
        det = dict(tree=(left, right, feature, threshold))
        clf = wrap_clf(make_tree(left, right, feature, threshold, cval, nf, k), nf, list(range(k)))
        p = convert(R, clf, "C01:clf")
        if p is not None:
            check_all(R, clf, p, X, "C01:clf", ["predict", "predict_proba"], **det)
        reg = wrap_reg(make_tree(left, right, feature, threshold, rval, nf, 1), nf)
        p = convert(R, reg, "C01:reg")
        if p is not None:
            check_all(R, reg, p, X, "C01:reg", ["predict"], **det)

    return scenario


LEAVES = [
    lambda k: [1.0] + [0.0] * (k - 1),
    lambda k: [0.0] * (k - 1) + [2.0],
    lambda k: [1.0] * k,
    lambda k: [0.0] + [3.0] * (k - 1) if k > 1 else [3.0],
    lambda k: [0.5, 2.25, 0.0, 1.0][:k],
]


def decoding(max_leaves):
    def scenario(ch, R):
        kind = ch.choose("estimator", ["dt", "et"])
        k = ch.choose("classes", [1, 2, 3, 4])
        lab = ch.choose("labels", ["range", "gap", "str", "upper", "float"] + (["bool"] if k == 2 else []))
        left, right, feature, threshold, internal, leafs = choose_structure(
            ch, max_leaves, 1, [0.5], orders=("pre",)
        )
        val = [[1.0] * k for _ in left]
        for l in leafs:
            val[l] = LEAVES[ch.choose("leaf@%d" % l, range(len(LEAVES)))](k)
        clf = wrap_clf(make_tree(left, right, feature, threshold, val, 1, k), 1, labels_for(lab, k), kind)
        p = convert(R, clf, "C01:leaf")
        if p is not None:
            check_all(R, clf, p, [[0.0], [0.5], [1.0]], "C01:leaf",
                      ["predict", "predict_proba", "predict_log_proba"], sparse=False,
                      labels=lab, k=k, values=val, kind=kind)

    return scenario


PTS = [[0.0, 1.0], [0.2, 1.0], [0.4, 0.0], [0.4, 2.0], [1.0, 0.1]]


def fitted(npts):
    def scenario(ch, R):
        fam = ch.choose("family", ["DecisionTreeClassifier", "ExtraTreeClassifier",
                                   "DecisionTreeRegressor", "ExtraTreeRegressor"])
        crit = ch.choose("criterion", ["gini", "entropy"] if "Classifier" in fam else ["mse", "friedman_mse"])
        leafn = ch.choose("max_leaf_nodes", [None, 3])
        weight = ch.choose("sample_weight", [None, "uneven"])
        lab = ch.choose("labels", ["range", "str", "gap"]) if "Classifier" in fam else "range"
        X = PTS[:npts]
        y = [ch.choose("y%d" % i, [0, 1, 2]) for i in range(npts)]
        if "Classifier" in fam:
            y = [LABELS[lab][v] for v in y]
        w = None if weight is None else [1.0, 2.5, 0.5, 1.0, 0.25][:npts]
        est = globals()[fam](criterion=crit, max_leaf_nodes=leafn, random_state=3)
        est = quiet_fit(est, np.array(X), np.array(y), sample_weight=w)
        p = convert(R, est, "C01:fit")
        rows = [[a, b] for a in (0.0, 0.1, 0.2, 0.3, 0.4, 0.7, 1.0) for b in (0.0, 0.05, 0.1, 0.55, 1.0, 1.5, 3)]
        ms = ["predict"] + (["predict_proba", "predict_log_proba"] if "Classifier" in fam else [])
        if p is not None:
            check_all(R, est, p, rows, "C01:fit:" + fam, ms, y=y, crit=crit, leafn=leafn, w=w)

    return scenario


def big(depths, widths):
    """long chains, many features, many classes, extreme leaf weights"""

    def scenario(ch, R):
        what = ch.choose("what", ["chain", "features", "classes", "weights", "near"])
        if what == "chain":
            d, side = ch.choose("depth", depths), ch.choose("side", ["left", "right", "zigzag"])
            go = [{"left": 0, "right": 1, "zigzag": i % 2}[side] for i in range(d)]
            left, right, thr, lo, hi = [], [], [], 0.0, float(2 * d)
            for i in range(d):
                # the next split halves nothing: it cuts one unit off the open interval, so every threshold is exact
                nxt, leaf = 2 * i + 2, 2 * i + 1
                if go[i] == 0:
                    hi -= 1
                    left, right, thr = left + [nxt, -1], right + [leaf, -1], thr + [hi, -2.0]
                else:
                    lo += 1
                    left, right, thr = left + [leaf, -1], right + [nxt, -1], thr + [lo, -2.0]
            left, right, thr = left + [-1], right + [-1], thr + [-2.0]
            n, k, nf = len(left), 3, 1
            feature = [0 if c >= 0 else -2 for c in left]
            X = [[v] for v in sorted({0.0, 0.5, 1.0, 1.5, d - 0.5, float(d), d + 0.5, 2 * d - 1.0, 2 * d - 0.5, 2.0 * d} | {t for t in thr[:: max(2, d // 20 * 2)]})]
            cval = [[1.0 + i % 5, 1.0 + i % 3, 1.0 + i % 7] for i in range(n)]
        elif what == "features":
            nf, k, n = ch.choose("n features", widths), 2, 5
            f = sorted({0, 1, nf // 2, nf - 2, nf - 1} & set(range(nf)))
            f1, f2 = ch.choose("feature", f), ch.choose("feature2", f)
            left, right, feature, thr = [1, 2, -1, -1, -1], [4, 3, -1, -1, -1], [f1, f2, -2, -2, -2], [0.5, 0.25, -2.0, -2.0, -2.0]
            X = []
            for a in (0.0, 0.25, 0.5, 1.0):
                for b in (0.0, 0.25, 0.5, 1.0):
                    r = [0.375 if i % 2 else 0.0 for i in range(nf)]
                    r[f1] = a
                    r[f2] = b
                    X.append(r)
            cval = [[1.0, 1.0], [1.0, 1.0], [3.0, 1.0], [1.0, 3.0], [2.0, 5.0]]
        elif what == "classes":
            k, nf, n = ch.choose("classes", [5, 9, 10, 11, 12, 33, 101, 260, 1030]), 1, 3
            top = ch.choose("top", sorted({0, 1, 2, k // 2, k - 2, k - 1}))
            left, right, feature, thr = [1, -1, -1], [2, -1, -1], [0, -2, -2], [0.5, -2.0, -2.0]
            X = [[0.0], [1.0]]
            cval = [[1.0] * k, [3.0 if c == top else float(c % 3) for c in range(k)], [1.0 if c in (top, k - 1) else 0.0 for c in range(k)]]
        elif what == "near":
            # weights that differ by less and less: the larger one wins, the first one when they are equal
            k, nf, n = 3, 1, 3
            s, up = ch.choose("scale", SCALES), ch.choose("more", [2.0 ** -52, 2.0 ** -51, 1e-15, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-5, 1e-3])
            a, b = ch.choose("winner", list(itertools.permutations(range(3), 2)))
            left, right, feature, thr = [1, -1, -1], [2, -1, -1], [0, -2, -2], [0.5, -2.0, -2.0]
            X = [[0.0], [1.0]]
            row = [s / 2] * 3
            row[a], row[b] = s * (1 + up), s
            cval = [[1.0] * k, row, [s * (1 + up) if c == a else s for c in range(3)]]
        else:
            k, nf, n = 3, 1, 3
            s1, s2 = ch.choose("scale", SCALES), ch.choose("scale2", SCALES)
            left, right, feature, thr = [1, -1, -1], [2, -1, -1], [0, -2, -2], [0.5, -2.0, -2.0]
            X = [[0.0], [1.0]]
            cval = [[1.0] * k, [s1, 2 * s1, 0.0], [0.0, s2, s1]]
        det = dict(case=[str(x) for x in ch.labels])
        clf = wrap_clf(make_tree(left, right, feature, thr, cval, nf, k), nf, list(range(0, 2 * k, 2)))
        p = convert(R, clf, "C01:big")
        if p is not None:
            check_all(R, clf, p, X, "C01:big:" + what, ["predict", "predict_proba", "predict_log_proba"], **det)
        reg = wrap_reg(make_tree(left, right, feature, thr, [[v[1] * 0.75 - v[0]] for v in cval], nf, 1), nf)
        p = convert(R, reg, "C01:big:reg")
        if p is not None:
            check_all(R, reg, p, X, "C01:big:reg:" + what, ["predict"], **det)

    return scenario


SCALES = [1e-300, 1e-30, 1e-12, 1e-6, 0.1, 1.0, 7.0, 1e6, 1e12, 1e100]


def thresholds():
    """single splits at every magnitude: the rows just beside the threshold"""

    def scenario(ch, R):
        e = ch.choose("exponent", list(range(-45, 39, 3)))
        m = ch.choose("mantissa", [1.0, 1.1, 1.0000001, 9.99, -1.0, -1.1, -3.3333333])
        form = ch.choose("form", ["double", "single", "integer"])
        t = m * 10.0 ** e
        if form == "single":
            t = float(np.float32(t))
        if form == "integer":
            t = float(int(t)) + 0.5 if abs(t) < 1e15 else float(int(t))
        X = [[v] for v in axis_values([t]) if abs(v) < 3e38]
        clf = wrap_clf(make_tree([1, -1, -1], [2, -1, -1], [0, -2, -2], [t, -2.0, -2.0], [[1.0, 1.0], [2.0, 1.0], [1.0, 4.0]], 1, 2), 1, ["l", "r"])
        p = convert(R, clf, "C01:threshold")
        if p is not None:
            check_all(R, clf, p, X, "C01:threshold", ["predict", "predict_proba"], threshold=t)

    return scenario


def scenarios(tier):
    t = tier == "thorough"
    sc = [
        ("routing2", routing(5 if t else 4, 2, THR)),
        ("decoding", decoding(4 if t else 3)),
        ("fitted", fitted(5 if t else 4)),
        ("big", big([1, 2, 50, 400, 1500] + ([6000] if t else []), [2, 3, 12, 101, 300, 1030] + ([3000] if t else []))),
        ("thresholds", thresholds()),
        ("routing1", routing(5, 1, [-1.0, 0.0, T_F32, 16777217.0])),
    ]
    if t:
        sc.append(("routing3", routing(4, 3, [0.0, T_F32])))
    return sc
