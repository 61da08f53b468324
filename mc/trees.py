"""Enumeration of decision-tree structures, as native sklearn trees."""

import numpy as np
from sklearn.tree import (
    DecisionTreeClassifier,
    DecisionTreeRegressor,
    ExtraTreeClassifier,
    ExtraTreeRegressor,
)
from sklearn.tree._tree import Tree

# 0.3 (double) is below this threshold, but the nearest single-precision value
# of 0.3 is above it: separates "compare as double" from "compare as float32".
T_F32 = 0.30000000447034836


def shapes(leaves):
    """all binary tree shapes with the given number of leaves; leaf = None"""
    if leaves == 1:
        return [None]
    out = []
    for l in range(1, leaves):
        for a in shapes(l):
            for b in shapes(leaves - l):
                out.append((a, b))
    return out


def number(shape, order):
    """-> (children_left, children_right, internal ids, leaf ids) in the given
    node numbering: 'pre' (depth-first builder) or 'level' (best-first builder)"""
    nodes = []  # (shape, left idx, right idx)
    if order == "pre":

        def rec(s):
            i = len(nodes)
            nodes.append([s, -1, -1])
            if s is not None:
                nodes[i][1] = rec(s[0])
                nodes[i][2] = rec(s[1])
            return i

        rec(shape)
    else:
        nodes.append([shape, -1, -1])
        i = 0
        while i < len(nodes):
            s = nodes[i][0]
            if s is not None:
                for c in (0, 1):
                    nodes.append([s[c], -1, -1])
                    nodes[i][1 + c] = len(nodes) - 1
            i += 1
    left = [n[1] for n in nodes]
    right = [n[2] for n in nodes]
    internal = [i for i, n in enumerate(nodes) if n[0] is not None]
    leafs = [i for i, n in enumerate(nodes) if n[0] is None]
    return left, right, internal, leafs


def make_tree(left, right, feature, threshold, value, n_features, n_classes):
    n = len(left)
    t = Tree(n_features, np.array([n_classes], dtype=np.intp), 1)
    base = np.dtype(
        [
            ("left_child", "<i8"), ("right_child", "<i8"), ("feature", "<i8"),
            ("threshold", "<f8"), ("impurity", "<f8"), ("n_node_samples", "<i8"),
            ("weighted_n_node_samples", "<f8"),
        ]
    )
    nodes = np.zeros(n, dtype=base)
    nodes["left_child"] = left
    nodes["right_child"] = right
    nodes["feature"] = feature
    nodes["threshold"] = threshold
    nodes["n_node_samples"] = 1
    nodes["weighted_n_node_samples"] = 1.0
    depth = n
    vals = np.array(value, dtype=np.float64).reshape(n, 1, n_classes)
    t.__setstate__({"max_depth": depth, "node_count": n, "nodes": nodes, "values": vals})
    return t


_CLF = {"dt": DecisionTreeClassifier, "et": ExtraTreeClassifier}
_REG = {"dt": DecisionTreeRegressor, "et": ExtraTreeRegressor}


def wrap_clf(tree, n_features, classes, kind="dt"):
    classes = np.array(classes)
    k = len(classes)
    X = np.zeros((k, n_features))
    c = _CLF[kind]().fit(X, np.arange(k))
    c.tree_ = tree
    c.classes_ = classes
    c.n_classes_ = k
    c.n_features_ = n_features
    return c


def wrap_reg(tree, n_features, kind="dt"):
    c = _REG[kind]().fit(np.zeros((2, n_features)), [0.0, 1.0])
    c.tree_ = tree
    c.n_features_ = n_features
    return c


def choose_structure(ch, max_leaves, n_features, thresholds, orders=("pre", "level"), min_leaves=1):
    leaves = ch.choose("leaves", list(range(min_leaves, max_leaves + 1)))
    shape = ch.choose("shape", shapes(leaves))
    order = ch.choose("numbering", orders if leaves > 2 else orders[:1])
    left, right, internal, leafs = number(shape, order)
    feature = [-2] * len(left)
    threshold = [-2.0] * len(left)
    for i in internal:
        feature[i] = ch.choose("feature@%d" % i, list(range(n_features)))
        threshold[i] = ch.choose("threshold@%d" % i, thresholds)
    return left, right, feature, threshold, internal, leafs


def around(t):
    """values at, just beside (double and single precision), and far from t"""
    f = float(np.float32(t))
    return [
        t,
        float(np.nextafter(t, np.inf)),
        float(np.nextafter(t, -np.inf)),
        f,
        float(np.nextafter(np.float32(t), np.float32(np.inf))),
        float(np.nextafter(np.float32(t), np.float32(-np.inf))),
    ]


def axis_values(thresholds):
    v = []
    for t in thresholds:
        v += around(t)
    v += [-1e9, 1e9, 0.0, 0, 1, -1, 0.3]
    out = []
    for x in v:
        if not any(type(x) is type(y) and x == y for y in out):
            out.append(x)
    return out
