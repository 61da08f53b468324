"""Shared small domains: label alphabets, datasets, input encodings."""

import functools
import itertools
import warnings

import numpy as np
import scipy.sparse as sp

from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import sparse_list

from .cmp import Raised, attempt, compare, dense

# label alphabets: (name, labels sorted as numpy sorts them)
LABELS = {
    "range": [0, 1, 2, 3],
    "gap": [-7, 3, 10, 42],
    "offset": [1, 2, 3, 4],
    "str": ["ant", "bee", "cat", "dog"],
    "upper": ["B", "a", "b", "c"],
    "float": [-1.5, 0.0, 2.5, 3.0],
}
BOOL = [False, True]


def labels_for(kind, k):
    if kind == "bool":
        return BOOL
    return LABELS[kind][:k]


def enc_dense(X):
    return [list(r) for r in X]


def enc_sparse_dict(X, size=None):
    """sparse_list built from dict rows without the zeros"""
    n = len(X[0]) if size is None else size
    return sparse_list([{i: v for i, v in enumerate(r) if v != 0} for r in X], size=n, dtype=float)


def enc_sparse_explicit(X):
    """sparse_list that stores every zero explicitly"""
    return sparse_list([{i: v for i, v in enumerate(r)} for r in X], size=len(X[0]), dtype=float)


def enc_sparse_reversed(X):
    """sparse_list whose rows list their columns in descending order"""
    return sparse_list(
        [{i: r[i] for i in reversed(range(len(r))) if r[i] != 0} for r in X],
        size=len(X[0]),
        dtype=float,
    )


SPARSE_ENCODINGS = [
    ("dropped zeros", enc_sparse_dict),
    ("explicit zeros", enc_sparse_explicit),
    ("descending keys", enc_sparse_reversed),
]


def convert(R, est, key, **detail):
    """convert; a refusal of a supported estimator is a violation"""
    R.trans()
    p = attempt(convert_estimator, est)
    if isinstance(p, Raised):
        R.fail(key + ":convert", "conversion of a supported fitted estimator raised %r" % p, estimator=repr(est), **detail)
        return None
    return p


def call(R, obj, method, X):
    R.trans()

    def f():
        return getattr(obj, method)(X)

    return attempt(f)


def native(obj, method, X):
    def f():
        return getattr(obj, method)(X)

    return attempt(f)


def quiet_fit(est, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return est.fit(*a, **k)
