"""C24: malformed requests are refused, answerable ones are not."""

import copy
import itertools

import numpy as np
from pure_sklearn import base, utils
from pure_sklearn.metrics import pairwise
from pure_sklearn.preprocessing import normalize_pure
from pure_sklearn.utils import sparse_list

from .. import sweep
from ..cmp import Raised, attempt, dense
from ..dom import SPARSE_ENCODINGS
from ..zoo import zoo

BOUNDS = {
    "quick": "every model kind (66 fitted models) x every method x every malformed request: empty batch, 10 kinds of non-list, every width 0..n+3 other than n in "
             "every position of a batch of 1-3 rows, flat lists, sparse data of every other width, sparse rows naming a column the model does not have in every position, sparse rows in a plain list, sparse batches without rows, sparse data for dense-only models, non-text documents; every "
             "answerable batch of 1-3 probe rows; pairwise and matrix helpers: every pair of shapes <=3x3; the workloads of C01-C14, C16 and C17 (every sequence of choices with at most one off the first option): every answered batch of the sweep spoilt: empty, tuple, None, dictionary, flat, single rows and whole batches of other widths, sparse data of other widths or with entries outside the columns",
    "thorough": "batches of 4 rows; workloads with at most two choices off the first option",
}
ASSUMPTIONS = ["text vectorizers and DictVectorizer accept any iterable of documents, only strings and non-iterables are malformed",
               "a union refuses what one of its parts refuses; an empty union accepts everything"]

NONLIST = {
    "tuple": lambda X: tuple(X), "none": lambda X: None, "number": lambda X: 5, "string": lambda X: "abc", "dict": lambda X: {0: X[0]},
    "set": lambda X: {1, 2}, "generator": lambda X: (x for x in X), "array": lambda X: np.array(X, dtype=object), "object": lambda X: object(),
    "bytes": lambda X: b"ab",
}


def must_raise(R, key, fn, what, **det):
    R.trans()
    R.state(key, what, det)
    got = attempt(fn)
    R.check(isinstance(got, Raised), key, "%s is answered: %r" % (what, got if not isinstance(got, Raised) else None), **det)
    return got


def must_answer(R, key, fn, what, n=None, **det):
    R.trans()
    R.state(key, what, det)
    got = attempt(fn)
    if R.check(not isinstance(got, Raised), key, "%s is refused: %r" % (what, got), **det) and n is not None:
        R.check(hasattr(got, "__len__") and len(got) == n, key + ":rows", "%s: %d rows answered by %r" % (what, n, got), **det)


def matrix_models(nrows):
    Z = [m for m in zoo() if m.kind in ("matrix", "cat", "missing")]

    def scenario(ch, R):
        m = ch.choose("model", Z)
        meth = ch.choose("method", m.methods)
        p = m.make()
        f = getattr(p, meth)
        k = "C24:%s" % type(p).__name__
        w = m.width
        free = FREE_WIDTH.get(type(p).__name__)
        if type(p).__name__ == "TfidfTransformerPure" and not m.native.use_idf:
            free = "width"  # nothing was learned
        must_raise(R, k + ":empty", lambda: f([]), "%s %s: an empty batch" % (m.name, meth))
        for name, mk in NONLIST.items():
            must_raise(R, k + ":nonlist", lambda: f(mk(m.arg())), "%s %s: %s instead of a list" % (m.name, meth, name))
        if free != "rows":
            must_raise(R, k + ":flat", lambda: f(m.arg()[0]), "%s %s: a flat list" % (m.name, meth))
        rows = m.arg()
        for n in range(1, nrows + 1):
            for pos in range(n):
                for w2 in range(w + 4):
                    if w2 == w or free == "rows" or free and n == 1:
                        continue
                    for base_row in rows[:2]:
                        X = [list(rows[i % len(rows)]) for i in range(n)]
                        X[pos] = (base_row * 3)[:w2]
                        must_raise(R, k + ":width", lambda: f(copy.deepcopy(X)), "%s %s: row %d of %d has %d columns instead of %d" % (m.name, meth, pos, n, w2, w), X=X)
            for w2 in range(w + 4):
                if w2 == w or free:
                    continue
                X = [(rows[i % len(rows)] * 3)[:w2] for i in range(n)]
                must_raise(R, k + ":width", lambda: f(copy.deepcopy(X)), "%s %s: %d rows of %d columns instead of %d" % (m.name, meth, n, w2, w), X=X)
        if m.kind == "matrix":
            for n in range(1, nrows + 1):
                D = [[v if v == v else 1.0 for v in rows[i % len(rows)]] for i in range(n)]
                for en, enc in SPARSE_ENCODINGS:
                    if not m.sparse and "mixed" not in m.name:
                        must_raise(R, k + ":sparse", lambda: f(enc(D)), "%s %s: sparse data (%s) for a dense-only model" % (m.name, meth, en), X=D)
                    elif m.sparse:
                        must_answer(R, k + ":sparse-refused", lambda: f(enc(D)), "%s %s: sparse data (%s)" % (m.name, meth, en), n, X=D)
                if m.sparse and not free:
                    for w2 in list(range(1, w)) + [w + 1, w + 2]:
                        must_raise(R, k + ":sparse-width", lambda: f(sparse_list([{0: 1.0}] * n, size=w2, dtype=float)),
                                   "%s %s: sparse data with %d columns instead of %d" % (m.name, meth, w2, w))
        if m.kind == "matrix":
            strange_columns(R, m, meth, f, k, rows, w, nrows, free)
        dict_rows(R, m, meth, f, k, rows, nrows)
        for n in range(1, nrows + 1):
            for c in itertools.product(range(len(rows)), repeat=n):
                must_answer(R, k + ":refused", lambda: f([list(rows[i]) for i in c]), "%s %s: a valid batch" % (m.name, meth), n, rows=c)

    return scenario


def strange_columns(R, m, meth, f, k, rows, w, nrows, free):
    """sparse rows that name a column the model does not have; sparse batches without rows"""
    if not m.sparse or free == "rows":
        return
    none = sparse_list([{0: 1.0}], size=w, dtype=float)
    none.clear()
    must_raise(R, k + ":empty", lambda: f(none), "%s %s: a sparse batch without rows" % (m.name, meth))
    good = [{j: v for j, v in enumerate(r) if v == v and v != 0} for r in rows]
    for n in range(1, nrows + 1):
        for pos in range(n):
            for size in (w, None):
                for c in (-1, -w, -w - 1, w, w + 1, 10 ** 6):
                    if c >= 0 and size is None and free:
                        continue
                    for with_others in (False, True):
                        X = [dict(good[i % len(good)]) for i in range(n)]
                        X[pos] = dict(X[pos]) if with_others else {}
                        X[pos][c] = 1.0
                        must_raise(R, k + ":column", lambda: f(sparse_list([dict(x) for x in X], size=size, dtype=float)),
                                   "%s %s: row %d of %d of a sparse batch (size %r) has an entry in column %d of %d" % (m.name, meth, pos, n, size, c, w), X=X)


def dict_rows(R, m, meth, f, k, rows, nrows):
    """rows of sparse data in a plain list, as slicing a sparse_list gives them: refused, or answered as what they stand for"""
    if m.kind == "matrix":
        rows = [[v if v == v else 1.0 for v in r] for r in rows]
    for n in range(1, nrows + 1):
        D = [list(rows[i % len(rows)]) for i in range(n)]
        for first in range(len(rows)):
            D[0] = list(rows[first])
            for full in (False, True):
                for only in [None] + list(range(n)):
                    X = [{j: v for j, v in enumerate(r) if full or v != 0} if only in (None, i) else list(r) for i, r in enumerate(D)]
                    R.trans()
                    R.state(k, "dict rows", m.name, meth, n, first, full, only)
                    got = attempt(f, copy.deepcopy(X))
                    if isinstance(got, Raised):
                        R.count("refused")
                        continue
                    want = attempt(f, copy.deepcopy(D))
                    R.check(not isinstance(want, Raised) and same(densify(got, w=len(D[0])), densify(want, w=len(D[0]))), k + ":dict-rows",
                            "%s %s: rows of sparse data in a plain list are answered %r; the rows they stand for %r" % (m.name, meth, got, want), X=X)


def densify(A, w):
    """a comparable form of an answer, whatever the encoding of its rows"""
    if hasattr(A, "todense") and getattr(A, "size", None) is not None:
        A = A.todense()
    return [[r.get(j, 0.0) for j in range(w)] if isinstance(r, dict) else r for r in A]


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


# models for which the number of columns (or even what a row is) was not learned; the native ones answer any width
FREE_WIDTH = {"NormalizerPure": "width", "DummyClassifierPure": "rows"}


def documents():
    Z = [m for m in zoo() if m.kind in ("text", "dict")]

    def scenario(ch, R):
        m = ch.choose("model", Z)
        meth = ch.choose("method", m.methods)
        p = m.make()
        f = getattr(p, meth)
        k = "C24:%s" % type(p).__name__
        must_raise(R, k + ":empty", lambda: f([]), "%s %s: an empty batch" % (m.name, meth))
        bad = ["abc", "", None, 5, 1.5] if m.kind == "text" else ["abc", None, 5]
        for b in bad:
            must_raise(R, k + ":nonlist", lambda: f(b), "%s %s: %r instead of documents" % (m.name, meth, b))
        for b in ([5], [None], [float("nan")], ["ok", None], [["nested"]], [object()]):
            must_raise(R, k + ":document", lambda: f(copy.copy(b)), "%s %s: documents %r" % (m.name, meth, b))
        rows = m.arg()
        for n in (1, 2, 3):
            for c in itertools.product(range(len(rows)), repeat=n):
                must_answer(R, k + ":refused", lambda: f(copy.deepcopy([rows[i] for i in c])), "%s %s: valid documents" % (m.name, meth), n, rows=c)

    return scenario


def fasttext():
    Z = [m for m in zoo() if m.family == "fasttext"]

    def scenario(ch, R):
        m = ch.choose("model", Z)
        p = m.make()
        sup = "predict" in m.methods
        for bad in (None, 5, ["a\n"] if sup else 5, b"a", "a\nb", "\n", 1.5, {"a": 1}):
            must_raise(R, "C24:FastText:line", lambda: p.get_sentence_vector(bad), "%s: sentence vector of %r" % (m.name, bad))
            must_raise(R, "C24:FastText:line", lambda: p.predict(bad), "%s: prediction for %r" % (m.name, bad))
        for bad in (["a"], ["a", "b"], "a", "", [""]) if not sup else ([5], ["a", None], [["a"]]):
            must_raise(R, "C24:FastText:predict", lambda: p.predict(bad), "%s: prediction for %r" % (m.name, bad))
        for t in m.X:
            must_answer(R, "C24:FastText:refused", lambda: p.get_sentence_vector(t), "%s: sentence vector of %r" % (m.name, t))
            if sup:
                for k in (1, 2, 3, 10, -1):
                    must_answer(R, "C24:FastText:refused", lambda: p.predict(t, k=k), "%s: prediction for %r" % (m.name, t))
                    must_answer(R, "C24:FastText:refused", lambda: p.predict([t, t], k=k), "%s: prediction for %r" % (m.name, t))
                for k in (0, -2):
                    must_raise(R, "C24:FastText:k", lambda: p.predict(t, k=k), "%s: k=%d" % (m.name, k))

    return scenario


SH = [(n, k) for n in (1, 2, 3) for k in (1, 2, 3)]


def mat(n, k, c=1):
    return [[float((i * k + j) % 3 + c) for j in range(k)] for i in range(n)]


def pairs():
    fns = [(n, getattr(pairwise, n)) for n in ("cosine_similarity_pure", "cosine_distances_pure", "linear_kernel_pure")]

    def scenario(ch, R):
        name, f = ch.choose("function", fns)
        a = ch.choose("X", SH)
        b = ch.choose("Y", SH)
        X, Y = mat(*a), mat(*b, 2)
        k = "C24:" + name
        SX, SY = SPARSE_ENCODINGS[0][1](X), SPARSE_ENCODINGS[0][1](Y)
        if a[1] != b[1]:
            must_raise(R, k, lambda: f(X, Y), "%s of %r and %r" % (name, a, b))
            must_raise(R, k, lambda: f(SX, Y), "%s of sparse %r and %r" % (name, a, b))
        else:
            must_answer(R, k + ":refused", lambda: f(X, Y), "%s of %r and %r" % (name, a, b), a[0])
            must_answer(R, k + ":refused", lambda: f(SX, Y), "%s of sparse %r and %r" % (name, a, b), a[0])
            must_answer(R, k + ":refused", lambda: f(X), "%s of %r" % (name, a), a[0])
        must_raise(R, k + ":sparseY", lambda: f(X, SY), "%s with a sparse second argument" % name)
        must_raise(R, k + ":sparseY", lambda: f(SX, SY), "%s with a sparse second argument" % name)
        must_raise(R, k + ":sparseY", lambda: f(SX), "%s with a sparse only argument" % name)
        for bad in ([], [1.0, 2.0], [[1.0] * a[1], [1.0] * (a[1] + 1)], [[1.0] * (a[1] + 1), [1.0] * a[1]], None, 5):
            must_raise(R, k + ":bad", lambda: f(bad, X), "%s of %r" % (name, bad))
            if bad is not None:
                must_raise(R, k + ":bad", lambda: f(X, bad), "%s with %r" % (name, bad))
            if bad:
                must_raise(R, k + ":bad", lambda: f(bad), "%s of %r" % (name, bad))

    return scenario


def helpers():
    add = lambda x, y: x + y

    def scenario(ch, R):
        a = ch.choose("A", SH)
        b = ch.choose("B", SH)
        A, B = mat(*a), mat(*b, 2)
        S, T = SPARSE_ENCODINGS[0][1](A), SPARSE_ENCODINGS[0][1](B)
        k = "C24:helper:"
        if a[1] != b[1]:
            must_raise(R, k + "dot", lambda: base.dot(A[0], B), "dot of widths %d and %d" % (a[1], b[1]))
            must_raise(R, k + "dot_2d", lambda: base.dot_2d(A, B), "dot_2d of widths %d and %d" % (a[1], b[1]))
            must_raise(R, k + "dot_2d", lambda: base.dot_2d(S, B), "dot_2d of sparse width %d and %d" % (a[1], b[1]))
        else:
            must_answer(R, k + "dot:refused", lambda: base.dot_2d(A, B), "dot_2d", a[0])
            must_answer(R, k + "dot:refused", lambda: base.dot_2d(S, B), "dot_2d sparse", a[0])
        must_raise(R, k + "dot_2d:sparse", lambda: base.dot_2d(A, T), "dot_2d with a sparse second matrix")
        if a != b:
            for fn, x, y in ((base.matmult_same_dim, A, B), (base.matmult_same_dim, S, T), (lambda p, q: base.operate_2d(p, q, add), A, B)):
                must_raise(R, k + "same_dim", lambda: fn(x, y), "element-wise operation on shapes %r and %r" % (a, b))
        else:
            must_answer(R, k + "refused", lambda: base.matmult_same_dim(A, B), "matmult_same_dim", a[0])
            must_answer(R, k + "refused", lambda: base.matmult_same_dim(S, T), "matmult_same_dim", a[0])
            must_answer(R, k + "refused", lambda: base.operate_2d(A, B, add), "operate_2d", a[0])
        must_raise(R, k + "mixed", lambda: base.matmult_same_dim(A, T), "element-wise product of dense and sparse")
        must_raise(R, k + "mixed", lambda: base.operate_2d(S, T, add), "operate_2d on sparse")
        must_raise(R, k + "mixed", lambda: base.operate_2d(A, T, add), "operate_2d on mixed")
        must_raise(R, k + "sparse", lambda: base.transpose(S), "transpose of sparse")
        must_raise(R, k + "sparse", lambda: base.ravel(S), "ravel of sparse")
        must_raise(R, k + "sparse", lambda: base.apply_2d(S, abs), "apply_2d of sparse")
        must_raise(R, k + "sparse", lambda: base.apply_2d_sparse(A, abs), "apply_2d_sparse of dense")
        must_raise(R, k + "sparse", lambda: base.apply_axis_2d(S, sum, axis=0), "apply_axis_2d on columns of sparse")
        for i in (a[1], a[1] + 1, -a[1] - 1):
            for M, n in ((A, "dense"), (S, "sparse")):
                must_raise(R, k + "column", lambda: base.slice_column(M, i), "column %d of a %s matrix of %d" % (i, n, a[1]))
                must_raise(R, k + "column", lambda: base.slice_column(M, [0, i]), "columns [0, %d] of a %s matrix of %d" % (i, n, a[1]))
        for ax in (2, -1, None):
            must_raise(R, k + "axis", lambda: base.apply_axis_2d(A, sum, axis=ax), "axis %r" % ax)
            must_raise(R, k + "axis", lambda: normalize_pure(A, axis=ax), "normalize axis %r" % ax)
        must_raise(R, k + "axis", lambda: normalize_pure(S, axis=0), "normalize columns of sparse")
        for norm in ("l3", None, 2):
            must_raise(R, k + "norm", lambda: normalize_pure(A, norm=norm), "norm %r" % norm)
        for norm in ("l1", "l2", "max"):
            for pos in range(a[0]):
                for c in (-1, a[1], a[1] + 5):
                    X = [dict(x) for x in S]
                    X[pos][c] = 1.0
                    must_raise(R, k + "column", lambda: normalize_pure(sparse_list(X, size=a[1], dtype=float), norm=norm), "normalize of an entry in column %d of %d" % (c, a[1]))
                    for g in (pairwise.linear_kernel_pure, pairwise.cosine_similarity_pure, pairwise.cosine_distances_pure):
                        must_raise(R, k + "column", lambda: g(sparse_list(X, size=a[1], dtype=float), A), "%s of an entry in column %d of %d" % (g.__name__, c, a[1]))
            X = [{j: v for j, v in enumerate(r)} for r in A]
            must_raise(R, k + "dict rows", lambda: normalize_pure(X, norm=norm), "normalize of a plain list of sparse rows")
        must_raise(R, k + "empty", lambda: normalize_pure([]), "normalize of nothing")
        must_raise(R, k + "empty", lambda: sparse_list([]), "sparse_list of nothing")
        must_raise(R, k + "empty", lambda: utils.check_array([]), "check_array of nothing")

    return scenario


def own(tier):
    return [("matrix models", matrix_models(4 if tier == "thorough" else 3)), ("documents", documents()), ("fasttext", fasttext()), ("pairwise", pairs()),
            ("helpers", helpers())]


def scenarios(tier):
    d = 2 if tier == "thorough" else 1
    return own(tier) + [("workloads", sweep.sweep(sweep.Refusals, d))]
