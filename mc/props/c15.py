"""C15: pairwise similarities match the native metrics."""

import copy
import itertools

import numpy as np
import scipy.sparse as sp
from pure_sklearn.metrics import pairwise
from sklearn.metrics import pairwise as native

from ..cmp import Raised, attempt, compare
from ..dom import SPARSE_ENCODINGS

BOUNDS = {
    "quick": "all pairs of matrices: up to 2x2 rows of width 1-2 over {0,1,-2,0.5}, width 3 over {0,1,-2} (1 row by 1-2 rows), 3 rows by 2 of width 1; magnitudes "
             "{0,1,1e200,-1e-200,5e-324,1e-160}; ints; forms: (X,Y), (X), (X,X), (X, equal copy), (X, rows of X), sparse X in 3 encodings; up to 5000 columns",
    "thorough": "2x2 rows of width 3, 3 rows by 2 of width 2",
}
ASSUMPTIONS = ["compared with rtol 1e-7, atol 1e-9 (summation order)", "sparse second arguments are refused (C24)"]

FNS = ["cosine_similarity", "cosine_distances", "linear_kernel"]


def mats(n, k, alpha):
    rows = list(itertools.product(alpha, repeat=k))
    return [[list(r) for r in c] for c in itertools.product(rows, repeat=n)]


def judge(R, name, form, X, Y, nX, nY, one=False):
    f, g = getattr(native, name), getattr(pairwise, name + "_pure")
    cX, cY = copy.deepcopy(list(X)), copy.deepcopy(Y)
    R.trans()
    R.state(name, form, X, Y)
    a = attempt(f, nX) if one else attempt(f, nX, nY)
    b = attempt(g, X) if one else attempt(g, X, Y)
    compare(R, "C15:%s:%s" % (name, form), a, b, what="%s, %s" % (name, form), X=X, Y=Y)
    R.check(list(X) == cX and Y == cY, "C15:%s:argument" % name, "an argument was changed: %r, %r" % (X, Y))


def grid(shapes):
    def scenario(ch, R):
        n, m, k, alpha = ch.choose("shapes", shapes)
        row = [ch.choose("x%d" % i, alpha) for i in range(k)]
        name = ch.choose("function", FNS)
        Ys = mats(m, k, alpha)
        for rest in mats(n - 1, k, alpha):
            X = [row] + rest
            nX = np.array(X)
            for Y in Ys:
                judge(R, name, "two arguments", X, Y, nX, np.array(Y))
            judge(R, name, "one argument", X, None, nX, None, True)
            judge(R, name, "same object", X, X, nX, nX)
            judge(R, name, "equal copy", X, copy.deepcopy(X), nX, nX.copy())
            if n > 1:
                judge(R, name, "shared rows", X, X[:1], nX, nX[:1])
                judge(R, name, "shared rows", X, X[::-1], nX, nX[::-1].copy())
            judge(R, name, "repeated row", [row] * n, [row] * m, np.array([row] * n), np.array([row] * m))

    return scenario


def sparse(shapes):
    def scenario(ch, R):
        n, m, k, alpha = ch.choose("shapes", shapes)
        en, enc = ch.choose("encoding", SPARSE_ENCODINGS)
        row = [ch.choose("x%d" % i, alpha) for i in range(k)]
        name = ch.choose("function", FNS)
        Ys = mats(m, k, alpha)
        for rest in mats(n - 1, k, alpha):
            X = [row] + rest
            nX = sp.csr_matrix(np.array(X, dtype=float))
            for Y in Ys:
                judge(R, name, "sparse (%s)" % en, enc(X), Y, nX, np.array(Y))

    return scenario


def big(widths, counts):
    """many rows, many columns, rows of different magnitude"""

    def scenario(ch, R):
        k = ch.choose("columns", widths)
        n, m = (ch.choose("rows", counts), ch.choose("rows of Y", counts)) if k <= 150 else ch.choose("shape", [(1, 2), (3, 1)])
        name = ch.choose("function", FNS)
        scale = ch.choose("scale", [1e-160, 1e-20, 1.0, 1e20, 1e150] if k <= 150 else [1.0])
        fill = ch.choose("fill", ["full", "few", "alternate rows"])
        keep = {"full": lambda i, j: True, "few": lambda i, j: (i * 3 + j) % 7 == 0, "alternate rows": lambda i, j: i % 2 == 0}[fill]
        X = [[((i * 5 + j * 3) % 9 - 4.0) * (scale if i % 3 else 1.0) if keep(i, j) else 0.0 for j in range(k)] for i in range(n)]
        Y = [[((i * 4 + j * 5) % 7 - 3.0) * (1.0 if i % 2 else 1 / scale) if keep(i, j) else 0.0 for j in range(k)] for i in range(m)]
        nX, nY = np.array(X), np.array(Y)
        judge(R, name, "big", X, Y, nX, nY)
        judge(R, name, "big, one argument", X, None, nX, None, True)
        judge(R, name, "big, same object", X, X, nX, nX)
        judge(R, name, "big, equal copy", X, copy.deepcopy(X), nX, nX.copy())
        judge(R, name, "big, shared rows", X, X[::-1], nX, nX[::-1].copy())
        for en, enc in SPARSE_ENCODINGS:
            judge(R, name, "big sparse (%s)" % en, enc(X), Y, sp.csr_matrix(nX), nY)

    return scenario


def scenarios(tier):
    A, B = [0.0, 1.0, -2.0, 0.5], [0.0, 1.0, -2.0]
    E = [0.0, 1.0, 1e200, -1e-200, 5e-324, 1e-160]
    I = [0, 1, -2]
    sh = [(1, 1, 1, A), (2, 2, 1, A), (3, 2, 1, B), (2, 3, 1, B), (1, 1, 2, A), (2, 1, 2, A), (1, 2, 2, A), (2, 2, 2, B), (1, 1, 3, A), (1, 2, 3, B), (2, 1, 3, B), (3, 1, 2, B),
          (1, 1, 2, E), (2, 1, 1, E), (2, 2, 1, I), (2, 1, 2, I)]
    ss = [(1, 1, 1, A), (2, 2, 1, A), (1, 2, 2, B), (2, 1, 2, A), (1, 1, 3, B), (1, 1, 2, E), (3, 1, 1, B)]
    if tier == "thorough":
        sh += [(2, 2, 2, A), (3, 2, 2, B), (2, 2, 3, [0.0, 1.0, -2.0][:2] + [-1.5]), (2, 1, 2, E)]
        ss += [(2, 2, 2, B), (2, 1, 3, B)]
    return [("big", big([1, 2, 33, 150, 300, 1030, 5000] + ([70000] if tier == "thorough" else []), [1, 2, 9, 33] if tier == "thorough" else [1, 2, 17])), ("dense", grid(sh)), ("sparse", sparse(ss))]
