"""Shared pieces of the text checks."""

import collections
import itertools

import numpy as np
import scipy.sparse as sp

from pure_sklearn.utils import issparse

from .cmp import Raised, num_close

FRAGS = ["a", "ab", "AB", "b\u00e9", "E\u0301x", " ", "\u00a0", "  ", "\t\n ", "-", "_1", "\u00df", "\u4e2d", "\u0130q", "\x1c", "\u0e01\u0e31"]


# documents that look like something else, and characters with rules of their own
TRAPS = [
    "nan", "None", "True", "1", "1.0", "1e5", "-1", "0x1f", "", " ", "\n", "The the THE", " lead", "trail ", "one\ntwo\nthree", "one\r\ntwo", "tab\tbed\vx\fy", "don't can`t", "a_b __c__ _", "x1 1x 12",
    "<b>bold</b> tag", "&amp; &lt;", "A.B.C. e.g.", "http://x.y/z?q=1#f", "me@host.org", "C++ C# .NET", "\ufb01ne \ufb02at", "\u0130I \u0131i", "\u00c9t\u00e9 E\u0301te\u0301", "na\u00efve \u00c5ngstr\u00f6m",
    "\u65e5\u672c\u8a9e \u30c6\u30ad\u30b9\u30c8", "\ud55c\uad6d \u1112\u1161\u11ab", "\ufdfa", "\U0001d49c\U0001d7d9 x", "\U0001f600\U0001f468\u200d\U0001f469", "a\u200bb\u200cc", "a\u00adb", "line\u2028sep\u2029par", "nel\x85x",
    "a\x00b", "\x1c\x1d\x1e\x1f", "\u00a0nb\u00a0sp", "\u3000wide\u3000", "\u1680\u2003x", "\u0661\u0662 \u00b2\u00bd", "\u2460 \u2167", "\u03a3\u03b1\u03c2 \u03a3", "\u1e9e \u00df ss", "\u0587", "\u01c5 \u01c6", "(a) [b] {c}", "\\d \\n", "%s {} $x", "the", "The.", "AB ab aB",
]


def docs(frags, n):
    """every string made of at most n fragments (each distinct string once)"""
    out = {}
    for k in range(n + 1):
        for t in itertools.product(frags, repeat=k):
            out["".join(t)] = 1
    return list(out)


def rows_of_csr(M):
    M = sp.csr_matrix(M).copy()
    M.sum_duplicates()
    out = []
    for i in range(M.shape[0]):
        a, b = M.indptr[i], M.indptr[i + 1]
        out.append({int(k): float(v) for k, v in zip(M.indices[a:b], M.data[a:b]) if v != 0})
    return out, M.shape[1]


def compare_rows(R, key, ref, got, docs_, rtol=1e-7, what="", **det):
    """compare a native sparse matrix with a sparse_list entry by entry"""
    R.validated()
    if isinstance(ref, Raised):
        R.count("reference_refused")
        R.check(isinstance(got, Raised), key + ":not-refused", "%s: the native transformer refuses (%r), the converted one answers" % (what, ref),
                input=docs_, got=got, **det)
        return False
    if isinstance(got, Raised):
        R.fail(key + ":raised", "%s: raised %r where the reference answers" % (what, got), input=docs_, **det)
        return False
    want, width = rows_of_csr(ref)
    if not issparse(got):
        R.fail(key + ":container", "%s: result is %s, a sparse matrix is expected" % (what, type(got)), input=docs_, **det)
        return False
    if got.size != width or len(got) != len(want):
        R.fail(key + ":shape", "%s: shape (%s, %s) expected (%s, %s)" % (what, len(got), got.size, len(want), width), input=docs_, **det)
        return False
    for i, (w, g) in enumerate(zip(want, got)):
        if any((not isinstance(k, int)) or k < 0 or k >= width for k in g):
            R.fail(key + ":columns", "%s: column out of range in row %d: %r" % (what, i, g), doc=docs_[i], **det)
            return False
        g = {k: v for k, v in g.items() if v != 0}
        if w.keys() != g.keys() or any(not num_close(v, g[k], rtol) for k, v in w.items()):
            R.fail(key, "%s: row %d (%r) differs: reference %r, got %r" % (what, i, docs_[i], w, g), doc=docs_[i], **det)
            return False
    R.validated(len(want))
    R.outcome(tuple(tuple(sorted(w.items())) for w in want[:50]))
    return True


class _Text(str):
    """a string of another class"""


class _Bytes(bytes):
    """bytes of another class"""


class _Sequence:
    """iterable by index only"""

    def __init__(self, docs):
        self.docs = docs

    def __getitem__(self, i):
        return self.docs[i]


HOLDERS = {
    "list": list, "tuple": tuple, "generator": lambda D: (d for d in D), "iterator": iter, "map": lambda D: map(lambda d: d, D), "deque": collections.deque, "keys": lambda D: dict.fromkeys(D).keys(),
    "dictionary": dict.fromkeys, "values": lambda D: dict(enumerate(D)).values(), "array": lambda D: np.array(list(D) + [None], dtype=object)[:-1], "sequence": _Sequence,
}
DOCUMENTS = {
    "str": lambda d, i: d, "subclass": lambda d, i: _Text(d), "numpy": lambda d, i: np.str_(d), "bytes": lambda d, i: d.encode("utf-8"), "bytes subclass": lambda d, i: _Bytes(d.encode("utf-8")),
    "numpy bytes": lambda d, i: np.bytes_(d.encode("utf-8")), "alternating": lambda d, i: d.encode("utf-8") if i % 2 else d,
}


def collected(key, ests):
    """the same documents in collections of every kind, as objects of every kind"""

    def scenario(ch, R):
        from .cmp import attempt
        from .dom import convert

        kw = ch.choose("estimator", range(len(ests)))
        holder, kind = ch.choose("collection", list(HOLDERS)), ch.choose("documents", list(DOCUMENTS))
        est = ests[kw]()
        p = convert(R, est, key)
        if p is None:
            return
        some = list(dict.fromkeys(d for d in TRAPS if "\x00" not in d))
        for D in (some, some[:1], some[-3:], some[:2]):
            D = [DOCUMENTS[kind](d, i) for i, d in enumerate(D)]
            R.state(key, kw, holder, kind, len(D))
            ref = attempt(lambda: est.transform(HOLDERS[holder](D)))
            got = attempt(lambda: p.transform(HOLDERS[holder](D)))
            R.trans()
            compare_rows(R, key, ref, got, D, what="%s of %s documents" % (holder, kind), params=est.get_params())

    return scenario
