"""C11: HashingVectorizer."""

import functools
import itertools

import numpy as np
from sklearn.feature_extraction.text import HashingVectorizer

from ..cmp import Raised, attempt
from ..dom import call, convert, native
from ..text import FRAGS, TRAPS, collected, compare_rows, docs

BOUNDS = {
    "quick": "tokens: every string of length <=4 over 6 characters of 1-4 UTF-8 bytes, every length 0-40 of four characters, tokens constructed to hash to "
             "0, 1, -1, 2^31-1, -2^31+1 and -2^31; documents: every multiset of <=4 tokens from 4; n_features 1,2,3,7,8,1024,2^20,2^31-1; sign x binary x norm x dtype; "
             "all text options on documents of <=2 fragments; documents in every kind of collection and object",
    "thorough": "tokens of length <=5, documents of <=5 tokens and <=3 fragments",
}
ASSUMPTIONS = ["a token hashing to exactly -2^31 is compared only where n_features divides 2^31: otherwise scikit-learn itself produces a negative column number"]
NF = [1, 2, 3, 7, 8, 1024, 2 ** 20, 2 ** 31 - 1]
M = 0xFFFFFFFF


def _rotl(x, r):
    return ((x << r) | (x >> (32 - r))) & M


@functools.lru_cache(None)
def preimage(target):
    """an ASCII word of 8 letters whose murmur3 hash is the given 32-bit value"""
    h = target
    h ^= h >> 16
    h = (h * pow(0xC2B2AE35, -1, 1 << 32)) & M
    y = h
    for _ in range(5):
        y = h ^ (y >> 13)
    h = (y * pow(0x85EBCA6B, -1, 1 << 32)) & M
    h ^= h >> 16
    h ^= 8
    h = ((h - 0xE6546B64) * pow(5, -1, 1 << 32)) & M
    h = _rotl(h, 19)
    for p in itertools.product(b"abcdefghijklmnopqrstuvwxyz", repeat=4):
        k = int.from_bytes(bytes(p), "little")
        s = (_rotl((k * 0xCC9E2D51) & M, 15) * 0x1B873593) & M
        s = (_rotl(s, 13) * 5 + 0xE6546B64) & M
        k = _rotl(((h ^ s) * pow(0x1B873593, -1, 1 << 32)) & M, 17)
        b = ((k * pow(0xCC9E2D51, -1, 1 << 32)) & M).to_bytes(4, "little")
        if all(97 <= c <= 122 for c in b):
            return (bytes(p) + b).decode()


TARGETS = [0, 1, M, 0x7FFFFFFF, 0x80000001, 0x80000000]


LONG = [b + d for b in (512, 1024, 2048, 4096, 8192, 65536) for d in (-1, 0, 1)]


def mk(**kw):
    return HashingVectorizer(token_pattern=r"\S+", lowercase=False, **kw)


def tokens(n):
    al = ["a", "Z", "\u00e9", "\u4e2d", "\U0001f600", "\x7f"]

    def scenario(ch, R):
        first = ch.choose("first", [""] + al)
        nf = ch.choose("n_features", NF)
        sign = ch.flag("alternate_sign")
        D = [first + "".join(t) for k in range(n) for t in itertools.product(al, repeat=k)]
        if not first:
            D = [c * k for c in al[:4] for k in list(range(301)) + LONG] + [al[k % 4] + "a" * k for k in range(130)]
        est = mk(n_features=nf, alternate_sign=sign, norm=None)
        p = convert(R, est, "C11")
        if p is None:
            return
        for d in D:
            R.state(nf, sign, d)
        compare_rows(R, "C11:tokens", native(est, "transform", D), call(R, p, "transform", list(D)), D, what="tokens", n_features=nf, sign=sign)

    return scenario


def multisets(n):
    def scenario(ch, R):
        nf = ch.choose("n_features", [1, 2, 3, 7, 8, 2 ** 20])
        sign, binary = ch.flag("alternate_sign"), ch.flag("binary")
        norm = ch.choose("norm", [None, "l1", "l2"])
        dt = ch.choose("dtype", [np.float64, np.float32])
        toks = ["aa", "bb", "cc", "dd", preimage(0), preimage(M), preimage(0x80000001)]
        if nf & (nf - 1) == 0:
            toks.append(preimage(0x80000000))
        est = mk(n_features=nf, alternate_sign=sign, norm=norm, binary=binary, dtype=dt)
        p = convert(R, est, "C11")
        if p is None:
            return
        D = [" ".join(t) for k in range(n + 1) for t in itertools.combinations_with_replacement(toks, k)]
        D += [" ".join(t) for t in itertools.product(toks[:4], repeat=3)]
        for d in D:
            R.state(nf, sign, binary, norm, dt, d)
        compare_rows(R, "C11:multisets", native(est, "transform", D), call(R, p, "transform", list(D)), D, rtol=1e-7 if dt is np.float64 else 2e-6,
                     what="repeated and colliding tokens", n_features=nf, sign=sign, binary=binary, norm=norm)

    return scenario


def extreme():
    def scenario(ch, R):
        t = ch.choose("hash", TARGETS)
        nf = ch.choose("n_features", NF + [2 ** 30, 5])
        sign = ch.flag("alternate_sign")
        if t == 0x80000000 and nf & (nf - 1):
            R.count("reference_ill_formed")
            R.validated()
            return
        est = mk(n_features=nf, alternate_sign=sign, norm=None)
        p = convert(R, est, "C11")
        if p is not None:
            R.state(t, nf, sign)
            D = [preimage(t)]
            compare_rows(R, "C11:extreme", native(est, "transform", D), call(R, p, "transform", D), D, what="extreme hash", hash=hex(t), n_features=nf)

    return scenario


def options(n):
    D = docs(FRAGS, n) + TRAPS

    def scenario(ch, R):
        an = ch.choose("analyzer", ["word", "char", "char_wb"])
        ng = ch.choose("ngram_range", [(1, 1), (1, 2), (2, 3)])
        lower = ch.flag("lowercase")
        acc = ch.choose("strip_accents", [None, "ascii", "unicode"])
        stop = ch.choose("stop_words", [None, ["ab", "a"]]) if an == "word" else None
        pat = ch.choose("token_pattern", [r"(?u)\b\w\w+\b", r"\S+", r"(\w)\w*"]) if an == "word" else r"\S+"
        est = HashingVectorizer(analyzer=an, ngram_range=ng, lowercase=lower, strip_accents=acc, stop_words=stop, token_pattern=pat, n_features=64)
        p = convert(R, est, "C11")
        if p is None:
            return
        for d in D:
            R.state(an, ng, lower, acc, stop, pat, d)
        compare_rows(R, "C11:options", native(est, "transform", D), call(R, p, "transform", list(D)), D, what="options", params=est.get_params())
        B = [d.encode("utf-8") for d in D[:200]]
        compare_rows(R, "C11:bytes", native(est, "transform", B), call(R, p, "transform", list(B)), B, what="bytes", params=est.get_params())

    return scenario


COLLECTED = [lambda: HashingVectorizer(n_features=64), lambda: HashingVectorizer(n_features=1000, analyzer="char_wb", ngram_range=(1, 3), norm="l1", binary=True), lambda: HashingVectorizer(alternate_sign=False, norm=None, stop_words=["the"])]


def scenarios(tier):
    t = tier == "thorough"
    return [("tokens", tokens(5 if t else 4)), ("multisets", multisets(5 if t else 4)), ("extreme", extreme()), ("options", options(3 if t else 2)), ("collections", collected("C11:collections", COLLECTED))]
