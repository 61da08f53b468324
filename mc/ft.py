"""Small fastText models written directly in fastText's binary format."""

import os
import shutil
import struct
import tempfile

import fasttext
import numpy as np


def write(path, words, labels, inp, out, model=3, loss=3, wordNgrams=1, maxn=0, minn=0, bucket=0):
    dim = len(inp[0])
    with open(path, "wb") as f:
        f.write(struct.pack("<ii", 793712314, 12))
        f.write(struct.pack("<12i d", dim, 5, 1, 1, 5, wordNgrams, loss, model, bucket, minn, maxn, 100, 1e-4))
        f.write(struct.pack("<3i q q", len(words) + len(labels), len(words), len(labels), 100, -1))
        for i, w in enumerate(list(words) + list(labels)):
            f.write(w.encode() + b"\0" + struct.pack("<q b", 10, 0 if i < len(words) else 1))
        for m in (inp, out):
            f.write(b"\0" + struct.pack("<2q", len(m), dim) + np.array(m, dtype="<f4").tobytes())


def load(*a, **k):
    """a native model with exactly these words, labels and matrices"""
    d = tempfile.mkdtemp(prefix="verif-ft-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        p = os.path.join(d, "m.bin")
        write(p, *a, **k)
        return fasttext.load_model(p)
    finally:
        shutil.rmtree(d)


def train(lines, supervised=True, **k):
    d = tempfile.mkdtemp(prefix="verif-ft-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        p = os.path.join(d, "t.txt")
        with open(p, "w", encoding="utf-8") as f:
            f.write("\n".join(lines) + "\n")
        k = dict(dict(dim=3, thread=1, verbose=0, minCount=1, epoch=3), **k)
        if supervised:
            return fasttext.train_supervised(p, **k)
        return fasttext.train_unsupervised(p, **k)
    finally:
        shutil.rmtree(d)


SEPS = [" ", "\t", "\r", "\x0b", "\x0c", "\0"]
NOT_SEPS = ["\u00a0", "\x1c", "\x85", "\u2003", "\u2028"]
