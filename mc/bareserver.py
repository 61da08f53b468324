"""A bare interpreter (-I -S) that keeps answering: it loads pickled models and answers requests.

The process imports the package from the standard library alone and never converts anything.
Frames: length (8 bytes) + pickle.  Request: [(model bytes, [(method, bytes of (args, kwargs))])];
answer: ([("ok", [outcome]) | ("error", text)], foreign modules).
"""
import hashlib
import sys


def outcome(f):
    try:
        r = f()
    except Exception as e:
        return ("raised", type(e).__name__)  # messages may list sets in any order
    s = repr(r)
    if type(r).__name__ == "sparse_list":
        s += repr((r.size, r.dtype))
    return (type(r).__name__, s if len(s) < 400 else s[:300] + "..." + hashlib.blake2b(s.encode("utf-8", "backslashreplace"), digest_size=12).hexdigest())


def serve(repo):
    import pickle
    import struct
    import warnings

    sys.path[:] = [p for p in sys.path if "site-packages" not in p and "dist-packages" not in p]
    sys.path.insert(0, repo)
    warnings.simplefilter("ignore")
    std = set(sys.stdlib_module_names) | {"__main__", "__mp_main__"}
    i, o = sys.stdin.buffer, sys.stdout.buffer
    sys.stdout = sys.stderr
    while True:
        h = i.read(8)
        if len(h) < 8:
            return
        out = []
        for model, calls in pickle.loads(i.read(struct.unpack("<q", h)[0])):
            try:
                obj = pickle.loads(model)
                res = []
                for method, arg in calls:
                    a, k = pickle.loads(arg)
                    res.append(outcome(lambda: getattr(obj, method)(*a, **k)))
                out.append(("ok", res))
            except BaseException as e:
                out.append(("error", "%s: %s" % (type(e).__name__, e)))
        foreign = sorted(m for m in sys.modules if m.split(".")[0] not in std and m.split(".")[0] not in ("pure_sklearn", "pure_fasttext"))
        b = pickle.dumps((out, foreign))
        o.write(struct.pack("<q", len(b)) + b)
        o.flush()


if __name__ == "__main__":
    serve(sys.argv[1])
