"""Runs in a bare interpreter (-I -S): loads pickled models and answers requests.

Reads a pickle of {"repo": path, "jobs": [(model bytes, [(method, argument bytes, kwargs)])]}
from stdin, writes a pickle of [("ok", [repr...]) | ("error", text)] and the list of foreign modules.
"""
import sys

if __name__ == "__main__":
    import pickle

    data = pickle.load(sys.stdin.buffer)
    sys.path[:] = [p for p in sys.path if "site-packages" not in p and "dist-packages" not in p]
    sys.path.insert(0, data["repo"])
    import warnings

    warnings.simplefilter("ignore")
    std = set(sys.stdlib_module_names) | {"__main__", "__mp_main__"}
    out = []
    for model, calls in data["jobs"]:
        try:
            obj = pickle.loads(model)
            res = []
            for method, arg in calls:
                try:
                    r = getattr(obj, method)(pickle.loads(arg))
                    t = type(r).__name__
                    res.append((t, repr(r), repr(sorted(vars(r).items(), key=lambda kv: kv[0])) if hasattr(r, "__dict__") else ""))
                except Exception as e:
                    res.append(("raised", "%s: %s" % (type(e).__name__, e), ""))
            out.append(("ok", res))
        except BaseException as e:
            out.append(("error", "%s: %s" % (type(e).__name__, e)))
    foreign = sorted(m for m in sys.modules if m.split(".")[0] not in std and m.split(".")[0] not in ("pure_sklearn", "pure_fasttext"))
    sys.stdout.buffer.write(pickle.dumps((out, foreign)))
