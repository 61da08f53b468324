"""Every part of a native or converted model that can be read or edited."""

import types

import numpy as np
import scipy.sparse as sp

ATOM = (int, float, str, bytes, bool, type(None), complex, np.generic)


def is_tree(o):
    return type(o).__module__.endswith("tree._tree")


def is_booster(o):
    return type(o).__name__ == "Booster"


def is_fasttext(o):
    return type(o).__module__.startswith("fasttext")


def value(o, _d=0, _seen=()):
    """structural value of a native model"""
    t = type(o)
    name = t.__module__ + "." + t.__qualname__
    if isinstance(o, ATOM):
        return (name, repr(o))
    if _d > 30 or id(o) in _seen:
        return (name, "...")
    seen = _seen + (id(o),)

    def rec(v):
        return value(v, _d + 1, seen)

    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return (name, "object", o.shape, o.flags.writeable, tuple(rec(v) for v in o.ravel().tolist()))
        return (name, str(o.dtype), o.shape, o.flags.writeable, o.tobytes())
    if sp.issparse(o):
        return (name, o.shape, o.format) + tuple(rec(getattr(o, k)) for k in ("data", "indices", "indptr", "row", "col") if hasattr(o, k))
    if isinstance(o, (list, tuple)):
        return (name, tuple(rec(v) for v in o))
    if isinstance(o, (set, frozenset)):
        return (name, tuple(sorted(repr(rec(v)) for v in o)))
    if isinstance(o, dict):
        return (name, tuple((repr(rec(k)), rec(v)) for k, v in o.items()))
    if is_tree(o):
        st = o.__getstate__()
        return (name, tuple((k, rec(v)) for k, v in sorted(st.items())))
    if isinstance(o, np.random.RandomState):
        return (name, rec(o.get_state()))
    if is_booster(o):
        def raw():
            try:
                return bytes(o.save_raw("json")), o.save_config()
            except Exception as e:  # parameters edited to something invalid
                return type(e).__name__

        return (name, raw(), rec(o.feature_names), rec(o.feature_types), rec(o.attributes()))
    if is_fasttext(o) and hasattr(o, "f"):
        a = o.f.getArgs()
        return (name, rec(o.get_words()), rec(o.get_labels()), rec(np.array(o.f.getInputMatrix())), rec(np.array(o.f.getOutputMatrix())), o.f.isQuant(),
                a.model.name, a.loss.name, a.maxn, a.wordNgrams, rec({k: v for k, v in vars(o).items() if k != "f"}))
    if isinstance(o, type) or isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        return (name, getattr(o, "__qualname__", "?"))
    if hasattr(o, "__dict__"):
        return (name, tuple((k, rec(v)) for k, v in sorted(vars(o).items())))
    return (name,)


def _edit_array(a):
    if not a.flags.writeable or a.size == 0:
        return
    if a.dtype == object:
        a[...] = "edited"
    elif a.dtype.kind in "US":
        a[...] = "e"
    elif a.dtype.kind == "b":
        a[...] = ~a
    elif a.dtype.kind in "iuf":
        flat = a.ravel()[::-1].copy()
        a[...] = (flat.reshape(a.shape) + 1).astype(a.dtype)
    else:
        a[...] = np.zeros(1, a.dtype)[0]


def _edit_list(o):
    for i, v in enumerate(o):
        if isinstance(v, ATOM):
            o[i] = 12345.5
    o.append(777)
    o.reverse()


def _edit_dict(o):
    for k, v in list(o.items()):
        if isinstance(v, ATOM):
            o[k] = 12345.5
    o[999] = 777


TREE_ARRAYS = ("children_left", "children_right", "feature", "threshold", "value", "impurity", "n_node_samples", "weighted_n_node_samples")


def edits(o, path="", _seen=None, _d=0):
    """[(path, thunk that edits that part in place)] for every mutable part reachable"""
    seen = set() if _seen is None else _seen
    if isinstance(o, ATOM) or id(o) in seen or _d > 25:
        return []
    seen.add(id(o))
    out = []

    def rec(v, p):
        out.extend(edits(v, p, seen, _d + 1))

    if isinstance(o, np.ndarray):
        out.append((path, lambda: _edit_array(o)))
        if o.dtype == object:
            for i, v in enumerate(o.ravel().tolist()):
                rec(v, "%s[%d]" % (path, i))
    elif sp.issparse(o):
        # only the values: scipy trusts the index arrays and corrupts memory
        rec(o.data, path + ".data")
    elif isinstance(o, list):
        out.append((path, lambda: _edit_list(o)))
        for i, v in enumerate(list.__iter__(o)):
            rec(v, "%s[%d]" % (path, i))
        if hasattr(o, "__dict__"):
            rec(vars(o), path + ".__dict__")
    elif isinstance(o, dict):
        out.append((path, lambda: _edit_dict(o)))
        for k, v in list(o.items()):
            rec(v, "%s[%r]" % (path, k))
    elif isinstance(o, tuple):
        for i, v in enumerate(o):
            rec(v, "%s[%d]" % (path, i))
    elif isinstance(o, set):
        out.append((path, lambda: o.add(777)))
    elif is_tree(o):
        for k in TREE_ARRAYS:
            a = getattr(o, k)
            out.append((path + "." + k, lambda a=a: _edit_array(a)))
    elif is_booster(o):
        out.append((path, lambda: (o.set_param({"base_score": 0.9}), o.set_attr(edited="1"))))
    elif is_fasttext(o) and hasattr(o, "f"):
        for k in ("getInputMatrix", "getOutputMatrix"):
            def ed(k=k):
                _edit_array(np.array(getattr(o.f, k)(), copy=False))
            out.append((path + "." + k, ed))
        for k, v in vars(o).items():
            if k != "f":
                rec(v, path + "." + k)
    elif isinstance(o, type) or isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType)):
        pass
    elif hasattr(o, "__dict__"):
        for k in list(vars(o)):
            rec(vars(o)[k], path + "." + k)
        for k in list(vars(o)):
            out.append((path + "." + k + "=", lambda k=k: vars(o).__setitem__(k, "edited")))
    return out


def inner(o, _seen=None, _d=0):
    """native estimators inside of a native model"""
    seen = set() if _seen is None else _seen
    if isinstance(o, ATOM) or id(o) in seen or _d > 8:
        return []
    seen.add(id(o))
    out = []
    if isinstance(o, np.ndarray):
        for v in o.ravel().tolist() if o.dtype == object else []:
            out += inner(v, seen, _d + 1)
    elif isinstance(o, (list, tuple)):
        for v in o:
            out += inner(v, seen, _d + 1)
    elif isinstance(o, dict):
        for v in o.values():
            out += inner(v, seen, _d + 1)
    elif type(o).__module__.split(".")[0] in ("sklearn", "xgboost") and hasattr(o, "__dict__"):
        if _d and hasattr(o, "get_params"):
            out.append(o)
        for v in vars(o).values():
            out += inner(v, seen, _d + 1)
    return out
