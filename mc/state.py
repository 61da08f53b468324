"""Canonical form of results, arguments and model state; in-place vandalism."""

import sys
import types


def canon(o, public=False, _d=0):
    """structural value: type names, values, attributes (recursively); exact floats"""
    t = type(o)
    if t in (int, float, str, bool, type(None), bytes, complex):
        return (t.__name__, repr(o))
    if isinstance(o, type):
        return ("type", o.__module__, o.__qualname__)
    if _d > 40:
        return ("deep",)
    if t in (list, tuple):
        return (t.__name__, tuple(canon(v, public, _d + 1) for v in o))
    if t is dict:
        return ("dict", tuple(sorted((repr(canon(k)), canon(v, public, _d + 1)) for k, v in o.items())))
    if t in (set, frozenset):
        return (t.__name__, tuple(sorted(repr(canon(v)) for v in o)))
    body = ()
    if isinstance(o, list):
        body = tuple(canon(v, public, _d + 1) for v in list.__iter__(o))
    elif isinstance(o, dict):
        body = tuple(sorted((repr(canon(k)), canon(v, public, _d + 1)) for k, v in o.items()))
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)):
        return ("function", getattr(o, "__qualname__", "?"))
    attrs = getattr(o, "__dict__", None)
    if attrs is not None:
        # addresses differ from run to run
        attrs = {k: ("address" if k.startswith("_") and k.endswith("_id") and type(v) is int else v) for k, v in attrs.items()}
        return (t.__module__ + "." + t.__qualname__, body,
                tuple((k, canon(v, public, _d + 1)) for k, v in sorted(attrs.items()) if not (public and k.startswith("_"))))
    r = repr(o)
    return (t.__module__ + "." + t.__qualname__, body, r if " at 0x" not in r else "?")


def pure_modules():
    return [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] in ("pure_sklearn", "pure_fasttext") and ".tests" not in n and m is not None]


def globals_state():
    """canonical form of everything mutable that the package's modules and classes hold"""
    out = []
    for m in pure_modules():
        for k, v in sorted(vars(m).items()):
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, type) and v.__module__ == m.__name__:
                for a, b in sorted(vars(v).items()):
                    if a in ("__dict__", "__weakref__", "__doc__", "__module__", "__firstlineno__", "__static_attributes__"):
                        continue
                    out.append((m.__name__, k, a, _member(b)))
            else:
                out.append((m.__name__, k, _member(v)))
    return tuple(out)


def _member(v):
    if isinstance(v, (types.FunctionType, classmethod, staticmethod)):
        f = getattr(v, "__func__", v)
        return ("function", canon(getattr(f, "__defaults__", None)), canon(getattr(f, "__kwdefaults__", None)), canon(getattr(f, "__dict__", None)))
    if hasattr(v, "cache_info"):
        return ("cache",)
    return canon(v)


def vandalise(o, _seen=None):
    """change a returned (or passed) value in place, all the way down"""
    _seen = set() if _seen is None else _seen
    if id(o) in _seen:
        return
    _seen.add(id(o))
    if isinstance(o, list):
        for v in o:
            vandalise(v, _seen)
        for i, v in enumerate(o):
            if not isinstance(v, (list, dict, tuple)):
                o[i] = 12345.5
        o.append(777)
        o.reverse()
        if hasattr(o, "size"):
            o.size = 1
            o.dtype = str
    elif isinstance(o, dict):
        for v in o.values():
            vandalise(v, _seen)
        for k, v in list(o.items()):
            if not isinstance(v, (list, dict, tuple)):
                o[k] = 12345.5
        o[999] = 777
    elif isinstance(o, tuple):
        for v in o:
            vandalise(v, _seen)
    elif isinstance(o, set):
        o.add(777)


_IMMUTABLE = (int, float, str, bytes, bool, type(None), complex)


class GlobalsWatch:
    """cheap fingerprint of module and class level state (identity of every member, value of the mutable ones)"""

    def __init__(self):
        self.owners = []
        self.mutable = []
        for m in pure_modules():
            self.owners.append(m)
            for k, v in vars(m).items():
                if k.startswith("__") or isinstance(v, types.ModuleType):
                    continue
                if isinstance(v, type):
                    if v.__module__ == m.__name__:
                        self.owners.append(v)
                        for b in vars(v).values():
                            self._member(b)
                else:
                    self._member(v)

    def _member(self, v):
        f = getattr(v, "__func__", v)
        if isinstance(f, types.FunctionType):
            for d in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()) + tuple(_cell(c) for c in f.__closure__ or ()):
                if not isinstance(d, _IMMUTABLE + (type, types.FunctionType)):
                    self.mutable.append(d)
        elif not isinstance(v, _IMMUTABLE + (type,)):
            self.mutable.append(v)

    def value(self):
        return (tuple(tuple(map(id, vars(o).values())) for o in self.owners), tuple(canon(v) for v in self.mutable))


def _cell(c):
    try:
        return c.cell_contents
    except ValueError:
        return None
