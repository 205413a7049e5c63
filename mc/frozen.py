"""Deep snapshots of caller-supplied objects: structure, values, types and identities."""
import numpy as np
from qutip import Qobj


def freeze(o, depth=0):
    if depth > 8:
        return ("deep", id(o))
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
        return (type(o).__name__, repr(o))
    if isinstance(o, Qobj):
        return ("Qobj", id(o), str(o.dims), o.shape, o.full().tobytes())
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("oarray", id(o), o.shape, tuple(freeze(x, depth + 1) for x in o.ravel()))
        return ("array", id(o), o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, np.generic):
        return ("scalar", str(o.dtype), o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, id(o), tuple(freeze(x, depth + 1) for x in o))
    if isinstance(o, dict):
        return ("dict", id(o), tuple((k, freeze(v, depth + 1)) for k, v in o.items()))
    return (type(o).__name__, id(o))


def diff(a, b, path=""):
    """where two snapshots differ"""
    if a == b:
        return None
    if a[0] != b[0]:
        return "%s: %s became %s" % (path, a[0], b[0])
    if a[0] in ("list", "tuple", "oarray"):
        x, y = a[-1], b[-1]
        if a[1] != b[1]:
            return "%s: replaced" % path
        if len(x) != len(y):
            return "%s: length %d became %d" % (path, len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            d = diff(p, q, "%s[%d]" % (path, i))
            if d:
                return d
        return "%s: shape" % path
    if a[0] == "dict":
        x, y = dict(a[2]), dict(b[2])
        if list(x) != list(y):
            return "%s: keys %s became %s" % (path, list(x), list(y))
        for k in x:
            d = diff(x[k], y[k], "%s[%r]" % (path, k))
            if d:
                return d
    if a[0] == "array" and a[2:4] == b[2:4] and a[1] == b[1]:
        return "%s: %s became %s" % (path, np.frombuffer(a[4], a[3]).tolist()[:12], np.frombuffer(b[4], b[3]).tolist()[:12])
    return "%s: %s became %s" % (path, a[1:3], b[1:3])
