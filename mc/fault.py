"""Fault injection into computations: an exception at the n-th call the package makes into scipy, qutip, numpy.linalg, numpy.random or a matrix product.

These are the places where the time goes, hence where an interrupt arrives, and which can fail (memory, convergence).  Bookkeeping
between them is executed as one step.
"""
import os
import sys

import numpy as np

_DIRS = tuple("%s%s%s" % (os.sep, p.replace("/", os.sep), os.sep) for p in ("site-packages/scipy", "site-packages/qutip", "numpy/linalg", "numpy/random"))
_MODS = ("scipy", "qutip.", "numpy.linalg", "numpy.random")
_kind = {}


class Broken(np.linalg.LinAlgError, FloatingPointError, MemoryError):
    """a failing computation: no convergence, overflow, not enough memory"""


class Interrupt(KeyboardInterrupt):
    """the user's interrupt"""


def _code(code):
    k = _kind.get(code)
    if k is None:
        f = code.co_filename
        k = "p" if "qutip_qtrl" in f else "x" if any(d in f for d in _DIRS) else "o"
        _kind[code] = k
    return k


class Faults:
    """call(fn): run fn with a fault at the n-th computation (n = 0: count only)"""

    def __init__(self, exc=Interrupt):
        self.exc = exc
        self.count = 0
        self.where = None
        self.swallowed = False

    def __call__(self, fn, n=0):
        self.count, self.where, self.swallowed = 0, None, False
        sys.setprofile(self._prof(n))
        try:
            r = fn()
        except self.exc:
            if self.where is None:
                raise
            return False, None
        finally:
            sys.setprofile(None)
        self.swallowed = self.where is not None
        return True, r

    def _prof(self, n):
        def prof(frame, event, arg):
            if event == "call":
                if _code(frame.f_code) != "x" or frame.f_back is None or _code(frame.f_back.f_code) != "p":
                    return
                fr = frame.f_back
            elif event == "c_call":
                if _code(frame.f_code) != "p":
                    return
                name = getattr(arg, "__name__", "")
                mod = getattr(arg, "__module__", None) or ""
                if name not in ("dot", "matmul") and not mod.startswith(_MODS):
                    return
                fr = frame
            else:
                return
            self.count += 1
            if self.count == n:
                self.where = "%s:%s" % (os.path.basename(fr.f_code.co_filename), fr.f_code.co_name)
                sys.setprofile(None)
                raise self.exc()
        return prof
