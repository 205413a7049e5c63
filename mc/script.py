"""Environment seams: scripted scipy minimisers, virtual clock, enumerated random draws;
and the choice-driven exhaustive exploration (stateless model checking by re-execution)."""
import contextlib
import inspect
import sys

import numpy as np


class Chooser:
    """Answers every environment choice from a prefix, then 0; records arities."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []

    def choose(self, n, label=None):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise RuntimeError("choice %d of %d at %d: exploration not deterministic" % (c, n, i))
        self.trace.append((c, n))
        return c


def explore(run, base=()):
    """Execute `run(chooser)` for every choice sequence beginning with base."""
    base = list(base)
    prefix = list(base)
    while True:
        ch = Chooser(prefix)
        run(ch)
        tr = ch.trace
        i = len(tr) - 1
        while i >= len(base) and tr[i][0] + 1 >= tr[i][1]:
            i -= 1
        if i < len(base):
            return
        prefix = [c for c, _ in tr[:i]] + [tr[i][0] + 1]


# ---------------------------------------------------------------- patching
_ALIAS = {}


def _aliases(mod, name, orig):
    key = (mod.__name__, name)
    if key not in _ALIAS:
        out = []
        for mname, m in list(sys.modules.items()):
            if m is not None and (mname == "qutip_qtrl" or mname.startswith("qutip_qtrl.")):
                out += [(m, k) for k, v in list(vars(m).items()) if v is orig]
        _ALIAS[key] = out
    return [(m, k) for m, k in _ALIAS[key] if getattr(m, k) is orig]


@contextlib.contextmanager
def patched(mapping):
    """mapping: {(module, name): replacement}.  Also replaces every attribute of a qutip_qtrl module that is the
    original object (names imported directly)."""
    saved = []
    try:
        for (mod, name), new in mapping.items():
            orig = getattr(mod, name)
            saved.append((mod, name, orig))
            for m, k in _aliases(mod, name, orig):
                saved.append((m, k, orig))
                setattr(m, k, new)
            setattr(mod, name, new)
        yield
    finally:
        for mod, name, orig in reversed(saved):
            setattr(mod, name, orig)


class Clock:
    """Virtual clock; every reading returns the current time, then lets `tick` seconds pass."""

    def __init__(self, t0=1000.0, tick=0.0):
        self.t = t0
        self.tick = tick
        self.reads = 0

    def __call__(self):
        self.reads += 1
        t = self.t
        self.t += self.tick
        return t

    def mapping(self):
        import time
        import timeit

        return {(timeit, "default_timer"): self, (time, "perf_counter"): self, (time, "monotonic"): self,
                (time, "time"): self}


_SIG = {}


class Call:
    """One call of a minimiser, arguments bound by the real signature."""

    def __init__(self, name, orig, args, kw):
        self.name = name
        sig = _SIG.get(name)
        if sig is None:
            sig = _SIG[name] = inspect.signature(orig)
        b = sig.bind(*args, **kw)
        b.apply_defaults()
        a = dict(b.arguments)
        self.args = a
        self.x0 = np.array(a["x0"], dtype=float, copy=True)
        self.fun = a.get("fun", a.get("func", a.get("f")))
        self.jac = a.get("jac", a.get("fprime"))
        self.callback = a.get("callback")

    # uniform view of what the minimiser was told
    def opt(self, what):
        a = self.args
        if self.name == "minimize":
            o = a.get("options") or {}
            return {"maxiter": o.get("maxiter"), "maxfev": o.get("maxfev"), "gtol": o.get("gtol"), "ftol": o.get("ftol"),
                    "method": a.get("method"), "bounds": a.get("bounds"), "disp": o.get("disp"), "maxcor": o.get("maxcor"),
                    "options": dict(o)}.get(what)
        if self.name == "fmin_bfgs":
            return {"maxiter": a.get("maxiter"), "gtol": a.get("gtol"), "method": "fmin_bfgs"}.get(what)
        if self.name == "fmin_l_bfgs_b":
            return {"maxiter": a.get("maxiter"), "maxfev": a.get("maxfun"), "gtol": a.get("pgtol"), "ftol": a.get("factr"),
                    "maxcor": a.get("m"), "bounds": a.get("bounds"), "method": "fmin_l_bfgs_b"}.get(what)
        if self.name == "fmin":
            return {"maxiter": a.get("maxiter"), "maxfev": a.get("maxfun"), "xtol": a.get("xtol"), "ftol": a.get("ftol"),
                    "method": "fmin", "disp": a.get("disp"), "retall": a.get("retall")}.get(what)


NAMES = ("minimize", "fmin_bfgs", "fmin_l_bfgs_b", "fmin")


def minimiser_patch(handler):
    """handler(call) -> ('ret', spec) ; spec is what Return describes."""
    import scipy.optimize as so

    m = {}
    for nm in NAMES:
        orig = getattr(so, nm)

        def fake(*args, _nm=nm, _orig=orig, **kw):
            c = Call(_nm, _orig, args, kw)
            return native_return(c, handler(c))

        fake.__name__ = nm
        m[(so, nm)] = fake
    return m


class Return:
    """kind: 'converged' (gradient), 'ftol' (function), 'maxiter', 'maxfun', 'abnormal'"""

    def __init__(self, kind, x, fun=0.0, nit=0, nfev=0, njev=0, grad=None, allvecs=None):
        self.kind, self.x, self.fun = kind, np.array(x, dtype=float), fun
        self.nit, self.nfev, self.njev = nit, nfev, njev
        self.grad = grad
        self.allvecs = allvecs


KINDS = {
    "minimize": ("converged", "maxiter", "maxfun", "abnormal"),
    "fmin_bfgs": ("converged", "maxiter", "abnormal", "nan"),
    "fmin_l_bfgs_b": ("converged", "ftol", "maxiter", "abnormal"),
    "fmin": ("converged", "maxfun", "maxiter"),
}
MSG = {
    "converged": "Optimization terminated successfully.",
    "maxiter": "Maximum number of iterations has been exceeded.",
    "maxfun": "Maximum number of function evaluations has been exceeded.",
    "abnormal": "Desired error not necessarily achieved due to precision loss.",
    "nan": "NaN result encountered.",
}
TASK = {
    "converged": "CONVERGENCE: NORM OF PROJECTED GRADIENT <= PGTOL",
    "ftol": "CONVERGENCE: RELATIVE REDUCTION OF F <= FACTR*EPSMCH",
    "maxiter": "STOP: TOTAL NO. OF ITERATIONS REACHED LIMIT",
    "maxfun": "STOP: TOTAL NO. OF F,G EVALUATIONS EXCEEDS LIMIT",
    "abnormal": "ABNORMAL: ",
}


def native_return(call, r):
    """render a Return in the format of the scipy function that was called (scipy 1.18)"""
    import scipy.optimize as so

    x, n = r.x.copy(), len(r.x)
    g = np.zeros(n) if r.grad is None else np.array(r.grad)
    a = call.args
    if call.name == "minimize":
        st = {"converged": 0, "maxiter": 1, "maxfun": 1, "abnormal": 2}[r.kind]
        if str(a.get("method")).lower() == "nelder-mead":
            st = {"converged": 0, "maxfun": 1, "maxiter": 2, "abnormal": 3}[r.kind]
        return so.OptimizeResult(x=x, fun=r.fun, jac=g, nit=r.nit, nfev=r.nfev, njev=r.njev, status=st,
                                 success=r.kind == "converged", message=MSG[r.kind])
    if call.name == "fmin_bfgs":
        w = {"converged": 0, "maxiter": 1, "abnormal": 2, "nan": 3}[r.kind]
        if not a.get("full_output"):
            return x
        out = (x, r.fun, g, np.eye(n), r.nfev, r.njev, w)
        return out + ((r.allvecs or [call.x0, x]),) if a.get("retall") else out
    if call.name == "fmin_l_bfgs_b":
        w = {"converged": 0, "ftol": 0, "maxiter": 1, "maxfun": 1, "abnormal": 2}[r.kind]
        return x, r.fun, dict(grad=g, task=TASK[r.kind], funcalls=r.nfev, nit=r.nit, warnflag=w)
    if call.name == "fmin":
        w = {"converged": 0, "maxfun": 1, "maxiter": 2}[r.kind]
        if not a.get("full_output"):
            return x
        out = (x, r.fun, r.nit, r.nfev, w)
        return out + ((r.allvecs or [call.x0, x]),) if a.get("retall") else out


# ---------------------------------------------------------------- random draws
class Draws:
    """Stands in for numpy's random sampling: value i of a draw is values[(i + shift) % n]."""

    def __init__(self, values=(0.25, 0.75, 0.5, 0.9, 0.1), log=None):
        self.values = list(values)
        self.i = 0
        self.n = 0

    def _next(self):
        v = self.values[self.i % len(self.values)]
        self.i += 1
        self.n += 1
        return v

    def random(self, size=None):
        if size is None:
            return self._next()
        shape = (size,) if np.isscalar(size) else tuple(size)
        a = np.array([self._next() for _ in range(int(np.prod(shape)))], dtype=float)
        return a.reshape(shape)

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def mapping(self):
        import numpy.random as nr

        return {(nr, "random"): self.random, (nr, "rand"): self.rand, (nr, "random_sample"): self.random,
                (nr, "ranf"): self.random, (nr, "sample"): self.random,
                (nr, "uniform"): self.uniform, (nr, "randn"): self._no("randn"), (nr, "normal"): self._no("normal"),
                (nr, "randint"): self._no("randint")}

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (np.asarray(high) - low) * self.random(size)

    def _no(self, name):
        def f(*a, **k):
            raise RuntimeError("unmodelled random source numpy.random.%s" % name)

        return f
