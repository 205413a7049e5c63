"""Environment set-up: import qutip_qtrl from the current working tree of /repo.

Nothing is built: the package is pure Python, so importing it from
$QTRL_REPO/src (default /repo/src) *is* the rebuild.  The generated file
version.py may be missing in a bare tree; a stand-in module is registered then.
"""
import os
import sys
import types

REPO = os.environ.get("QTRL_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def boot():
    sys.dont_write_bytecode = True
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ.setdefault("MPLBACKEND", "Agg")
    if not os.environ.get("MPLCONFIGDIR"):
        os.environ["MPLCONFIGDIR"] = "/opt/venv/mplconfig"
    sys.path[:] = [p for p in sys.path if not p.rstrip("/").endswith("/repo/src")]
    sys.path.insert(0, SRC)
    if not os.path.exists(os.path.join(SRC, "qutip_qtrl", "version.py")):
        m = types.ModuleType("qutip_qtrl.version")
        m.version = m.short_version = "0"
        m.release = False
        sys.modules["qutip_qtrl.version"] = m
    import warnings

    warnings.simplefilter("ignore")
    import importlib
    import pkgutil
    import qutip_qtrl

    assert os.path.abspath(qutip_qtrl.__file__).startswith(
        os.path.abspath(SRC)
    ), qutip_qtrl.__file__
    for mod in pkgutil.iter_modules(qutip_qtrl.__path__, "qutip_qtrl."):
        if mod.name not in sys.modules:
            importlib.import_module(mod.name)
    return qutip_qtrl
