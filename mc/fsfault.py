"""File-system faults below the Python level: an LD_PRELOAD library counts and fails the operations under a scratch directory.

Independent of how the code under test writes its files.  `ensure()` must be called first thing by the process: it compiles the
library into a scratch directory and starts the process again with it."""
import atexit
import contextlib
import ctypes
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
_LIB = None


def ensure():
    if os.environ.get("QTRL_FSF"):
        return
    d = tempfile.mkdtemp(prefix="qtrlfsf")
    so = os.path.join(d, "libfsfault.so")
    try:
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so, os.path.join(HERE, "c", "fsfault.c"), "-ldl"], check=True)
        env = dict(os.environ, QTRL_FSF=so, LD_PRELOAD=so)
        rc = subprocess.run([sys.executable] + sys.argv, env=env).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)


def lib():
    global _LIB
    if _LIB is None:
        _LIB = ctypes.CDLL(os.environ["QTRL_FSF"])
        _LIB.fsf_count.restype = _LIB.fsf_hits.restype = ctypes.c_long
        _LIB.fsf_log.restype = ctypes.c_char_p
    return _LIB


class Faults:
    """with Faults(dir, [(index, kind)]) as f: ...;  f.count operations seen, f.hits faults injected, f.ops their letters"""

    def __init__(self, prefix, faults=()):
        self.prefix, self.faults = os.path.realpath(prefix), list(faults)

    def __enter__(self):
        L = lib()
        n = len(self.faults)
        L.fsf_prefix(self.prefix.encode())
        L.fsf_arm((ctypes.c_long * max(n, 1))(*[a for a, _ in self.faults]), (ctypes.c_int * max(n, 1))(*[k for _, k in self.faults]), n)
        return self

    def __exit__(self, *a):
        L = lib()
        self.count, self.hits, self.ops = L.fsf_count(), L.fsf_hits(), L.fsf_log().decode()
        L.fsf_disarm()


@contextlib.contextmanager
def scratch():
    """a scratch directory, with HOME and the working directory inside it"""
    d = os.path.realpath(tempfile.mkdtemp(prefix="qtrlmc"))
    home, cwd = os.environ.get("HOME"), os.getcwd()
    try:
        for n in ("home", "cwd", "out"):
            os.mkdir(os.path.join(d, n))
        os.environ["HOME"] = os.path.join(d, "home")
        os.chdir(os.path.join(d, "cwd"))
        yield d
    finally:
        os.chdir(cwd)
        if home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = home
        shutil.rmtree(d, ignore_errors=True)


def tree(d):
    """{relative path: content or None for directories}"""
    out = {}
    for r, ds, fs in os.walk(d):
        for n in ds:
            out[os.path.relpath(os.path.join(r, n), d)] = None
        for n in fs:
            p = os.path.join(r, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read().decode()
    return out
