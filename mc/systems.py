"""Alphabet of small control systems and helpers to build them in the real code."""
import numpy as np
from qutip import Qobj

s0 = np.eye(2, dtype=complex)
sx = np.array([[0, 1], [1, 0]], dtype=complex)
sy = np.array([[0, -1j], [1j, 0]], dtype=complex)
sz = np.array([[1, 0], [0, -1]], dtype=complex)
had = (sx + sz) / np.sqrt(2)
T_ = np.diag([1, np.exp(1j * np.pi / 4)])


def kron(*a):
    out = np.eye(1)
    for m in a:
        out = np.kron(out, m)
    return out


swap = 0.5 * (kron(sx, sx) + kron(sy, sy) + kron(sz, sz) + np.eye(4))
cnot = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex)
# qutrit
l1 = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 0]], dtype=complex)
l6 = np.array([[0, 0, 0], [0, 0, 1], [0, 1, 0]], dtype=complex)
l8 = np.diag([1, 1, -2]).astype(complex) / np.sqrt(3)
l2 = np.array([[0, -1j, 0], [1j, 0, 0], [0, 0, 0]], dtype=complex)
q3t = np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]], dtype=complex)


def ket(*a):
    v = np.array(a, dtype=complex).reshape(-1, 1)
    return v / np.linalg.norm(v)


def liouv(H, cs):
    """column-stacking Liouvillian"""
    n = H.shape[0]
    I = np.eye(n)
    L = -1j * (np.kron(I, H) - np.kron(H.T, I))
    for c in cs:
        cd = c.conj().T.dot(c)
        L = L + np.kron(c.conj(), c) - 0.5 * np.kron(I, cd) - 0.5 * np.kron(cd.T, I)
    return L


def comm(H):
    return liouv(H, [])


sm = np.array([[0, 1], [0, 0]], dtype=complex)


class System:
    """Plain-matrix description, with Qobj construction."""

    def __init__(self, name, kind, drift, ctrls, initial, target, dims=None):
        self.name = name
        self.kind = kind
        self.drift = drift
        self.ctrls = ctrls
        self.initial = initial
        self.target = target
        self.dims = dims

    def q(self, m):
        m = np.array(m)
        if self.dims is not None and m.shape[0] == int(np.prod(self.dims)):
            r = self.dims
            c = self.dims if m.shape[1] == m.shape[0] else [1] * len(self.dims)
            return Qobj(m, dims=[list(r), list(c)])
        return Qobj(m)

    @property
    def dim(self):
        return (self.drift[0] if isinstance(self.drift, list) else self.drift).shape[0]

    @property
    def n_ctrls(self):
        return len(self.ctrls[0]) if isinstance(self.ctrls[0], list) else len(self.ctrls)

    def qdrift(self, k=None):
        if isinstance(self.drift, list):
            return [self.q(d) for d in self.drift]
        return self.q(self.drift)

    def qctrls(self):
        if isinstance(self.ctrls[0], list):
            a = np.empty((len(self.ctrls), len(self.ctrls[0])), dtype=object)
            for k, row in enumerate(self.ctrls):
                for j, c in enumerate(row):
                    a[k, j] = self.q(c)
            return a
        return [self.q(c) for c in self.ctrls]

    def with_time(self, tdrift, tctrl, n_ts):
        """time-dependent variant: operators scaled/mixed per slot"""
        drift, ctrls = self.drift, self.ctrls
        if tdrift:
            drift = [self.drift * (1.0 - 0.5 * k) for k in range(n_ts)]
        if tctrl:
            nc = len(self.ctrls)
            ctrls = [
                [self.ctrls[(j + k) % nc] * (1.0 + 0.25 * k) for j in range(nc)]
                for k in range(n_ts)
            ]
        return System(self.name + ("+td" if tdrift else "") + ("+tc" if tctrl else ""),
                      self.kind, drift, ctrls, self.initial, self.target, self.dims)


def _sys():
    S = {}

    def add(name, *a, **k):
        S[name] = System(name, *a, **k)

    # unitary, one qubit
    add("u_z_x", "UNIT", sz * 0.7, [sx], s0, had)
    add("u_z_xy", "UNIT", sz * 0.7, [sx, sy], s0, had)
    add("u_zx_xyz", "UNIT", 0.3 * sz + 0.2 * sx, [sx, sy, sz], s0, T_)
    add("u_0_xy", "UNIT", np.zeros((2, 2), dtype=complex), [sx, sy], s0, sx * 1j)  # zero/degenerate
    add("u_comm", "UNIT", sz, [sz, 0.5 * s0], s0, T_)  # commuting + identity control
    add("u_init", "UNIT", 0.4 * sy, [sx, sz], had, sy)  # non-identity start
    # states
    add("u_ket", "UNIT", 0.7 * sz, [sx, sy], ket(1, 0), ket(1, 1j))
    # qutrit and two qubits
    add("u_q3", "UNIT", l8, [l1, l6, l2], np.eye(3, dtype=complex), q3t)
    add("u_deg4", "UNIT", swap, [kron(sx, s0), kron(s0, sx)], np.eye(4, dtype=complex), cnot, dims=[2, 2])
    add("u_ket4", "UNIT", kron(sz, sz), [kron(sx, s0), kron(s0, sy)], ket(1, 0, 0, 0), ket(1, 0, 0, 1), dims=[2, 2])
    # general matrices
    add("g_real", "GEN_MAT", np.array([[-0.5, 0.3], [0.1, -0.2]]), [np.array([[0, 1.0], [-1, 0]]), np.diag([0.5, -0.5])],
        np.eye(2), np.array([[0.2, 1.0], [-1.0, 0.3]]))
    add("g_c", "GEN_MAT", -1j * 0.7 * sz, [-1j * sx, -1j * sy], s0, 1j * had)
    add("g_ket", "GEN_MAT", -1j * 0.7 * sz, [-1j * sx, -1j * sy], ket(1, 0), ket(1, 1j))
    add("g_nilp", "GEN_MAT", np.zeros((2, 2)), [np.array([[0, 1.0], [0, 0]]), np.array([[0, 0.0], [1, 0]])], np.eye(2),
        np.array([[1, 0.5], [0.25, 1]]))
    add("g_lindblad", "GEN_MAT", liouv(0.5 * sz, [0.4 * sm]), [comm(sx), comm(sy)], np.eye(4, dtype=complex), comm(had) * 0.1 + np.eye(4))
    # symplectic
    add("s_1", "SYMPL", np.array([[1.0, 0.2], [0.2, 0.5]]), [np.array([[1.0, 0], [0, 0]]), np.array([[0, 1.0], [1, 0]])], np.eye(2),
        np.array([[0.0, 1.0], [-1.0, 0.0]]))
    a = np.zeros((4, 4)); a[0, 2] = a[2, 0] = 1.0
    b = np.zeros((4, 4)); b[1, 3] = b[3, 1] = 1.0
    add("s_2", "SYMPL", np.diag([1.0, 1.0, 0.5, 0.5]), [a, b, a + b], np.eye(4), np.kron(np.array([[0, 1.0], [1.0, 0]]), np.eye(2)))
    return S


SYSTEMS = _sys()

TAUS = {
    "eq1": [0.8], "eq2": [0.5, 0.5], "uneq2": [0.3, 0.9], "eq3": [0.4, 0.4, 0.4],
    "uneq3": [0.2, 0.7, 0.45], "uneq4": [0.1, 0.6, 0.25, 0.4],
}


def amps_for(n_ts, n_c, which):
    """distinguishing amplitude patterns: no two entries equal (a), zeros (z), mixed sign with repeats (m)"""
    k = np.arange(n_ts * n_c, dtype=float).reshape(n_ts, n_c)
    if which == "z":
        return np.zeros((n_ts, n_c))
    if which == "a":
        return 0.35 + 0.23 * k
    if which == "m":
        return 0.6 * np.cos(1.3 * k + 0.4) - 0.1
    if which == "e":  # nearly degenerate generators
        return 1e-3 * (1 + k)
    if which == "f":
        return 0.02 * (1 + k) * (-1) ** k
    if which == "s":  # sparse: one non-zero
        a = np.zeros((n_ts, n_c)); a[-1, 0] = -1.1
        return a
    raise KeyError(which)


def make_optim(system, tau, fid="DEF", prop="DEF", dyn_params=None, fid_params=None, optim_params=None,
               log_level=None, **kw):
    """Build (not run) through the public two-step entry point."""
    import qutip_qtrl.pulseoptim as po

    a = dict(tau=np.array(tau, dtype=float), dyn_type=system.kind, prop_type=prop, fid_type=fid,
             dyn_params=dyn_params, fid_params=fid_params, optim_params=optim_params,
             init_pulse_type="ZERO")
    if log_level is not None:
        a["log_level"] = log_level
    a.update(kw)
    return po.create_pulse_optimizer(system.qdrift(), system.qctrls(), system.q(system.initial),
                                     system.q(system.target), **a)
