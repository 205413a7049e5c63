"""From-scratch reference model of piecewise-constant quantum control.

Deliberately boring: dense complex matrices, scipy.linalg.expm, explicit
products in time order.  Shares no code with the package under test.
"""
import numpy as np
import scipy.linalg as la


def omega(n):
    return np.kron(np.eye(n), np.array([[0.0, 1.0], [-1.0, 0.0]]))


class Ref:
    """kind: UNIT | GEN_MAT | SYMPL;  fid: PSU | SU | TD"""

    def __init__(self, kind, drift, ctrls, initial, target, amps, tau,
                 fid="PSU", scale=None, phase_app="postop"):
        self.kind = kind
        self.amps = np.array(amps, dtype=float)
        self.tau = np.array(tau, dtype=float)
        self.n_ts, self.n_c = self.amps.shape
        assert len(self.tau) == self.n_ts
        self.drift = drift  # matrix or list of matrices
        self.ctrls = ctrls  # list, or list (slots) of lists
        self.initial = np.array(initial, dtype=complex)
        self.target = np.array(target, dtype=complex)
        self.fid = fid
        self.scale = scale
        self.phase_app = phase_app

    def d(self, k):
        return self.drift[k] if isinstance(self.drift, list) else self.drift

    def c(self, k, j):
        return self.ctrls[k][j] if isinstance(self.ctrls[0], list) else self.ctrls[j]

    def phase(self, m):
        if self.kind == "UNIT":
            return -1j * m
        if self.kind == "SYMPL":
            om = omega(m.shape[0] // 2)
            return m.dot(-om) if self.phase_app == "postop" else om.dot(m)
        return m

    def gen(self, k, amps=None):
        a = self.amps if amps is None else amps
        g = np.array(self.d(k), dtype=complex)
        for j in range(self.n_c):
            g = g + a[k, j] * self.c(k, j)
        return g

    def prop(self, k, amps=None):
        return la.expm(self.phase(self.gen(k, amps)) * self.tau[k])

    def props(self, amps=None):
        return [self.prop(k, amps) for k in range(self.n_ts)]

    def fwd(self, amps=None):
        out = [self.initial]
        for p in self.props(amps):
            out.append(p.dot(out[-1]))
        return out

    def onwd(self):
        """onwd[k]: propagator from the start of slot k to the end"""
        P = self.props()
        out = [None] * self.n_ts
        acc = np.eye(P[0].shape[0])
        for k in range(self.n_ts - 1, -1, -1):
            acc = acc.dot(P[k])
            out[k] = acc
        return out

    def onto_target(self):
        t = self.target
        if self.kind == "UNIT" or t.shape[0] != t.shape[1]:
            return t.conj().T
        return la.inv(t)

    def onto(self):
        acc = self.onto_target()
        out = [None] * (self.n_ts + 1)
        out[self.n_ts] = acc
        P = self.props()
        for k in range(self.n_ts - 1, -1, -1):
            acc = acc.dot(P[k])
            out[k] = acc
        return out

    def overlap(self, amps=None):
        """tr(target^-1 evolution) (adjoint for unitary or state targets)"""
        return np.trace(self.onto_target().dot(self.fwd(amps)[-1]))

    def norm(self):
        return np.trace(self.target.conj().T.dot(self.target)).real

    def fidelity(self, amps=None):
        f = self.overlap(amps)
        if self.fid == "PSU":
            return abs(f) / self.norm()
        return f.real / self.norm()

    def err(self, amps=None):
        if self.fid in ("PSU", "SU"):
            return abs(1 - self.fidelity(amps))
        d = self.target - self.fwd(amps)[-1]
        s = self.scale
        if s is None:
            s = 1.0 / (2.0 * self.prop(0).shape[0])
        return s * np.sum(np.abs(d) ** 2)

    # -- derivative by expm of block matrix [[A, E], [0, A]] (Van Loan)
    def dprop(self, k, j):
        A = self.phase(self.gen(k)) * self.tau[k]
        E = self.phase(np.array(self.c(k, j), dtype=complex)) * self.tau[k]
        n = A.shape[0]
        M = np.zeros((2 * n, 2 * n), dtype=complex)
        M[:n, :n] = A
        M[n:, n:] = A
        M[:n, n:] = E
        return la.expm(M)[:n, n:]

    def grad(self):
        """d err / d amps"""
        F = self.fwd()
        P = self.props()
        n = P[0].shape[0]
        on = [np.eye(n)] * (self.n_ts + 1)
        for k in range(self.n_ts - 1, -1, -1):
            on[k] = on[k + 1].dot(P[k])
        g = np.zeros((self.n_ts, self.n_c))
        ov = self.overlap()
        for k in range(self.n_ts):
            for j in range(self.n_c):
                dU = on[k + 1].dot(self.dprop(k, j)).dot(F[k])
                if self.fid in ("PSU", "SU"):
                    df = np.trace(self.onto_target().dot(dU))
                    if self.fid == "PSU":
                        dfid = (np.conj(ov) * df).real / abs(ov) if abs(ov) > 0 else df.real
                    else:
                        dfid = df.real
                    dfid /= self.norm()
                    g[k, j] = dfid if self.fidelity() >= 1 else -dfid
                else:
                    s = self.scale
                    if s is None:
                        s = 1.0 / (2.0 * n)
                    D = self.target - F[-1]
                    g[k, j] = -2 * s * np.trace(D.conj().T.dot(dU)).real
        return g


def close(a, b, rtol=1e-7, atol=1e-9):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))
