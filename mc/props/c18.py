"""C18: the stand-alone GRAPE routines, every row of the returned history against a model of the documented step."""
import itertools
import warnings

import numpy as np
import scipy.linalg as la
from qutip import Qobj

from .. import systems as S

META = dict(
    rule="every routine x system x number of rows x number of times x start (none, array, list, one number per control) x limits x step size x high "
         "power penalty x late penalty x phase option x interpolation; every row of the returned history is recomputed from the row before it with "
         "plain matrices, the final evolution and Hamiltonian from the last row; the adaptive routine again with a target overlap between two rows; the array based and the operator based routine row by row",
    bounds=lambda tier: dict(rows=ROWS[tier != "quick"], times=[2, 3, 4] if tier == "quick" else [2, 3, 4, 6], systems=[s for s in SYS]),
    assumptions=["equally spaced times, as the routines use one time step"],
)
ROWS = {False: [1, 2, 4], True: [1, 2, 3, 4, 6]}
SYS = {"u_zx_xyz": 1.5, "u_z_x": 2.1, "u_q3": 0.9, "u_deg4": 1.2, "u_init": 1.1}
NAMES = ["grape_unitary", "cy_grape_unitary", "grape_unitary_adaptive"]
STARTS = [None, "array", "list", "numbers"]
LIMITS = [None, (-0.2, 0.3), (0.1, 0.5)]
EPS = [None, 0.05, 0.8]


def cases(tier):
    out = []
    for s in SYS:
        for M in ([2, 3, 4] if tier == "quick" else [2, 3, 4, 6]):
            for st in STARTS:
                for li in range(len(LIMITS)):
                    for ph in (True, False):
                        out.append(dict(sys=s, M=M, start=st, lim=li, phase=ph, rows=ROWS[tier != "quick"]))
    return out


def start_values(st, J, M):
    if st is None:
        return None, np.zeros((J, M))
    a = 0.45 * np.cos(1.1 * np.arange(J * M).reshape(J, M) + 0.4)
    if st == "numbers":
        v = [0.3 - 0.25 * j for j in range(J)]
        return v, np.repeat(np.array(v).reshape(J, 1), M, axis=1)
    return (a.copy() if st == "array" else [list(r) for r in a]), a


class Model:
    def __init__(self, s, times, alpha, beta, phase, lim):
        self.H0, self.H = np.array(s.drift), [np.array(c) for c in s.ctrls]
        self.U = np.array(s.target)
        self.dt, self.M, self.J, self.n = times[1] - times[0], len(times), len(self.H), self.U.shape[0]
        self.alpha, self.beta, self.phase, self.lim = alpha or 0.0, beta or 0.0, phase, lim

    def steps(self, row):
        return [la.expm(-1j * self.dt * (self.H0 + sum(row[j, m] * self.H[j] for j in range(self.J)))) for m in range(self.M - 1)]

    def final(self, row):
        U = np.eye(self.n, dtype=complex)
        for P in self.steps(row):
            U = P.dot(U)
        return U

    def overlap(self, row):
        o = np.trace(self.final(row).conj().T.dot(self.U)) / self.n
        return o.real if self.phase else abs(o) ** 2

    def grad(self, row):
        """direction of the step: first-order derivative of the overlap, less the penalties"""
        P = self.steps(row)
        fw, U = [], np.eye(self.n, dtype=complex)
        for p in P:
            U = p.dot(U)
            fw.append(U)
        g = np.zeros((self.J, self.M - 1))
        for m in range(self.M - 1):
            rest = np.eye(self.n, dtype=complex)
            for p in P[m + 1:]:
                rest = p.dot(rest)
            for j in range(self.J):
                d = np.trace(self.U.conj().T.dot(rest).dot(-1j * self.dt * self.H[j]).dot(fw[m])) / self.n
                if self.phase:
                    v = d.real
                else:
                    o = np.trace(self.U.conj().T.dot(fw[-1])) / self.n
                    v = 2 * (d * o.conj()).real
                g[j, m] = v - 2 * self.alpha * row[j, m] * self.dt - 2 * self.beta * m ** 2 * row[j, m] * self.dt
        return g

    def step(self, row, eps):
        new = np.array(row)
        new[:, :-1] += eps * self.grad(row)
        if self.lim:
            new[:, :-1] = np.clip(new[:, :-1], *self.lim)
        new[:, -1] = new[:, -2]
        return new


def close(a, b, tol=1e-7):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, atol=tol, rtol=1e-7)


def values(h, times):
    """control values of a [operator, coefficient] pair on the grid"""
    c = h[1]
    if callable(c):
        return np.array([float(c(t, None)) for t in times])
    return np.asarray(c, dtype=float)


def run_case(case, col):
    import qutip_qtrl.grape as gr

    s = S.SYSTEMS[case["sys"]]
    M, J = case["M"], s.n_ctrls
    lim = LIMITS[case["lim"]]
    for R, eps, alpha, beta, interp in itertools.product(case["rows"], EPS, (None, 0.1), (None, 0.07), (None, "linear", "cubic", "zero")):
        if interp == "cubic" and M < 4:
            continue
        if interp == "zero" and (M < 3 or R > 2):
            continue
        if interp and alpha and beta:
            continue
        times = np.linspace(0, SYS[case["sys"]], M)
        res = {}
        for name in NAMES:
            tag = "%s %s R=%d M=%d start=%s limits=%s eps=%s alpha=%s beta=%s phase_sensitive=%s interp=%s" % (
                name, case["sys"], R, M, case["start"], lim, eps, alpha, beta, case["phase"], interp)
            us, u0 = start_values(case["start"], J, M)
            if lim and us is not None:
                u0 = np.clip(u0, *lim)
            kw = dict(eps=eps, u_start=us, u_limits=None if lim is None else list(lim), alpha=alpha, beta=beta, phase_sensitive=case["phase"])
            if interp:
                kw.update(use_interp=True, interp_kind=interp)
            H, H0 = s.qctrls(), s.qdrift()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = getattr(gr, name)(s.q(s.target), H0, H, R, times, **kw)
            col.execution()
            m = Model(s, times, alpha, beta, case["phase"], lim)
            e = eps if eps is not None else 0.1 * 2 * np.pi / times[-1]
            u = np.asarray(r.u)
            if not col.check(u.shape == (R, J, M), "shape", "history of shape %s; %s" % (u.shape, tag)):
                continue
            col.check(close(u[0], u0), "start", "first row %s, expected %s; %s" % (u[0].tolist(), u0.tolist(), tag))
            if lim and (us is not None or lim[0] <= 0 <= lim[1]):
                col.check(np.all(u[1:] >= lim[0] - 1e-12) and np.all(u[1:] <= lim[1] + 1e-12), "limits", "amplitudes %s; %s" % (u[1:].tolist(), tag))
            # the last row is what the evolution and the Hamiltonian describe
            Uf = r.U_f
            col.check(isinstance(Uf, Qobj) and Uf.dims == s.q(s.target).dims, "dims", "final evolution %s; %s" % (getattr(Uf, "dims", type(Uf)), tag))
            col.check(close(Uf.full(), m.final(u[-1]), 1e-6), "final", "final evolution does not belong to the last row; %s" % tag)
            col.check(len(r.H_t) == J + 1 and r.H_t[0] == H0 and all(h[0] == H[j] for j, h in enumerate(r.H_t[1:])), "H_t", "Hamiltonian %s; %s" % (
                r.H_t, tag))
            got = np.array([values(h, times) for h in r.H_t[1:]])
            col.check(close(got, u[-1]), "H_values", "Hamiltonian has amplitudes %s, last row %s; %s" % (got.tolist(), u[-1].tolist(), tag))
            # the steps
            if name != NAMES[2]:
                for k in range(R - 1):
                    w = m.step(u[k], e)
                    if not col.check(close(u[k + 1], w), "step", "row %d is %s, expected %s; %s" % (k + 1, u[k + 1].tolist(), w.tolist(), tag)):
                        break
                    col.step()
            else:
                adaptive(m, u, e, r, tag, col, k0_ok=not (lim and us is None))
                if not (alpha and beta):
                    early(gr, s, case, m, u, times, dict(kw, u_start=start_values(case["start"], J, M)[0]), tag, col)
            res[name] = u
            col.validated()
            col.state((tag,))
            col.outcome((name, R, M, case["phase"], bool(lim), np.round(m.overlap(u[-1]), 3)))
        a, b = res.get(NAMES[0]), res.get(NAMES[1])
        if a is not None and b is not None:
            col.check(close(a, b), "agree", "operator based and array based routine differ; %s" % tag)


def early(gr, s, case, m, u, times, kw, tag, col):
    """the same run with a target overlap between two rows of the full history: it ends with the first row above the target"""
    ov = [m.overlap(x) for x in u]
    for k in range(1, len(u)):
        if ov[k] - max(ov[:k]) < 1e-4 or ov[k] > 0.999:
            continue
        x = (ov[k] + max(ov[:k])) / 2
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = gr.grape_unitary_adaptive(s.q(s.target), s.qdrift(), s.qctrls(), len(u), times, overlap_terminate=x, **dict(
                kw, u_start=kw["u_start"] if kw["u_start"] is None else np.array(kw["u_start"]).tolist()))
        col.execution()
        v = np.asarray(r.u)
        tag2 = "%s overlap_terminate=%.4f" % (tag, x)
        if not col.check(v.shape == (k + 1,) + u.shape[1:] and close(v, u[:k + 1]), "early:rows", "history %s, expected the rows up to %d of %s; %s" % (
                v.tolist(), k, u.tolist(), tag2)):
            return
        col.check(close(r.U_f.full(), m.final(v[-1]), 1e-6), "early:final", "final evolution does not belong to the last row; %s" % tag2)
        got = np.array([values(h, times) for h in r.H_t[1:]])
        col.check(close(got, v[-1]), "early:H_values", "Hamiltonian has amplitudes %s, last row %s; %s" % (got.tolist(), v[-1].tolist(), tag2))
        col.step()


def adaptive(m, u, e, r, tag, col, k0_ok):
    """each row is the best of three step sizes from the row before it, or that row again; the step sizes follow the choices"""
    sizes = {e}
    for k in range(len(u) - 1):
        base = m.overlap(u[k])
        nxt = set()
        ok = False
        for c in sizes:
            cand = [m.step(u[k], c * f) for f in (0.5, 1.0, 2.0)]
            ov = [m.overlap(x) for x in cand]
            best = max(ov)
            if base > best - 1e-9 and close(u[k + 1], u[k]):
                ok = True
                nxt.add(c / 2)
            if best > base - 1e-9:
                for i, f in enumerate((0.5, 1.0, 2.0)):
                    if ov[i] > best - 1e-9 and close(u[k + 1], cand[i]):
                        ok = True
                        # two choices that tie are both possible
                        nxt.update(c * (0.5, 1.0, 2.0)[q] for q in range(3) if ov[q] > best - 1e-9 and close(cand[q], cand[i]))
        if not col.check(ok, "adaptive", "row %d: %s is not the best of the three steps from %s; %s" % (k + 1, u[k + 1].tolist(), u[k].tolist(), tag)):
            return
        if k or k0_ok:
            col.check(m.overlap(u[k + 1]) >= base - 1e-9, "regress", "overlap falls from %g to %g; %s" % (base, m.overlap(u[k + 1]), tag))
        sizes = nxt
        col.step()
