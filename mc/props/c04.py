"""C04: the fidelity error is the documented measure of distance to the target."""
import itertools

import numpy as np
import scipy.linalg as la
from qutip import Qobj

from .. import systems as S
from ..ref import Ref, close

PH = np.exp(0.9j)
_ph8 = np.exp(1j * np.pi / 4)
iswap = np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]], dtype=complex)
w3 = np.exp(2j * np.pi / 3)
f3 = np.array([[1, 1, 1], [1, w3, w3**2], [1, w3**2, w3]]) / np.sqrt(3)
_P = np.diag([1.0, 1, 0, 0]).astype(complex)

UN = {
    "U2": dict(I=S.s0, X=S.sx, Y=S.sy, Z=S.sz, H=S.had, S=np.diag([1, 1j]), T=S.T_, mI=-S.s0, iX=1j * S.sx, pH=PH * S.had,
               mT=-S.T_, HS=S.had.dot(np.diag([1, 1j]))),
    "K2": dict(k0=S.ket(1, 0), k1=S.ket(0, 1), kp=S.ket(1, 1), ki=S.ket(1, 1j), mk0=-S.ket(1, 0), pkp=PH * S.ket(1, 1), kt=S.ket(0.8, 0.6 * PH)),
    "U3": dict(I=np.eye(3), C=S.q3t, F=f3, D=np.diag([1, w3, w3**2]), pC=PH * S.q3t, w=w3 * np.eye(3)),
    "U4": dict(I=np.eye(4), CN=S.cnot, SW=S.swap, HH=S.kron(S.had, S.had), IS=iswap, mCN=-S.cnot, pSW=PH * S.swap, TT=S.kron(S.T_, S.s0)),
    "P4": dict(P=_P, SWP=S.swap.dot(_P), mP=-_P, CNP=S.kron(S.had, S.s0).dot(_P)),
    "K4": dict(k00=S.ket(1, 0, 0, 0), bell=S.ket(1, 0, 0, 1), w=S.ket(0, 1, 1j, 0), mb=-S.ket(1, 0, 0, 1)),
}
GM = {
    "G2": dict(I=np.eye(2), R=np.array([[0.2, 1.0], [-1.0, 0.3]]), E=np.array([[1.5, 0.4], [0.0, 0.7]]), C=np.array([[0.4, 0.2j], [1.0, 0.1]]), Z0=1e-3 * np.eye(2), mI=-np.eye(2)),
    "GK": dict(k0=S.ket(1, 0), h=0.5 * S.ket(1, 1), b=2 * S.ket(1, 1j), m=-S.ket(1, 0)),
    "G4": dict(I=np.eye(4), L=la.expm(S.liouv(0.5 * S.sz, [0.4 * S.sm])), U=la.expm(S.comm(S.had)), N=S.kron(np.array([[0.2, 1.0], [-1.0, 0.3]]), S.s0)),
}
META = dict(
    rule="every pair (evolution, target) of the alphabet, realised both through the drift and through the initial operator, in every "
         "fidelity measure, representation and dynamics type; and every sequence up to the depth of option changes, amplitude changes "
         "and queries; and every sequence of problems (dimensions, norms of the target, gates and states) put to the same computer; error, fidelity and gradient compared with the reference formulas",
    bounds=lambda tier: dict(evolutions=sum(map(len, UN.values())) + sum(map(len, GM.values())), history_depth=5 if tier == "quick" else 6, dims="2..4"),
    assumptions=["scipy.linalg.expm/logm are correct to 1e-9"],
)
SEQ_SYS = {"u": ("u_z_x", "UNIT"), "uk": ("u_ket", "UNIT"), "uini": ("u_init", "UNIT"), "g": ("g_real", "TD"), "gc": ("g_c", "TD"), "ga": ("g_real", "TDA"), "s": ("s_1", "TD")}
U_OPS = ["PSU", "SU", "err", "fid", "grad", "a1", "a2"]
T_OPS = ["s.37", "s2", "err", "grad", "a1", "a2"]


def cases(tier):
    out = []
    for rep in ("nd", "q"):
        for fam in UN:
            for e in UN[fam]:
                out.append(dict(kind="pair", fam=fam, e=e, rep=rep))
        for fam in GM:
            for e in GM[fam]:
                out.append(dict(kind="pair", fam=fam, e=e, rep=rep))
    d = 5 if tier == "quick" else 6
    for key, (s, f) in SEQ_SYS.items():
        ops = U_OPS if f == "UNIT" else T_OPS
        for rep in ("nd", "q"):
            for a in ops:
                out.append(dict(kind="seq", sys=key, rep=rep, first=a, depth=d))
    out.append(dict(kind="invalid"))
    for m in REUSE:
        for rep in ("nd", "q", "auto"):
            for a in PROBLEMS[REUSE[m][0]]:
                out.append(dict(kind="reuse", measure=m, rep=rep, first=a, depth=3 if tier == "quick" else 4))
    return out


def run_case(case, col):
    globals()["case_" + case["kind"]](case, col)


def rep_type(r):
    return np.ndarray if r == "nd" else Qobj


def case_pair(case, col):
    unit = case["fam"] in UN
    tab = (UN if unit else GM)[case["fam"]]
    E = np.asarray(tab[case["e"]], dtype=complex)
    n = E.shape[0]
    routes = ["init"]
    if E.shape[0] == E.shape[1] and abs(la.det(E)) > 1e-12:
        routes.append("drift")
    kinds = ["UNIT", "GEN_MAT"] if unit else ["GEN_MAT"]
    for tname, T in tab.items():
        T = np.asarray(T, dtype=complex)
        for route in routes:
            for kind in kinds:
                if case["fam"] in ("P4",) and kind == "GEN_MAT":
                    measures = [("TRACEDIFF", {}), ("TDAPPROX", {})]  # inverse of a singular target is not defined
                else:
                    measures = [("UNIT", {"phase_option": "PSU"}), ("UNIT", {"phase_option": "SU"})] if unit else []
                    measures += [("TRACEDIFF", {}), ("TRACEDIFF", {"scale_factor": 0.37}), ("TDAPPROX", {}), ("TDAPPROX", {"scale_factor": 2.5})]
                for ft, fp in measures:
                    pair(case, col, kind, n, E, T, tname, route, ft, dict(fp))


def pair(case, col, kind, n, E, T, tname, route, ft, fp):
    ctrl = np.zeros((n, n), dtype=complex)
    ctrl[0, 1] = 1
    ctrl[1, 0] = 1
    if route == "init":
        drift, initial = np.zeros((n, n), dtype=complex), E
    else:
        L = la.logm(E)
        drift, initial = (1j * L if kind == "UNIT" else L), np.eye(n, dtype=complex)
        if kind == "UNIT":
            drift = 0.5 * (drift + drift.conj().T)
    if kind == "GEN_MAT":
        ctrl = -1j * ctrl
    prop = "APPROX" if ft == "TDAPPROX" else "FRECHET"
    s = S.System("pair", kind, drift, [ctrl], initial, T, [2, 2] if case["fam"] in ("U4", "K4", "P4") else None)
    o = S.make_optim(s, [0.25, 0.75], fid=ft, prop=prop, dyn_params={"oper_dtype": rep_type(case["rep"])}, fid_params=dict(fp))
    d = o.dynamics
    d.initialize_controls(np.zeros((2, 1)))
    fc = d.fid_computer
    err = fc.get_fid_err()
    col.execution()
    col.step(2)
    col.state((case["fam"], case["e"], tname, kind, route, ft, sorted(fp.items()), case["rep"]))
    ctx = dict(evolution=case["e"], target=tname, dyn=kind, route=route, fid=ft, params=fp, rep=case["rep"], family=case["fam"])

    def bad(sig, msg):
        col.fail("%s:%s" % (ft, sig), msg + " (%s)" % ctx)

    if not (np.isreal(err) and np.isfinite(err)):
        bad("value", "error %r" % (err,))
        return
    ov, nrm = np.trace(T.conj().T.dot(E)), np.trace(T.conj().T.dot(T)).real
    if ft == "UNIT":
        f = abs(ov) / nrm if fp["phase_option"] == "PSU" else ov.real / nrm
        want = abs(1 - f)
        fid = fc.get_fidelity()
        if not close(fid, f, 1e-8, 1e-8) or not close(fc.fidelity, f, 1e-8, 1e-8):
            bad("fidelity", "fidelity %r (attribute %r), expected %r" % (fid, fc.fidelity, f))
        if not (-1e-9 <= err <= (1 if fp["phase_option"] == "PSU" else 2) + 1e-9):
            bad("range", "error %r out of range" % (err,))
        same = abs(abs(ov) - nrm) < 1e-9 if fp["phase_option"] == "PSU" else np.abs(E - T).max() < 1e-9
    else:
        sc = fp.get("scale_factor", 1 / (2.0 * n))
        want = sc * np.sum(np.abs(T - E) ** 2)
        if not close(fc.scale_factor, sc):
            bad("scale", "scale_factor %r, expected %r" % (fc.scale_factor, sc))
        same = np.abs(E - T).max() < 1e-9
    if not close(err, want, 1e-8, 1e-8):
        bad("error", "error %r, expected %r" % (err, want))
    if not close(fc.fid_err, want, 1e-8, 1e-8):
        bad("attribute", "fid_err attribute %r, expected %r" % (fc.fid_err, want))
    if (err < 1e-8) != bool(same):
        bad("zero", "error %r but evolution %s the target" % (err, "equals" if same else "differs from"))
    col.outcome(round(float(err), 7))
    col.validated()
    col.sample(ctx)


def case_seq(case, col):
    sname, f = SEQ_SYS[case["sys"]]
    ops = U_OPS if f == "UNIT" else T_OPS
    for starts in ((0, 1) if f == "UNIT" else (0, 1)):
        for suf in itertools.product(ops, repeat=case["depth"] - 1):
            seq = (case["first"],) + suf
            if seq[-1] not in ("err", "fid", "grad"):
                continue  # every prefix that ends in a query is covered by a shorter/other sequence
            history(sname, f, case["rep"], starts, seq, col)


A = {"a1": np.array([[0.4, -0.2, 0.1], [0.9, 0.3, -0.7]]), "a2": np.array([[-0.6, 0.5, 0.2], [0.15, -0.8, 0.6]])}
_cache = {}


def history(sname, f, rep, start, seq, col):
    s = S.SYSTEMS[sname]
    if f == "UNIT":
        fp = {"phase_option": ["PSU", "SU"][start]}
        ft, cur = "UNIT", fp["phase_option"]
    else:
        fp = {} if start == 0 else {"scale_factor": 0.8}
        ft, cur = ("TRACEDIFF" if f == "TD" else "TDAPPROX"), fp.get("scale_factor", 1 / (2.0 * s.dim))
        if f == "TDA":
            fp["epsilon"] = 1e-6
    o = S.make_optim(s, [0.3, 0.9], fid=ft, prop="APPROX" if f == "TDA" else "FRECHET", dyn_params={"oper_dtype": rep_type(rep)}, fid_params=fp)
    d = o.dynamics
    a = "a1"
    d.initialize_controls(A[a][:, : s.n_ctrls].copy())
    col.execution()
    for i, op in enumerate(seq):
        fc = d.fid_computer
        if op in ("PSU", "SU"):
            fc.phase_option = op
            cur = op
        elif op in ("s.37", "s2"):
            cur = 0.37 if op == "s.37" else 2.0
            fc.scale_factor = cur
        elif op in A:
            a = op
            d.update_ctrl_amps(A[a][:, : s.n_ctrls].copy())
        else:
            k = (sname, cur, a)
            if k not in _cache:
                r = Ref(s.kind, s.drift, s.ctrls, s.initial, s.target, A[a][:, : s.n_ctrls], [0.3, 0.9],
                        fid=cur if f == "UNIT" else "TD", scale=None if f == "UNIT" else cur)
                _cache[k] = (r.err(), r.fidelity() if f == "UNIT" else None, r.grad())
            e, fi, g = _cache[k]
            got = {"err": fc.get_fid_err, "fid": getattr(fc, "get_fidelity", None), "grad": fc.get_fid_err_gradient}[op]()
            want = {"err": e, "fid": fi, "grad": g}[op]
            tol = 1e-4 if f == "TDA" and op == "grad" else 1e-8
            if not close(got, want, tol, tol):
                col.fail("history:%s" % op, "%s = %s, expected %s after %s (system %s, %s, start %d)" % (op, got, want, seq[: i + 1], sname, rep, start))
            if op == "grad" and not close(fc.grad_norm, np.sqrt((np.asarray(want) ** 2).sum()), tol, tol):
                col.fail("history:norm", "grad_norm %r after %s" % (fc.grad_norm, seq[: i + 1]))
        col.step()
        col.state((sname, rep, start, cur, a))
    col.validated()
    col.outcome((sname, seq[-1], a, cur))


def case_invalid(case, col):
    import qutip_qtrl.errors as er

    s = S.SYSTEMS["u_z_x"]
    for v in ("psu", "", None, 3, "SUPSU"):
        o = S.make_optim(s, [0.5], fid="UNIT", prop="FRECHET")
        o.dynamics.initialize_controls(np.zeros((1, 1)))
        col.execution()
        col.step()
        try:
            o.dynamics.fid_computer.phase_option = v
        except er.UsageError:
            continue
        col.fail("invalid", "phase option %r accepted" % (v,))


# ------------------------------------------------------------------ one computer, several problems
_h = {2: (0.7 * S.sz, [S.sx, S.sy]), 3: (np.diag([0.3, -0.4, 0.9]).astype(complex), [np.eye(3, k=1) + np.eye(3, k=-1)]),
      4: (S.kron(S.sz, S.sx), [S.kron(S.sx, S.s0), S.kron(S.s0, S.sy)])}
PROBLEMS = {
    "UNIT": {"gate2": (2, S.s0, S.had), "ket2": (2, S.ket(1, 0), S.ket(1, 1j)), "big2": (2, 2 * S.ket(1, 0), 2 * S.ket(1, 1)), "gate3": (3, np.eye(3), S.q3t),
             "proj4": (4, _P, S.swap.dot(_P)), "gate4": (4, np.eye(4), S.cnot)},
    "GEN_MAT": {"gate2": (2, S.s0, S.had), "small2": (2, 0.5 * S.s0, 0.5 * S.T_), "ket2": (2, S.ket(1, 0), S.ket(1, 1j)), "gate3": (3, np.eye(3), S.q3t), "gate4": (4, np.eye(4), S.cnot)},
}
REUSE = {"PSU": ("UNIT", "UNIT", {"phase_option": "PSU"}), "SU": ("UNIT", "UNIT", {"phase_option": "SU"}), "TD": ("UNIT", "TRACEDIFF", {}), "GTD": ("GEN_MAT", "TRACEDIFF", {}),
         "GTDs": ("GEN_MAT", "TRACEDIFF", {"scale_factor": 0.37})}
_reuse = {}


def case_reuse(case, col):
    kind, ft, fp = REUSE[case["measure"]]
    tab = PROBLEMS[kind]

    def system(p):
        n, ini, tgt = tab[p]
        h0, hs = _h[n]
        f = 1 if kind == "UNIT" else -1j
        return S.System(p, kind, f * h0, [f * h for h in hs], np.asarray(ini, dtype=complex), np.asarray(tgt, dtype=complex), [2, 2] if n == 4 else None)

    for suf in itertools.product(tab, repeat=case["depth"] - 1):
        seq = (case["first"],) + suf
        for form in ("initialise", "grad-last"):
            o = None
            for i, p in enumerate(seq):
                s = system(p)
                amps = A["a2" if i % 2 else "a1"][:, : s.n_ctrls]
                if o is None:
                    o = S.make_optim(s, [0.3, 0.9], fid=ft, prop="FRECHET", dyn_params={} if case["rep"] == "auto" else {"oper_dtype": rep_type(case["rep"])}, fid_params=dict(fp))
                else:
                    d = o.dynamics
                    d.drift_dyn_gen, d.ctrl_dyn_gen, d.initial, d.target = s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target)
                d = o.dynamics
                d.initialize_controls(amps.copy())
                k = (case["measure"], p, i % 2)
                if k not in _reuse:
                    sc = fp.get("scale_factor", 1 / (2.0 * s.dim))
                    r = Ref(s.kind, s.drift, s.ctrls, s.initial, s.target, amps, [0.3, 0.9], fid=case["measure"] if ft == "UNIT" else "TD", scale=None if ft == "UNIT" else sc)
                    _reuse[k] = (r.err(), r.fidelity() if ft == "UNIT" else None, r.grad())
                e, fi, g = _reuse[k]
                fc = d.fid_computer
                ask = [("err", fc.get_fid_err, e), ("grad", fc.get_fid_err_gradient, g)]
                if ft == "UNIT":
                    ask.append(("fid", fc.get_fidelity, fi))
                if form == "grad-last":
                    ask = [ask[1], ask[0]] + ask[2:]
                for what, fun, want in ask if form == "initialise" or i == len(seq) - 1 else ():
                    got = fun()
                    if not close(got, want, 1e-8, 1e-8):
                        col.fail("reuse:%s" % what, "%s = %s, expected %s for the problem %s after %s (%s, %s)" % (what, got, want, p, seq[:i], case["measure"], case["rep"]))
                col.step()
                col.state((case["measure"], case["rep"], p, seq[max(0, i - 1)]))
            col.execution()
            col.validated()
            col.outcome((case["measure"], seq[-1]))
