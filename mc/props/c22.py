"""C22: alternative and deprecated names and input forms are equivalent."""
import itertools
import warnings

import numpy as np
from qutip import Qobj

from .. import systems as S
from ..ref import Ref, close

META = dict(
    rule="(a) every system x form of the controls x form of the drift x data layer x dimensions x propagator x fidelity x representation x route of giving "
         "them: error, gradient, evolution and its dimensions as a plain-matrix model; (b) every sequence up to the depth of operations in their old and "
         "new spelling, every deprecated accessor against the model at each query, with a FutureWarning and no effect on the values",
    bounds=lambda tier: dict(depth=3 if tier == "quick" else 4, configurations=list(CFG), forms=dict(controls=CF, drift=DF, data=DATA, routes=ROUTES)),
    assumptions=["new operators are in force from the next initialize_controls (documented)", "when both names of an operator were set since the last "
                 "initialisation, which one counts is not judged", "an array as time-dependent drift is refused (documented: Qobj or list of Qobj)"],
)
TAU = [0.3, 0.55, 0.2]
AMP = {a: {n: f(n) for n in (1, 2, 3)} for a, f in dict(
    a0=lambda n: np.array([[0.3, 0.0, 0.5], [-0.2, 0.4, 0.0], [0.6, 0.0, 0.1]])[:, :n],
    a1=lambda n: np.array([[0.4, 0.5, 0.2], [0.9, 0.0, 0.3], [0.0, 0.0, -0.4]])[:, :n]).items()}

CF = dict(const=["list", "tuple"], td=["array", "lists", "tuples", "list of tuples", "tuple of lists"])
DF = dict(const=["one"], td=["list", "tuple"])
DATA = ["Dense", "CSR", "Dia", "mixed"]
ROUTES = ["create", "attr", "ham", "again", "again_ham"]
SYS = ["u_zx_xyz", "u_z_x", "u_deg4", "u_ket", "u_ket4", "g_c", "g_lindblad", "g_ket", "s_1", "s_2"]
REPR = [dict(), dict(oper_dtype=np.ndarray), dict(oper_dtype=Qobj), dict(memory_optimization=1), dict(oper_dtype=Qobj, cache_phased_dyn_gen=True)]
COMB = {"UNIT": [("DEF", "DEF"), ("FRECHET", "TRACEDIFF"), ("APPROX", "TDAPPROX")], "GEN_MAT": [("DEF", "DEF"), ("AUG_MAT", "TRACEDIFF"), ("APPROX", "TDAPPROX")],
        "SYMPL": [("DEF", "DEF"), ("APPROX", "TDAPPROX")]}


def cases(tier):
    out = []
    for s, td, tc in itertools.product(SYS, (0, 1), (0, 1)):
        for i, _ in enumerate(COMB[S.SYSTEMS[s].kind]):
            for data in DATA:
                out.append(dict(kind="forms", system=s, td=td, tc=tc, comb=i, data=data))
    for c in CFG:
        for a in ops(c):
            out.append(dict(kind="history", cfg=c, first=a, depth=3 if tier == "quick" else 4))
    return out


def run_case(case, col):
    dict(forms=forms, history=histories)[case["kind"]](case, col)


# ------------------------------------------------------------------ (a)
class Former:
    """operators of a system in a given form"""

    def __init__(self, s, data, sup):
        self.s, self.data, self.sup, self.i = s, data, sup, 0

    def q(self, m):
        q = self.s.q(m)
        if self.sup and q.shape == (4, 4):
            q = Qobj(np.array(m), dims=[[[2], [2]], [[2], [2]]])
        d = self.data
        if d == "mixed":
            d = DATA[self.i % 3]
            self.i += 1
        if d == "Dia" and q.shape[0] != q.shape[1]:
            d = "Dense"
        return q.to(d)

    def drift(self, f):
        if f == "one":
            return self.q(self.s.drift)
        return dict(list=list, tuple=tuple)[f](self.q(x) for x in self.s.drift)

    def ctrls(self, f):
        c = self.s.ctrls
        if f in ("list", "tuple"):
            return dict(list=list, tuple=tuple)[f](self.q(x) for x in c)
        if f == "array":
            a = np.empty((len(c), len(c[0])), dtype=object)
            for k, row in enumerate(c):
                for j, x in enumerate(row):
                    a[k, j] = self.q(x)
            return a
        o, i = dict(lists=(list, list), tuples=(tuple, tuple)).get(f) or ((list, tuple) if f == "list of tuples" else (tuple, list))
        return o(i(self.q(x) for x in row) for row in c)


def build(s, fm, cf, df, prop, fid, dp, route):
    import qutip_qtrl.dynamics as dyn
    import qutip_qtrl.fidcomp as fc
    import qutip_qtrl.optimconfig as oc
    import qutip_qtrl.propcomp as pc
    import qutip_qtrl.pulseoptim as po

    if route in ("create", "again", "again_ham"):
        s0 = s
        fm0, c0, d0 = fm, cf, df
        if route != "create":       # other operators first
            base = S.SYSTEMS[s.name.split("+")[0]]
            s0 = S.System(base.name, base.kind, base.drift * 0.5, base.ctrls, base.initial, base.target, base.dims)
            fm0, c0, d0 = Former(s0, "Dense", fm.sup), "list", "one"
        o = po.create_pulse_optimizer(fm0.drift(d0), fm0.ctrls(c0), fm.q(s.initial), fm.q(s.target), tau=np.array(TAU), dyn_type=s.kind,
                                      prop_type=prop, fid_type=fid, dyn_params=dict(dp), init_pulse_type="ZERO", log_level=40)
        d = o.dynamics
        if route != "create":
            d.initialize_controls(AMP["a0"][s.n_ctrls].copy())
            d.fid_computer.get_fid_err()
            if route == "again":
                d.drift_dyn_gen, d.ctrl_dyn_gen = fm.drift(df), fm.ctrls(cf)
            else:
                d.drift_ham, d.ctrl_ham = fm.drift(df), fm.ctrls(cf)
        return d
    cls = dict(UNIT=dyn.DynamicsUnitary, GEN_MAT=dyn.DynamicsGenMat, SYMPL=dyn.DynamicsSymplectic)[s.kind]
    d = cls(oc.OptimConfig())
    d.log_level = 40
    d.apply_params(dict(dp))
    if route == "attr":
        d.drift_dyn_gen, d.ctrl_dyn_gen = fm.drift(df), fm.ctrls(cf)
    else:
        d.drift_ham, d.ctrl_ham = fm.drift(df), fm.ctrls(cf)
    d.initial, d.target, d.tau = fm.q(s.initial), fm.q(s.target), list(TAU)
    if prop != "DEF":
        d.prop_computer = dict(FRECHET=pc.PropCompFrechet, APPROX=pc.PropCompApproxGrad, AUG_MAT=pc.PropCompAugMat)[prop](d)
    if fid != "DEF":
        d.fid_computer = dict(TRACEDIFF=fc.FidCompTraceDiff, TDAPPROX=fc.FidCompTraceDiffApprox)[fid](d)
    return d


def fidname(s, fid):
    return "PSU" if s.kind == "UNIT" and fid == "DEF" else "TD"


def forms(case, col):
    base = S.SYSTEMS[case["system"]]
    s = base.with_time(bool(case["td"]), bool(case["tc"]), 3)
    A = AMP["a1"][s.n_ctrls]
    for prop, fid in [COMB[s.kind][case["comb"]]]:
        r = Ref(s.kind, s.drift, s.ctrls, s.initial, s.target, A, TAU, fid=fidname(s, fid))
        want = dict(err=r.err(), grad=r.grad(), evo=r.fwd()[-1])
        gt = 1e-6 if prop != "APPROX" else 2e-3
        for cf, df, data, sup, dp, route in itertools.product(
                CF["td" if case["tc"] else "const"], DF["td" if case["td"] else "const"], [case["data"]], (0, 1) if s.name.startswith("g_lind") else (0,), REPR, ROUTES):
            if route.endswith("ham") and s.kind != "UNIT":
                continue
            tag = "%s %s/%s controls as %s, drift as %s, %s%s, %s, %s" % (s.name, prop, fid, cf, df, data, " super" if sup else "", dp, route)
            fm = Former(s, data, sup)
            col.execution()
            try:
                d = build(s, fm, cf, df, prop, fid, dp, route)
                cg, dg = (d.ctrl_dyn_gen, d.drift_dyn_gen)
                d.initialize_controls(A.copy())
                f = d.fid_computer
                got = dict(err=f.get_fid_err(), grad=np.array(f.get_fid_err_gradient()), evo=d.full_evo.full())
            except Exception as e:
                col.fail("form:raised:%s" % type(e).__name__, "%s: %r" % (tag, e))
                continue
            for k in want:
                t = (gt, gt) if k == "grad" else (1e-8, 1e-9)
                col.check(close(got[k], want[k], *t), "form:%s" % k, "%s: %s, expected %s" % (tag, np.round(got[k], 7), np.round(want[k], 7)))
            q0 = fm.q(s.drift[0] if case["td"] else s.drift)
            col.check(all(p.dims == q0.dims for p in d.prop) and all(p.dims == q0.dims for p in d.dyn_gen), "form:dims",
                      "%s: propagators have dimensions %s, generators %s, drift %s" % (tag, d.prop[0].dims, d.dyn_gen[0].dims, q0.dims))
            qi = fm.q(s.initial)
            col.check(all(x.dims == qi.dims for x in d.fwd_evo), "form:dims:evo", "%s: evolution %s, initial %s" % (tag, d.fwd_evo[-1].dims, qi.dims))
            col.check(d.num_ctrls == s.n_ctrls, "form:num_ctrls", "%s: %s controls" % (tag, d.num_ctrls))
            if s.kind == "UNIT":
                col.check(d.ctrl_ham is d.ctrl_dyn_gen and d.drift_ham is d.drift_dyn_gen, "form:ham", "%s: ham and dyn_gen differ" % tag)
            col.step(3)
            col.validated()
            col.state((s.name, prop, fid, cf, df, data, sup, str(dp), route))
            col.outcome((s.kind, d.oper_dtype.__name__, type(cg).__name__, type(dg).__name__))


# ------------------------------------------------------------------ (b)
CFG = {
    # name: (system, propagator, fidelity, dyn_params)
    "diag": ("u_z_xy", "DEF", "DEF", {}), "diag_q": ("u_zx_xyz", "DEF", "DEF", dict(oper_dtype=Qobj, memory_optimization=1)),
    "fre": ("u_q3", "FRECHET", "DEF", {}), "ket": ("u_ket", "DEF", "DEF", {}), "td": ("u_z_xy", "DEF", "TRACEDIFF", {}), "uapx": ("u_z_xy", "APPROX", "TDAPPROX", {}),
    "gen": ("g_c", "DEF", "DEF", {}), "gen_q": ("g_nilp", "AUG_MAT", "DEF", dict(oper_dtype=Qobj)), "gapx": ("g_lindblad", "APPROX", "TDAPPROX", {}),
    "symp": ("s_1", "DEF", "DEF", {}), "symp_q": ("s_1", "DEF", "DEF", dict(oper_dtype=Qobj, memory_optimization=1)),
}


def ops(c):
    kind = S.SYSTEMS[CFG[c][0]].kind
    o = ["d", "c", "ct", "a", "i", "q", "fn", "fo"]
    if kind == "UNIT":
        o += ["dh", "ch", "cth"]
        if CFG[c][2] == "DEF":
            o += ["pn", "po"]
    return o


def histories(case, col):
    for rest in itertools.product(ops(case["cfg"]), repeat=case["depth"] - 1):
        history(case["cfg"], (case["first"],) + rest, col)


_R = {}


def ref(cfg, dr, ct, am, ph):
    k = (cfg, dr, ct, am, ph)
    if k not in _R:
        s = S.SYSTEMS[CFG[cfg][0]]
        drift, ctrls = operators(s, dr, ct)
        r = Ref(s.kind, drift, ctrls, s.initial, s.target, AMP[am][s.n_ctrls], TAU, fid=ph if fidname(s, CFG[cfg][2]) == "PSU" else "TD")
        n = range(3)
        _R[k] = dict(err=r.err(), grad=r.grad(), fwd=r.fwd(), onwd=r.onwd(), onto=r.onto(), target=r.onto_target(), gen=[r.gen(i) for i in n],
                     pgen=[r.phase(r.gen(i)) for i in n], pctrl=[r.phase(np.array(r.c(0, j), dtype=complex)) for j in range(s.n_ctrls)], prop=r.props(),
                     dprop=[[r.dprop(i, j) for j in range(s.n_ctrls)] for i in n],
                     diff=[[la_expm((r.phase(r.gen(i)) + 0.01 * r.phase(np.array(r.c(i, j), dtype=complex))) * TAU[i]) for j in range(s.n_ctrls)] for i in n])
    return _R[k]


def la_expm(m):
    import scipy.linalg as la

    return la.expm(m)


def operators(s, dr, ct):
    drift = s.drift * dict(d0=1.0, d1=-0.6, d2=1.7)[dr]
    f = dict(c0=1.0, c1=0.5, c2=-1.3, t1=0.8, t2=1.2)[ct]
    ctrls = [c * f for c in s.ctrls]
    if ct[0] == "t":
        n = len(ctrls)
        ctrls = [[ctrls[(j + k) % n] * (1 + 0.2 * k) for j in range(n)] for k in range(3)]
    return drift, ctrls


def history(cfg, seq, col):
    sn, prop, fid, dp = CFG[cfg]
    s = S.SYSTEMS[sn]
    o = S.make_optim(s, TAU, fid=fid, prop=prop, dyn_params=dict(dp), log_level=40)
    d = o.dynamics
    f = d.fid_computer
    n = s.n_ctrls
    st = dict(d="d0", c="c0", a="a0", p="PSU", f=bool(f.uses_onwd_evo))
    pend = {}
    d.initialize_controls(AMP["a0"][n].copy())

    def q(m):
        return [[s.q(x) for x in row] for row in m] if isinstance(m[0], list) else [s.q(x) for x in m]

    for i, op in enumerate(seq + ("i", "q")):
        tag = "%s after %s" % (cfg, " ".join((seq + ("i", "q"))[: i + 1]))
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                if op in ("d", "dh"):
                    v = "d1" if op == "d" else "d2"
                    if "d" in pend and pend["d"][1] != op:
                        return      # both names
                    pend["d"] = v, op
                    setattr(d, "drift_dyn_gen" if op == "d" else "drift_ham", s.q(operators(s, v, "c0")[0]))
                elif op in ("c", "ch", "ct", "cth"):
                    v = dict(c="c1", ch="c2", ct="t1", cth="t2")[op]
                    if "c" in pend and (pend["c"][1][-1] == "h") != (op[-1] == "h"):
                        return
                    pend["c"] = v, op
                    setattr(d, "ctrl_ham" if op[-1] == "h" else "ctrl_dyn_gen", q(operators(s, "d0", v)[1]))
                elif op == "a":
                    st["a"] = "a1" if st["a"] == "a0" else "a0"
                    d.update_ctrl_amps(AMP[st["a"]][n].copy())
                elif op == "i":
                    d.initialize_controls(AMP[st["a"]][n].copy())
                    for k, v in pend.items():
                        st[k] = v[0]
                    pend = {}
                elif op == "pn":
                    st["p"] = f.phase_option = "SU"
                elif op == "po":
                    f.set_phase_option("PSU")
                    st["p"] = "PSU"
                elif op == "fn":
                    f.uses_onwd_evo = True
                    pend["f"] = True, op
                elif op == "fo":
                    f.uses_evo_t2end = True
                    pend["f"] = True, op
                    col.check(f.uses_onwd_evo is True and f.uses_evo_t2end is True and f.uses_evo_t2targ == f.uses_onto_evo, "flags", tag)
            if op in ("po", "fo"):
                col.check(any(issubclass(x.category, FutureWarning) for x in w), "silent:%s" % op, "no FutureWarning; %s" % tag)
            else:
                col.check(not any(issubclass(x.category, FutureWarning) for x in w), "warned:%s" % op, "FutureWarning %s; %s" % ([str(x.message) for x in w], tag))
            if op == "q" and not pend:
                if not query(cfg, d, f, s, st, tag, col):
                    return
        except Exception as e:
            col.fail("raised:%s" % type(e).__name__, "%s: %r" % (tag, e))
            return
        col.step()
        col.state((cfg, tuple(sorted(st.items())), tuple(sorted((k, v[0]) for k, v in pend.items()))))
    col.execution()
    col.validated()
    col.outcome((cfg,) + tuple(sorted(st.items())))


def m(x):
    return x.full() if isinstance(x, Qobj) else np.asarray(x)


def query(cfg, d, f, s, st, tag, col):
    r = ref(cfg, st["d"], st["c"], st["a"], st["p"])
    approx = CFG[cfg][1] == "APPROX"
    ok = [True]

    def same(sig, got, want, tol=1e-8):
        if isinstance(want, list):
            if not (len(got) == len(want)):
                ok[0] &= col.check(False, sig, "%d entries, expected %d; %s" % (len(got), len(want), tag))
                return
            for k, (x, y) in enumerate(zip(got, want)):
                same(sig, x, y, tol)
        else:
            ok[0] &= bool(col.check(close(m(got), want, tol, tol), sig, "%s, expected %s; %s" % (np.round(m(got), 7), np.round(want, 7), tag)))

    def values():
        same("err", f.get_fid_err(), r["err"])
        same("grad", np.array(f.get_fid_err_gradient()), r["grad"], 2e-3 if approx else 1e-6)
        same("evo", d.full_evo, r["fwd"][-1])

    def old(sig, fn, want, tol=1e-8):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            got = fn()
        ok[0] &= bool(col.check(any(issubclass(x.category, FutureWarning) for x in w), "silent:%s" % sig, "no FutureWarning; %s" % tag))
        if want is None:
            ok[0] &= bool(col.check(got is None, sig, "%r, expected None; %s" % (got, tag)))
        elif isinstance(want, int):
            ok[0] &= bool(col.check(got == want, sig, "%r, expected %r; %s" % (got, want, tag)))
        else:
            same(sig, got, want, tol)

    values()
    if not ok[0]:
        return False
    pc, n = d.prop_computer, s.n_ctrls
    old("evo_init2t", lambda: d.evo_init2t, r["fwd"])
    if st["f"]:
        old("evo_t2end", lambda: d.evo_t2end, r["onwd"])
    if f.uses_onto_evo:
        old("evo_t2targ", lambda: d.evo_t2targ, r["onto"])
    else:
        old("evo_t2targ", lambda: d.evo_t2targ, None)
    old("get_owd_evo_target", d.get_owd_evo_target, r["target"])
    old("get_num_ctrls", d.get_num_ctrls, n)
    old("get_timeslot_for_fidelity_calc", d.tslot_computer.get_timeslot_for_fidelity_calc, 3)
    for j in range(n):
        old("get_ctrl_dyn_gen", lambda: d.get_ctrl_dyn_gen(j), r["pctrl"][j])
    for k in range(3):
        old("get_dyn_gen", lambda: d.get_dyn_gen(k), r["pgen"][k])
        old("combine_dyn_gen", lambda: d.combine_dyn_gen(k), r["gen"][k])
        old("compute_propagator", lambda: pc.compute_propagator(k), r["prop"][k])
        for j in range(n):
            if approx:
                old("compute_diff_prop", lambda: pc.compute_diff_prop(k, j, 0.01), r["diff"][k][j])
            else:
                old("compute_prop_grad", lambda: list(pc.compute_prop_grad(k, j)), [r["prop"][k], r["dprop"][k][j]], 1e-7)
                old("compute_prop_grad", lambda: pc.compute_prop_grad(k, j, compute_prop=False), r["dprop"][k][j], 1e-7)
    if s.kind == "UNIT":
        same("H", d.H, r["gen"])
    values()
    return ok[0]
