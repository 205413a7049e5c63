"""C11: the entry points, over every pair of options, all equivalent ways of giving them, and every rejected choice."""
import inspect
import itertools
import logging

import numpy as np
from qutip import Qobj

from .. import crabref as X
from .. import pulses as P
from .. import systems as S
from ..ref import Ref
from ..script import Clock, Draws, Return, minimiser_patch, patched
from . import c09, c10
from .c08 import norm_bounds, own

SYS = {"UNIT": "u_zx_xyz", "GEN_MAT": "g_c", "SYMPL": "s_1"}
TAU = [0.3, 0.55, 0.2]
META = dict(
    rule="for each algorithm and dynamics type: every single option value and every pair of option values of different options (thorough: triples over "
         "a reduced set), given through every entry point able to express them (general, unitary, chopped-basis, two-step, deprecated names); under a "
         "scripted minimiser and virtual clock everything the optimiser hands over, evaluates and returns is compared with a model of the "
         "options, and between the entry points; every explicit-over-general precedence rule with every other option; every unknown or "
         "inconsistent choice through every entry point",
    bounds=lambda tier: dict(pairs=True, triples=tier != "quick", options={a: len(ATOMS[a]) for a in ATOMS}),
    assumptions=["virtual clock and scripted minimiser as in C06", "all random draws are the same number here (C09 and C10 vary them)"],
)


def A(group, label, kw, **e):
    return dict(group=group, label=label, kw=kw, e=e)


COMMON = [
    A("lb", "lb-0.6", dict(amp_lbound=-0.6), lb=-0.6), A("lb", "lb0", dict(amp_lbound=0.0), lb=0.0),
    A("ub", "ub0.7", dict(amp_ubound=0.7), ub=0.7), A("ub", "ub0", dict(amp_ubound=0.0), ub=0.0),
    A("ub", "ubopt", dict(optim_params=dict(amp_ubound=0.4)), ub=0.4),
    A("targ", "targ0.3", dict(fid_err_targ=0.3), targ=0.3), A("targ", "targ0.9", dict(fid_err_targ=0.9), targ=0.9),
    A("targ", "targtc", dict(method_params=dict(fid_err_targ=0.45)), targ=0.45),
    A("iter", "iter7", dict(max_iter=7), maxiter=7), A("iter", "iter1", dict(max_iter=1), maxiter=1),
    A("iter", "itertc", dict(method_params=dict(max_iterations=11)), maxiter=11),
    A("wall", "wall5", dict(max_wall_time=5.0), wall=5.0), A("wall", "wall0.5", dict(max_wall_time=0.5), wall=0.5),
    A("wall", "walltc", dict(method_params=dict(max_wall_time=2.0)), wall=2.0),
    A("calls", "calls2", dict(method_params=dict(max_fid_func_calls=2)), maxcalls=2),
    A("times", "num", dict(tau=None, num_tslots=3, evo_time=1.2), tau=[0.4] * 3),
    A("times", "taulist", dict(tau=[0.5, 0.1]), tau=[0.5, 0.1]),
    A("times", "both", dict(tau=[0.5, 0.1, 0.2], num_tslots=7, evo_time=9.0), tau=[0.5, 0.1, 0.2]),
    A("dynp", "qobj", dict(dyn_params=dict(oper_dtype=Qobj)), attr={"dynamics.oper_dtype": Qobj}),
    A("dynp", "ndarray", dict(dyn_params=dict(oper_dtype=np.ndarray)), attr={"dynamics.oper_dtype": np.ndarray}),
    A("dynp", "mem", dict(dyn_params=dict(memory_optimization=1)), attr={"dynamics.memory_optimization": 1}),
    A("dynp", "note", dict(dyn_params=dict(my_note="n1")), attr={"dynamics.my_note": "n1"}),
    A("dyndump", "dyndump", dict(dyn_params=dict(dumping="FULL")), attr={"dynamics.dumping": "FULL"}),
    A("propp", "propnote", dict(prop_params=dict(my_note="n2")), attr={"dynamics.prop_computer.my_note": "n2"}),
    A("fidp", "fidnote", dict(fid_params=dict(my_note="n3")), attr={"dynamics.fid_computer.my_note": "n3"}),
    A("tslotp", "tslotnote", dict(tslot_params=dict(my_note="n4")), attr={"dynamics.tslot_computer.my_note": "n4"}),
    A("tslot", "updall", dict(tslot_type="UPDATE_ALL")), A("tslot", "ampall", dict(amp_update_mode="ALL")),
    A("tslot", "ampupd", dict(amp_update_mode="UPDATE_ALL")),
    A("optp", "optnote", dict(optim_params=dict(my_note="n5")), attr={"my_note": "n5"}),
    A("dump", "dumpsum", dict(optim_params=dict(dumping="SUMMARY")), attr={"dumping": "SUMMARY"}),
    A("dump", "dumpfull", dict(optim_params=dict(dumping="full")), attr={"dumping": "FULL"}),
    A("disp", "disp", dict(optim_params=dict(disp_conv_msg=True)), disp=True),
    A("log", "logwarn", dict(log_level=31), level=31), A("log", "loginfo", dict(log_level=20), level=20),
    A("stats", "stats", dict(gen_stats=True), stats=True),
]
GRAPE = COMMON + [
    A("method", "lbfgsb", dict(optim_method="FMIN_L_BFGS_B"), call="fmin_l_bfgs_b"), A("method", "LBFGSB", dict(optim_method="LBFGSB"), call="fmin_l_bfgs_b"),
    A("method", "lower", dict(optim_method="fmin_l_bfgs_b"), call="fmin_l_bfgs_b"),
    A("method", "none", dict(optim_method=None), call="fmin_l_bfgs_b"), A("method", "def", dict(optim_method="def"), call="fmin_l_bfgs_b"),
    A("method", "bfgs", dict(optim_method="FMIN_BFGS"), call="fmin_bfgs"),
    A("method", "gen", dict(optim_method="BFGS"), call="minimize", method="BFGS"),
    A("method", "genl", dict(optim_method="L-BFGS-B"), call="minimize", method="L-BFGS-B"),
    A("method", "alg_tnc", dict(optim_alg="TNC"), call="minimize", method="TNC"),
    A("method", "alg_bfgs", dict(optim_alg="FMIN_BFGS"), call="fmin_bfgs"),
    A("grad", "mg1e-3", dict(min_grad=1e-3), gmin=1e-3), A("grad", "mg0.8", dict(min_grad=0.8), gmin=0.8),
    A("grad", "mgtc", dict(method_params=dict(min_gradient_norm=0.05)), gmin=0.05),
    A("corr", "corr6", dict(max_metric_corr=6), maxcor=6), A("corr", "corrmp", dict(method_params=dict(max_metric_corr=5)), maxcor=5),
    A("corr", "corropt", dict(method_params=dict(maxcor=4)), maxcor=4),
    A("acc", "acc1e9", dict(accuracy_factor=1e9), factr=1e9), A("acc", "accmp", dict(method_params=dict(accuracy_factor=1e3)), factr=1e3),
    A("mopt", "mopt", dict(method_params=dict(eps=1e-5)), option=("eps", 1e-5)),
    A("approx", "approx", dict(optim_params=dict(approx_grad=True)), jac=False),
    A("bounds", "bounds", dict(optim_params=dict(bounds="EXPLICIT")), explicit=True),
    A("pulse", "zero", dict(init_pulse_type="ZERO"), pulse=("ZERO", {})), A("pulse", "lin", dict(init_pulse_type="LIN"), pulse=("LIN", {})),
    A("pulse", "none", dict(init_pulse_type=None), pulse=("RND", {})), A("pulse", "def", dict(init_pulse_type="def"), pulse=("RND", {})),
    A("pulse", "sine", dict(init_pulse_type="SINE", init_pulse_params=dict(num_waves=1.7, start_phase=0.3)),
      pulse=("SINE", dict(num_waves=1.7, start_phase=0.3))),
    A("pulse", "gauss", dict(init_pulse_type="GAUSSIAN"), pulse=("GAUSSIAN", {})),
    A("pulse", "edge", dict(init_pulse_type="GAUSSIAN_EDGE"), pulse=("GAUSSIAN_EDGE", {})),
    A("pulse", "tri", dict(init_pulse_type="TRIANGLE", init_pulse_params=dict(wavelen=0.7)), pulse=("TRIANGLE", dict(wavelen=0.7))),
    A("scal", "scal0.3", dict(pulse_scaling=0.3), scaling=0.3), A("scal", "scalp", dict(init_pulse_params=dict(scaling=-0.4)), scaling=-0.4),
    A("offs", "offs0.2", dict(pulse_offset=0.2), offset=0.2), A("offs", "offsp", dict(init_pulse_params=dict(offset=-0.15)), offset=-0.15),
]
CRAB = COMMON + [
    A("method", "fmin", dict(optim_method="fmin"), call="fmin"), A("method", "FMIN", dict(optim_method="FMIN"), call="fmin"),
    A("method", "def", dict(optim_method="DEF"), call="fmin"), A("method", "none", dict(optim_method=None), call="fmin"),
    A("method", "nm", dict(optim_method="Nelder-Mead"), call="minimize", method="Nelder-Mead"),
    A("method", "powell", dict(optim_method="Powell"), call="minimize", method="Powell"),
    A("xtol", "xtol", dict(method_params=dict(xtol=1e-2)), xtol=1e-2), A("ftol", "ftol", dict(method_params=dict(ftol=1e-3)), ftol=1e-3),
    A("ncoef", "nc1", dict(alg_params=dict(num_coeffs=1)), nc=1), A("ncoef", "nc3", dict(alg_params=dict(num_coeffs=3)), nc=3),
    A("cscal", "cs0.2", dict(alg_params=dict(init_coeff_scaling=0.2)), cscal=0.2),
    A("cscal", "cscrab", dict(alg_params=dict(crab_pulse_params=dict(scaling=0.35))), cscal=0.35),
    A("fix", "free", dict(alg_params=dict(fix_frequency=False)), nb=3), A("fix", "fixed", dict(alg_params=dict(fix_frequency=True)), nb=2),
    A("crnd", "norand", dict(alg_params=dict(crab_pulse_params=dict(randomize_coeffs=False))), rand=False),
    A("crnd", "nornf", dict(alg_params=dict(crab_pulse_params=dict(randomize_freqs=False))), randf=False),
    A("pulse", "lin", dict(init_pulse_type="LIN"), pulse=("LIN", {})),
    A("pulse", "sine", dict(init_pulse_type="SINE", init_pulse_params=dict(num_waves=1.7, start_phase=0.3)),
      pulse=("SINE", dict(num_waves=1.7, start_phase=0.3))),
    A("pulse", "rnd", dict(init_pulse_type="RND"), pulse=("RND", {})), A("pulse", "def", dict(init_pulse_type="DEF"), pulse=None),
    A("act", "add", dict(init_pulse_params=dict(pulse_action="ADD")), action="ADD"),
    A("act", "mod", dict(init_pulse_params=dict(pulse_action="modulate")), action="MODULATE"),
    A("scal", "scal0.3", dict(pulse_scaling=0.3), scaling=0.3), A("scal", "scalp", dict(init_pulse_params=dict(scaling=-0.4)), scaling=-0.4),
    A("offs", "offs0.2", dict(pulse_offset=0.2), offset=0.2), A("offs", "offsp", dict(init_pulse_params=dict(offset=-0.15)), offset=-0.15),
    A("ramp", "edge", dict(ramping_pulse_type="GAUSSIAN_EDGE", ramping_pulse_params=dict(decay_time=0.1)), ramp=("GAUSSIAN_EDGE", dict(decay_time=0.1))),
    A("ramp", "edgedef", dict(ramping_pulse_type="GAUSSIAN_EDGE"), ramp=("GAUSSIAN_EDGE", {})),
    A("ramp", "lin", dict(ramping_pulse_type="LIN", ramping_pulse_params=dict(start_val=0.1, end_val=0.9)),
      ramp=("LIN", dict(start_val=0.1, end_val=0.9))),
    A("prop", "frechet", dict(prop_type="FRECHET"), prop="PropCompFrechet"), A("prop", "defp", dict(prop_type="DEF"), prop="PropCompApproxGrad"),
]
UNIT_FID = [
    A("phase", "SU", dict(fid_params=dict(phase_option="SU")), fid="SU"), A("phase", "PSU", dict(fid_params=dict(phase_option="PSU")), fid="PSU"),
    A("phase", "argSU", dict(phase_option="SU"), fid="SU"), A("phase", "argPSU", dict(phase_option="PSU"), fid="PSU"),
    A("phase", "unit", dict(fid_type="UNIT"), fid="PSU"), A("phase", "unitlow", dict(fid_type="unit"), fid="PSU"),
]
TD_FID = [
    A("phase", "td", dict(fid_type="TRACEDIFF"), fid="TD"), A("phase", "tdlow", dict(fid_type="tracediff"), fid="TD"),
    A("phase", "tds", dict(fid_type="TRACEDIFF", fid_params=dict(scale_factor=0.31)), fid="TD", scale=0.31),
    A("phase", "tdsarg", dict(fid_type="TRACEDIFF", fid_err_scale_factor=0.17), fid="TD", scale=0.17),
]
PROP = [A("prop", "frechet", dict(prop_type="FRECHET"), prop="PropCompFrechet"), A("prop", "augmat", dict(prop_type="AUG_MAT"), prop="PropCompAugMat"),
        A("prop", "none", dict(prop_type=None)), A("prop", "def", dict(prop_type="DEF"))]
ATOMS = {
    "GRAPE/UNIT": GRAPE + UNIT_FID + TD_FID + PROP + [A("prop", "diag", dict(prop_type="DIAG"), prop="PropCompDiag")],
    "GRAPE/GEN_MAT": GRAPE + [a for a in TD_FID] + PROP + [A("phase", "tda", dict(fid_type="TDAPPROX", prop_type="APPROX"), fid="TD", prop="PropCompApproxGrad"),
                                                           A("phase", "scalearg", dict(fid_err_scale_factor=0.23), fid="TD", scale=0.23),
                                                           A("dtype", "none", dict(dyn_type=None))],
    "GRAPE/SYMPL": GRAPE + TD_FID[2:] + PROP[:2],
    "CRAB/UNIT": CRAB + UNIT_FID,
    "CRAB/GEN_MAT": CRAB + TD_FID,
    "CRAB/SYMPL": CRAB + TD_FID[2:],
}
ENTRIES = {"GRAPE": ["optimize_pulse", "optimize_pulse_unitary", "create"],
           "CRAB": ["optimize_pulse", "opt_pulse_crab", "opt_pulse_crab/args", "optimize_pulse_unitary", "opt_pulse_crab_unitary",
                    "opt_pulse_crab_unitary/args", "create"]}


def clash(a, b):
    if a["group"] == b["group"]:
        return True
    g = {a["group"], b["group"]}
    lab = {a["label"], b["label"]}
    if g == {"prop", "phase"} and ("tda" in lab):
        return True
    if g == {"lb", "ub"} and lab & {"lb0"} and lab & {"ub0"}:
        return True  # no room
    ka, kb = a["kw"], b["kw"]
    # the same argument given twice
    return any(k in kb and not (isinstance(ka[k], dict) and isinstance(kb[k], dict)) for k in ka)


def cases(tier):
    out = []
    for ak in ATOMS:
        n = len(ATOMS[ak])
        for i in range(-1, n):
            out.append(dict(kind="opts", ak=ak, i=i))
            if tier != "quick" and i >= 0:
                for j in range(i + 1, n):
                    if not clash(ATOMS[ak][i], ATOMS[ak][j]):
                        out.append(dict(kind="triples", ak=ak, i=i, j=j))
    for i in range(len(PREC)):
        out.append(dict(kind="prec", i=i))
    for i in range(len(REJECT)):
        out.append(dict(kind="reject", i=i))
    for i in range(len(CTOR)):
        out.append(dict(kind="ctor", i=i))
    for ak in ATOMS:
        for td in range(4):
            for nts in (1, 2, 3, 4):
                for nc in (1, 2, 3):
                    out.append(dict(kind="levels", ak=ak, td=td, nts=nts, nc=nc))
    return out


def run_case(case, col):
    dict(opts=opts, triples=triples, prec=prec, reject=reject, levels=levels, ctor=ctor)[case["kind"]](case, col)


# ------------------------------------------------------------------ combining and translating
def merge_kw(*kws):
    out = {}
    for kw in kws:
        for k, v in kw.items():
            if isinstance(v, dict):
                o = out.setdefault(k, {})
                for kk, vv in v.items():
                    if isinstance(vv, dict):
                        o[kk] = dict(o.get(kk, {}), **vv)
                    else:
                        o[kk] = vv
            else:
                out[k] = v
    return out


def translate(entry, alg, kind, kw):
    """arguments of the entry point that mean the same; None if it cannot express them"""
    import qutip_qtrl.pulseoptim as po

    kw = merge_kw(kw)
    name = entry.split("/")[0]
    f = po.create_pulse_optimizer if name == "create" else getattr(po, name)
    if "unitary" in name:
        if kind != "UNIT" or "dyn_type" in kw or "prop_type" in kw or "fid_type" in kw or "fid_err_scale_factor" in kw:
            return None
    elif kind != "GEN_MAT":
        kw.setdefault("dyn_type", kind)
    if "crab" in name:
        ren = dict(init_pulse_type="guess_pulse_type", init_pulse_params="guess_pulse_params", pulse_scaling="guess_pulse_scaling",
                   pulse_offset="guess_pulse_offset")
        kw = {ren.get(k, k): v for k, v in kw.items()}
        kw.pop("min_grad", None)
        if kw.get("guess_pulse_type", "x") in ("DEF",):
            kw["guess_pulse_type"] = None
        if entry.endswith("/args"):
            ap = kw.get("alg_params", {})
            for k in ("num_coeffs", "init_coeff_scaling"):
                if k in ap:
                    kw[k] = ap.pop(k)
            if not ap:
                kw.pop("alg_params", None)
            gp = kw.get("guess_pulse_params", {})
            for k, a in (("pulse_action", "guess_pulse_action"), ("scaling", "guess_pulse_scaling"), ("offset", "guess_pulse_offset")):
                if k in gp:
                    kw[a] = gp.pop(k)
    elif alg == "CRAB":
        kw["alg"] = "CRAB"
        kw.setdefault("fid_err_targ", 1e-5)
        kw["min_grad"] = 0.0
    sig = inspect.signature(f).parameters
    if any(k not in sig for k in kw):
        return None
    return kw


# ------------------------------------------------------------------ one observed run
class Obs(dict):
    pass


def points(alg, nv):
    k = np.arange(nv, dtype=float)
    return [0.4 * np.cos(1.3 * k + 0.3), 0.7 * np.sin(0.9 * k + 1.1) - 0.1, 0.25 + 0.1 * np.cos(2.1 * k), np.zeros(nv), 0.05 + 0.02 * k]


SCRIPT = [("E", 0), ("C", 0.3), ("G", 0), ("E", 1), ("C", 1.5), ("E", 2), ("G", 2), ("E", 3), ("C", 2.5), ("G", 3), ("C", 200.0), ("E", 4), ("G", 4)]


def reset_levels():
    """the level is kept by the loggers of the process; every run starts with the default"""
    for name, lg in list(logging.root.manager.loggerDict.items()):
        if name.startswith("qutip") and isinstance(lg, logging.Logger):
            lg.setLevel(logging.WARN)


def observe(entry, alg, kind, kw, s):
    """run through the entry point; what the environment saw and what came back"""
    import qutip_qtrl.pulseoptim as po

    kw = merge_kw(kw)
    o = Obs()
    clock = Clock()
    t0 = clock.t
    calls, events = [], []

    def handler(call):
        calls.append(call)
        pts = points(alg, len(call.x0))
        o["points"] = pts
        last = None
        for k, v in SCRIPT:
            if k == "G" and call.jac is None:
                continue
            if k == "C":
                clock.t += v
            events.append([k, v if k != "C" else clock.t - t0, "raised"])
            if k == "E":
                events[-1][2] = float(call.fun(pts[v].copy()))
                last = v
            elif k == "G":
                events[-1][2] = np.array(call.jac(pts[v].copy()))
            else:
                call.callback(pts[last].copy())
                events[-1][2] = "ok"
        events.append(["R", 1, None])
        return Return("converged", pts[1], 0.5, nit=2, nfev=4)

    reset_levels()
    m = minimiser_patch(handler)
    m.update(clock.mapping())
    m.update(Draws((0.8,)).mapping())
    q = (s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target))
    if kw.get("optim_params", {}).get("bounds") == "EXPLICIT":
        nv = s.n_ctrls * len(o_tau(kw))
        kw["optim_params"] = dict(kw["optim_params"], bounds=explicit(nv))
    try:
        with patched(m):
            if entry == "create":
                opt = po.create_pulse_optimizer(*q, **kw)
                d = opt.dynamics
                d.init_timeslots()
                amps = np.zeros((d.num_tslots, d.num_ctrls))
                if isinstance(opt.pulse_generator, list):
                    for j, p in enumerate(opt.pulse_generator):
                        p.init_pulse()
                        amps[:, j] = p.gen_pulse()
                else:
                    for j in range(d.num_ctrls):
                        amps[:, j] = opt.pulse_generator.gen_pulse()
                d.initialize_controls(amps)
                r = opt.run_optimization()
            else:
                r = getattr(po, entry.split("/")[0])(*q, **kw)
        opt = r.optimizer
        o["level"] = tuple(x.log_level for x in (opt, opt.config, opt.dynamics, opt.dynamics.prop_computer, opt.dynamics.fid_computer,
                                                 opt.dynamics.tslot_computer))
    finally:
        reset_levels()
    o["opt"], o["result"], o["call"], o["events"], o["ncalls"] = opt, r, calls[0], events, len(calls)
    o["kw"] = kw
    return o


def o_tau(kw):
    t = kw.get("tau")
    return list(t) if t is not None else [kw["evo_time"] / kw["num_tslots"]] * kw["num_tslots"]


def explicit(nv):
    return [(-0.3 - 0.01 * i, 0.5 + 0.02 * i) for i in range(nv)]


def fingerprint(o):
    """everything comparable between entry points"""
    c, r, opt = o["call"], o["result"], o["opt"]
    d = opt.dynamics
    fp = {"call": c.name, "method": str(c.opt("method")).lower(), "x0": c.x0, "jac": c.jac is not None, "bounds": str(c.opt("bounds")),
          "events": [(e[0], e[1], e[2] if isinstance(e[2], str) or e[2] is None else np.asarray(e[2])) for e in o["events"]]}
    for k in ("maxiter", "maxfev", "gtol", "ftol", "maxcor", "xtol", "disp", "retall"):
        fp["arg:" + k] = c.opt(k)
    fp["options"] = str(sorted((c.opt("options") or {}).items()))
    for k in ("fid_err", "initial_fid_err", "final_amps", "initial_amps", "time", "num_iter", "num_fid_func_calls", "wall_time", "termination_reason",
              "goal_achieved", "grad_norm_final", "max_iter_exceeded", "wall_time_limit_exceeded", "max_fid_func_exceeded", "grad_norm_min_reached",
              "fidelity"):
        v = getattr(r, k, None)
        fp["result:" + k] = str(v) if isinstance(v, (str, bool)) or v is None else np.asarray(v, dtype=float)
    fp["evo"] = np.asarray(getattr(r.evo_full_final, "full", lambda: r.evo_full_final)())
    fp["types"] = tuple(type(x).__name__ for x in (opt, d, d.prop_computer, d.fid_computer, d.tslot_computer, r.stats, opt.dump, d.dump))
    fp["level"] = o["level"]
    return fp


def differ(a, b):
    out = []
    for k in a:
        x, y = a[k], b[k]
        if k == "events":
            same = len(x) == len(y) and all(e[0] == f[0] and e[1] == f[1] and eq(e[2], f[2]) for e, f in zip(x, y))
        else:
            same = eq(x, y)
        if not same:
            out.append("%s: %s / %s" % (k, show(x), show(y)))
    return out


def eq(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return np.shape(x) == np.shape(y) and np.allclose(np.asarray(x), np.asarray(y), rtol=1e-9, atol=1e-11, equal_nan=True)
    return x == y


def show(x):
    return str(x.tolist() if isinstance(x, np.ndarray) else x)[:160]


# ------------------------------------------------------------------ the model of the options
def check(o, alg, kind, e, s, tag, col):
    c, r, opt = o["call"], o["result"], o["opt"]
    d = opt.dynamics
    tau = e.get("tau", TAU)
    nts, n = len(tau), s.n_ctrls

    def ck(ok, what, msg):
        col.check(ok, what, "%s; %s" % (msg, tag))

    ck(o["ncalls"] == 1, "calls", "minimiser called %d times" % o["ncalls"])
    want = e.get("call", "fmin" if alg == "CRAB" else "fmin_l_bfgs_b")
    ck(c.name == want, "method", "ran %s, expected %s" % (c.name, want))
    if want != c.name:
        return
    if want == "minimize":
        ck(str(c.opt("method")).lower() == e["method"].lower(), "method", "ran %s, expected %s" % (c.opt("method"), e["method"]))
    mi = e.get("maxiter", 500)
    ck(c.opt("maxiter") == mi, "maxiter", "iteration limit %r, expected %r" % (c.opt("maxiter"), mi))
    if "maxcalls" in e and want != "fmin_bfgs":
        ck(c.opt("maxfev") == e["maxcalls"], "maxfev", "call limit %r, expected %r" % (c.opt("maxfev"), e["maxcalls"]))
    gmin = e.get("gmin", 1e-10 if alg == "GRAPE" else 0.0)
    if alg == "GRAPE":
        ck(c.opt("gtol") == gmin, "gtol", "gradient limit %r, expected %r" % (c.opt("gtol"), gmin))
    if "maxcor" in e and want != "fmin_bfgs":
        ck(c.opt("maxcor") == e["maxcor"], "maxcor", "corrections %r, expected %r" % (c.opt("maxcor"), e["maxcor"]))
    if "factr" in e and want == "fmin_l_bfgs_b":
        ck(c.opt("ftol") == e["factr"], "factr", "accuracy %r, expected %r" % (c.opt("ftol"), e["factr"]))
    if "option" in e and want == "minimize":
        k, v = e["option"]
        ck((c.opt("options") or {}).get(k) == v, "option", "%s is %r, expected %r" % (k, (c.opt("options") or {}).get(k), v))
    if want == "fmin":
        for k in ("xtol", "ftol"):
            if k in e:
                ck(c.opt(k) == e[k], k, "%r, expected %r" % (c.opt(k), e[k]))
    elif "ftol" in e and want == "minimize":
        ck(c.opt("ftol") == e["ftol"], "ftol", "%r, expected %r" % (c.opt("ftol"), e["ftol"]))
    if "disp" in e and want in ("fmin", "minimize"):
        ck(bool(c.opt("disp")) is True, "disp", "disp %r" % c.opt("disp"))
    jac = alg == "GRAPE" and e.get("jac", True)
    ck((c.jac is not None) == jac, "jac", "gradient given %r, expected %r" % (c.jac is not None, jac))
    lb, ub = e.get("lb"), e.get("ub")
    nv = len(c.x0)
    if alg == "GRAPE" and want in ("fmin_l_bfgs_b", "minimize"):
        w = [(own(lb, 0), own(ub, 0))] * (nts * n)
        if e.get("explicit"):
            w = explicit(nts * n)
        ck(norm_bounds(c.opt("bounds"), nv) == w, "bounds", "limits %s, expected %s" % (c.opt("bounds"), w))
    for k, v in e.get("attr", {}).items():
        x = opt
        for part in k.split("."):
            x = getattr(x, part, "missing")
        ck(x == v or x is v, "attr", "%s is %r, expected %r" % (k, x, v))
    if "prop" in e:
        ck(type(d.prop_computer).__name__ == e["prop"], "prop", "propagator computer %s" % type(d.prop_computer).__name__)
    ck((r.stats is not None) == bool(e.get("stats")), "stats", "statistics %r" % (r.stats,))
    ck((opt.dump is not None) == ("dumping" in e.get("attr", {})), "dump", "dump %r" % (opt.dump,))
    if "level" in e:
        ck(set(o["level"]) == {e["level"]}, "level", "log level %s" % (o["level"],))
    # pulses
    p = e.get("pulse", ("RND", {}) if alg == "GRAPE" else None)
    sc, off = e.get("scaling", 1.0), e.get("offset", 0.0)
    wave = mask = None
    if p:
        wave, mask = c09.Model(p[0], tau, sc, off, p[1]).wave(draws=lambda: 0.8)
        wave = c10.clip_shift(wave, lb, ub, off)
    if alg == "GRAPE":
        amps = np.repeat(wave.reshape(-1, 1), n, axis=1)
        ok = np.shape(r.initial_amps) == amps.shape and np.allclose(r.initial_amps[~mask], amps[~mask], atol=2e-5)
        ck(ok, "initial", "initial amplitudes %s, expected %s" % (np.asarray(r.initial_amps).tolist(), amps.tolist()))
        ck(np.array_equal(c.x0, np.ravel(r.initial_amps)), "x0", "start %s" % c.x0.tolist())

        def amps_of(x):
            return np.asarray(x).reshape(nts, n)
    else:
        nc, nb = e.get("nc", max(2, s.dim - 1)), e.get("nb", 2)
        ck(nv == n * nc * nb, "vars", "%d variables, expected %d" % (nv, n * nc * nb))
        if nv != n * nc * nb:
            return
        cs = e.get("cscal", 1.0)
        ck(np.all(np.abs(c.x0) <= cs + 1e-12) if e.get("rand", True) else np.array_equal(c.x0, np.full(nv, cs)) if nb == 2 else True, "coeffs",
           "initial coefficients %s" % c.x0.tolist())
        harm = 2 * np.pi / float(np.sum(tau)) * np.arange(1, nc + 1)
        freqs = [np.asarray(g.freqs, dtype=float) for g in opt.pulse_generator]
        for f in freqs:
            lim = 0.5 + 1e-9 if e.get("randf", True) else 1e-9
            ck(f.shape == (nc,) and np.all(np.abs(f - harm) <= lim), "freqs", "frequencies %s" % f.tolist())
        ramp = c09.Model(e["ramp"][0], tau, 1.0, 0.0, e["ramp"][1]).wave()[0] if "ramp" in e else None

        def amps_of(x):
            out = np.zeros((nts, n))
            for j in range(n):
                out[:, j] = X.pulse(np.asarray(x).reshape(n, nc, nb)[j], freqs[j], tau, wave, e.get("action", "MODULATE"), ramp, lb, ub, scaling=cs)
            return out

        ok = c10.close(r.initial_amps, amps_of(c.x0))
        ck(ok, "initial", "initial amplitudes %s, expected %s" % (np.asarray(r.initial_amps).tolist(), amps_of(c.x0).tolist()))
    # errors, gradients, endings
    fid = e.get("fid", "PSU" if kind == "UNIT" else "TD")

    def ref(x):
        return Ref(kind, s.drift, s.ctrls, s.initial, s.target, amps_of(x), tau, fid=fid, scale=e.get("scale"))

    targ = e.get("targ", 1e-10 if alg == "GRAPE" else 1e-5)
    wall, maxcalls = e.get("wall", 180.0), e.get("maxcalls", 1e10)
    tol = 2e-4 if e.get("prop") == "PropCompApproxGrad" else 1e-5
    ending, nE = None, 0
    for i, (k, v, got) in enumerate(o["events"]):
        if k == "R":
            break
        raised = isinstance(got, str) and got == "raised"
        end, tie = None, False
        if k == "E":
            nE += 1
            err = ref(o["points"][v]).err()
            tie = abs(err - targ) < 1e-4
            end = "goal" if err <= targ else "calls" if nE > maxcalls else None
            if not raised:
                ck(abs(got - err) <= 1e-4 * (1 + err), "error", "error %r at point %d, expected %r" % (got, v, err))
        elif k == "G":
            g = ref(o["points"][v]).grad()
            gn = np.linalg.norm(g)
            tie = abs(gn - gmin) < 1e-3
            end = "grad" if gn < gmin else None
            if not raised:
                ck(np.allclose(np.ravel(got), np.ravel(g), atol=max(tol, 1e-5) * 10, rtol=1e-3), "gradient", "gradient %s, expected %s" % (
                    np.ravel(got).tolist(), np.ravel(g).tolist()))
        else:
            end = "wall" if v > wall else None
        if tie:
            end = end if raised == (end is not None) else ("goal" if k == "E" else "grad") if raised else None
        ck((end is not None) == raised, "ending", "action %d (%s %s) %s, expected %s" % (i, k, v, "ended the run" if raised else "went on", end))
        if (end is not None) != raised:
            return
        if raised:
            ending = end
            ck(i == len(o["events"]) - 1, "ending", "went on after %s" % end)
    flags = dict(goal="goal_achieved", wall="wall_time_limit_exceeded", calls="max_fid_func_exceeded", grad="grad_norm_min_reached")
    if ending:
        ck(bool(getattr(r, flags[ending])), "flag", "ended by %s, flag not set" % ending)
    col.outcome((c.name, ending, nv, fid))


def label(atoms):
    return "+".join(a["label"] for a in atoms) or "defaults"


def expect(atoms):
    e = {}
    for a in atoms:
        for k, v in a["e"].items():
            e[k] = dict(e.get(k, {}), **v) if isinstance(v, dict) and k == "attr" else v
    return e


def one(ak, atoms, col):
    alg, kind = ak.split("/")
    s = S.SYSTEMS[SYS[kind]]
    kw = merge_kw(dict(tau=np.array(TAU)), *[a["kw"] for a in atoms])
    if alg == "CRAB" and any(a["group"] in ("act", "scal", "offs") for a in atoms) and not kw.get("init_pulse_type"):
        pass  # options of a guess pulse that is not there have no effect
    e = expect(atoms)
    if not e.get("pulse") and alg == "CRAB":
        e.pop("action", None)
    fps = []
    for entry in ENTRIES[alg]:
        k = translate(entry, alg, kind, kw)
        if k is None:
            continue
        tag = "%s %s options %s" % (entry, ak, label(atoms))
        o = observe(entry, alg, kind, k, s)
        check(o, alg, kind, e, s, tag, col)
        fps.append((entry, fingerprint(o)))
        col.execution()
        col.step(len(o["events"]))
        col.validated()
        col.state((ak, entry, label(atoms)))
    for entry, fp in fps[1:]:
        dd = differ(fps[0][1], fp)
        col.check(not dd, "equivalent", "%s and %s differ: %s; %s options %s" % (fps[0][0], entry, "; ".join(dd)[:600], ak, label(atoms)))
    col.check(len(fps) >= 1, "entries", "no entry point for %s" % label(atoms))


def opts(case, col):
    ak, i = case["ak"], case["i"]
    at = ATOMS[ak]
    if i < 0:
        one(ak, [], col)
        return
    one(ak, [at[i]], col)
    for j in range(i + 1, len(at)):
        if not clash(at[i], at[j]):
            one(ak, [at[i], at[j]], col)


def triples(case, col):
    ak, i, j = case["ak"], case["i"], case["j"]
    at = ATOMS[ak]
    for k in range(j + 1, len(at)):
        if not clash(at[i], at[k]) and not clash(at[j], at[k]):
            one(ak, [at[i], at[j], at[k]], col)


# ------------------------------------------------------------------ precedence
# (algorithms, names of the entry points, both given, only the one that counts)
MP, OP, FP, IP, GP, AP = "method_params", "optim_params", "fid_params", "init_pulse_params", "guess_pulse_params", "alg_params"
GEN = ["optimize_pulse", "create"]
ALLG = ["optimize_pulse", "optimize_pulse_unitary", "create"]
CR = ["opt_pulse_crab", "opt_pulse_crab_unitary"]
PREC = [
    (ALLG, dict(max_metric_corr=6, method_params=dict(max_metric_corr=4)), dict(method_params=dict(max_metric_corr=4))),
    (ALLG, dict(accuracy_factor=1e9, method_params=dict(accuracy_factor=1e2)), dict(method_params=dict(accuracy_factor=1e2))),
    (ALLG, dict(phase_option="SU", fid_params=dict(phase_option="PSU")), dict(fid_params=dict(phase_option="PSU"))),
    (ALLG, dict(phase_option="PSU", fid_params=dict(phase_option="SU")), dict(fid_params=dict(phase_option="SU"))),
    (["opt_pulse_crab_unitary"], dict(phase_option="PSU", fid_params=dict(phase_option="SU")), dict(fid_params=dict(phase_option="SU"))),
    (["opt_pulse_crab_unitary"], dict(phase_option="SU"), dict(fid_params=dict(phase_option="SU"))),
    (GEN, dict(fid_type="TRACEDIFF", fid_err_scale_factor=0.9, fid_params=dict(scale_factor=0.2)), dict(fid_type="TRACEDIFF", fid_params=dict(scale_factor=0.2))),
    (GEN, dict(fid_type="TRACEDIFF", fid_err_scale_factor=0.9), dict(fid_type="TRACEDIFF", fid_params=dict(scale_factor=0.9))),
    (ALLG, dict(pulse_scaling=0.3, init_pulse_params=dict(scaling=0.7)), dict(init_pulse_params=dict(scaling=0.7))),
    (ALLG, dict(pulse_offset=0.3, init_pulse_params=dict(offset=-0.2)), dict(init_pulse_params=dict(offset=-0.2))),
    (ALLG, dict(pulse_scaling=0.3, init_pulse_params=dict(scaling=0.0)), dict(init_pulse_params=dict(scaling=0.0))),
    (ALLG, dict(pulse_offset=0.3, init_pulse_params=dict(offset=0.0)), dict(init_pulse_params=dict(offset=0.0))),
    (CR, dict(guess_pulse_type="LIN", guess_pulse_scaling=0.3, guess_pulse_params=dict(scaling=0.7)), dict(guess_pulse_type="LIN", guess_pulse_params=dict(scaling=0.7))),
    (CR, dict(guess_pulse_type="LIN", guess_pulse_offset=0.3, guess_pulse_params=dict(offset=0.0)), dict(guess_pulse_type="LIN", guess_pulse_params=dict(offset=0.0))),
    (CR, dict(guess_pulse_type="LIN", guess_pulse_action="ADD", guess_pulse_params=dict(pulse_action="MODULATE")),
     dict(guess_pulse_type="LIN", guess_pulse_params=dict(pulse_action="MODULATE"))),
    (CR, dict(guess_pulse_type="LIN", guess_pulse_action="MODULATE", guess_pulse_params=dict(pulse_action="ADD")),
     dict(guess_pulse_type="LIN", guess_pulse_params=dict(pulse_action="ADD"))),
    (CR, dict(num_coeffs=3, alg_params=dict(num_coeffs=1)), dict(alg_params=dict(num_coeffs=1))),
    (CR, dict(init_coeff_scaling=3.0, alg_params=dict(init_coeff_scaling=0.2)), dict(alg_params=dict(init_coeff_scaling=0.2))),
    (CR, dict(init_coeff_scaling=3.0, alg_params=dict(crab_pulse_params=dict(scaling=0.2))), dict(alg_params=dict(crab_pulse_params=dict(scaling=0.2)))),
    (CR, dict(num_coeffs=3, alg_params=dict(init_coeff_scaling=0.2)), dict(alg_params=dict(num_coeffs=3, init_coeff_scaling=0.2))),
    (CR, dict(init_coeff_scaling=0.2, alg_params=dict(num_coeffs=3)), dict(alg_params=dict(num_coeffs=3, init_coeff_scaling=0.2))),
    (ALLG + CR, dict(max_iter=9, method_params=dict(max_iterations=4)), dict(max_iter=4)),
    (ALLG + CR, dict(max_wall_time=90, method_params=dict(max_wall_time=1.0)), dict(max_wall_time=1.0)),
    (ALLG + CR, dict(fid_err_targ=1e-9, method_params=dict(fid_err_targ=0.8)), dict(fid_err_targ=0.8)),
    (ALLG, dict(min_grad=1e-9, method_params=dict(min_gradient_norm=0.9)), dict(min_grad=0.9)),
    (ALLG + CR, dict(amp_lbound=-9.0, amp_ubound=9.0, optim_params=dict(amp_lbound=-0.2, amp_ubound=0.3)), dict(amp_lbound=-0.2, amp_ubound=0.3)),
    (ALLG + CR, dict(tau=np.array(TAU), num_tslots=9, evo_time=4.0), dict(tau=np.array(TAU))),
    (ALLG, dict(optim_alg="TNC"), dict(optim_method="TNC")),
    (ALLG, dict(amp_update_mode="ALL"), dict(tslot_type="UPDATE_ALL")),
]
OTHERS = [dict(), dict(amp_lbound=-0.5), dict(amp_ubound=0.6, max_iter=30), dict(dyn_params=dict(oper_dtype=Qobj)), dict(gen_stats=True),
          dict(log_level=20), dict(optim_params=dict(dumping="FULL")), dict(method_params=dict(max_fid_func_calls=3)), dict(optim_method="Nelder-Mead"),
          dict(optim_method="L-BFGS-B"), dict(optim_method="FMIN_BFGS"), dict(num_tslots=4, evo_time=1.1, tau=None), dict(max_wall_time=1.0),
          dict(init_pulse_type="SINE", init_pulse_params=dict(num_waves=2)), dict(prop_params=dict(note=1), tslot_params=dict(note=1))]


def prec(case, col):
    names, both, only = PREC[case["i"]]
    s = S.SYSTEMS[SYS["UNIT"]]
    for name in names:
        alg = "CRAB" if "crab" in name else "GRAPE"
        for oth in OTHERS:
            if any(k in both and not isinstance(both[k], dict) for k in oth):
                continue
            if alg == "CRAB" and (str(oth.get("optim_method", "Nelder-Mead")) != "Nelder-Mead" or "init_pulse_type" in oth):
                continue
            base = dict(tau=np.array(TAU))
            if "unitary" not in name:
                base["dyn_type"] = "UNIT"
            if alg == "GRAPE" and oth.get("optim_method") == "Nelder-Mead":
                base["optim_params"] = dict(approx_grad=True)
            fps = []
            for kw in (both, only):
                o = observe(name, alg, "UNIT", merge_kw(base, oth, kw), s)
                fps.append(fingerprint(o))
                col.execution()
                col.step(len(o["events"]))
            dd = differ(*fps)
            col.check(not dd, "precedence", "%s %s differs from %s: %s; with %s" % (name, both, only, "; ".join(dd)[:500], oth))
            col.state(("prec", case["i"], name, str(oth)))
            col.validated()
            col.outcome(("prec", case["i"], fps[0]["call"]))


# ------------------------------------------------------------------ rejected choices
REJECT = [
    ("alg", dict(alg="FOO"), "create optimize_pulse optimize_pulse_unitary"), ("alg", dict(alg=None), "create optimize_pulse optimize_pulse_unitary"),
    ("method", dict(optim_method="FOO"), "all"), ("method", dict(optim_method=""), "create optimize_pulse optimize_pulse_unitary"),
    ("method", dict(optim_method="FMIN"), "grape"), ("method", dict(optim_method="FMIN_L_BFGS_B"), "crab"), ("method", dict(optim_method="LBFGSB"), "crab"),
    ("method", dict(optim_method="FMIN_BFGS"), "crab"), ("method", dict(optim_alg="FOO"), "grape"),
    ("dyn_type", dict(dyn_type="FOO"), "typed"), ("prop_type", dict(prop_type="FOO"), "typed"), ("fid_type", dict(fid_type="FOO"), "typed"),
    ("phase", dict(fid_params=dict(phase_option="FOO")), "all"), ("phase", dict(phase_option="FOO"), "grape"),
    ("phase", dict(phase_option="FOO"), "opt_pulse_crab_unitary"),
    ("pulse", dict(init_pulse_type="FOO"), "grape"), ("pulse", dict(guess_pulse_type="FOO"), "crab"), ("ramp", dict(ramping_pulse_type="FOO"), "all"),
    ("oper_dtype", dict(dyn_params=dict(oper_dtype=str)), "all"),
    ("dumping", dict(optim_params=dict(dumping="FOO")), "all"), ("dumping", dict(dyn_params=dict(dumping="FOO")), "all"),
    ("drift", dict(_drift="array"), "all"), ("drift", dict(_drift="list2"), "all"), ("drift", dict(_drift="mixed"), "all"), ("drift", dict(_drift="none"), "all"),
    ("ctrls", dict(_ctrls="qobj"), "all"), ("ctrls", dict(_ctrls="arrays"), "all"), ("ctrls", dict(_ctrls="none"), "all"), ("ctrls", dict(_ctrls="rows2"), "all"),
    ("initial", dict(_initial="array"), "all"), ("target", dict(_target="array"), "all"), ("initial", dict(_initial="none"), "all"),
    ("target", dict(_target="none"), "all"),
    ("times", dict(tau=None), "all"), ("times", dict(tau=None, num_tslots=3), "all"), ("times", dict(tau=None, evo_time=3.0), "all"),
    ("times", dict(tau=None, evo_time=3.0, num_tslots=0), "all"), ("times", dict(tau=None, evo_time="x", num_tslots=2), "all"),
    ("limits", dict(amp_lbound=0.5, amp_ubound=-0.5), "all"), ("limits", dict(amp_lbound=0.5, amp_ubound=0.0), "all"),
    ("limits", dict(amp_lbound=[0.1, 0.5, 0.1], amp_ubound=[0.2, 0.4, 0.2]), "all"),
    ("limits", dict(amp_lbound=0.5, amp_ubound=-0.5, init_pulse_type="ZERO"), "grape"), ("limits", dict(amp_lbound=0.5, amp_ubound=-0.5, init_pulse_type="LIN"), "grape"),
    ("limits", dict(amp_lbound=0.0, amp_ubound=-0.5, init_pulse_type="SINE"), "grape"),
    ("limits", dict(amp_lbound=0.0, amp_ubound=-0.5, guess_pulse_type="LIN"), "crab"),
]


def reject(case, col):
    import scipy.optimize as so

    import qutip_qtrl.pulseoptim as po

    what, bad, names = REJECT[case["i"]]
    names = dict(all="create optimize_pulse optimize_pulse_unitary opt_pulse_crab opt_pulse_crab_unitary create:CRAB optimize_pulse:CRAB",
                 typed="create optimize_pulse opt_pulse_crab create:CRAB", grape="create optimize_pulse optimize_pulse_unitary",
                 crab="opt_pulse_crab opt_pulse_crab_unitary").get(names, names)
    s = S.SYSTEMS[SYS["UNIT"]]
    oths = [dict(), dict(gen_stats=True), dict(log_level=20), dict(amp_lbound=-0.5), dict(dyn_params=dict(memory_optimization=1)),
            dict(optim_params=dict(dumping="SUMMARY")), dict(max_iter=3, fid_err_targ=0.1), dict(tau=None, num_tslots=3, evo_time=1.5)]
    for name, oth in itertools.product(names.split(), oths):
        if any(k in bad for k in oth) or (what == "times" and "tau" in oth):
            continue
        nm, _, al = name.partition(":")
        kw = merge_kw(dict(tau=np.array(TAU)), oth, {k: v for k, v in bad.items() if not k.startswith("_")})
        if "unitary" not in nm and "dyn_type" not in kw:
            kw["dyn_type"] = "UNIT"
        if al:
            kw["alg"] = al
        args = dict(_drift=s.qdrift(), _ctrls=s.qctrls(), _initial=s.q(s.initial), _target=s.q(s.target))
        for k, v in bad.items():
            if k.startswith("_"):
                args[k] = dict(array=np.array(s.drift), none=None, list2=[s.qdrift()] * 2, mixed=[s.qdrift(), 1.0, s.qdrift()], qobj=s.qctrls()[0],
                               arrays=[np.array(c) for c in s.ctrls], rows2=np.array([[object()] * 3] * 2)).get(v)
                if v == "rows2":
                    a = np.empty((2, 3), dtype=object)
                    for i in range(2):
                        for j in range(3):
                            a[i, j] = s.qctrls()[j]
                    args[k] = a
        evaluated = []
        real = so.minimize

        def handler(call):
            if call.name == "minimize" and str(call.args.get("method")).upper() == "FOO":
                return_real(real, call)  # scipy's own rejection
            evaluated.append(float(call.fun(call.x0.copy())))
            return Return("converged", call.x0, 0.5)

        m = minimiser_patch(handler)
        m.update(Draws((0.8,)).mapping())
        err = None
        try:
            with patched(m):
                q = (args["_drift"], args["_ctrls"], args["_initial"], args["_target"])
                if nm == "create":
                    o = po.create_pulse_optimizer(*q, **kw)
                    d = o.dynamics
                    d.init_timeslots()
                    amps = np.zeros((d.num_tslots, d.num_ctrls))
                    for j in range(d.num_ctrls):
                        p = o.pulse_generator[j] if isinstance(o.pulse_generator, list) else o.pulse_generator
                        p.init_pulse()
                        amps[:, j] = p.gen_pulse()
                    d.initialize_controls(amps)
                    o.run_optimization()
                else:
                    getattr(po, nm)(*q, **kw)
        except Exception as ex:
            err = ex
        finally:
            reset_levels()
        tag = "%s with %s and %s" % (name, bad, oth)
        col.check(err is not None, "accepted", "no error for %s" % tag)
        col.check(not evaluated, "late", "evaluated before the error (%s) for %s" % (err, tag))
        col.execution()
        col.step()
        col.validated()
        col.state(("reject", case["i"], name, str(oth)))
        col.outcome(("reject", what, type(err).__name__))


def return_real(real, call):
    a = dict(call.args)
    real(a["fun"], a["x0"], method=a["method"])
    raise AssertionError("scipy accepted method %r" % a["method"])


# ------------------------------------------------------------------ every log level, with time-dependent operators
LEVELS = [50, 40, 30, 20, 10, 8, 6]


def levels(case, col):
    """the level changes what is logged, not what is computed or returned"""
    alg, kind = case["ak"].split("/")
    s = S.SYSTEMS[SYS[kind]]
    n = min(case["nc"], len(s.ctrls))
    s = S.System(s.name, s.kind, s.drift, s.ctrls[:n], s.initial, s.target, s.dims).with_time(case["td"] & 1, case["td"] & 2, case["nts"])
    tau = [0.3, 0.55, 0.2, 0.4][: case["nts"]]
    for entry in ENTRIES[alg]:
        base = None
        for lev in [None] + LEVELS:
            kw = dict(tau=tau, gen_stats=lev in (None, 20, 6))
            kw = translate(entry, alg, kind, merge_kw(kw, {} if lev is None else dict(log_level=lev)))
            if kw is None:
                break
            tag = "%s %s %s log_level=%s" % (entry, case["ak"], case, lev)
            o = observe(entry, alg, kind, kw, s)
            fp = fingerprint(o)
            lv = fp.pop("level")
            col.check(lev is None or set(lv) == {lev}, "level", "levels %s with %s" % (lv, tag))
            fp["types"] = tuple(x for x in fp["types"] if x not in ("Stats", "StatsDynTsUpdate", "StatsFidUpdate", "NoneType"))
            if base is None:
                base = fp
            else:
                df = differ(base, fp)
                col.check(not df, "levels", "%s differs: %s" % (tag, "; ".join(df[:3])))
            col.execution()
            col.validated()
            col.step(len(o["events"]))
            col.state(("levels", entry, lev, str(case)))
            col.outcome(("levels", entry, case["td"], case["nts"], case["nc"]))


# ------------------------------------------------------------------ parameter dictionaries of the classes themselves
OPT = dict(max_metric_corr=4, xtol=0.3, ftol=0.2, amp_lbound=-0.3, amp_ubound=[0.1, 0.2, 0.3], approx_grad=True, disp_conv_msg=True, alg="X", method="TNC",
           method_params=dict(eps=1.0), bounds=[(0, 1)], dumping="FULL", dump_to_file=True, id_text="N", record_iteration_steps=True, my_note=3)
DYN = dict(oper_dtype=np.ndarray, memory_optimization=1, dumping="FULL", sparse_eigen_decomp=True, unitarity_check_level=1, unitarity_tol=1e-3,
           fact_mat_round_prec=1e-3, def_amps_fname="x", num_tslots=4, evo_time=3.0, my_note=3, cache_phased_dyn_gen=True, cache_prop_grad=False,
           cache_dyn_gen_eigenvectors_adj=False, dump_to_file=True)
PUL = dict(scaling=0.4, offset=0.1, lbound=-0.2, ubound=0.3, my_note=3, num_waves=2.5, start_phase=0.3, gradient=0.4, start_val=0.1,
           end_val=0.6, mean=0.2, variance=0.5, decay_time=0.3, min_wavelen=0.2, num_coeffs=3, randomize_coeffs=False, randomize_freqs=False, fix_freqs=False,
           guess_pulse_action="ADD", random=False, wavelen=0.6, freq=1.4)
FID = dict(phase_option="SU", scale_factor=0.4, epsilon=0.01, uses_evo_t2end=False, uses_evo_t2targ=False, uses_onwd_evo=False, local=True, my_note=3)
PRP = dict(epsilon=0.01, my_note=3, grad_exact=True)
TSL = dict(my_note=3)
CTOR = [("optimizer", c, OPT) for c in ("Optimizer", "OptimizerBFGS", "OptimizerLBFGSB", "OptimizerCrab", "OptimizerCrabFmin")] + \
    [("dynamics", c, DYN) for c in ("DynamicsGenMat", "DynamicsUnitary", "DynamicsSymplectic")] + \
    [("pulsegen", "PulseGen" + c, PUL) for c in ("Zero", "Random", "RndFourier", "RndWaves", "RndWalk1", "RndWalk2", "Linear", "Sine", "Square", "Saw", "Triangle",
                                                 "Gaussian", "GaussianEdge", "CrabFourier")] + \
    [("fidcomp", "FidComp" + c, FID) for c in ("Unitary", "TraceDiff", "TraceDiffApprox")] + \
    [("propcomp", "PropComp" + c, PRP) for c in ("ApproxGrad", "Diag", "AugMat", "Frechet")] + [("tslotcomp", "TSlotCompUpdateAll", TSL)]


def ctor(case, col):
    """every parameter, alone and in pairs: given to the constructor, applied afterwards, kept by a reset"""
    import importlib

    import qutip_qtrl.dynamics as dynamics
    import qutip_qtrl.optimconfig as optimconfig

    mod, name, alpha = CTOR[case["i"]]
    cls = getattr(importlib.import_module("qutip_qtrl." + mod), name)

    def make(params):
        cfg = optimconfig.OptimConfig()
        if mod == "dynamics":
            return cls(cfg, params=params)
        d = dynamics.DynamicsUnitary(cfg)
        return cls(cfg, d, params=params) if mod == "optimizer" else cls(d, params=params)

    def has(o, k):
        return k == "my_note" or hasattr(type(o), k) or k in vars(o)

    def shown(o, k):
        v = getattr(o, k)
        return v.tolist() if isinstance(v, np.ndarray) else v

    probe = make(None)
    keys = [k for k in alpha if has(probe, k)]
    for n in (1, 2):
        for ks in itertools.combinations(keys, n):
            P = {k: alpha[k] for k in ks}
            ways = {"constructor": make(dict(P))}
            o = make(None)
            o.apply_params(dict(P))
            ways["apply_params"] = o
            o = make(dict(P))
            o.reset()
            ways["constructor and reset"] = o
            o = make(None)
            for k in ks:
                setattr(o, k, P[k])
            want = {k: shown(o, k) for k in keys if hasattr(o, k)}
            for w, o in ways.items():
                tag = "%s with %s by %s" % (name, P, w)
                for k in want:
                    if k == "end_val" and "gradient" in P and k not in P:
                        continue  # a gradient given to the constructor takes the place of the default end value
                    g = shown(o, k) if hasattr(o, k) else "missing"
                    col.check(g == want[k], "params" if k in P else "params-other", "%s is %r, expected %r; %s" % (k, g, want[k], tag))
                col.execution()
                col.validated()
                col.step(n)
                col.state(("ctor", name, w, ks))
            col.outcome(("ctor", name, ks[0]))
    reset_levels()
