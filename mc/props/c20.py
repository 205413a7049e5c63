"""C20: a reused optimiser behaves like a new one with the same settings."""
import itertools

import numpy as np
from qutip import Qobj

from .. import runs as R
from .. import systems as S
from ..script import KINDS, Clock, Draws, Return, minimiser_patch, patched
from .c19 import arr, res, same, short

META = dict(
    rule="for every optimiser configuration: every sequence of run and reconfiguration operations to the depth (run, change, [change,] run, [change, run]), "
         "under every minimiser script of a set covering each way a run ends (goal, flat gradient, wall time, call limit, iteration limit, convergence, "
         "failure, exception, no evaluation); the last run compared - everything handed to the minimiser, every value and where it ended, the whole "
         "result - with a new optimiser created with the settings in force and the same start; earlier results re-read at the end",
    bounds=lambda tier: dict(configurations=len(CONF), changes=2 if tier == "quick" else 3, scripts=len(SCRIPTS)),
    assumptions=["dumps accumulate over runs, so their contents are not compared here", "keys of a replaced method_params dictionary stay in force",
                 "virtual clock, going on between the runs; scripted minimiser"],
)
CONF = {
    # name: (system, tau, keyword arguments)
    "gen": ("u_zx_xyz", [0.5, 0.7], dict(optim_method="BFGS")),
    "gen_nm": ("u_zx_xyz", [0.5, 0.7], dict(optim_method="Nelder-Mead", optim_params=dict(approx_grad=True))),
    "bfgs": ("g_c", [0.6, 0.5], dict(optim_method="FMIN_BFGS")),
    "lbfgs": ("u_zx_xyz", [0.5, 0.7], dict(optim_method="FMIN_L_BFGS_B", amp_lbound=-5.0, amp_ubound=5.0)),
    "lbfgs_q": ("u_init", [0.5, 0.7], dict(optim_method="FMIN_L_BFGS_B", dyn_params=dict(oper_dtype=Qobj))),
    "lbfgs_g": ("g_c", [0.6, 0.5], dict(optim_method="FMIN_L_BFGS_B", prop_type="FRECHET")),
    "sympl": ("s_1", [0.6, 0.5], dict(optim_method="FMIN_L_BFGS_B")),
    "crab": ("u_zx_xyz", [0.5, 0.7], dict(alg="CRAB", optim_method="FMIN", alg_params=dict(num_coeffs=1))),
    "crab_nm": ("g_c", [0.6, 0.5], dict(alg="CRAB", optim_method="Nelder-Mead", alg_params=dict(num_coeffs=1), init_pulse_type="LIN",
                                       init_pulse_params=dict(pulse_action="ADD"))),
}
SCRIPTS = ["goal", "flat", "wall", "calls", "maxiter", "converged", "failed", "abort", "none", "long"]
ACTS = {
    "goal": "E2 C1 G2 E3 C1 E0 Rconverged0", "flat": "E2 G2 C1 E3 G5 Rconverged3", "wall": "E2 C4 G3 E3 C20 E2 Rconverged2",
    "calls": "E2 E3 E4 C1 E2 E3 E4 E2 E3 E4 Rconverged2", "maxiter": "E2 C1 G2 E3 C1 Rmaxiter3", "converged": "E2 G2 C1 E3 Rconverged2",
    "failed": "E3 C1 Rabnormal3", "abort": "E2 C1 E3 X", "none": "Rconverged4", "long": "E2 C1 G3 E3 C1 G2 E4 C1.5 E2 C2 G4 E1 C3 E0 C90 E2 Rconverged2",
}


def cases(tier):
    out = []
    for c in CONF:
        n = len(ops_of(c))
        for s0 in SCRIPTS:
            for s1 in SCRIPTS:
                out.append(dict(kind="one", config=c, s=[s0, s1]))
        for i in range(n):
            for s0 in (SCRIPTS if tier != "quick" else ["goal", "flat", "maxiter", "abort", "none"]):
                out.append(dict(kind="two", config=c, i=i, s0=s0))
            if tier != "quick":
                for j in range(n):
                    out.append(dict(kind="three", config=c, i=i, j=j))
    return out


def run_case(case, col):
    c = case["config"]
    ops = ops_of(c)
    if case["kind"] == "one":
        # run, change, run ; run, run
        for o in [None] + ops:
            history(c, [case["s"][0], o, case["s"][1]], col)
    elif case["kind"] == "two":
        a = ops[case["i"]]
        for b in ops:
            if clash(a, b):
                continue
            history(c, [case["s0"], a, "converged", b, "long"], col)
            history(c, [case["s0"], a, b, "long"], col)
    else:
        a, b = ops[case["i"]], ops[case["j"]]
        if clash(a, b):
            return
        for d in ops:
            if not clash(a, d) and not clash(b, d):
                for s in (["goal", a, "abort", b, "calls", d, "long"], ["wall", a, b, "maxiter", d, "long"]):
                    history(c, s, col)


def clash(a, b):
    """combinations whose settings are ambiguous"""
    g = {a.group, b.group}
    return ("mp" in g and (a.group == b.group and a.label != b.label or g & {"corr", "acc", "tc:calls", "tc:iter", "tcs", "xtol", "ftol"})) or \
        (g in ({"bounds", "sys"}, {"bounds", "sysc"}, {"bounds0", "sysc"}))


# ------------------------------------------------------------------ reconfiguration
class Op:
    def __init__(self, group, label, apply, kw=None, post=None):
        """apply(o): on the reused object; kw: the settings that mean the same at creation; post(o): on the new object, before its run"""
        self.group, self.label, self.apply, self.kw, self.post = group, label, apply, kw, post

    def __repr__(self):
        return self.label


def setter(path, v):
    def f(o):
        x = o
        ps = path.split(".")
        for p in ps[:-1]:
            x = getattr(x, p)
        setattr(x, ps[-1], v)
    return f


def tcset(k, v, kw=None):
    f = setter("termination_conditions." + k, v)
    return Op("tc:" + k.split("_")[1] if k != "max_fid_func_calls" else "tc:calls", "%s=%s" % (k, v), f, kw, None if kw else f)


_OPS = {}


def ops_of(c):
    if c not in _OPS:
        _OPS[c] = make_ops(c)
    return _OPS[c]


def reinit(o):
    d = o.dynamics
    d.initialize_controls(np.array(d.ctrl_amps))


def make_ops(c):
    sysn, tau, kw = CONF[c]
    s = S.SYSTEMS[sysn]
    crab = kw.get("alg") == "CRAB"
    meth = kw["optim_method"]
    n = s.n_ctrls
    out = [tcset("fid_err_targ", 1e-30, dict(fid_err_targ=1e-30)), tcset("fid_err_targ", 0.97, dict(fid_err_targ=0.97)),
           tcset("max_iterations", 7, dict(max_iter=7)), tcset("max_iterations", 1, dict(max_iter=1)),
           tcset("max_wall_time", 0.5, dict(max_wall_time=0.5)), tcset("max_wall_time", 1e4, dict(max_wall_time=1e4)),
           tcset("max_fid_func_calls", 1), tcset("max_fid_func_calls", 5000)]

    def goal(o):
        o.termination_conditions.fid_err_targ = None
        o.termination_conditions.fid_goal = 0.6
    out.append(Op("tc:fid", "fid_goal=0.6", goal, None, goal))

    def tcs(o):
        import qutip_qtrl.termcond as termcond

        t = termcond.TerminationConditions()
        t.fid_err_targ, t.max_iterations, t.max_wall_time, t.max_fid_func_calls, t.min_gradient_norm = 1e-3, 44, 3.0, 6, 1e-7
        o.termination_conditions = t
    out.append(Op("tcs", "new conditions", tcs, None, tcs))

    def tcarg(o):
        tcs(o)
        o._c20_arg = o.termination_conditions
        o._c20_arg.max_iterations = 45
        o.termination_conditions = R.build("gen").termination_conditions  # other limits: must be replaced by the argument

    def tcarg_new(o):
        tcs(o)
        o.termination_conditions.max_iterations = 45
    out.append(Op("tcs", "conditions as argument", tcarg, None, tcarg_new))

    def stats(o):
        import qutip_qtrl.stats as stats

        o.stats = o.dynamics.stats = stats.Stats()

    def nostats(o):
        o.stats = o.dynamics.stats = None
    out += [Op("stats", "stats", stats, dict(gen_stats=True)), Op("stats", "no stats", nostats, dict(gen_stats=False))]
    for lv in ("FULL", "SUMMARY", "NONE"):
        def dump(o, lv=lv):
            o.dumping = lv
            o.dynamics.dumping = lv
        out.append(Op("dump", "dumping=" + lv, dump, dict(optim_params=dict(dumping=lv), dyn_params=dict(dumping=lv))))
    for i, t in enumerate((S.sx + 0j, np.diag([1, 1j]))):
        if s.kind == "SYMPL":
            t = np.array([[1.0, 0.3 * (i + 1)], [0, 1]])

        def target(o, t=t):
            o.dynamics.target = Qobj(t)
            reinit(o)
        out.append(Op("sys", "target%d" % i, target, dict(_target=t)))

    def drift(o):
        d = o.dynamics
        d.drift_dyn_gen = s.qdrift() * 0.5
        d._drift_dyn_gen_checked = True
        reinit(o)
    out.append(Op("sys", "drift", drift, dict(_drift=s.drift * 0.5)))

    def initial(o):
        o.dynamics.initial = s.q(np.array(s.ctrls[0]) + 0.5 * np.eye(s.dim))
        reinit(o)
    out.append(Op("sys", "initial", initial, dict(_initial=np.array(s.ctrls[0]) + 0.5 * np.eye(s.dim))))
    if s.kind == "UNIT":
        for ph in ("SU", "PSU"):
            def phase(o, ph=ph):
                o.dynamics.fid_computer.set_phase_option(ph)
                reinit(o)
            out.append(Op("phase", "phase " + ph, phase, dict(fid_params=dict(phase_option=ph))))
    else:
        for sc in (0.1, 2.0):
            def scale(o, sc=sc):
                o.dynamics.fid_computer.scale_factor = sc
                reinit(o)
            out.append(Op("phase", "scale %g" % sc, scale, dict(fid_params=dict(scale_factor=sc))))
    out.append(Op("disp", "disp_conv_msg", setter("disp_conv_msg", True), dict(optim_params=dict(disp_conv_msg=True))))
    if not crab:
        out += [tcset("min_gradient_norm", 0.9, dict(min_grad=0.9)), tcset("min_gradient_norm", 1e-12, dict(min_grad=1e-12))]
        if meth != "FMIN_BFGS":
            for lb, ub in ((-0.2, None), ([-0.1 * (i + 1) for i in range(n)], 0.8), (None, None), (-0.6, 0.7)):
                def lims(o, lb=lb, ub=ub):
                    o.amp_lbound, o.amp_ubound = lb, ub
                out.append(Op("bounds0", "limits %s %s" % (lb, ub), lims, dict(amp_lbound=lb, amp_ubound=ub)))
            b = [(-0.3 - 0.01 * i, 0.5) for i in range(n * len(tau))]
            out += [Op("bounds", "bounds", setter("bounds", b), dict(optim_params=dict(bounds=b))),
                    Op("bounds", "bounds none", setter("bounds", None), dict(optim_params=dict(bounds=None)))]
        a = 0.4 - 0.11 * np.arange(n * len(tau)).reshape(len(tau), n)

        def upd(o):
            d = o.dynamics
            d.update_ctrl_amps(np.tile(a, (2, 1))[: d.num_tslots, : d.num_ctrls].copy())
        out += [Op("amps", "update_ctrl_amps", upd),
                Op("amps", "initialize_controls", lambda o: o.dynamics.initialize_controls(np.full((o.dynamics.num_tslots, o.dynamics.num_ctrls), 0.21)))]

        def times(o):
            o.dynamics.tau = [0.4, 0.1, 0.3]
            o.dynamics.init_timeslots()
            o.dynamics.initialize_controls(np.full((3, o.dynamics.num_ctrls), -0.37))

        def nts(o):
            o.dynamics.num_tslots = 1
            o.dynamics.evo_time = float(sum(tau))
            o.dynamics.init_timeslots()
            o.dynamics.initialize_controls(np.full((1, o.dynamics.num_ctrls), 0.41))
        out += [Op("sys", "times", times, dict(_slots=[0.4, 0.1, 0.3])), Op("sys", "one slot", nts, dict(_slots=(1, float(sum(tau)))))]

        def ctrls(o):
            d = o.dynamics
            d.ctrl_dyn_gen = [x * 1.5 for x in s.qctrls()[:-1]]
            d._ctrl_dyn_gen_checked = True
            d.initialize_controls(np.full((d.num_tslots, n - 1), 0.33))
        if n > 1:
            out.append(Op("sysc", "fewer controls", ctrls, dict(_ctrls=[1.5 * x for x in s.ctrls[:-1]])))
    if meth in ("BFGS", "Nelder-Mead"):
        for m in (("L-BFGS-B", "CG") if not crab and meth == "BFGS" else ("Powell",)):
            out.append(Op("method", "method " + m, setter("method", m), dict(optim_method=m)))
        out += [Op("mp", "mp eps", setter("method_params", dict(eps=1e-5)), dict(method_params=dict(eps=1e-5))),
                Op("mp", "mp ftol", setter("method_params", dict(ftol=1e-3)), dict(method_params=dict(ftol=1e-3)))]
    if meth == "FMIN_L_BFGS_B":
        out += [Op("corr", "corr 4", setter("max_metric_corr", 4), dict(method_params=dict(max_metric_corr=4))),
                tcset("accuracy_factor", 1e3, dict(method_params=dict(accuracy_factor=1e3))),
                Op("mp", "mp calls", setter("method_params", dict(max_fid_func_calls=2)), dict(method_params=dict(max_fid_func_calls=2))),
                Op("mp", "mp maxcor", setter("method_params", dict(maxcor=3)), dict(method_params=dict(maxcor=3)))]
        out[-3].group = "acc"
    if not crab and meth in ("BFGS", "FMIN_L_BFGS_B"):
        out.append(Op("approx", "approx_grad", setter("approx_grad", True), dict(optim_params=dict(approx_grad=True))))
        out.append(Op("approx", "exact grad", setter("approx_grad", False), dict(optim_params=dict(approx_grad=False))))
    if crab:
        def vals(o):
            k = 0
            d = o.dynamics
            amps = np.zeros((d.num_tslots, d.num_ctrls))
            for j, p in enumerate(o.pulse_generator):
                p.set_optim_var_vals(0.2 + 0.07 * np.arange(p.num_optim_vars) - 0.1 * j)
                amps[:, j] = p.gen_pulse()
            d.update_ctrl_amps(amps)

        def again(o):
            d = o.dynamics
            amps = np.zeros((d.num_tslots, d.num_ctrls))
            with patched(Draws((0.9, 0.2, 0.6)).mapping()):
                for j, p in enumerate(o.pulse_generator):
                    p.init_pulse()
                    amps[:, j] = p.gen_pulse()
            d.initialize_controls(amps)

        def ncoef(o):
            for p in o.pulse_generator:
                p.init_pulse(num_coeffs=2)
            again(o)

        def lims(o):
            for p in o.pulse_generator:
                p.lbound, p.ubound = -0.15, 0.15
            again(o)
        out += [Op("amps", "coefficients", vals), Op("amps", "init_pulse", again), Op("ncoef", "two coefficients", ncoef, dict(alg_params=dict(num_coeffs=2))),
                Op("bounds", "limits", lims, *((dict(amp_lbound=-0.15, amp_ubound=0.15),) if meth == "FMIN" else (None, lims)))]  # guess pulses are limited too
        if meth == "FMIN":
            out += [Op("xtol", "xtol", setter("xtol", 1e-2), dict(method_params=dict(xtol=1e-2))),
                    Op("ftol", "ftol", setter("ftol", 1e-3), dict(method_params=dict(ftol=1e-3))),
                    Op("mp", "mp xtol", setter("method_params", dict(xtol=0.3)), dict(method_params=dict(xtol=0.3)))]
    return out


# ------------------------------------------------------------------ building
BASE = dict(fid_err_targ=0.05, max_iter=50, max_wall_time=10.0, min_grad=1e-6)


def merge(*ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = dict(out.get(k) or {}, **v) if isinstance(v, dict) else v
    return out


def create(c, extra=()):
    import qutip_qtrl.pulseoptim as po

    sysn, tau, kw = CONF[c]
    s = S.SYSTEMS[sysn]
    kw = merge(BASE, dict(init_pulse_type=None if kw.get("alg") == "CRAB" else "ZERO"), kw, *extra)
    if kw.get("alg") == "CRAB":
        kw["min_grad"] = 0.0
    s = S.System(s.name, s.kind, kw.pop("_drift", s.drift), kw.pop("_ctrls", s.ctrls), kw.pop("_initial", s.initial), kw.pop("_target", s.target), s.dims)
    with patched(Draws().mapping()):
        slots = kw.pop("_slots", tau)
        kw.update(dict(num_tslots=slots[0], evo_time=slots[1]) if isinstance(slots, tuple) else dict(tau=np.array(slots)))
        o = po.create_pulse_optimizer(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), dyn_type=s.kind, **kw)
        d = o.dynamics
        d.init_timeslots()
        amps = np.zeros((d.num_tslots, d.num_ctrls))
        if o.alg == "CRAB":
            for j, p in enumerate(o.pulse_generator):
                p.init_pulse()
                amps[:, j] = p.gen_pulse()
        else:
            amps = 0.3 + 0.17 * np.arange(amps.size).reshape(amps.shape)
        d.initialize_controls(amps)
    o.termination_conditions.max_fid_func_calls = 7
    return o


class Abort(Exception):
    pass


def play(o, name, t0=1000.0):
    """one run under the script, starting at time t0; what was seen, and the result"""
    seen = []
    clock = Clock(t0)

    def handler(call):
        n = len(call.x0)
        k = np.arange(n, dtype=float)
        pts = [0.45 * np.cos(1.3 * k + 0.5) + 0.1, 0.6 * np.sin(0.9 * k + 0.5) - 0.3, 0.7 * np.cos(2.1 * k + 0.2), 0.2 * np.sin(1.7 * k) + 0.3, call.x0.copy(),
               np.zeros(n)]
        seen.append(("call", call.name, {x: call.opt(x) for x in ("method", "maxiter", "maxfev", "gtol", "ftol", "maxcor", "xtol", "disp", "retall")},
                     str(call.opt("bounds")), str(sorted((call.opt("options") or {}).items())), call.jac is not None, call.x0.copy()))
        last = 4
        for a in ACTS[name].split():
            if a[0] == "X":
                raise Abort()
            if a[0] == "G" and call.jac is None:
                continue
            seen.append([a, None])
            if a[0] == "E":
                last = int(a[1])
                seen[-1][1] = float(call.fun(pts[last].copy()))
            elif a[0] == "G":
                seen[-1][1] = np.array(call.jac(pts[int(a[1])].copy()))
            elif a[0] == "C":
                clock.t += float(a[1:])
                call.callback(pts[last].copy())
                seen[-1][1] = True
            else:
                kind = a[1:-1] if a[1:-1] in KINDS[call.name] else "converged"
                return Return(kind, pts[int(a[-1])], 0.5, nit=2, nfev=3, allvecs=[pts[last]])

    m = minimiser_patch(handler)
    m.update(clock.mapping())
    arg = getattr(o, "_c20_arg", None)
    if arg is not None:
        del o._c20_arg
    with patched(m):
        try:
            r = o.run_optimization(arg) if arg is not None else o.run_optimization()
        except Abort:
            r = None
    return seen, r


def state(o):
    """where a run would start"""
    if o.alg == "CRAB":
        return [(np.array(p.coeffs), np.array(p.freqs)) for p in o.pulse_generator], np.array(o.dynamics.ctrl_amps)
    return None, np.array(o.dynamics.ctrl_amps)


def start(o, st):
    gens, amps = st
    if gens:
        for p, (c, f) in zip(o.pulse_generator, gens):
            p.coeffs, p.freqs = c.copy(), f.copy()
    o.dynamics.initialize_controls(amps.copy())


def view(r):
    if r is None:
        return "aborted"
    x = res(r)
    for k in ("num_tslot_recompute", "num_fidelity_computes", "num_grad_computes"):  # the start may have been computed already; see C15
        x.get("stats", {}).pop(k, None)
    if r.stats is not None:
        x["walls"] = {k: arr(getattr(r.stats, k)) for k in vars(r.stats) if k.startswith("wall_time_") and k not in ("wall_time_optim_start", "wall_time_optim_end")}
    return x


def history(c, seq, col):
    """seq: names of scripts and operations; the last is a script"""
    tag = "%s: %s" % (c, " ; ".join("run(%s)" % x if isinstance(x, str) else "no change" if x is None else x.label for x in seq))
    o = create(c)
    kws, posts = [], []
    kept = []
    st = None
    seen = r = None
    for k, x in enumerate(seq):
        if x is None:
            continue
        if isinstance(x, str):
            if k == len(seq) - 1:
                st = state(o)
            seen, r = play(o, x, 1000.0 + 4096.0 * k)  # time goes on between the runs
            if r is not None:
                kept.append((r, view(r)))
        else:
            if hasattr(o, "_c20_arg"):  # changed before it was used
                o.termination_conditions = o.__dict__.pop("_c20_arg")
            x.apply(o)
            if x.kw:
                kws.append(x.kw)
            if x.group == "tcs":  # replaces all conditions set so far
                posts = [p for p in posts if not p.group.startswith("tc")]
                for q in seq[:k]:
                    if isinstance(q, Op) and q.group in ("acc",):
                        return
            if x.post or x.group.startswith("tc") or x.group == "acc":
                posts.append(x)
    new = create(c, kws)
    for p in posts:
        if p.group == "acc" or p.kw:
            p.apply(new)
        else:
            p.post(new)
    start(new, st)
    seen2, r2 = play(new, seq[-1])
    d = same(seen, seen2, "run")
    col.check(d is None, "run", "reused / new differ at %s; %s" % (d, tag))
    d = same(view(r), view(r2), "result")
    col.check(d is None, "result", "reused / new differ at %s; %s" % (d, tag))
    for i, (q, v) in enumerate(kept):
        d = same(view(q), v, "result")
        col.check(d is None, "earlier", "result %d changed at %s; %s" % (i, d, tag))
    col.execution(2)
    col.validated()
    col.step(len(seq) + len(seen))
    col.state((c, str(seq)))
    col.outcome((c, str(seq[-2]), getattr(r, "termination_reason", "aborted")))
