"""C12: what the caller passes in is never modified, over every entry point, argument form and ending; and over operation sequences."""
import itertools

import numpy as np
from qutip import Qobj

from .. import systems as S
from ..frozen import diff, freeze
from ..script import Clock, Draws, KINDS, Return, minimiser_patch, patched
from . import c11

TAU = [0.3, 0.55, 0.2]
META = dict(
    rule="(a) every entry point x dynamics type x minimiser x form of the operators x form of times and limits x way the run ends, with every "
         "parameter dictionary supplied and filled: the complete argument structure (values, types, key order, identities) compared before and "
         "after, then the same objects used for a second call, which must behave like the first; (b) every sequence up to the depth of operations on "
         "dynamics objects, and of pulse generator calls, with the same comparison after every operation; (c) the stand-alone routines in full "
         "product; (d) the vectors a minimiser hands over",
    bounds=lambda tier: dict(depth=3 if tier == "quick" else 4),
    assumptions=["virtual clock and fixed draws", "lazily cached flags of an operator (is it Hermitian ...) are not part of its value"],
)
METHODS = {"GRAPE": ["FMIN_L_BFGS_B", "FMIN_BFGS", "BFGS", "L-BFGS-B", "Nelder-Mead"], "CRAB": ["FMIN", "Nelder-Mead"]}
ENTRIES = {
    "GRAPE": ["optimize_pulse", "optimize_pulse_unitary", "create"],
    "CRAB": ["optimize_pulse", "opt_pulse_crab", "opt_pulse_crab_unitary", "create", "optimize_pulse_unitary"],
}
SYS = {"UNIT": ["u_zx_xyz", "u_ket4"], "GEN_MAT": ["g_c", "g_real", "g_ket"], "SYMPL": ["s_1"]}
ENDS = ["goal", "wall", "calls", "grad", "error"]
OPERS = ["plain", "tdrift", "tctrl", "tuple", "qobj", "mem"]
TIMES = ["array", "list", "num", "scalar-limits", "list-limits", "array-limits"]
DOPS = ["init", "initB", "upd", "updB", "setA", "fid", "grad", "read", "dump", "run", "timeslots", "save", "replace"]
DCONF = [("u_zx_xyz", Qobj, 0), ("u_zx_xyz", np.ndarray, 0), ("g_c", Qobj, 0), ("g_real", None, 0), ("s_1", Qobj, 0), ("s_1", np.ndarray, 0), ("u_ket4", None, 1)]


def cases(tier):
    out = []
    for alg in ENTRIES:
        for entry in ENTRIES[alg]:
            for kind in SYS:
                if "unitary" in entry and kind != "UNIT":
                    continue
                for m in METHODS[alg]:
                    out.append(dict(kind="entry", alg=alg, entry=entry, dyn=kind, method=m))
    d = 3 if tier == "quick" else 4
    for i in range(len(DCONF)):
        for a in range(len(DOPS)):
            out.append(dict(kind="ops", i=i, first=a, depth=d))
    for n in ("RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2", "LIN", "ZERO", "SINE", "SQUARE", "SAW", "TRIANGLE", "GAUSSIAN", "GAUSSIAN_EDGE",
              "CRAB_FOURIER"):
        out.append(dict(kind="pulse", name=n))
    for r in ("grape_unitary", "cy_grape_unitary", "grape_unitary_adaptive"):
        out.append(dict(kind="grape", name=r))
    return out


def run_case(case, col):
    dict(entry=entry_case, ops=ops_case, pulse=pulse_case, grape=grape_case)[case["kind"]](case, col)


def arguments(alg, entry, kind, method, sysname, oper, times, end):
    """(positional, keyword) with every dictionary supplied"""
    s = S.SYSTEMS[sysname]
    if oper in ("tdrift", "tctrl"):
        s = s.with_time(oper == "tdrift", oper == "tctrl", 3)
    drift, ctrls = s.qdrift(), s.qctrls()
    if oper == "tuple":
        if isinstance(ctrls, list):
            ctrls = tuple(ctrls)
    n = s.n_ctrls
    kw = dict(tau=np.array(TAU))
    if times == "list":
        kw["tau"] = list(TAU)
    elif times == "num":
        kw = dict(num_tslots=3, evo_time=1.2)
    elif times == "scalar-limits":
        kw.update(amp_lbound=-0.7, amp_ubound=0.8)
    elif times == "list-limits":
        kw.update(amp_lbound=[-0.7 + 0.1 * i for i in range(n)], amp_ubound=[0.8 - 0.1 * i for i in range(n)])
    elif times == "array-limits":
        kw.update(amp_lbound=np.array([-0.7 + 0.1 * i for i in range(n)]), amp_ubound=np.array([0.8 - 0.1 * i for i in range(n)]))
    targ = 50.0 if end == "goal" else -1.0
    kw.update(fid_err_targ=targ, max_iter=20, max_wall_time=10.0, optim_method=method)
    grad = alg == "GRAPE" and method != "Nelder-Mead"
    if alg == "GRAPE":
        kw["min_grad"] = 1e9 if end == "grad" else 0.0
    mp = dict(fid_err_targ=targ, max_wall_time=10.0)
    if end == "calls":
        mp["max_fid_func_calls"] = 2
    if method in ("Nelder-Mead", "FMIN"):
        mp.update(ftol=1e-3, xtol=1e-3)
    if method in ("L-BFGS-B", "FMIN_L_BFGS_B"):
        mp.update(max_metric_corr=7, accuracy_factor=1e5)
    kw["method_params"] = mp
    op = dict(disp_conv_msg=False, note=[1, dict(a=[2])])
    if alg == "GRAPE" and not grad:
        op["approx_grad"] = True
    if times == "array":
        op["dumping"] = "FULL"
    kw["optim_params"] = op
    dp = dict(note=dict(b=[3]))
    if oper == "qobj":
        dp["oper_dtype"] = Qobj
    if oper == "mem":
        dp["memory_optimization"] = 1
    kw.update(dyn_params=dp, prop_params=dict(note=[1]), fid_params=dict(note=[2]), tslot_params=dict(note=[3]))
    if kind == "UNIT":
        kw["fid_params"]["phase_option"] = "SU"
    if alg == "CRAB":
        kw["alg_params"] = dict(num_coeffs=2, init_coeff_scaling=0.6, crab_pulse_params=dict(randomize_freqs=True, fix_freqs=True, note=[4]))
    pp = dict(num_waves=1.2, start_phase=0.1, note=[5])
    crab = "crab" in entry
    if crab:
        kw.update(guess_pulse_type="SINE", guess_pulse_params=dict(pp, pulse_action="ADD"), ramping_pulse_type="GAUSSIAN_EDGE",
                  ramping_pulse_params=dict(decay_time=0.1))
    else:
        kw.update(init_pulse_type="SINE", init_pulse_params=pp)
        if alg == "CRAB":
            pp["pulse_action"] = "ADD"
            kw.update(alg="CRAB", ramping_pulse_type="GAUSSIAN_EDGE", ramping_pulse_params=dict(decay_time=0.1))
    if "unitary" not in entry:
        kw["dyn_type"] = kind
        if kind != "UNIT":
            kw["fid_type"] = "TRACEDIFF"
            kw["fid_params"]["scale_factor"] = 0.3
    return (drift, ctrls, s.q(s.initial), s.q(s.target)), kw


class Broken(RuntimeError):
    pass


def play(entry, q, kw, end, tag, col):
    """one call; returns a fingerprint"""
    import qutip_qtrl.pulseoptim as po

    clock = Clock()
    calls = []

    def handler(call):
        calls.append(call)
        nv = len(call.x0)
        X = [np.array(p) for p in c11.points("x", nv)]
        for x in X:
            x.setflags(write=False)
        keep = [x.copy() for x in X]

        def same(x, i, what):
            col.check(np.array_equal(x, keep[i]), "vector", "vector handed to the %s changed; %s" % (what, tag))

        vals = []
        for i in (0, 1):
            vals.append(float(call.fun(X[i])))
            same(X[i], i, "error function")
            if call.jac is not None:
                g = call.jac(X[i])
                vals.append(np.array(g))
                g2 = np.array(g)
                if isinstance(g, np.ndarray) and g.flags.writeable:
                    g *= 0.0  # the minimiser may do what it likes with the array it was given
                    g3 = np.array(call.jac(X[i]))
                    col.check(np.array_equal(g2, g3), "gradient", "the gradient returned is kept and shared with the caller; %s" % tag)
                same(X[i], i, "gradient function")
            if call.callback is not None:
                call.callback(X[i])
                same(X[i], i, "callback")
        if end == "wall":
            clock.t += 100.0
            call.callback(X[1])
            raise AssertionError("went on after the time limit")
        if end == "calls":
            for i in range(3):
                call.fun(X[i])
            raise AssertionError("went on after the call limit")
        if end == "error":
            raise Broken("minimiser failed")
        call.events = vals
        kind = end if end in KINDS[call.name] else "converged"
        return Return(kind, keep[1], 0.5, nit=2, nfev=4)

    m = minimiser_patch(handler)
    m.update(clock.mapping())
    m.update(Draws((0.8, 0.3, 0.6)).mapping())
    c11.reset_levels()
    r = None
    try:
        with patched(m):
            if entry == "create":
                o = po.create_pulse_optimizer(*q, **kw)
                d = o.dynamics
                d.init_timeslots()
                amps = np.zeros((d.num_tslots, d.num_ctrls))
                for j in range(d.num_ctrls):
                    p = o.pulse_generator[j] if isinstance(o.pulse_generator, list) else o.pulse_generator
                    p.init_pulse()
                    amps[:, j] = p.gen_pulse()
                before = amps.copy()
                d.initialize_controls(amps)
                try:
                    r = o.run_optimization()
                finally:
                    col.check(np.array_equal(before, amps), "amps", "amplitudes given to initialize_controls changed; %s" % tag)
            else:
                r = getattr(po, entry)(*q, **kw)
    except Broken:
        pass
    finally:
        c11.reset_levels()
    fp = {"calls": len(calls)}
    if r is not None:
        fp.update(c11.fingerprint(dict(call=calls[0], result=r, opt=r.optimizer, events=[], level=0, kw=kw)))
        fp["vals"] = np.concatenate([np.ravel(v) for v in getattr(calls[0], "events", [0.0])])
    elif calls:
        fp.update(x0=calls[0].x0, method=calls[0].name)
    return fp


def entry_case(case, col):
    alg, entry, kind, method = case["alg"], case["entry"], case["dyn"], case["method"]
    ends = list(ENDS)
    nm = {"FMIN": "fmin", "FMIN_BFGS": "fmin_bfgs", "FMIN_L_BFGS_B": "fmin_l_bfgs_b"}.get(method, "minimize")
    ends += list(KINDS[nm])
    grad = alg == "GRAPE" and method != "Nelder-Mead"
    if not grad:
        ends.remove("grad")
    for sysname, oper, times, end in itertools.product(SYS[kind], OPERS, TIMES, ends):
        tag = "%s %s %s %s %s %s ended by %s" % (entry, alg, sysname, method, oper, times, end)
        q, kw = arguments(alg, entry, kind, method, sysname, oper, times, end)
        before = freeze([list(q), kw])
        fp1 = play(entry, q, kw, end, tag, col)
        after = freeze([list(q), kw])
        dd = differ2(before, after)
        col.check(dd is None, "changed", "%s; %s" % (dd, tag))
        fp2 = play(entry, q, kw, end, tag, col)
        d2 = c11.differ(fp1, fp2) if set(fp1) == set(fp2) else ["different kind of ending"]
        col.check(not d2, "second", "second call with the same objects differs: %s; %s" % ("; ".join(d2)[:400], tag))
        dd = differ2(before, freeze([list(q), kw]))
        col.check(dd is None, "changed2", "%s after the second call; %s" % (dd, tag))
        col.execution(2)
        col.step(4)
        col.validated()
        col.state((entry, alg, sysname, method, oper, times, end))
        col.outcome((entry, fp1.get("result:termination_reason"), fp1["calls"], end))


def differ2(a, b):
    for x, y, n in ((a[2][0], b[2][0], "operators"), (a[2][1], b[2][1], "options")):
        if n == "operators":  # the list around them is ours
            for i, (p, q) in enumerate(zip(x[2], y[2])):
                d = diff(p, q, ["drift", "controls", "initial", "target"][i])
                if d:
                    return d
        else:
            d = diff(x, y, n)
            if d:
                return d
    return None


# ------------------------------------------------------------------ sequences of operations on a dynamics object
def ops_case(case, col):
    for rest in itertools.product(range(len(DOPS)), repeat=case["depth"] - 1):
        ops_one(case["i"], [case["first"]] + list(rest), col)


def ops_one(ci, seq, col):
    import os
    import tempfile

    sysname, dtype, mem = DCONF[ci]
    s = S.SYSTEMS[sysname]
    n = s.n_ctrls
    drift, ctrls, ini, targ = s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target)
    tau = np.array(TAU)
    A, B = S.amps_for(3, n, "a"), S.amps_for(3, n, "m")
    drift2, ctrls2 = s.qdrift() * 0.5, s.qctrls()[::-1]
    tau2 = [0.4, 0.1, 0.2]
    mine = dict(drift=drift, ctrls=ctrls, ini=ini, targ=targ, tau=tau, A=A, B=B, drift2=drift2, ctrls2=ctrls2, tau2=tau2)
    dp = dict(memory_optimization=mem)
    if dtype is not None:
        dp["oper_dtype"] = dtype
    mine["dp"] = dp
    import qutip_qtrl.pulseoptim as po

    o = po.create_pulse_optimizer(drift, ctrls, ini, targ, tau=tau, dyn_type=s.kind, dyn_params=dp, init_pulse_type="ZERO",
                                  optim_method="FMIN_L_BFGS_B", max_iter=2)
    d = o.dynamics
    before = freeze(mine)
    ready = False

    def handler(call):
        for i in range(2):
            x = np.full(len(call.x0), 0.1 * (i + 1))
            call.fun(x)
            call.jac(x)
            call.callback(x)
        return Return("converged", call.x0, 0.5, nit=1, nfev=2)

    names = [DOPS[i] for i in seq]
    for k, op in enumerate(names):
        if not ready and op not in ("init", "initB", "timeslots", "replace"):
            op = "init"
        if op in ("init", "initB"):
            d.initialize_controls(mine["A" if op == "init" else "B"])
            ready = True
        elif op in ("upd", "updB"):
            d.update_ctrl_amps(mine["A" if op == "upd" else "B"])
        elif op == "setA":  # the caller changes its own array and submits it again
            mine["A"][0, 0] += 0.25
            before = freeze(mine)
            d.update_ctrl_amps(mine["A"])
        elif op == "fid":
            d.fid_computer.get_fid_err()
        elif op == "grad":
            d.fid_computer.get_fid_err_gradient()
        elif op == "read":
            d.compute_evolution()
            for a in ("dyn_gen", "prop", "fwd_evo", "onwd_evo", "onto_evo", "full_evo", "ctrl_amps", "prop_grad", "onto_evo_target"):
                getattr(d, a, None)
        elif op == "dump":
            d.dumping = "FULL" if d.dumping == "NONE" else None
        elif op == "run":
            m = minimiser_patch(handler)
            m.update(Clock().mapping())
            with patched(m):
                o.run_optimization()
        elif op == "timeslots":
            d.tau = mine["tau2"]
            d.init_timeslots()
            if ready:
                d.initialize_controls(mine["A"])
        elif op == "save":
            fd, p = tempfile.mkstemp(suffix=".txt", prefix="c12")
            os.close(fd)
            d.save_amps(file_name=p, amps=mine["A"], times=mine["tau2"])
            os.remove(p)
        elif op == "replace":
            d.drift_dyn_gen, d.ctrl_dyn_gen = mine["drift2"], mine["ctrls2"]
            d.initialize_controls(mine["B"])
            ready = True
        now = freeze(mine)
        dd = diff(before, now, "arguments") if now != before else None
        if not col.check(dd is None, "changed", "%s by operation %d of %s on %s" % (dd, k + 1, names, DCONF[ci][:2])):
            break
        col.step()
    col.execution()
    col.validated()
    col.state((ci, tuple(seq)))
    col.outcome((ci, names[-1], d.dumping))


# ------------------------------------------------------------------ pulse generators
def pulse_case(case, col):
    import qutip_qtrl.pulsegen as pg

    name = case["name"]
    for give, calls in itertools.product(range(4), (1, 2)):
        tau = np.array(TAU) if give % 2 == 0 else list(TAU)
        d = c11.S.make_optim(S.SYSTEMS["u_zx_xyz"], TAU).dynamics if give >= 2 else None
        params = dict(scaling=0.5, offset=0.1, note=[1])
        coeffs = np.array([[0.1, 0.2], [0.3, -0.4]])
        if name == "CRAB_FOURIER":
            p = pg.create_pulse_gen(name, dyn=d, pulse_params=dict(params, num_coeffs=2) if d is not None else None)
        else:
            p = pg.create_pulse_gen(name, dyn=d, pulse_params=params if d is not None else None)
        mine = dict(tau=tau, params=params, coeffs=coeffs)
        before = freeze(mine)
        with patched(Draws((0.8, 0.3, 0.6)).mapping()):
            if d is None:
                p.num_tslots, p.pulse_time, p.tau = 3, float(sum(TAU)), tau
                p.params = params
                if name == "CRAB_FOURIER":
                    p.num_coeffs = 2
                p.apply_params()
            p.init_pulse()
            for _ in range(calls):
                if name == "CRAB_FOURIER":
                    out = p.gen_pulse(coeffs)
                else:
                    out = p.gen_pulse()
                dd = diff(before, freeze(mine), "arguments") if freeze(mine) != before else None
                col.check(dd is None, "changed", "%s by gen_pulse of %s" % (dd, name))
                out2 = np.array(out)
                out += 17.0  # the pulse belongs to the caller
                if name != "CRAB_FOURIER" and not name.startswith("RND"):
                    again = np.array(p.gen_pulse())
                    col.check(np.allclose(again, out2), "shared", "changing the pulse returned by %s changes the next one" % name)
                elif name == "CRAB_FOURIER":
                    again = np.array(p.gen_pulse(coeffs))
                    col.check(np.allclose(again, out2), "shared", "changing the pulse returned by %s changes the next one" % name)
                col.step()
        col.execution()
        col.validated()
        col.state((name, give, calls))
        col.outcome((name, calls))


# ------------------------------------------------------------------ stand-alone routines
def grape_case(case, col):
    import qutip_qtrl.grape as gr
    import warnings

    f = getattr(gr, case["name"])
    s = S.SYSTEMS["u_zx_xyz"]
    for R, tform, start, limits, alpha, ph, interp in itertools.product((2, 3), ("array", "list"), (None, "list", "rows"), (None, [-0.2, 0.3]), (None, 0.1),
                                                                      (True, False), (False, True)):
        t = np.linspace(0, 1.5, 4)
        t = t if tform == "array" else list(t)
        H = s.qctrls()
        us = None
        if start:
            us = [np.full(4, 0.5 * (j + 1)) for j in range(len(H))]
            if start == "rows":
                us = [list(u) for u in us]
        mine = dict(U=s.q(s.target), H0=s.qdrift(), H=H, t=t, us=us, limits=limits)
        tag = "%s R=%d times=%s start=%s limits=%s alpha=%s phase=%s interp=%s" % (case["name"], R, tform, start, limits, alpha, ph, interp)
        before = freeze(mine)
        outs = []
        for k in range(2):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = f(mine["U"], mine["H0"], mine["H"], R, mine["t"], eps=0.3, u_start=mine["us"], u_limits=mine["limits"], alpha=alpha, phase_sensitive=ph,
                      use_interp=interp)
            outs.append(np.array(r.u))
            dd = diff(before, freeze(mine), "arguments") if freeze(mine) != before else None
            col.check(dd is None, "changed", "%s; %s" % (dd, tag))
        col.check(np.array_equal(*outs), "second", "second call differs; %s" % tag)
        col.execution(2)
        col.step(2)
        col.validated()
        col.state((case["name"], tag))
        col.outcome((case["name"], R, start))
