"""C06: termination reasons and limits, over every scripted minimiser behaviour."""
import numpy as np

from .. import runs as R
from ..script import Chooser, explore

DEPTH = {"quick": {"gen": 4, "gen_approx": 5, "bfgs": 4, "bfgs_g": 3, "lbfgs": 4, "lbfgs_q": 3, "lbfgs_g": 3, "crab_fmin": 5,
                   "crab_nm": 4}}
DEPTH["thorough"] = {k: v + 1 for k, v in DEPTH["quick"].items()}

FLAGS = ("goal_achieved", "grad_norm_min_reached", "max_iter_exceeded", "max_fid_func_exceeded", "wall_time_limit_exceeded")

META = dict(
    rule="every sequence of minimiser actions {error evaluation at each of 5 points (below, at, above the target, start), gradient at each, "
         "iteration callback after each clock step, return with each status and each admissible point} up to the depth, with re-execution of "
         "the real optimiser for each; the recorded trace is judged by a reference model of the termination rules",
    bounds=lambda tier: dict(actions=DEPTH[tier], error_call_limit=3, iteration_limit=2, wall_limit=R.WALL, clock_steps=R.DT),
    assumptions=["minimisers evaluate before they call back or return and return an evaluated point (confirmed on the real scipy "
                 "minimisers by the conformance cases)"],
)
REASON = {
    "goal": "goal", "wall": "wall time", "calls": "fidelity error calls", "grad": "gradient",
}


def cases(tier):
    out = []
    for c in R.CONFIGS:
        n0 = 5 + (5 if c[:2] not in ("cr",) and c != "gen_approx" else 0)
        for a in range(n0):
            out.append(dict(kind="script", config=c, base=[a], depth=DEPTH[tier][c]))
    for c in ("gen", "lbfgs", "bfgs", "crab_fmin", "crab_nm", "gen_approx", "lbfgs_g"):
        out.append(dict(kind="args", config=c))
    real = ["BFGS", "CG", "L-BFGS-B", "TNC", "SLSQP", "Nelder-Mead", "Powell", "FMIN_BFGS", "FMIN_L_BFGS_B", "FMIN", "COBYLA"]
    for m in real:
        for alg in ("GRAPE", "CRAB"):
            if alg == "CRAB" and m in ("FMIN_BFGS", "FMIN_L_BFGS_B"):
                continue
            if alg == "GRAPE" and m == "FMIN":
                continue
            for li in range(6 if tier == "quick" else 14):
                out.append(dict(kind="real", alg=alg, method=m, lim=li))
    return out


def run_case(case, col):
    if case["kind"] == "script":
        explore(lambda ch: one(case, ch, col), case["base"])
    elif case["kind"] == "args":
        args(case, col)
    else:
        real(case, col)


def one(case, ch, col):
    r = R.execute(case["config"], ch, case["depth"])
    col.execution()
    col.step(len(r.trace))
    for i in range(len(r.trace)):
        col.state((case["config"], [e[:2] for e in r.trace[: i + 1]]))
    judge(r, col)
    col.outcome((case["config"], str(r.expect.ending), r.result.termination_reason, [getattr(r.result, f) for f in FLAGS]))
    col.sample(dict(run=r.text, ending=str(r.expect.ending), reason=r.result.termination_reason))


def judge(r, col):
    e, res = r.expect, r.result
    if e.err:
        col.fail("ending", "%s  [%s]" % (e.err, r.text))
        return
    want = dict.fromkeys(FLAGS, False)
    reason = str(res.termination_reason)
    if e.ending == "goal":
        want["goal_achieved"] = True
    elif e.ending == "wall":
        want["wall_time_limit_exceeded"] = True
    elif e.ending == "calls":
        want["max_fid_func_exceeded"] = True
    elif e.ending == "grad":
        want["grad_norm_min_reached"] = True
    else:
        k = e.ending[1]
        want["max_iter_exceeded"] = k == "maxiter"
        want["max_fid_func_exceeded"] = k == "maxfun"
        if k == "converged":
            want["grad_norm_min_reached"] = None if r.calls[0].name != "fmin" else False
        low = reason.lower()
        col.check(low.strip() not in ("", "none", "not started yet"), "reason:none", "no reason given [%s]" % r.text)
        words = {"converged": ("converge", "success", "gradient"), "ftol": ("converge",), "maxiter": ("iteration",),
                 "maxfun": ("evaluation", "function"), "abnormal": ("abnormal", "loss", "not changing", "precision"),
                 "nan": ("nan", "unknown", "precision", "loss")}[k]
        col.check(any(w in low for w in words), "reason:%s" % k, "reason %r [%s]" % (reason, r.text))
        for w in ("goal", "wall time"):
            col.check(w not in low, "reason:%s" % k, "reason %r [%s]" % (reason, r.text))
    if isinstance(e.ending, str):
        col.check(REASON[e.ending] in reason.lower(), "reason:%s" % e.ending, "reason %r, ended by %s [%s]" % (reason, e.ending, r.text))
    for f in FLAGS:
        if want[f] is not None:
            col.check(bool(getattr(res, f)) == want[f], "flag:%s" % f,
                      "%s = %r, run ended by %s [%s]" % (f, getattr(res, f), e.ending, r.text))
    if res.goal_achieved:
        col.check(res.fid_err <= r.targ, "flag:goal_achieved", "goal achieved with error %r above %r" % (res.fid_err, r.targ))
    col.validated()


# -------------------------------------------------- limits and tolerances reach the minimiser
def args(case, col):
    """every combination of limit values; the call the minimiser receives must carry them"""
    import itertools

    c = case["config"]
    P = R.points(c)
    for mi, mc, gm in itertools.product((1, 7, 500), (2, 40), (1e-9, 1e-3)):
        if P.uses_grad:
            pass
        r = R.execute(c, Chooser([2]), 1, limits=dict(max_iter=mi, max_calls=mc, min_grad=gm))
        col.execution()
        col.step(len(r.trace))
        call = r.calls[0]
        tag = "max_iter=%s max_calls=%s min_grad=%s [%s]" % (mi, mc, gm, r.text)
        col.check(call.opt("maxiter") == mi, "args:maxiter", "minimiser got %r, %s" % (call.opt("maxiter"), tag))
        if call.name != "fmin_bfgs":
            col.check(call.opt("maxfev") == mc, "args:maxfev", "minimiser got %r, %s" % (call.opt("maxfev"), tag))
        if call.name != "fmin":
            col.check(call.opt("gtol") == gm, "args:gtol", "minimiser got %r, %s" % (call.opt("gtol"), tag))
        col.check(np.array_equal(call.x0, P.x[4]), "args:x0", "start %s instead of %s" % (call.x0, P.x[4]))
        col.check(len(r.calls) == 1, "args:calls", "minimiser called %d times" % len(r.calls))
        if call.name == "minimize":
            col.check(str(call.opt("method")).lower() == R.CONFIGS[c][2].lower(), "args:method", "method %r" % call.opt("method"))
        col.check((call.jac is not None) == P.uses_grad, "args:jac", "gradient passed: %r" % (call.jac is not None))
        col.state(("args", c, mi, mc, gm))
        col.validated()


# -------------------------------------------------- conformance: the real scipy minimisers
LIMS = [
    dict(max_iter=0, max_calls=50), dict(max_iter=1, max_calls=60), dict(max_iter=3, max_calls=4), dict(max_iter=200, max_calls=9),
    dict(max_iter=12, max_calls=400, targ=0.05), dict(max_iter=8, max_calls=10000, dt=2.5),
    dict(max_iter=60, max_calls=10000, targ=1e-12, gmin=1e-3), dict(max_iter=60, max_calls=10000, gmin=0.2),
    dict(max_iter=2, max_calls=10000), dict(max_iter=30, max_calls=30), dict(max_iter=5, max_calls=10000, targ=0.3),
    dict(max_iter=40, max_calls=10000, dt=0.8), dict(max_iter=100, max_calls=10000, targ=1e-3), dict(max_iter=1, max_calls=1),
]


def real(case, col):
    """the genuine minimiser between recording wrappers: its trace must be one the script allows, and end as the model says"""
    import scipy.optimize as so

    from ..script import NAMES, Call, Clock, patched, Draws

    import qutip_qtrl.pulseoptim as po

    L = LIMS[case["lim"]]
    if L["max_iter"] == 0:
        L = dict(L, max_iter=1)
    s = R.S.SYSTEMS["u_zx_xyz"]
    clock = Clock()
    t0 = clock.t
    with patched(Draws().mapping()):
        o = po.create_pulse_optimizer(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), tau=np.array([0.5, 0.7]), dyn_type="UNIT",
                                      alg=case["alg"], optim_method=case["method"], init_pulse_type=None if case["alg"] == "CRAB" else
                                      "ZERO", alg_params=dict(num_coeffs=1), fid_err_targ=L.get("targ", 1e-9), min_grad=L.get("gmin", 1e-9),
                                      max_iter=L["max_iter"], max_wall_time=6.0,
                                      optim_params=dict(approx_grad=True) if case["method"] in ("Nelder-Mead", "Powell", "COBYLA") else None)
        d = o.dynamics
        d.init_timeslots()
        a = R.start_amps((d.num_tslots, d.num_ctrls))
        if case["alg"] == "CRAB":
            for j, p in enumerate(o.pulse_generator):
                p.init_pulse()
                a[:, j] = p.gen_pulse()
        d.initialize_controls(a)
    tc = o.termination_conditions
    tc.max_fid_func_calls = L["max_calls"]
    trace, rets, calls = [], [], []
    m = clock.mapping()
    for nm in NAMES:
        orig = getattr(so, nm)

        def rec(*args, _nm=nm, _o=orig, **kw):
            import inspect

            c = Call(_nm, _o, args, kw)
            calls.append(c)
            b = inspect.signature(_o).bind(*args, **kw)
            fn = [k for k in ("fun", "func", "f") if k in b.arguments][0]
            gn = [k for k in ("jac", "fprime") if k in b.arguments and callable(b.arguments[k])]

            def E(x, *r):
                trace.append(["E", np.array(x), "raised"])
                v = c.fun(x, *r)
                trace[-1][2] = v
                return v

            def G(x, *r):
                trace.append(["G", np.array(x), "raised"])
                v = c.jac(x, *r)
                trace[-1][2] = v
                return v

            def C(*r):
                clock.t += L.get("dt", 0.0)
                trace.append(["C", clock.t, "raised"])
                v = c.callback(*r)
                trace[-1][2] = "ok"
                return v

            b.arguments[fn] = E
            if gn:
                b.arguments[gn[0]] = G
            b.arguments["callback"] = C
            out = _o(*b.args, **b.kwargs)
            rets.append(out)
            return out

        m[(so, nm)] = rec
    with patched(m):
        res = o.run_optimization()
    col.execution()
    col.step(len(trace))
    targ, gmin = L.get("targ", 1e-9), L.get("gmin", 1e-9)
    ending, nE, ncb = None, 0, 0
    tag = "%s %s limits %s" % (case["alg"], case["method"], L)
    for k, ev in enumerate(trace):
        raised = isinstance(ev[2], str) and ev[2] == "raised"
        end = None
        if ev[0] == "E":
            nE += 1
            e = ref_err(o, ev[1])
            if e <= targ:
                end = "goal"
            elif nE > L["max_calls"]:
                end = "calls"
            if abs(e - targ) < 1e-12:
                end = "goal" if raised else None
        elif ev[0] == "G":
            g = ref_gnorm(o, ev[1])
            if g < gmin:
                end = "grad"
            if abs(g - gmin) < 1e-9:
                end = "grad" if raised else None
        else:
            ncb += 1
            if ev[1] - t0 > 6.0:
                end = "wall"
        if (end is not None) != raised:
            col.fail("real:ending", "%s: action %d (%s) %s, expected %s" % (tag, k, ev[0], "ended the run" if raised else "did not end", end))
            return
        if raised:
            ending = end
    flags = dict(goal="goal_achieved", wall="wall_time_limit_exceeded", calls="max_fid_func_exceeded", grad="grad_norm_min_reached")
    if ending:
        col.check(trace[-1][2] == "raised" and not rets, "real:after", tag)
        col.check(bool(getattr(res, flags[ending])), "real:flag", "%s: ended by %s, flag not set" % (tag, ending))
        col.check(REASON[ending] in str(res.termination_reason).lower(), "real:reason", "%s: %r" % (tag, res.termination_reason))
    else:
        col.check(len(rets) == 1, "real:return", tag)
        col.check(str(res.termination_reason).strip() not in ("", "None", "not started yet"), "real:reason", "%s: %r" % (tag, res.termination_reason))
        col.check(not res.goal_achieved and not res.wall_time_limit_exceeded, "real:flag", tag)
        out = rets[0]
        x = out.x if calls[0].name == "minimize" else out[0]
        ev = [t[1] for t in trace if t[0] in "EG"]
        # the assumption of the script: a returned point was evaluated, at least once, before
        if not any(np.allclose(x, y, rtol=0, atol=1e-12) for y in ev):
            col.n["assumption_unevaluated_return"] += 1
        amps = R.amps_of(o, x)
        col.check(np.allclose(res.final_amps, amps, atol=1e-10), "real:final", "%s: final amplitudes are not the returned point" % tag)
    col.check(res.num_fid_func_calls == nE, "real:calls", "%s: %r evaluations counted, %d made" % (tag, res.num_fid_func_calls, nE))
    col.check(res.num_iter == ncb, "real:iter", "%s: %r iterations counted, %d made" % (tag, res.num_iter, ncb))
    col.outcome(("real", case["alg"], case["method"], str(ending), str(res.termination_reason)))
    col.state(("real", case["alg"], case["method"], case["lim"]))
    col.validated()


def _ref(o, x):
    from ..ref import Ref

    s = R.S.SYSTEMS["u_zx_xyz"]
    return Ref("UNIT", s.drift, s.ctrls, s.initial, s.target, R.amps_of(o, x), [0.5, 0.7], fid="PSU")


def ref_err(o, x):
    return _ref(o, x).err()


def ref_gnorm(o, x):
    return float(np.linalg.norm(_ref(o, x).grad()))
