"""C08: amplitude limits, over generators, entry points, minimisers (scripted and genuine) and histories of limit changes."""
import itertools

import numpy as np

from .. import pulses as P
from .. import systems as S
from ..script import NAMES, Call, Draws, Return, minimiser_patch, patched
from . import c09, c10

LIM1 = [(None, None), (-1.2, 0.9), (0.1, 0.8), (-0.7, -0.2), (None, 0.6), (-0.4, None), (None, -0.2), (0.3, None), (0.0, 1.0), (-1.0, 0.0), (0.0, None),
        (None, 0.0), (-np.inf, 0.5), (-0.5, np.inf), (-np.inf, np.inf), (-np.inf, 0.0), (0.0, np.inf), (-0.05, 0.05), (-1, 2), (0, 1)]
# limits for two controls
LIM2 = LIM1 + [
    ([-1.2, 0.1], [0.9, 0.8]), ([0.1, -1.2], [0.8, 0.9]), ([-0.5, -0.2], None), (None, [0.4, 0.1]), ([0.0, -0.3], [0.2, 0.0]), ([-0.4, -0.3], 0.7),
    (-0.8, [0.0, 0.5]), ([-np.inf, 0.1], [0.3, np.inf]), ([0.4, -0.9], [0.9, -0.4]), ([-np.inf, -np.inf], [0.1, 0.2]), ([0.2, 0.3], [np.inf, np.inf]),
]
# limits for three controls, no two alike
LIM3 = [([-1.2, 0.1, -0.3], [0.9, 0.8, 0.0]), ([0.0, -0.2, 0.3], None), (None, [0.2, -0.1, 0.0]), (-0.6, [0.0, 0.3, 0.1]), ([0.0, 0.5, -2.0], [0.1, 0.7, -1.0])]
GRAPE_SYS = {"c1": ("u_z_x", 1, LIM1), "c2": ("u_z_xy", 2, LIM2), "c3": ("u_zx_xyz", 3, LIM3)}
FORMS = {"list": list, "tuple": tuple, "array": np.array}
REAL = [("GRAPE", "FMIN_L_BFGS_B", {}), ("GRAPE", "L-BFGS-B", {}), ("GRAPE", "TNC", {}), ("GRAPE", "SLSQP", {}),
        ("GRAPE", "Nelder-Mead", dict(approx_grad=True)), ("GRAPE", "Powell", dict(approx_grad=True)), ("GRAPE", "L-BFGS-B", dict(approx_grad=True)),
        ("GRAPE", "DEF", {}), ("CRAB", "FMIN", {}), ("CRAB", "Nelder-Mead", {}), ("CRAB", "Powell", {}), ("CRAB", "DEF", {})]
TAU = [0.3, 0.55, 0.2, 0.45]
META = dict(
    rule="(a) every pulse type x layout x scaling/offset x limits x time of setting the limits x assignment of values to the draws; (b) the entry points: "
         "initial pulse, bounds of every variable and pulses evaluated, for every limit set as number/list/tuple/array, slot count, method and "
         "minimiser seam; (c) chopped-basis pulses at every corner of a set of extreme variable vectors, with guess and ramp; (d) every sequence "
         "of {set lower/upper limits, explicit limits, remove, change method, run} up to the depth against a model of the limits; (e) the "
         "genuine bounded minimisers of scipy, every evaluated pulse",
    bounds=lambda tier: dict(limits=[str(x) for x in LIM1], draws="each of 3 values per draw, first 4 draws", histories=3 if tier == "quick" else 4,
                             methods=["%s/%s" % r[:2] for r in REAL]),
    assumptions=["random numbers come from numpy.random uniform sampling",
                 "a bounded algorithm is one for which scipy keeps evaluations inside the bounds (L-BFGS-B, TNC, SLSQP, Nelder-Mead, Powell)"],
)
TOL = 1e-9


def cases(tier):
    out = []
    for k in P.TYPES:
        for lay in ("dyn_tau", "dyn_one", "alone_n", "dyn_eq"):
            out.append(dict(kind="gen", type=k, layout=lay, tier=tier))
    for s in GRAPE_SYS:
        for li in range(len(GRAPE_SYS[s][2])):
            out.append(dict(kind="entry", sys=s, lim=li, tier=tier))
            if s != "c3":
                out.append(dict(kind="crab", sys=s, lim=li, tier=tier))
    for m in range(len(REAL)):
        for s in ("c2", "c3"):
            out.append(dict(kind="real", method=m, sys=s, tier=tier))
    for first in range(len(HOPS)):
        for m in ("FMIN_L_BFGS_B", "L-BFGS-B"):
            out.append(dict(kind="history", method=m, first=first, depth=3 if tier == "quick" else 4))
    return out


def run_case(case, col):
    dict(gen=gen, entry=entry, crab=crab, real=real, history=history)[case["kind"]](case, col)


def own(b, j):
    """limit of control j, None if there is none"""
    if b is not None and np.ndim(b) > 0:
        b = b[j]
    return None if b is None or np.isinf(b) else float(b)


def inside(y, lb, ub, tol=TOL):
    y = np.asarray(y, dtype=float)
    lb, ub = own(lb, 0), own(ub, 0)
    return bool(np.all(np.isfinite(y)) and (lb is None or y.min() >= lb - tol) and (ub is None or y.max() <= ub + tol))


def columns_inside(A, lb, ub):
    A = np.asarray(A, dtype=float)
    return [j for j in range(A.shape[1]) if not inside(A[:, j], own(lb, j), own(ub, j))]


# ------------------------------------------------------------------ generators
def gen(case, col):
    kind, lay = case["type"], case["layout"]
    tau = P.LAYOUTS[lay]
    rnd = kind in P.RANDOM
    assignments = list(itertools.product((0.02, 0.5, 0.97), repeat=3 if case["tier"] == "quick" else 5)) if rnd else [()]
    for pr in c09.PARAMS[kind]:
        if pr and case["tier"] == "quick" and len(pr) > 1:
            continue
        for (sc, off), (lb, ub), when in itertools.product(c09.SCALES + [(1.0, 3.0), (0.2, 0.4)], LIM1, ("params", "before", "after", "changed")):
            a = dict(pr)
            if when == "params":
                a.update({k: v for k, v in (("lbound", lb), ("ubound", ub)) if v is not None})
            g = c09.make(kind, lay, a, sc, off)
            m = c09.Model(kind, tau, sc, off, pr)
            tag = "%s %s scaling %g offset %g limits (%s,%s) set %s params %s" % (kind, lay, sc, off, lb, ub, when, pr)
            if when == "changed":  # tighter limits first, used, then the ones looked at
                g.lbound, g.ubound = 0.31, 0.32
                with patched(Draws((0.3, 0.8)).mapping()):
                    col.check(inside(g.gen_pulse(), 0.31, 0.32), "limits", "first pulse; " + tag)
            if when == "after":
                with patched(Draws((0.3, 0.8)).mapping()):
                    g.gen_pulse()
            if when != "params":
                g.lbound, g.ubound = lb, ub
            for i, asg in enumerate(assignments):
                dr = Draws(list(asg) + [0.13, 0.88, 0.4] if asg else (0.3,))
                with patched(dr.mapping()):
                    y = np.array(g.gen_pulse())
                ok = y.shape == (len(tau),) and inside(y, lb, ub)
                col.check(ok, "limits", "pulse %s; %s draws %s" % (y.tolist(), tag, asg))
                if not rnd and when != "changed":
                    w, mask = m.wave()
                    if inside(w, lb, ub, -TOL) and not mask.any():
                        col.check(np.allclose(y, w, atol=2e-6), "altered", "pulse %s although %s is within the limits; %s" % (y.tolist(), w.tolist(), tag))
                elif rnd:
                    # the same draws without limits
                    h = c09.make(kind, lay, pr, sc, off)
                    if when in ("after", "changed"):
                        with patched(Draws((0.3, 0.8)).mapping()):
                            h.gen_pulse()
                    dr2 = Draws(list(asg) + [0.13, 0.88, 0.4])
                    with patched(dr2.mapping()):
                        w = np.array(h.gen_pulse())
                    if inside(w, lb, ub, -TOL):
                        col.check(np.allclose(y, w, atol=1e-9), "altered", "pulse %s although %s is within the limits; %s" % (y.tolist(), w.tolist(), tag))
                col.execution()
                col.step()
                col.state((kind, lay, sc, off, str((lb, ub)), when, i, str(pr)))
                col.outcome(y.round(7).tobytes())
    col.validated()


# ------------------------------------------------------------------ entry points (GRAPE)
PULSES = [("RND", {}), ("ZERO", {}), ("LIN", {}), ("SINE", dict(num_waves=1.3)), ("SQUARE", {}), ("SAW", {}), ("TRIANGLE", {}), ("GAUSSIAN", {}),
          ("GAUSSIAN_EDGE", {}), ("RNDFOURIER", {}), ("RNDWAVES", {}), ("RNDWALK1", {}), ("RNDWALK2", {})]


def forms(b):
    return [f for f in FORMS] if b is not None and np.ndim(b) > 0 else ["number"]


def as_form(b, f):
    return b if f == "number" else FORMS[f](b)


def entry(case, col):
    import qutip_qtrl.pulseoptim as po

    name, n, lims = GRAPE_SYS[case["sys"]]
    s = S.SYSTEMS[name]
    lb, ub = lims[case["lim"]]
    calls_ = ["optimize_pulse", "optimize_pulse_unitary", "create"]
    for (pt, pp), (sc, off), f, method, how, nts in itertools.product(
            PULSES, [(1.0, 0.0), (0.4, 0.25)], sorted(set(forms(lb) + forms(ub))), ("FMIN_L_BFGS_B", "L-BFGS-B", "TNC"), calls_, (4, 1)):
        if f == "number" and (forms(lb) + forms(ub)).count("number") < 2:
            continue
        if case["tier"] == "quick" and (method == "TNC" or f == "tuple" or nts == 1) and pt not in ("RND", "LIN"):
            continue
        tau = TAU[:nts]
        L = lb if forms(lb) == ["number"] else as_form(lb, f)
        U = ub if forms(ub) == ["number"] else as_form(ub, f)
        tag = "%s limits (%s,%s) as %s, %s x%g+%g, %s, %s, %d slots" % (name, lb, ub, f, pt, sc, off, method, how, nts)
        a = dict(tau=np.array(tau), amp_lbound=L, amp_ubound=U, fid_err_targ=1e-30, optim_method=method, init_pulse_type=pt,
                 init_pulse_params=dict(pp), pulse_scaling=sc, pulse_offset=off)
        seen = []

        def handler(call):
            seen.append(call)
            return Return("converged", call.x0, 0.5, nfev=0)

        m = minimiser_patch(handler)
        m.update(Draws((0.02, 0.8, 0.97, 0.1, 0.55)).mapping())
        with patched(m):
            if how == "create":
                o = po.create_pulse_optimizer(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), dyn_type="UNIT", **a)
                d = o.dynamics
                d.init_timeslots()
                lo = max([own(lb, j) for j in range(n) if own(lb, j) is not None], default=-np.inf)
                hi = min([own(ub, j) for j in range(n) if own(ub, j) is not None], default=np.inf)
                amps = np.zeros((nts, n))
                for j in range(n):
                    if lo > hi:  # no pulse is within the limits of all controls: the caller sets those of each
                        o.pulse_generator.lbound, o.pulse_generator.ubound = own(lb, j), own(ub, j)
                    amps[:, j] = o.pulse_generator.gen_pulse()
                d.initialize_controls(amps)
                r = o.run_optimization()
            else:
                if how == "optimize_pulse":
                    a["dyn_type"] = "UNIT"
                r = getattr(po, how)(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), **a)
        bad = columns_inside(r.initial_amps, lb, ub)
        col.check(not bad, "initial", "initial amplitudes %s leave the limits of controls %s; %s" % (r.initial_amps.tolist(), bad, tag))
        bad = columns_inside(seen[0].x0.reshape(nts, n), lb, ub)
        col.check(not bad, "start", "start %s leaves the limits of controls %s; %s" % (seen[0].x0.tolist(), bad, tag))
        variables(seen[0], lb, ub, nts, n, tag, col)
        col.execution()
        col.step()
        col.validated()
        col.state((case["sys"], case["lim"], pt, sc, f, method, how, nts))
        col.outcome(r.initial_amps.round(7).tobytes())


def variables(call, lb, ub, nts, n, tag, col, explicit=None):
    """the limits given to the minimiser, variable by variable"""
    want = explicit or [(own(lb, j), own(ub, j)) for k in range(nts) for j in range(n)]
    got = norm_bounds(call.opt("bounds"), nts * n)
    want = [(own(a, 0), own(b, 0)) for a, b in want]
    col.check(got == want, "bounds", "minimiser limits %s, expected %s; %s" % (got, want, tag))


def norm_bounds(b, nv):
    if b is None:
        return [(None, None)] * nv
    if hasattr(b, "lb"):
        lo, hi = np.broadcast_to(b.lb, nv), np.broadcast_to(b.ub, nv)
        b = list(zip(lo, hi))
    return [(own(x, 0), own(y, 0)) for x, y in b]


# ------------------------------------------------------------------ CRAB
def crab(case, col):
    import qutip_qtrl.pulseoptim as po

    name, n, lims = GRAPE_SYS[case["sys"]]
    s = S.SYSTEMS[name]
    lb, ub = lims[case["lim"]]
    for gi, action, ramp, fix, nc, how in itertools.product(range(len(c10.GUESS)), ("MODULATE", "ADD"), c10.RAMP, (True, False), (1, 2),
                                                            ("opt_pulse_crab", "opt_pulse_crab_unitary")):
        if gi == 0 and action == "ADD":
            continue
        if case["tier"] == "quick" and not fix and (nc == 2 or how != "opt_pulse_crab"):
            continue
        g = c10.GUESS[gi]
        a = dict(tau=np.array(TAU), amp_lbound=lb, amp_ubound=ub, fid_err_targ=1e-30, num_coeffs=nc)
        if how == "opt_pulse_crab":
            a["dyn_type"] = "UNIT"
        if g:
            a.update(guess_pulse_type=g[0], guess_pulse_params=dict(g[1]), guess_pulse_scaling=g[2], guess_pulse_offset=g[3],
                     guess_pulse_action=action)
        if ramp:
            a.update(ramping_pulse_type=ramp[0], ramping_pulse_params=dict(ramp[1]))
        a["alg_params"] = dict(fix_frequency=fix)
        tag = "%s limits (%s,%s) guess %s %s ramp %s coefficients %d fixed %s %s" % (name, lb, ub, g, action, ramp, nc, fix, how)
        nv = n * nc * (2 if fix else 3)
        corners = [np.zeros(nv)] + [v * np.array([(-1.0) ** (i // w) for i in range(nv)]) for v in (1.0, 30.0) for w in (1, 2, 3, 1000)] + \
                  [-v * np.ones(nv) for v in (1.0, 30.0)] + [100.0 * (np.arange(nv) == i) for i in range(nv)]
        out = []

        def handler(call):
            for x in corners:
                call.fun(x.copy())
                out.append(holder[0].ctrl_amps.copy())
            return Return("maxiter", corners[-1], 0.5, nit=1, nfev=len(corners))

        holder = []
        m = minimiser_patch(handler)
        m.update(Draws((0.02, 0.8, 0.97, 0.1, 0.55)).mapping())
        orig = po.create_pulse_optimizer

        def create(*x, **k):
            o = orig(*x, **k)
            holder.append(o.dynamics)
            return o

        m[(po, "create_pulse_optimizer")] = create
        with patched(m):
            r = getattr(po, how)(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), **a)
        for what, A in [("initial", r.initial_amps), ("final", r.final_amps)] + list(zip(corners, out)):
            bad = columns_inside(A, lb, ub)
            col.check(not bad, "crab", "amplitudes %s leave the limits of controls %s at %s; %s" % (
                np.asarray(A).tolist(), bad, what if isinstance(what, str) else what.tolist(), tag))
            col.step()
            col.outcome(np.asarray(A).round(7).tobytes())
        col.check(len(out) == len(corners), "crab", "%d of %d evaluated; %s" % (len(out), len(corners), tag))
        col.execution()
        col.validated()
        col.state((case["sys"], case["lim"], gi, action, ramp and ramp[0], fix, nc, how))


# ------------------------------------------------------------------ genuine minimisers
def real(case, col):
    import inspect

    import scipy.optimize as so

    import qutip_qtrl.pulseoptim as po

    alg, method, op = REAL[case["method"]]
    name, n, lims = GRAPE_SYS[case["sys"]]
    s = S.SYSTEMS[name]
    for (lb, ub), pt, start in itertools.product(lims, ("RND", "ZERO", "LIN"), (1.0, 3.0)):
        if alg == "CRAB" and pt != "RND":
            continue
        if case["tier"] == "quick" and start != 1.0 and pt != "RND":
            continue
        tau = TAU[:2]
        tag = "%s/%s limits (%s,%s) %s x%g" % (alg, method, lb, ub, pt, start)
        evaluated = []
        m = Draws((0.02, 0.8, 0.97, 0.1, 0.55)).mapping()
        dyn = []
        orig_c = po.create_pulse_optimizer

        def create(*x, **k):
            o = orig_c(*x, **k)
            dyn.append(o.dynamics)
            o.termination_conditions.max_fid_func_calls = 60
            return o

        m[(po, "create_pulse_optimizer")] = create
        for nm in NAMES:
            orig = getattr(so, nm)

            def rec(*args, _o=orig, _nm=nm, **kw):
                b = inspect.signature(_o).bind(*args, **kw)
                for fn in ("fun", "func", "f", "jac", "fprime"):
                    f = b.arguments.get(fn)
                    if callable(f):
                        def E(x, *r, _f=f):
                            v = _f(x, *r)
                            evaluated.append(dyn[0].ctrl_amps.copy())
                            return v

                        b.arguments[fn] = E
                return _o(*b.args, **b.kwargs)

            m[(so, nm)] = rec
        a = dict(tau=np.array(tau), amp_lbound=lb, amp_ubound=ub, fid_err_targ=1e-9, max_iter=8, alg=alg, optim_method=method, dyn_type="UNIT",
                 pulse_scaling=start)
        if alg == "CRAB":
            a["alg_params"] = dict(num_coeffs=1, init_coeff_scaling=start)
            a["init_pulse_type"] = None
        else:
            a["init_pulse_type"] = pt
        if op:
            a["optim_params"] = dict(op)
        with patched(m):
            r = po.optimize_pulse(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), **a)
        col.check(len(evaluated) > 0, "real:none", tag)
        for what, A in [("initial", r.initial_amps), ("final", r.final_amps)] + [("evaluation %d" % i, A) for i, A in enumerate(evaluated)]:
            bad = columns_inside(A, lb, ub)
            col.check(not bad, "real", "%s %s leaves the limits of controls %s; %s" % (what, np.asarray(A).tolist(), bad, tag))
            col.step()
        col.execution()
        col.validated()
        col.state((alg, method, case["sys"], str((lb, ub)), pt, start))
        col.outcome((alg, method, r.final_amps.round(6).tobytes()))


# ------------------------------------------------------------------ histories
HOPS = [("lb", None), ("lb", -0.3), ("lb", 0.0), ("lb", [-0.2, 0.1]), ("ub", None), ("ub", 0.9), ("ub", 0.0), ("ub", [0.5, np.inf]), ("explicit", "A"),
        ("explicit", "B"), ("explicit", None), ("method", "FMIN_L_BFGS_B"), ("method", "L-BFGS-B"), ("mparams", 7), ("run", None)]
EXPL = {"A": [(-0.1 * i, 0.2 + 0.1 * i) for i in range(4)], "B": [(None, 0.5), (0.0, None), (None, None), (-1.0, 1.0)]}


def history(case, col):
    import qutip_qtrl.pulseoptim as po

    s = S.SYSTEMS["u_z_xy"]
    for L in range(case["depth"]):
        for suf in itertools.product(range(len(HOPS)), repeat=L):
            seq = (case["first"],) + suf
            o = po.create_pulse_optimizer(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), dyn_type="UNIT", tau=np.array([0.3, 0.5]),
                                          amp_lbound=-2.0, amp_ubound=[3.0, 4.0], fid_err_targ=1e-30, optim_method=case["method"],
                                          init_pulse_type="ZERO")
            d = o.dynamics
            d.initialize_controls(np.zeros((2, 2)))
            lb, ub, ex = -2.0, [3.0, 4.0], None
            hist = []
            for op, v in [HOPS[i] for i in seq] + [("run", None), ("run", None)]:
                hist.append("%s=%s" % (op, v))
                if op == "lb":
                    o.amp_lbound = lb = v
                elif op == "ub":
                    o.amp_ubound = ub = v
                elif op == "explicit":
                    o.bounds = None if v is None else list(EXPL[v])
                    ex = v
                elif op == "method":
                    o.optim_method = v
                elif op == "mparams":
                    o.method_params = dict(maxcor=v)
                else:
                    seen = []

                    def handler(call):
                        seen.append(call)
                        return Return("converged", call.x0, 0.5)

                    with patched(minimiser_patch(handler)):
                        o.run_optimization()
                    variables(seen[0], lb, ub, 2, 2, "start %s, history %s" % (case["method"], hist), col, EXPL[ex] if ex else None)
                col.step()
                col.state((case["method"], str(lb), str(ub), ex, op))
            col.execution()
            col.validated()
            col.outcome((str(lb), str(ub), ex))
