"""C19: independent optimisations do not influence each other."""
import copy
import itertools
import os
import pickle
import sys
import tempfile

import numpy as np
from qutip import Qobj

from .. import duo
from .. import systems as S
from ..fsfault import scratch
from ..runs import amps_of
from ..script import Return, patched

META = dict(
    rule="(a) every interleaving of two scripts of up to five operations (create, prepare, run, update and query, run again) over every pair of configurations, "
         "with shared and with separate operators, arrays, parameter dictionaries and configuration objects; (b) every interleaving of two runs at the "
         "granularity of the minimiser's actions; (c) the other script run completely at every function call boundary of the first; (d) every history of "
         "earlier activities up to the depth before each probe, in a fresh process; every observation compared with that of the script alone",
    bounds=lambda tier: dict(configurations=len(CFG), operations=5, actions=5 if tier == "quick" else 6, preemptions="1 at " + ("two occurrences of every call site of the package" if tier == "quick" else "every call of the package"),
                             histories=2 if tier == "quick" else 3, activities=len(ACT)),
    assumptions=["log levels belong to the process and are not compared", "each script has its own virtual clock and random draws",
                 "threads switch only at the stated points"],
)
TAU = [0.3, 0.55, 0.2]
TD = dict(u=("u_zx_xyz", True, True))
CFG = {
    # name: (builder, system, keyword arguments)
    "lbfgs": ("two", "u_zx_xyz", dict(amp_lbound=-0.9, amp_ubound=[0.9, 1.0, 1.1], init_pulse_type="SINE")),
    "rnd": ("two", "u_zx_xyz", dict(init_pulse_type="RNDFOURIER", pulse_scaling=0.4, optim_method="BFGS")),
    "qobj": ("two", "u_zx_xyz", dict(dyn_params=dict(oper_dtype=Qobj), fid_params=dict(phase_option="SU"), init_pulse_type="LIN")),
    "td": ("two", "u_zx_xyz+td", dict(dyn_params=dict(memory_optimization=1), prop_type="FRECHET", init_pulse_type="ZERO", optim_method="FMIN_BFGS")),
    "dump": ("two", "u_init", dict(dyn_params=dict(dumping="FULL"), optim_params=dict(dumping="FULL"), gen_stats=True, init_pulse_type="SAW")),
    "gen": ("two", "g_c", dict(init_pulse_type="GAUSSIAN", method_params=dict(max_metric_corr=5, max_fid_func_calls=40))),
    "approx": ("two", "g_c", dict(prop_type="APPROX", fid_type="TDAPPROX", init_pulse_type="SQUARE")),
    "td_u": ("two", "u_init", dict(fid_type="TRACEDIFF", fid_params=dict(scale_factor=0.4), init_pulse_type="TRIANGLE")),
    "sympl": ("two", "s_1", dict(init_pulse_type="RNDWALK1")),
    "crab": ("two", "u_zx_xyz", dict(alg="CRAB", alg_params=dict(num_coeffs=2, crab_pulse_params=dict(randomize_freqs=True)), init_pulse_type="LIN",
                                     init_pulse_params=dict(pulse_action="ADD"), ramping_pulse_type="GAUSSIAN_EDGE",
                                     ramping_pulse_params=dict(decay_time=0.2), amp_lbound=-0.8, amp_ubound=0.8)),
    "crab_nm": ("two", "g_c", dict(alg="CRAB", optim_method="Nelder-Mead", init_pulse_type=None, alg_params=dict(num_coeffs=1, fix_frequency=False))),
    "one": ("one", "u_zx_xyz", dict(f="optimize_pulse", dyn_type="UNIT", init_pulse_type="RND", amp_ubound=0.9, gen_stats=True)),
    "one_u": ("one", "u_init", dict(f="optimize_pulse_unitary", init_pulse_type="RNDWAVES", method_params=dict(max_metric_corr=7))),
    "one_c": ("one", "u_zx_xyz", dict(f="opt_pulse_crab_unitary", num_coeffs=2, guess_pulse_type="SINE", guess_pulse_action="MODULATE", amp_lbound=-0.7)),
    "direct": ("direct", "u_zx_xyz", dict(method="L-BFGS-B")),
    "direct_g": ("direct", "g_c", dict(method="BFGS")),
}
NAMES = list(CFG)
# values put on the optimiser's own configuration object before the first run
SETS = {"lbfgs": dict(accuracy_factor=1e4), "qobj": dict(max_metric_corr=6, accuracy_factor=1e5), "gen": dict(amp_lbound=-2.5), "td_u": dict(max_metric_corr=3)}


def cases(tier):
    out = []
    for a, b in itertools.combinations_with_replacement(NAMES, 2):
        out.append(dict(kind="ops", a=a, b=b, share=True, join=tier == "quick" and not (a in FEW and b in FEW)))
        if tier != "quick" or (a in FEW and b in FEW):
            out.append(dict(kind="ops", a=a, b=b, share=False))
    n = 5 if tier == "quick" else 6
    for a, b in itertools.combinations_with_replacement(NAMES, 2):
        if CFG[a][0] != "one" or CFG[b][0] != "one" or a == b:
            out.append(dict(kind="acts", a=a, b=b, n=n if a in FEW and b in FEW else n - 1))
    for a in NAMES:
        for b in (FEW if tier == "quick" else NAMES):
            for part in range(4):
                out.append(dict(kind="calls", a=a, b=b, part=part, of=4, all=tier != "quick"))
    for h in itertools.product(range(len(ACT)), repeat=2):
        out.append(dict(kind="hist", h=list(h)))
        if tier != "quick":
            for x in range(len(ACT)):
                out.append(dict(kind="hist", h=list(h) + [x]))
    return out


FEW = ["lbfgs", "dump", "gen", "crab", "direct"]


def run_case(case, col):
    dict(ops=ops_case, acts=acts_case, calls=calls_case, hist=hist_case)[case["kind"]](case, col)


# ------------------------------------------------------------------ the scripts
class Pool:
    """arguments of the scripts: built once per configuration, or for each script"""

    def __init__(self, share):
        self.share = share
        self.made = {}

    def get(self, key, make):
        if not self.share:
            return make()
        if key not in self.made:
            self.made[key] = make()
        return self.made[key]


def copy_kw(kw):
    return {k: (copy_kw(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in kw.items()}


def system(name):
    if name.endswith("+td"):
        return S.SYSTEMS[name[:-3]].with_time(True, True, len(TAU))
    return S.SYSTEMS[name]


def inputs(pool, name):
    how, sysn, kw = CFG[name]
    s = system(sysn)
    q = pool.get(("sys", sysn), lambda: (s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target)))
    tau = pool.get("tau", lambda: np.array(TAU))
    return s, q, tau, pool.get(("kw", name), lambda: copy_kw(kw))


def script(name, pool, n_act=4):
    """the operations of the script"""
    how, sysn, _ = CFG[name]
    st = {}

    def handler(sd):
        def h(call):
            st["calls"].append(call)
            k = np.arange(len(call.x0), dtype=float)
            pts = [0.4 * np.cos(1.3 * k + 0.3 * i) * (1 + 0.1 * i) + 0.05 * i for i in range(4)]
            seq = ["E0", "G0", "C", "E1", "G1", "C"][: st["n_act"]]
            vals = []
            st["vals"].append(vals)
            for a in seq:
                if sd.fine:
                    sd.give_way()
                if a[0] == "E":
                    vals.append(call.fun(pts[int(a[1])].copy()))
                elif a[0] == "G":
                    if call.jac is not None:
                        vals.append(np.array(call.jac(pts[int(a[1])].copy())))
                else:
                    sd.clock.t += 0.7
                    call.callback(pts[0].copy())
            if sd.fine:
                sd.give_way()
            return Return("converged", pts[0], 0.5, nit=1, nfev=2)

        return h

    st.update(n_act=n_act, calls=[], vals=[], results=[])

    def run(sd, f):
        sd.handler = handler(sd)
        r = f()
        st["results"].append(r)
        c = st["calls"][-1]
        return ("run", {k: c.opt(k) for k in ("maxiter", "maxfev", "gtol", "ftol", "maxcor", "xtol", "bounds")}, str(c.opt("method")), c.x0, st["vals"][-1],
                res(r))

    def create(sd):
        s, q, tau, kw = inputs(pool, name)
        if how == "two":
            import qutip_qtrl.pulseoptim as po

            kw = dict(kw)
            o = po.create_pulse_optimizer(*q, tau=tau, dyn_type=s.kind, fid_err_targ=1e-9, max_iter=50, max_wall_time=60, min_grad=1e-9, **kw)
        else:
            o = direct(s, q, tau, kw, pool)
        st["o"] = o
        return ("create", attrs(o))

    def prepare(sd):
        o = st["o"]
        d = o.dynamics
        if how == "two":
            d.init_timeslots()
            amps = np.zeros((d.num_tslots, d.num_ctrls))
            pg = o.pulse_generator
            for j in range(d.num_ctrls):
                p = pg[j] if isinstance(pg, list) else pg
                if isinstance(pg, list) or j == 0:
                    p.init_pulse()
                amps[:, j] = p.gen_pulse()
        else:
            amps = 0.2 + 0.1 * np.arange(len(TAU) * d.num_ctrls).reshape(len(TAU), -1)
        st["first"] = amps
        for k, v in SETS.get(name, {}).items():
            setattr(o.config, k, v)
        d.initialize_controls(amps)
        return ("prepare", amps.copy(), look(o))

    def run1(sd):
        return run(sd, st["o"].run_optimization)

    def query(sd):
        o = st["o"]
        d = o.dynamics
        a = 0.3 - 0.15 * st["first"]
        d.update_ctrl_amps(a)
        x = look(o)
        d.update_ctrl_amps(st["first"])
        return ("query", x, look(o))

    def run2(sd):
        o = st["o"]
        o.termination_conditions = copy.copy(o.termination_conditions)   # the object may be the other's too
        o.termination_conditions.max_iterations = 33
        x = run(sd, o.run_optimization)
        return x + (look(o), attrs(o), [res(r) for r in st["results"]])

    def one(sd):
        import qutip_qtrl.pulseoptim as po

        s, q, tau, kw = inputs(pool, name)
        kw = dict(kw)
        f = getattr(po, kw.pop("f"))
        x = run(sd, lambda: f(*q, tau=tau, fid_err_targ=1e-9, max_iter=50, max_wall_time=60, **kw))
        st["o"] = st["results"][-1].optimizer
        return x + (attrs(st["o"]),)

    def oneq(sd):
        st["first"] = np.array(st["results"][0].initial_amps)
        return query(sd)

    def again(sd):
        return ("again", [res(r) for r in st["results"]], look(st["o"]))

    if how == "one":
        return [one, oneq, one, again]
    return [create, prepare, run1, query, run2]


def direct(s, q, tau, kw, pool):
    import qutip_qtrl.dynamics as dynamics
    import qutip_qtrl.optimconfig as optimconfig
    import qutip_qtrl.optimizer as optimizer
    import qutip_qtrl.termcond as termcond

    cfg = pool.get("cfg", optimconfig.OptimConfig)
    d = {"UNIT": dynamics.DynamicsUnitary, "GEN_MAT": dynamics.DynamicsGenMat}[s.kind](cfg)
    o = optimizer.Optimizer(cfg, d)
    o.method = kw["method"]

    def tcs():
        t = termcond.TerminationConditions()
        t.max_iterations = 77
        t.fid_err_targ = 1e-9
        return t

    o.termination_conditions = pool.get(("tc", kw["method"]), tcs)
    d.drift_dyn_gen, d.ctrl_dyn_gen, d.initial, d.target = q
    d.tau = tau
    return o


# ------------------------------------------------------------------ observations
def arr(x):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, Qobj):
        return x.full()
    if isinstance(x, (int, float, complex, np.generic)):
        return complex(x)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x.copy()
    if isinstance(x, (list, tuple, np.ndarray)):
        return [arr(y) for y in x]
    if isinstance(x, dict):
        return {str(k): arr(v) for k, v in x.items()}
    return type(x).__name__


RES = ("fid_err", "initial_fid_err", "final_amps", "initial_amps", "time", "num_iter", "num_fid_func_calls", "wall_time", "termination_reason", "goal_achieved",
       "grad_norm_final", "max_iter_exceeded", "wall_time_limit_exceeded", "max_fid_func_exceeded", "grad_norm_min_reached", "fidelity", "evo_full_final",
       "evo_full_initial")
STS = ("num_iter", "num_fidelity_func_calls", "num_grad_func_calls", "num_tslot_recompute", "num_fidelity_computes", "num_grad_computes", "num_ctrl_amp_updates",
       "num_timeslot_changes", "num_ctrl_amp_changes", "mean_num_timeslot_changes_per_update")


def res(r):
    out = {k: arr(getattr(r, k, None)) for k in RES}
    s = getattr(r, "stats", None)
    if s is not None:
        out["stats"] = {k: arr(getattr(s, k, None)) for k in STS}
    return out


def attrs(o):
    """public settings of everything that was built"""
    d = o.dynamics
    out = dict(cfg={k: arr(v) for k, v in sorted(vars(o.config).items())})
    tc = o.termination_conditions
    for nm, x, ks in (("o", o, ("alg", "method", "approx_grad", "amp_lbound", "amp_ubound", "bounds", "max_metric_corr", "disp_conv_msg", "dumping")),
                      ("tc", tc, ("fid_err_targ", "min_gradient_norm", "max_iterations", "max_wall_time", "max_fid_func_calls", "accuracy_factor")),
                      ("d", d, ("num_tslots", "evo_time", "tau", "time", "num_ctrls", "oper_dtype", "memory_optimization", "dumping", "time_depend_drift",
                                "time_depend_ctrl_dyn_gen", "drift_dyn_gen", "ctrl_dyn_gen", "initial", "target", "cache_dyn_gen_eigenvectors", "cache_phased_dyn_gen",
                                "cache_prop_grad", "cache_dyn_gen_eigenvectors_adj")),
                      ("f", d.fid_computer, ("phase_option", "scale_factor", "epsilon")), ("p", d.prop_computer, ("epsilon", "grad_exact"))):
        out[nm] = [type(x).__name__] + [arr(getattr(x, k, None)) if not isinstance(getattr(x, k, None), type) else getattr(x, k).__name__ for k in ks]
    pg = o.pulse_generator
    for p in (pg if isinstance(pg, list) else [pg]):
        out.setdefault("g", []).append([type(p).__name__] + [arr(getattr(p, k, None)) for k in (
            "scaling", "offset", "lbound", "ubound", "num_tslots", "pulse_time", "num_coeffs", "freqs", "coeffs", "guess_pulse", "guess_pulse_action", "ramping_pulse",
            "num_waves", "wavelen", "freq", "start_phase", "gradient", "start_val", "end_val", "mean", "variance", "decay_time", "min_wavelen", "fix_freqs")])
    return out


def look(o):
    d = o.dynamics
    f = d.fid_computer
    out = dict(amps=arr(d.ctrl_amps), err=arr(f.get_fid_err()))
    if o.alg != "CRAB" and type(d.prop_computer).__name__ != "PropCompApproxGrad" or type(f).__name__ == "FidCompTraceDiffApprox":
        out["grad"] = arr(np.array(f.get_fid_err_gradient()))
        out["gn"] = arr(f.grad_norm)
    if hasattr(f, "get_fidelity"):
        out["fid"] = arr(f.get_fidelity())
    out["evo"] = arr(d.full_evo)
    out["fwd"] = [arr(x) for x in d.fwd_evo]
    out["prop"] = [arr(x) for x in d.prop]
    out["drift"] = arr(d.drift_dyn_gen)
    if o.dump is not None:
        out["odump"] = [arr(o.dump.fid_err_log), arr(o.dump.grad_norm_log), [arr(x) for x in o.dump.grad_log], len(o.dump.iter_summary)]
    if d.dump is not None:
        out["ddump"] = [len(d.dump.evo_summary), [[arr(getattr(e, k, None)) for k in ("ctrl_amps", "prop", "fwd_evo")] for e in d.dump.evo_dumps[-2:]]]
    pg = o.pulse_generator
    if isinstance(pg, list):
        out["vars"] = [arr(np.array(p.get_optim_var_vals())) for p in pg]
        out["freqs"] = [arr(p.freqs) for p in pg]
    return out


def same(x, y, path=""):
    """None, or where the observations differ"""
    if isinstance(x, (tuple, list)):
        if not isinstance(y, (tuple, list)) or len(x) != len(y):
            return "%s: %s / %s" % (path, short(x), short(y))
        for i, (a, b) in enumerate(zip(x, y)):
            r = same(a, b, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(x, dict):
        if not isinstance(y, dict) or list(x) != list(y):
            return "%s: %s / %s" % (path, short(x), short(y))
        for k in x:
            r = same(x[k], y[k], "%s.%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        ok = np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-9, atol=1e-11, equal_nan=True)
    elif isinstance(x, (float, complex)) and isinstance(y, (float, complex)):
        ok = x == y or abs(x - y) <= 1e-11 + 1e-9 * abs(y) or (x != x and y != y)
    else:
        ok = type(x) is type(y) and x == y
    return None if ok else "%s: %s / %s" % (path, short(x), short(y))


def short(x):
    return str(x.tolist() if isinstance(x, np.ndarray) else x)[:120]


def verdict(side, base, tag, sig, col):
    if base.err is not None:
        raise base.err
    if side.err is not None:
        col.fail(sig + ":raised", "%s raised %r" % (tag, side.err))
        return
    r = same(list(side.obs), list(base.obs))
    col.check(r is None, sig, "%s: together / alone differ at %s" % (tag, r))


_ALONE = {}


def base_of(name, n=4):
    if (name, n) not in _ALONE:
        _ALONE[name, n] = duo.alone(script(name, Pool(False), n))
    return _ALONE[name, n]


# ------------------------------------------------------------------ (a), (b)
def joined(ops):
    """the first two operations as one"""
    if len(ops) < 5:
        return ops
    return [lambda sd: ("joined", ops[0](sd), ops[1](sd))] + ops[2:]


def ops_case(case, col):
    a, b = case["a"], case["b"]
    ba, bb = base_of(a), base_of(b)
    jn = joined if case.get("join") else list
    for order in duo.interleavings(len(jn(script(a, Pool(False)))), len(jn(script(b, Pool(False))))):
        pool = Pool(case["share"])
        sides = [duo.Side(jn(script(a, pool))), duo.Side(jn(script(b, pool)))]
        duo.schedule(sides, order)
        for s in sides:
            s.obs = [x for o in s.obs for x in (o[1:] if o[0] == "joined" else [o])]
        for s, base, nm in ((sides[0], ba, a), (sides[1], bb, b)):
            verdict(s, base, "%s of %s/%s in order %s%s" % (nm, a, b, "".join("AB"[i] for i in order), " sharing" if case["share"] else ""), "operations", col)
        done(col, ("ops", a, b, case["share"], order), len(order))


def done(col, key, n):
    col.execution()
    col.validated()
    col.step(n)
    col.state(key)
    col.outcome(key[:4])


def acts_case(case, col):
    """both brought to the start of their first run; then the actions of the two runs interleaved"""
    a, b, n = case["a"], case["b"], case["n"] - 1
    ba, bb = base_of(a, n), base_of(b, n)
    for order in duo.interleavings(n + 1, n + 1):
        pool = Pool(True)
        sides = []
        for nm in (a, b):
            sd = duo.Side(script(nm, pool, n), fine=True)
            sides.append(sd)
        lead = [0] * (2 if CFG[a][0] != "one" else 0) + [1] * (2 if CFG[b][0] != "one" else 0)
        duo.schedule(sides, lead + list(order))
        for s, base, nm in ((sides[0], ba, a), (sides[1], bb, b)):
            verdict(s, base, "%s of %s/%s, actions in order %s" % (nm, a, b, "".join("AB"[i] for i in order)), "actions", col)
        done(col, ("acts", a, b, order), len(order))


# ------------------------------------------------------------------ (c) one preemption at every call boundary
def calls_case(case, col):
    a, b = case["a"], case["b"]
    ba, bb = base_of(a), base_of(b)
    import qutip_qtrl

    home = os.path.dirname(qutip_qtrl.__file__)

    def execute(at, pool, where=None):
        """script a; when its at-th function of the package is entered, the whole of script b runs"""
        cnt = [0]
        sa, sb = duo.Side(script(a, pool)), duo.Side(script(b, pool))

        def prof(frame, event, arg):
            if event != "call" or not frame.f_code.co_filename.startswith(home):
                return
            if where is not None:
                c = frame.f_back.f_code
                where.setdefault((frame.f_code.co_filename, frame.f_code.co_name, c.co_filename, c.co_name, frame.f_back.f_lineno), []).append(cnt[0])
            cnt[0] += 1
            if cnt[0] == at + 1:
                sys.setprofile(None)
                sb.run()
                duo._tl.side = sa

        ops = sa.ops

        def first(sd):
            sys.setprofile(prof)
            return ops[0](sd)

        sa.ops = [first] + ops[1:]
        try:
            sa.run()
        finally:
            sys.setprofile(None)
        return sa, sb, cnt[0]

    with patched(duo.environment()):
        where = {}
        n = execute(-1, Pool(False), where)[2]
        pts = list(range(n)) if case["all"] else sorted({x for v in where.values() for x in (v[0], v[len(v) // 2])})
        for at in pts[case["part"]:: case["of"]]:
            pool = Pool(True)
            sa, sb, _ = execute(at, pool)
            for s, base, nm in ((sa, ba, a), (sb, bb, b)):
                verdict(s, base, "%s of %s with %s at its call %d" % (nm, a, b, at), "preempted", col)
            done(col, ("calls", a, b, at), 1)


# ------------------------------------------------------------------ (d) histories in a fresh process
def in_child(f):
    """f() in a forked process; its value"""
    fd, path = tempfile.mkstemp(prefix="c19")
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            v = f()
            with open(path, "wb") as fh:
                pickle.dump(v, fh)
            code = 0
        except BaseException:
            import traceback

            with open(path, "wb") as fh:
                pickle.dump(("error", traceback.format_exc()), fh)
        finally:
            os._exit(code)
    os.waitpid(pid, 0)
    try:
        with open(path, "rb") as fh:
            return pickle.load(fh)
    finally:
        os.unlink(path)


def probe():
    """every configuration, and seeded runs with the genuine minimisers"""
    import qutip_qtrl.pulseoptim as po

    out = {}
    for n in NAMES:
        sd = duo.alone(script(n, Pool(False)))
        out[n] = sd.obs if sd.err is None else repr(sd.err)
    s = S.SYSTEMS["u_zx_xyz"]
    for i, (f, kw) in enumerate([("optimize_pulse_unitary", dict(init_pulse_type="RND")), ("opt_pulse_crab_unitary", dict(num_coeffs=2)),
                                 ("optimize_pulse", dict(dyn_type="UNIT", init_pulse_type="RNDWALK2", optim_method="BFGS"))]):
        np.random.seed(7)
        r = getattr(po, f)(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), tau=np.array(TAU), max_iter=6, fid_err_targ=1e-6, **kw)
        out["seeded%d" % i] = [arr(r.fid_err), arr(r.final_amps), arr(r.initial_amps), arr(r.num_iter), r.termination_reason]
    return out


_FRESH = []


def fresh():
    if not _FRESH:
        _FRESH.append(in_child(probe))
    return _FRESH[0]


def hist_case(case, col):
    base = fresh()
    if isinstance(base, tuple):
        raise AssertionError(base[1])

    def go():
        with scratch() as d:
            for i in case["h"]:
                try:
                    ACT[i][1](d)
                except AbortRun:
                    pass
            return probe()

    got = in_child(go)
    tag = " then ".join(ACT[i][0] for i in case["h"])
    if isinstance(got, tuple):
        col.fail("history:raised", "after %s: %s" % (tag, got[1][-600:]))
        return
    for n in base:
        r = same(got[n], base[n]) if not isinstance(base[n], str) else None
        if isinstance(base[n], str):
            raise AssertionError(base[n])
        col.check(r is None, "history", "%s after %s: differs from a fresh process at %s" % (n, tag, r))
        done(col, ("hist", n, tuple(case["h"])), len(case["h"]) + 1)


class AbortRun(Exception):
    pass


def opt(f="optimize_pulse_unitary", sysn="u_init", tau=(0.4, 0.4), abort=None, **kw):
    import qutip_qtrl.pulseoptim as po

    s = S.SYSTEMS[sysn]
    cnt = [0]

    def h(call):
        x = call.x0.copy()
        e = call.fun(x)
        cnt[0] += 1
        if abort == "eval":
            raise AbortRun()
        if call.jac is not None:
            call.jac(x)
        if abort == "callback":
            raise AbortRun()
        call.callback(x)
        return Return("converged", x + 0.1, e, nit=1, nfev=1)

    sd = duo.Side([lambda sd: None])
    sd.handler = h
    duo._tl.side = sd
    with patched(duo.environment()):
        if f not in ("optimize_pulse_unitary", "opt_pulse_crab_unitary"):
            kw["dyn_type"] = s.kind
        return getattr(po, f)(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), tau=np.array(tau), **kw)


def act_dump(d):
    r = opt(dyn_params=dict(dumping="FULL", dump_to_file=True, dump_dir=os.path.join(d, "x")),
            optim_params=dict(dumping="FULL", dump_to_file=True, dump_dir=os.path.join(d, "x")), gen_stats=True)
    r.optimizer.dump.writeout()
    r.optimizer.dump.clear()


def act_reject(d):
    for kw in (dict(dyn_type="FOO"), dict(alg="FOO"), dict(init_pulse_type="FOO"), dict(tau=None), dict(amp_lbound=0.5, amp_ubound=-0.5)):
        try:
            import qutip_qtrl.pulseoptim as po

            s = S.SYSTEMS["u_zx_xyz"]
            po.optimize_pulse(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), **dict(dict(tau=np.array(TAU)), **kw))
        except Exception:
            pass


def act_load(d):
    import qutip_qtrl.loadparams as lp

    p = os.path.join(d, "p.ini")
    with open(p, "w") as f:
        f.write("[optimconfig]\nfid_type = TRACEDIFF\nmax_metric_corr = 3\namp_lbound = -0.1\n[dynamics]\nmemory_optimization = 1\n[optimizer]\nmethod = TNC\n"
                "[termconds]\nmax_iterations = 3\nmax_fid_func_calls = 2\n[pulsegen]\nscaling = 0.2\n")
    import qutip_qtrl.optimconfig as oc
    import qutip_qtrl.pulsegen as pg
    import qutip_qtrl.termcond as tc

    r = opt()
    o = r.optimizer
    p2 = pg.PulseGenSine()
    lp.load_parameters(p, config=oc.OptimConfig(), term_conds=tc.TerminationConditions(), dynamics=o.dynamics, optim=o, pulsegen=p2)


def act_set(d):
    """every public attribute of one optimiser changed"""
    o = opt(gen_stats=True).optimizer
    dy = o.dynamics
    o.amp_lbound, o.amp_ubound, o.max_metric_corr, o.approx_grad, o.method = -0.1, 0.1, 3, True, "TNC"
    o.method_params = dict(max_fid_func_calls=3, eps=1e-3)
    o.apply_method_params()
    tc = o.termination_conditions
    tc.max_iterations, tc.fid_err_targ, tc.min_gradient_norm, tc.max_wall_time, tc.max_fid_func_calls = 2, 0.9, 0.9, 0.1, 1
    dy.memory_optimization = 1
    dy.fid_computer.apply_params(dict(phase_option="SU", scale_factor=3.0))
    dy.prop_computer.apply_params(dict(epsilon=0.3, grad_exact=False))
    dy.apply_params(dict(fact_mat_round_prec=1e-2, def_amps_fname="foo", cache_prop_grad=False))
    o.config.amp_lbound, o.config.amp_ubound, o.config.max_metric_corr, o.config.accuracy_factor = -0.3, 0.2, 4, 1e9
    dy.num_tslots = 4
    dy.evo_time = 9.0
    dy.init_timeslots()


def act_pulses(d):
    import qutip_qtrl.pulsegen as pg

    dy = opt().optimizer.dynamics
    sd = duo.Side([lambda sd: None])
    duo._tl.side = sd
    with patched(duo.environment()):
        for t in ("LIN", "RND", "SINE", "SAW", "SQUARE", "TRIANGLE", "GAUSSIAN", "GAUSSIAN_EDGE", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2", "ZERO", "CRAB_FOURIER"):
            p = pg.create_pulse_gen(t, dy, pulse_params=dict(scaling=0.3, offset=0.2, lbound=-0.4, ubound=0.5))
            p.init_pulse()
            p.gen_pulse()
            for k, v in (("num_waves", 3.3), ("start_phase", 0.2), ("mean", 0.1), ("variance", 0.7), ("decay_time", 0.9), ("gradient", 3.0), ("num_coeffs", 5)):
                if hasattr(p, k):
                    setattr(p, k, v)
            p.init_pulse()
            p.gen_pulse()
            p.reset()


def act_grape(d):
    import qutip_qtrl.grape as gr

    s = S.SYSTEMS["u_zx_xyz"]
    sd = duo.Side([lambda sd: None])
    duo._tl.side = sd
    with patched(duo.environment()):
        gr.grape_unitary(s.q(s.target), s.qdrift(), s.qctrls(), 3, np.linspace(0, 1, 4), eps=0.1, u_limits=[-0.5, 0.5], alpha=0.1, beta=0.1)
        gr.cy_grape_unitary(s.q(s.target), s.qdrift(), s.qctrls(), 3, np.linspace(0, 1, 4), eps=0.1, u_limits=[-0.5, 0.5])


ACT = [
    ("bounded run", lambda d: opt(amp_lbound=-0.2, amp_ubound=[0.2, 0.3], max_iter=2, fid_err_targ=0.9, method_params=dict(max_metric_corr=3, accuracy_factor=1e2))),
    ("general run", lambda d: opt("optimize_pulse", "g_real", optim_method="TNC", method_params=dict(max_fid_func_calls=1, eps=1e-3), phase_option=None)),
    ("SU Qobj run", lambda d: opt(dyn_params=dict(oper_dtype=Qobj, memory_optimization=1, cache_prop_grad=False), phase_option="SU", log_level=20)),
    ("symplectic run", lambda d: opt("optimize_pulse", "s_1", fid_params=dict(scale_factor=2.0), prop_type="FRECHET")),
    ("symplectic 4", lambda d: opt("optimize_pulse", "s_2", tau=(0.1, 0.2, 0.3, 0.4), dyn_params=dict(note=1), prop_params=dict(epsilon=0.5))),
    ("crab run", lambda d: opt("opt_pulse_crab_unitary", num_coeffs=3, amp_lbound=-0.1, amp_ubound=0.1, guess_pulse_type="LIN", guess_pulse_action="ADD",
                               guess_pulse_scaling=0.1, ramping_pulse_type="GAUSSIAN_EDGE", alg_params=dict(fix_frequency=False, crab_pulse_params=dict(scaling=0.1)))),
    ("pulses run", lambda d: opt(init_pulse_type="SINE", init_pulse_params=dict(num_waves=2.5, start_phase=1.0, scaling=0.2), pulse_offset=0.3)),
    ("debug run", lambda d: opt(log_level=6, gen_stats=True)),
    ("aborted evaluation", lambda d: opt(abort="eval", gen_stats=True)),
    ("aborted callback", lambda d: opt("optimize_pulse", "u_ket", abort="callback")),
    ("dump files", act_dump), ("rejected", act_reject), ("parameter file", act_load), ("attributes", act_set), ("pulse generators", act_pulses),
    ("stand-alone GRAPE", act_grape),
    ("state, 4 levels", lambda d: opt("optimize_pulse", "u_deg4", tau=(0.2,), fid_type="TRACEDIFF")),
    ("qutrit", lambda d: opt("optimize_pulse", "u_q3", tau=(0.2, 0.1), tslot_params=dict(note=2), optim_params=dict(dumping="SUMMARY"))),
]
