"""C07: the result record, over every scripted minimiser behaviour."""
import numpy as np
from qutip import Qobj

from .. import runs as R
from ..ref import Ref, close
from ..script import Chooser, explore

DEPTH = {"quick": {"gen": 3, "gen_approx": 4, "bfgs": 3, "bfgs_g": 3, "lbfgs": 3, "lbfgs_q": 3, "lbfgs_g": 3, "crab_fmin": 4,
                   "crab_nm": 4}}
DEPTH["thorough"] = {k: v + 1 for k, v in DEPTH["quick"].items()}
VARIANTS = [  # name, depth reduction, kwargs
    ("plain", 0, {}),
    ("stats", 1, dict(stats=True)),
    ("dump", 1, dict(dumping="FULL", stats=True)),
    ("debug", 2, dict(log_level=10)),
    ("evaluated", 2, dict(prep="evaluated")),
    ("again", 2, dict(prep="again", stats=True, dumping="FULL")),
]
META = dict(
    rule="every sequence of minimiser actions up to the depth (as in C06) for each optimiser, plain / with statistics / with full dumping / "
         "with debug logging / after other amplitudes had been evaluated on the same objects / as the second run of the same optimiser; every field of the result is compared with the recorded trace and the reference evolution, then the system "
         "and arrays are changed and the record compared with its snapshot",
    bounds=lambda tier: dict(actions=DEPTH[tier], variants=[(v[0], -v[1]) for v in VARIANTS], error_call_limit=3, iteration_limit=2),
    assumptions=["minimisers evaluate before they call back or return and return an evaluated point (confirmed in C06)"],
)


def cases(tier):
    out = []
    for c in R.CONFIGS:
        n0 = 5 + (5 if c[:2] not in ("cr",) and c != "gen_approx" else 0)
        for v, red, _ in VARIANTS:
            d = DEPTH[tier][c] - red
            for a in range(n0):
                out.append(dict(config=c, variant=v, base=[a], depth=max(d, 1)))
    return out


def run_case(case, col):
    import qutip_qtrl.logging_utils as lg
    import sys

    kw = dict([(v[0], v[2]) for v in VARIANTS][[v[0] for v in VARIANTS].index(case["variant"])][1])
    mods = [m for m in sys.modules if m.startswith("qutip_qtrl.")]
    lv = [lg.get_logger(m).level for m in mods]
    try:
        explore(lambda ch: one(case, ch, col, kw), case["base"])
    finally:
        for m, l in zip(mods, lv):
            lg.get_logger(m).setLevel(l)


def sysref(config, amps, t=None):
    sname, tau, kind = R.SYS[R.CONFIGS[config][0]]
    s = R.S.SYSTEMS[sname]
    return Ref(s.kind, s.drift, s.ctrls, s.initial, s.target, amps, tau, fid="PSU" if s.kind == "UNIT" else "TD"), s, tau


_memo = {}


def refs(config, amps):
    k = (config, amps.tobytes())
    if k not in _memo:
        r, s, tau = sysref(config, amps)
        _memo[k] = (r.err(), r.fwd()[-1])
    return _memo[k]


def full(x):
    return x.full() if isinstance(x, Qobj) else np.asarray(x)


def evaluated(o):
    """other amplitudes were evaluated before, and those of the start submitted again"""
    d = o.dynamics
    a = d.ctrl_amps.copy()
    d.update_ctrl_amps(np.zeros_like(a) + 0.7)
    d.fid_computer.get_fid_err()
    d.compute_evolution()
    d.full_evo
    if d.prop_computer.grad_exact:
        d.fid_computer.get_fid_err_gradient()
    d.update_ctrl_amps(a)


def snapshot(res):
    out = {}
    for k, v in sorted(vars(res).items()):
        if k in ("optimizer",):
            continue
        if k == "stats":
            v = None if v is None else {a: b for a, b in vars(v).items()}
        out[k] = v.copy() if isinstance(v, (np.ndarray, Qobj)) else (dict(v) if isinstance(v, dict) else v)
    return out


def same(a, b):
    if isinstance(a, (np.ndarray, Qobj)) or isinstance(b, (np.ndarray, Qobj)):
        return type(a) is type(b) and np.array_equal(full(a), full(b))
    return a == b or (a != a and b != b)


def one(case, ch, col, kw):
    c = case["config"]
    kw = dict(kw)
    prep = kw.pop("prep", None)
    if prep == "evaluated":
        kw["prepare"] = evaluated
    elif prep == "again":
        first = R.execute(c, Chooser([2, 5 if c in ("gen_approx", "crab_fmin", "crab_nm") else 10]), 2, **kw)
        assert first.trace[1][0] == "C", first.text
        keep = snapshot(first.result)
        kw["optim"] = first.optim
        kw["clock"] = first.clock
        first.clock.t += 3.0
    r = R.execute(c, ch, case["depth"], **kw)
    if prep == "again":
        for k, v in snapshot(first.result).items():
            if k != "stats":
                col.check(same(keep[k], v), "changed:%s" % k, "result.%s of the first run changed by the second: %r -> %r" % (k, keep[k], v))
    col.execution()
    col.step(len(r.trace))
    for i in range(len(r.trace)):
        col.state((c, case["variant"], [e[:2] for e in r.trace[: i + 1]]))
    e, res = r.expect, r.result
    if e.err:
        return  # the ending itself is C06
    tag = "[%s]" % r.text
    amps = R.amps_of(r.optim, r.P.x[e.point])
    err, evo = refs(c, amps)
    ok = col.check(close(res.final_amps, amps, 1e-10, 1e-12), "final_amps", "final amplitudes %s belong to %s, last point %s %s" % (
        np.asarray(res.final_amps).tolist(), "another point", r.P.names[e.point], tag))
    col.check(close(res.fid_err, err, 1e-8, 1e-9), "fid_err", "final error %r, of the last point %r %s" % (res.fid_err, err, tag))
    col.check(res.fid_err == r.P.err[e.point] or close(res.fid_err, r.P.err[e.point], 1e-12, 1e-14), "fid_err", tag)
    col.check(isinstance(res.evo_full_final, Qobj) and close(full(res.evo_full_final), evo, 1e-8, 1e-9), "evo_full_final",
              "final evolution is not that of the final amplitudes %s" % tag)
    e0, evo0 = refs(c, r.start_amps)
    col.check(close(res.initial_amps, r.start_amps, 0, 0), "initial_amps", tag)
    col.check(close(res.initial_fid_err, e0, 1e-8, 1e-9), "initial_fid_err", "%r, expected %r %s" % (res.initial_fid_err, e0, tag))
    col.check(isinstance(res.evo_full_initial, Qobj) and close(full(res.evo_full_initial), evo0, 1e-8, 1e-9), "evo_full_initial", tag)
    sname, tau, kind = R.SYS[R.CONFIGS[c][0]]
    for q in (res.evo_full_final, res.evo_full_initial):
        if isinstance(q, Qobj):
            col.check(q.dims == r.dyn.initial.dims, "evo_dims", "%s %s" % (q.dims, tag))
    col.check(close(np.asarray(res.time), np.concatenate([[0], np.cumsum(tau)]), 1e-12, 1e-12), "time", "%s %s" % (res.time, tag))
    col.check(res.num_fid_func_calls == e.nE, "num_fid_func_calls", "%r, made %d %s" % (res.num_fid_func_calls, e.nE, tag))
    col.check(res.num_iter == e.ncb, "num_iter", "%r, made %d %s" % (res.num_iter, e.ncb, tag))
    col.check(close(res.wall_time, r.t1 - r.t0, 0, 1e-9), "wall_time", "%r, elapsed %r %s" % (res.wall_time, r.t1 - r.t0, tag))
    if e.lastgrad is not None:
        col.check(close(res.grad_norm_final, r.P.gn[e.lastgrad], 1e-9, 1e-12), "grad_norm_final",
                  "%r, last gradient norm %r %s" % (res.grad_norm_final, r.P.gn[e.lastgrad], tag))
    if kind == "UNIT":
        col.check(close(res.fidelity, 1 - err, 1e-8, 1e-9), "fidelity", "%r, expected %r %s" % (res.fidelity, 1 - err, tag))
    col.check(res.optimizer is r.optim, "optimizer", tag)
    # --- the record does not move with the system
    snap = snapshot(res)
    d = r.dyn
    try:
        d.ctrl_amps[0, 0] += 3.0
        d.time[-1] += 1.0
    except (ValueError, TypeError):
        pass  # read-only is fine
    d.initialize_controls(np.zeros_like(amps) + 0.4)
    d.update_ctrl_amps(np.zeros_like(amps) - 0.3)
    d.fid_computer.get_fid_err()
    if r.P.uses_grad:
        d.fid_computer.get_fid_err_gradient()
    for k, v in snapshot(res).items():
        col.check(k == "stats" and _stats_same(snap[k], v) or same(snap[k], v), "changed:%s" % k,
                  "result.%s changed with the system: %r -> %r %s" % (k, snap[k], v, tag))
    col.validated()
    col.outcome((c, case["variant"], str(e.ending), e.nE, e.nG, e.ncb, e.point))
    col.sample(dict(run=r.text, final=r.P.names[e.point]))


def _stats_same(a, b):
    if a is None or b is None:
        return a is b
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
