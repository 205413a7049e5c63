"""C21: diagnostics report what is true and have no other effect."""
import contextlib
import io
import itertools
import logging
import re
import sys

import numpy as np
from qutip import Qobj

from .. import duo
from .. import systems as S
from ..ref import Ref, close
from . import c19 as B

LV = dict(warn=30, info=20, debug=10, verbose=8, intense=6)
META = dict(
    rule="(a) every sequence up to the depth of log level changes, unitarity check level and tolerance changes, amplitude updates, evaluations, evolution "
         "computations, re-initialisations and explicit unitarity checks in every configuration: values as in the same history without diagnostics, the "
         "slots reported as not unitary those of a plain-matrix model; (b) every configuration of complete runs x log level x check level, every "
         "observation as in the silent run; (c) the printed statistics, each number under its own heading",
    bounds=lambda tier: dict(depth=3 if tier == "quick" else 4, configurations=len(CFG), operations=len(OPS), levels=list(LV), runs=len(RUNS)),
    assumptions=["log levels belong to the process", "only the wording 'unitary', the slot number and the quantity names in messages are relied on"],
)
H2 = np.array([[0, 1.0], [0, 0]], dtype=complex)


def extra():
    return {
        "nh": S.System("nh", "UNIT", 0.7 * S.sz, [S.sx, H2], S.s0, S.had),
        "nh_td": S.System("nh_td", "UNIT", [0.7 * S.sz, 0.7 * S.sz - 0.3j * S.s0, 0.2 * S.sx], [S.sx, S.sy], S.s0, S.had),
        "so": S.System("so", "SYMPL", 0.5 * np.eye(2), [np.eye(2), np.diag([1.0, 0])], np.eye(2), np.array([[0.0, 1.0], [-1.0, 0.0]])),
    }


SY = dict(S.SYSTEMS, **extra())
SY["u_td"] = S.SYSTEMS["u_z_xy"].with_time(True, True, 3)
CFG = {
    # name: (system, propagator, fidelity, dyn_params)
    "diag": ("u_z_xy", "DEF", "DEF", {}), "diag_q": ("u_z_xy", "DIAG", "UNIT", dict(oper_dtype=Qobj, memory_optimization=1)),
    "fre": ("u_zx_xyz", "FRECHET", "UNIT", {}), "nh": ("nh", "FRECHET", "TRACEDIFF", {}), "nh_q": ("nh", "FRECHET", "TRACEDIFF", dict(oper_dtype=Qobj)),
    "nh_td": ("nh_td", "FRECHET", "TRACEDIFF", dict(memory_optimization=1, oper_dtype=np.ndarray)), "td": ("u_td", "DEF", "DEF", {}),
    "apx": ("u_z_xy", "APPROX", "TDAPPROX", {}), "ket": ("u_ket", "DEF", "DEF", {}), "deg4": ("u_deg4", "DIAG", "TRACEDIFF", {}),
    "g_c": ("g_c", "DEF", "DEF", {}), "g_nilp": ("g_nilp", "FRECHET", "TRACEDIFF", {}), "g_q": ("g_nilp", "AUG_MAT", "TRACEDIFF", dict(oper_dtype=Qobj)),
    "g_lind": ("g_lindblad", "DEF", "DEF", {}), "g_apx": ("g_nilp", "APPROX", "TDAPPROX", {}),
    "s_o": ("so", "DEF", "DEF", {}), "s_q": ("so", "FRECHET", "TRACEDIFF", dict(oper_dtype=Qobj, memory_optimization=1)),
}
OPS = ["warn", "info", "debug", "verbose", "intense", "c0", "c1", "c2", "tol", "mid", "a1", "a2", "ask", "evo", "init", "check"]
TAU = [0.3, 0.55, 0.2]
AMPS = dict(a0=np.array([[0.3, 0.0, 0.5], [-0.2, 0.4, 0.0], [0.6, 0.0, 0.1]]), a1=np.array([[0.4, 0.5, 0.2], [0.9, 0.0, 0.3], [0.0, 0.0, -0.4]]),
            a2=np.array([[0.0, 0.0, 0.7], [-0.3, 0.2, 0.1], [0.5, -0.8, 0.2]]))
RUNS = [n for n in B.NAMES] + list(CFG)


def cases(tier):
    out = []
    for c in CFG:
        for a in OPS:
            out.append(dict(kind="history", cfg=c, first=a, depth=3 if tier == "quick" else 4))
    for n in RUNS:
        out.append(dict(kind="run", name=n))
    out.append(dict(kind="report"))
    return out


def run_case(case, col):
    dict(history=histories, run=runs, report=reports)[case["kind"]](case, col)


# ------------------------------------------------------------------ the messages
class Capture(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, 0)
        self.recs = []

    def emit(self, rec):
        self.recs.append((rec.levelno, rec.getMessage()))     # raises if the message cannot be formed

    def take(self):
        r, self.recs = self.recs, []
        return r


def loggers():
    return {m.logger for n, m in list(sys.modules.items()) if n.startswith("qutip_qtrl") and isinstance(getattr(m, "logger", None), logging.Logger)}


@contextlib.contextmanager
def captured(level=30):
    c = Capture()
    ls = loggers()
    keep = [(x, x.handlers[:], x.level, x.propagate) for x in ls]
    for x in ls:
        x.handlers[:] = [c]
        x.setLevel(level)
        x.propagate = False
    try:
        yield c
    finally:
        for x, h, l, p in keep:
            x.handlers[:] = h
            x.setLevel(l)
            x.propagate = p


def set_level(n):
    for x in loggers():
        x.setLevel(n)


def not_unitary(recs):
    """slots reported as not unitary, in order"""
    out = []
    for lv, m in recs:
        if lv >= 30 and "unitary" in m:
            out += [int(x) for x in re.findall(r"\d+", m)]
    return out


# ------------------------------------------------------------------ (a)
_REF, _BASE = {}, {}


def truth(cfg, a):
    """largest departure from unitarity of every slot's propagator; whether the generator is hermitian"""
    if (cfg, a) not in _REF:
        s = SY[CFG[cfg][0]]
        r = Ref(s.kind, s.drift, s.ctrls, s.initial, s.target, AMPS[a][:, : s.n_ctrls], TAU)
        P = r.props()
        dev = [np.abs(p.dot(p.conj().T) - np.eye(len(p))).max() for p in P]
        assert all(x < 1e-12 or 1e-3 < x < 5 and not 0.147 < x < 0.153 for x in dev), (cfg, a, dev)
        G = [r.gen(k) for k in range(3)]
        _REF[cfg, a] = dev, [np.abs(g - g.conj().T).max() < 1e-12 for g in G]
    return _REF[cfg, a]


def make(cfg):
    sn, prop, fid, dp = CFG[cfg]
    return S.make_optim(SY[sn], TAU, fid=fid, prop=prop, dyn_params=dict(dp), log_level=30)


def values(o):
    d, f = o.dynamics, o.dynamics.fid_computer
    out = [f.get_fid_err(), np.array(f.get_fid_err_gradient()), f.grad_norm]
    if hasattr(f, "get_fidelity"):
        out.append(f.get_fidelity())
    out.append(d.full_evo.full())
    out += [x.full() for x in d.prop]
    return out


def base(cfg, a):
    if (cfg, a) not in _BASE:
        with captured() as c:
            o = make(cfg)
            o.dynamics.initialize_controls(AMPS[a][:, : o.dynamics.num_ctrls].copy())
            _BASE[cfg, a] = values(o)
            assert not c.take()
    return _BASE[cfg, a]


def histories(case, col):
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        history(case["cfg"], (case["first"],) + rest, col)


def history(cfg, seq, col):
    s = SY[CFG[cfg][0]]
    with captured() as cap:
        o = make(cfg)
        d = o.dynamics
        n = s.n_ctrls
        A = {k: v[:, :n] for k, v in AMPS.items()}
        cur, done, lev, tol, asked, have = "a0", False, 30, 1e-10, 0, False
        d.initialize_controls(A[cur].copy())
        cap.take()
        for i, op in enumerate(seq + ("ask",)):
            tag = "%s after %s" % (cfg, " ".join((seq + ("ask",))[: i + 1]))
            check = d.unitarity_check_level
            ran = False
            try:
                if op in LV:
                    lev = LV[op]
                    set_level(lev)
                elif op[0] == "c" and len(op) == 2:
                    asked = int(op[1])
                    d.unitarity_check_level = asked
                elif op == "tol":
                    tol = 10.0 if tol < 1 else 1e-10
                    d.unitarity_tol = tol
                elif op == "mid":
                    tol = d.unitarity_tol = 0.15
                elif op in A:
                    ran = False
                    if op != cur:
                        done = False
                    cur = op
                    d.update_ctrl_amps(A[op].copy())
                elif op == "init":
                    d.initialize_controls(A[cur].copy())
                    done = False
                    have = False
                    col.check(d.unitarity_check_level >= asked, "level", "unitarity check level %r, %r was asked for; %s" % (d.unitarity_check_level, asked, tag))
                elif op == "evo":
                    ran = not done
                    d.compute_evolution()
                    done = have = True
                elif op == "check":
                    if not done:
                        continue
                    d.unitarity_check()
                else:
                    ran = not done
                    got = values(o)
                    done = have = True
            except Exception as e:
                col.fail("raised:%s" % type(e).__name__, "%s: %r" % (tag, e))
                return
            recs = cap.take()
            dev, herm = truth(cfg, cur)
            bad = [k for k in range(3) if dev[k] > tol]
            want = bad if op == "check" or ran and check else []
            w = not_unitary(recs)
            if lev <= 30 and not col.check(w == want, "warnings", "slots %s reported as not unitary, expected %s (check level %s); %s" % (w, want, check, tag)):
                return
            if op == "ask":
                b = base(cfg, cur)
                for k, (x, y) in enumerate(zip(got, b)):
                    if not col.check(close(x, y, 1e-12, 1e-13), "values", "value %d is %s, without diagnostics %s; %s" % (k, np.round(x, 9), np.round(y, 9), tag)):
                        return
            if ran and check and s.kind == "UNIT" and lev <= 20:
                details(recs, check, bad, herm, tag, col)
            col.step()
            col.state((cfg, cur, done, lev, d.unitarity_check_level, tol))
        col.execution()
        col.validated()
        col.outcome((cfg, cur, check, tol, lev))


def details(recs, check, bad, herm, tag, col):
    """one further message per slot looked into: every slot at level 2, otherwise those not unitary"""
    got = [dict(re.findall(r"([\w ]+): (True|False|None)", m)) for lv, m in recs if "prop unit" in m]
    want = [k for k in range(3) if check > 1 or k in bad]
    if not col.check(len(got) == len(want), "details", "%d slots looked into, expected %s; %s" % (len(got), want, tag)):
        return
    for g, k in zip(got, want):
        g = {a.strip(): b for a, b in g.items()}
        col.check(g.get("prop unit") == str(k not in bad), "details:prop", "slot %d: %s, expected %s; %s" % (k, g, k not in bad, tag))
        col.check(g.get("H herm") == str(bool(herm[k])), "details:herm", "slot %d: %s, generator hermitian: %s; %s" % (k, g, herm[k], tag))


# ------------------------------------------------------------------ (b)
def config(name, level, check):
    if name in B.CFG:
        how, sysn, kw = B.CFG[name]
        kw = dict(kw)
    else:
        sn, prop, fid, dp = CFG[name]
        how, sysn, kw = "two", sn, dict(prop_type=prop, fid_type=fid, dyn_params=dp, gen_stats=True, init_pulse_type="SINE",
                                        init_pulse_params=dict(scaling=0.4))
    if how != "direct":
        kw["log_level"] = level
        kw["dyn_params"] = dict(kw.get("dyn_params") or {}, unitarity_check_level=check)
    return how, sysn, kw


def execute(name, level, check):
    key = "%s with log level %d, check level %d" % (name, level, check)
    B.CFG[key] = config(name, level, check)
    if B.CFG[key][1] in SY and not B.CFG[key][1].endswith("+td"):
        B.S.SYSTEMS.setdefault(B.CFG[key][1], SY[B.CFG[key][1]])
    with captured(level) as cap, contextlib.redirect_stdout(io.StringIO()):
        sd = duo.alone(B.script(key, B.Pool(False)))
    del B.CFG[key]
    return sd, cap.recs


def runs(case, col):
    name = case["name"]
    ref, recs = execute(name, 30, 0)
    if ref.err is not None:
        raise ref.err
    col.check(not not_unitary(recs), "run:warnings", "%s: unitarity warnings without a check" % name)
    for lev, chk in itertools.product([40] + list(LV.values()), (0, 1, 2)):
        sd, recs = execute(name, lev, chk)
        tag = "%s at log level %d with unitarity check level %d" % (name, lev, chk)
        col.execution()
        col.step(len(ref.obs))
        col.state(tag)
        if sd.err is not None:
            col.fail("run:raised:%s" % type(sd.err).__name__, "%s: %r" % (tag, sd.err))
            continue
        r = B.same(list(sd.obs), list(ref.obs))
        col.check(r is None, "run:values", "%s: differs from the silent run at %s" % (tag, r))
        col.check(lev <= 30 or not recs or all(x[0] >= lev for x in recs), "run:quiet", "%s: messages %s" % (tag, recs[:3]))
        if lev <= 20:
            col.check(bool(recs), "run:silent", "%s: no message at all" % tag)
        col.validated()
        col.outcome((name, lev > 20, len(recs) > 0))


# ------------------------------------------------------------------ (c)
COUNTS = dict(num_iter="number of iterations", num_fidelity_func_calls="number of fidelity function calls", num_fidelity_computes="number of times fidelity is computed",
              num_grad_func_calls="number of gradient function calls", num_grad_computes="number of times gradients are computed",
              num_tslot_recompute="number of times timeslot evolution is recomputed", num_ctrl_amp_updates="number of control amplitude updates",
              mean_num_ctrl_amp_updates_per_iter="mean number of updates per iteration", num_timeslot_changes="number of timeslot values changed",
              mean_num_timeslot_changes_per_update="mean number of timeslot changes per update", num_ctrl_amp_changes="number of amplitude values changed",
              mean_num_ctrl_amp_changes_per_update="mean number of amplitude changes per update")
TIMES = dict(wall_time_optim="total wall time elapsed during optimisation", wall_time_dyn_gen_compute="wall time computing hamiltonians",
             wall_time_prop_compute="wall time computing propagators", wall_time_fwd_prop_compute="wall time computing forward propagation",
             wall_time_onwd_prop_compute="wall time computing onward propagation", wall_time_gradient_compute="wall time computing gradient")


def seconds(text):
    m = re.match(r"\s*(?:(\d+) days?, )?(\d+):(\d\d):(\d\d(?:\.\d+)?)", text)
    d, h, mi, s = m.groups()
    return int(d or 0) * 86400 + int(h) * 3600 + int(mi) * 60 + float(s)


def judge_report(st, tag, col):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        st.report()
    lines = {}
    for l in out.getvalue().splitlines():
        if ": " in l:
            a, b = l.split(": ", 1)
            lines.setdefault(a.strip().lower(), []).append(b.strip())
    for k, name in COUNTS.items():
        v = lines.get(name, [])
        want = getattr(st, k)
        ok = len(v) == 1 and (abs(float(v[0]) - want) < 1e-9 or want != want and float(v[0]) != float(v[0]))
        col.check(ok, "report:%s" % k, "%r printed as %s; %s" % (want, v, tag))
    tot = st.wall_time_optim
    for k, name in TIMES.items():
        v = lines.get(name, [])
        want = getattr(st, k)
        if col.check(len(v) == 1 and abs(seconds(v[0]) - want) < 2e-6, "report:%s" % k, "%r printed as %s; %s" % (want, v, tag)):
            p = re.search(r"\(([\d.]+)%\)", v[0])
            if tot > 0 and k != "wall_time_optim":
                col.check(p is not None and abs(float(p.group(1)) - 100 * want / tot) < 0.006, "report:percent", "%s: %r of %r printed as %s; %s" % (k, want, tot, v, tag))
    col.execution()
    col.step(len(COUNTS) + len(TIMES))


def reports(case, col):
    import qutip_qtrl.stats as stats

    names = list(COUNTS) + list(TIMES)
    for cls in (stats.Stats, stats.StatsDynTsUpdate):
        for pat in range(4):
            for hot in [None] + names:
                st = cls()
                for i, k in enumerate(names):
                    v = [0, 1001 + 7 * i, (3 * i + 1) * 1.0, (i * 5) % 7][pat]
                    if k == hot:
                        v = 90061 if k in TIMES or not k.startswith("mean") else 12.25
                    setattr(st, k, float(v) + (0.25 * (i % 3) if k in TIMES and pat else 0) if k in TIMES or k.startswith("mean") else int(v))
                tag = "%s pattern %d, %s distinct" % (cls.__name__, pat, hot)
                judge_report(st, tag, col)
                col.state(tag)
    # reports of complete runs
    for f, kw in (("optimize_pulse_unitary", {}), ("opt_pulse_crab_unitary", dict(num_coeffs=2)), ("optimize_pulse_unitary", dict(max_iter=0)),
                  ("optimize_pulse_unitary", dict(fid_err_targ=2.0)), ("optimize_pulse_unitary", dict(max_wall_time=0))):
        import qutip_qtrl.pulseoptim as po

        s = S.SYSTEMS["u_zx_xyz"]
        np.random.seed(3)
        with captured():
            r = getattr(po, f)(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), **dict(dict(
                tau=np.array(TAU), max_iter=4, gen_stats=True, init_pulse_type="LIN") if f[:3] == "opt" and "crab" not in f else dict(
                tau=np.array(TAU), max_iter=4, gen_stats=True), **kw))
        judge_report(r.stats, "%s %s" % (f, kw), col)
        col.validated()
    col.outcome("reports")
