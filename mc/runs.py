"""Optimisation runs under the scripted minimiser: every sequence of minimiser actions up to a depth.

A run = real optimiser object (built by create_pulse_optimizer) + scripted minimiser.  `Trace` is what the environment did;
`Model` (below) says how the run must have ended.  C06, C07, C13 and C15 look at the same executions."""
import contextlib

import numpy as np
from qutip import Qobj

from . import systems as S
from .script import Chooser, Clock, Draws, KINDS, MSG, TASK, Return, minimiser_patch, patched

SYS = {
    "u": ("u_zx_xyz", [0.5, 0.7], "UNIT"),
    "uq": ("u_zx_xyz", [0.5, 0.7], "UNIT"),
    "g": ("g_c", [0.6, 0.5], "GEN_MAT"),
}
CONFIGS = {
    # name: (system, alg, method, extra)
    "gen": ("u", "GRAPE", "BFGS", {}),
    "gen_approx": ("u", "GRAPE", "Nelder-Mead", dict(optim_params=dict(approx_grad=True))),
    "bfgs": ("u", "GRAPE", "FMIN_BFGS", {}),
    "bfgs_g": ("g", "GRAPE", "FMIN_BFGS", {}),
    "lbfgs": ("u", "GRAPE", "FMIN_L_BFGS_B", dict(amp_lbound=-5.0, amp_ubound=5.0)),
    "lbfgs_q": ("uq", "GRAPE", "FMIN_L_BFGS_B", dict(dyn_params=dict(oper_dtype=Qobj))),
    "lbfgs_g": ("g", "GRAPE", "FMIN_L_BFGS_B", {}),
    "crab_fmin": ("u", "CRAB", "FMIN", dict(alg_params=dict(num_coeffs=1))),
    "crab_nm": ("u", "CRAB", "Nelder-Mead", dict(alg_params=dict(num_coeffs=1))),
}
WALL = 10.0
DT = (0.0, 4.0, 10.0, 10.5)  # clock steps: none, some, exactly the limit, beyond


def build(config, stats=False, dumping=None, log_level=None, limits=None, more=None):
    sysn, alg, method, extra = CONFIGS[config]
    sname, tau, kind = SYS[sysn]
    s = S.SYSTEMS[sname]
    kw = {k: (dict(v) if isinstance(v, dict) else v) for k, v in extra.items()}
    if dumping:
        kw.setdefault("optim_params", {})["dumping"] = dumping
        kw.setdefault("dyn_params", {})["dumping"] = dumping
    lim = dict(fid_err_targ=1e-30, min_grad=0.0, max_iter=500, max_wall_time=WALL)
    lim.update(limits or {})
    kw.update(more or {})
    with patched(Draws().mapping()):
        import qutip_qtrl.pulseoptim as po

        a = dict(tau=np.array(tau), dyn_type=s.kind, alg=alg, optim_method=method, gen_stats=stats, init_pulse_type=None
                 if alg == "CRAB" else "ZERO", **lim)
        if log_level is not None:
            a["log_level"] = log_level
        a.update(kw)
        o = po.create_pulse_optimizer(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), **a)
        d = o.dynamics
        d.init_timeslots()
        amps = np.zeros((d.num_tslots, d.num_ctrls))
        if alg == "CRAB":
            for j, p in enumerate(o.pulse_generator):
                p.init_pulse()
                amps[:, j] = p.gen_pulse()
        else:
            amps = start_amps(amps.shape) * (-1.0 if sysn == "g" else 1.0)
        d.initialize_controls(amps)
    return o


def start_amps(shape):
    n = int(np.prod(shape))
    return (0.3 + 0.17 * np.arange(n)).reshape(shape)


class Points:
    """Alphabet of variable vectors, with the exact error/gradient the code itself gives for each (from fresh objects)."""

    def __init__(self, config, xs=None, gmin=0.0):
        o = build(config)
        self.crab = o.alg == "CRAB"
        self.uses_grad = not o.approx_grad and not self.crab
        x0 = self.x0(o)
        n = len(x0)
        if xs is not None:  # given points, all above a target that is never reached
            self.x = [np.array(x, dtype=float) for x in xs(x0, o)] + [x0.copy()]
            ev = [self.evaluate(config, x) for x in self.x]
            self.err, self.gn, self.grad = [e[0] for e in ev], [e[1] for e in ev], [e[2] for e in ev]
            self.targ, self.gmin = -1.0, gmin
            self.names = ["p%d" % i for i in range(len(self.x) - 1)] + ["start"]
            return
        k = np.arange(n, dtype=float)
        cand = [0.45 * np.cos(1.3 * k + 0.3 * i) * (1 + 0.4 * i) + 0.11 * i for i in range(6)]
        cand += [0.6 * np.sin(0.9 * k * (i + 1) + 0.5) - 0.3 * i for i in range(6)]
        cand += [(0.4 + 0.5 * i) * np.cos(2.1 * k * (i + 1) + 0.2 * i) for i in range(8)]
        cand.append(x0.copy() + 0.05)
        ev = [self.evaluate(config, x) for x in cand]
        e0 = self.evaluate(config, x0)
        lo = sorted((i for i in range(len(cand)) if ev[i][0] < e0[0] - 1e-3), key=lambda i: ev[i][0])
        assert len(lo) >= 3, "start must be above the target"
        # below the target, exactly at it, above it but better than the start, worse than the start
        pick = [lo[0], lo[1], lo[2], max(range(len(cand)), key=lambda i: ev[i][0])]
        self.x = [cand[i] for i in pick] + [x0.copy()]
        self.err = [ev[i][0] for i in pick] + [e0[0]]
        self.gn = [ev[i][1] for i in pick] + [e0[1]]
        self.grad = [ev[i][2] for i in pick] + [e0[2]]
        assert self.err[0] < self.err[1] < self.err[2] < self.err[4] < self.err[3]
        self.targ = self.err[1]
        # a gradient-norm limit with one point above it, one exactly at it and the others below it
        if self.uses_grad:
            g = sorted(set(self.gn))
            self.gmin = g[-2]
        else:
            self.gmin = 0.0
        self.names = ["below", "at", "above1", "above2", "start"]

    @staticmethod
    def x0(o):
        if o.alg == "CRAB":
            return np.concatenate([np.array(p.get_optim_var_vals(), dtype=float) for p in o.pulse_generator])
        return o.dynamics.ctrl_amps.ravel().copy()

    def amps(self, o, x):
        return amps_of(o, x)

    def evaluate(self, config, x):
        o = build(config)
        d = o.dynamics
        a = amps_of(o, x)
        d.update_ctrl_amps(a)
        e = d.fid_computer.get_fid_err()
        if self.uses_grad:
            g = np.array(d.fid_computer.get_fid_err_gradient())
            return e, d.fid_computer.grad_norm, g
        return e, None, None


def amps_of(o, x):
    """amplitudes belonging to a variable vector, by our own expansion"""
    d = o.dynamics
    if o.alg != "CRAB":
        return np.array(x).reshape(d.num_tslots, d.num_ctrls)
    t = np.concatenate([[0], np.cumsum(np.asarray(d.tau, dtype=float))])[:-1]
    a = np.zeros((d.num_tslots, d.num_ctrls))
    i = 0
    for j, p in enumerate(o.pulse_generator):
        nc, nb = p.num_coeffs, p.num_basis_funcs
        c = np.asarray(x[i: i + nc * nb]).reshape(nc, nb)
        i += nc * nb
        for r in range(nc):
            f = p.freqs[r]
            a[:, j] += c[r, 0] * np.sin(f * t) + c[r, 1] * np.cos(f * t)
    return a


_PTS = {}


def points(config):
    if config not in _PTS:
        _PTS[config] = Points(config)
    return _PTS[config]


class Event(tuple):
    pass


class Script:
    """Drives one call of a minimiser by choices; records what happened.

    trace entries: ('E', i, value|'raised') error evaluation of point i; ('G', i, ..); ('C', t) callback at clock t;
    ('R', kind, i) normal return."""

    def __init__(self, ch, P, clock, maxlen, maxiter=2, dts=DT):
        self.dts = dts
        self.ch, self.P, self.clock, self.maxlen = ch, P, clock, maxlen
        self.trace = []
        self.calls = []
        self.maxiter = maxiter

    def actions(self, call, last, ncb):
        A = [("E", i) for i in range(len(self.P.x))]
        if call.jac is not None and self.P.uses_grad:
            A += [("G", i) for i in range(len(self.P.x))]
        if last is not None:
            A += [("C", dt) for dt in self.dts]
            for k in KINDS[call.name]:
                if k == "maxiter" and ncb < self.maxiter:
                    continue
                if k in ("abnormal", "nan") and ncb >= self.maxiter:
                    continue  # the iteration limit ends the run first
                if k == "maxfun":
                    if call.name != "fmin":
                        continue
                A.append(("R", k))
        return A

    def __call__(self, call):
        self.calls.append(call)
        last, ncb, nE, nG = None, 0, 0, 0
        best = None
        for step in range(self.maxlen + 1):
            A = self.actions(call, last, ncb)
            if step == self.maxlen:
                # out of budget: return whatever is allowed
                A = [a for a in A if a[0] == "R"]
                if not A:
                    A = [("E", 2)]
            a = A[self.ch.choose(len(A))]
            if a[0] == "E":
                self.trace.append(["E", a[1], "raised"])
                nE += 1
                last = a[1]
                x = self.P.x[a[1]].copy()
                v = call.fun(x)
                self.trace[-1][2] = v
                x[:] = np.nan  # scipy reuses its buffers
                if best is None or self.P.err[a[1]] < self.P.err[best]:
                    best = a[1]
            elif a[0] == "G":
                self.trace.append(["G", a[1], "raised"])
                nG += 1
                last = a[1]
                x = self.P.x[a[1]].copy()
                v = call.jac(x)
                self.trace[-1][2] = np.array(v)
                x[:] = np.nan
            elif a[0] == "C":
                self.clock.t += a[1]
                self.trace.append(["C", self.clock.t, "raised"])
                ncb += 1
                call.callback(self.P.x[last].copy())
                self.trace[-1][2] = "ok"
            else:
                i = last if best is None or self.ch.choose(2) == 0 else best
                self.trace.append(["R", a[1], i])
                return Return(a[1], self.P.x[i], self.P.err[i], nit=ncb, nfev=nE, njev=nG,
                              grad=None if self.P.grad[i] is None else self.P.grad[i].ravel(),
                              allvecs=[self.P.x[last]])
        # budget exhausted without a possible return
        i = 2 if last is None else last
        self.trace.append(["R", KINDS[call.name][0], i])
        return Return(KINDS[call.name][0], self.P.x[i], self.P.err[i], nit=ncb, nfev=nE, njev=nG,
                      grad=None if self.P.grad[i] is None else self.P.grad[i].ravel(), allvecs=[self.P.x[i]])


class Expect:
    """Reference model of a run: reads the trace, says how it must end."""

    def __init__(self, trace, P, targ, gmin, maxcalls, wall, t0):
        self.ending = None
        self.nE = self.nG = self.ncb = 0
        self.point = None   # index of the point the final record belongs to
        self.lastgrad = None
        self.err = None
        for k, ev in enumerate(trace):
            if ev[0] == "E":
                self.nE += 1
                self.point = ev[1]
                if P.err[ev[1]] <= targ:
                    self.ending = "goal"
                elif self.nE > maxcalls:
                    self.ending = "calls"
            elif ev[0] == "G":
                self.nG += 1
                self.point = ev[1]
                self.lastgrad = ev[1]
                if P.gn[ev[1]] < gmin:
                    self.ending = "grad"
            elif ev[0] == "C":
                self.ncb += 1
                if ev[1] - t0 > wall:
                    self.ending = "wall"
            elif ev[0] == "R":
                self.ending = ("ret", ev[1])
                self.point = ev[2]
            raised = ev[0] != "R" and isinstance(ev[2], str) and ev[2] == "raised"
            if (self.ending is not None) != (raised or ev[0] == "R"):
                self.err = "action %d %s: run %s, expected %s" % (
                    k, ev[:2], "ended" if raised else "went on", self.ending or "to go on")
                return
            if self.ending is not None and k != len(trace) - 1:
                self.err = "run went on after %s" % (self.ending,)
                return


def describe(trace, P):
    out = []
    for ev in trace:
        if ev[0] in "EG":
            out.append("%s(%s)" % (ev[0], P.names[ev[1]]))
        elif ev[0] == "C":
            out.append("callback(t=%g)" % ev[1])
        else:
            out.append("return(%s,%s)" % (ev[1], P.names[ev[2]]))
    return " ".join(out)


class RunRecord:
    pass


def execute(config, ch, depth, stats=False, dumping=None, limits=None, log_level=None, optim=None, more=None, prepare=None,
            P=None, clock=None, dts=DT):
    """Build, run once under the script chosen by ch.  Returns a RunRecord."""
    P = P or points(config)
    r = RunRecord()
    r.P = P
    clock = clock or Clock()
    r.t0 = clock.t
    lim = dict(fid_err_targ=P.targ, min_grad=P.gmin, max_iter=2, max_wall_time=WALL)
    maxcalls = 3
    lim.update(limits or {})
    maxcalls = lim.pop("max_calls", maxcalls)
    o = optim or build(config, stats, dumping, log_level, lim, more)
    o.termination_conditions.max_fid_func_calls = maxcalls
    if prepare:
        prepare(o)
    r.optim, r.dyn = o, o.dynamics
    r.start_amps = o.dynamics.ctrl_amps.copy()
    r.targ, r.gmin, r.maxcalls, r.wall = lim["fid_err_targ"], lim["min_grad"], maxcalls, lim["max_wall_time"]
    sc = Script(ch, P, clock, depth, maxiter=lim["max_iter"], dts=dts)
    m = clock.mapping()
    m.update(minimiser_patch(sc))
    with patched(m):
        r.result = o.run_optimization()
    r.t1 = clock.t
    r.trace, r.calls = sc.trace, sc.calls
    r.clock = clock
    r.limits = lim
    r.expect = Expect(sc.trace, P, r.targ, r.gmin, maxcalls, r.wall, r.t0)
    r.text = "%s: %s" % (config, describe(sc.trace, P))
    return r
