"""C01: cache coherence over every operation history up to a depth.

Model: (amplitudes, target, durations, drift) last submitted.  Every query of
the real object is compared with the from-scratch reference for that state.
"""
import itertools

import numpy as np
from qutip import Qobj

from .. import systems as S
from ..ref import Ref, close

CONFIGS = {
    # name: (system, prop, fid, ref fid, dyn_params, stats, loglevel)
    "u_nd": ("u_z_xy", "DEF", "DEF", "PSU", {}, False, None),
    "u_q": ("u_z_xy", "DEF", "DEF", "PSU", {"oper_dtype": Qobj}, False, None),
    "u_nocache": ("u_z_xy", "DIAG", "UNIT", "PSU",
                  {"cache_prop_grad": False, "cache_phased_dyn_gen": False, "cache_dyn_gen_eigenvectors_adj": False}, False, None),
    "u_frechet_stats": ("u_z_xy", "FRECHET", "UNIT", "PSU", {}, True, None),
    "u_ket": ("u_ket", "DEF", "DEF", "PSU", {}, False, None),
    "u_td": ("u_z_xy", "DIAG", "TRACEDIFF", "TD", {}, False, None),
    "g_nd": ("g_real", "DEF", "DEF", "TD", {}, False, None),
    "g_mem1": ("g_real", "DEF", "DEF", "TD", {"memory_optimization": 1}, False, None),
    "g_approx": ("g_real", "APPROX", "TDAPPROX", "TD", {}, False, None),
    "s_nd": ("s_1", "DEF", "DEF", "TD", {}, False, None),
    "s_q": ("s_1", "DEF", "DEF", "TD", {"oper_dtype": Qobj}, False, None),
    "u_dump": ("u_z_xy", "DEF", "DEF", "PSU", {"dumping": "FULL"}, True, None),
    "u_debug": ("u_z_xy", "DEF", "DEF", "PSU", {}, True, "DEBUG_INTENSE"),
    "g_debug": ("g_real", "DEF", "DEF", "TD", {}, False, "DEBUG_INTENSE"),
    "u_td_td": ("u_z_xy+td+tc", "DEF", "DEF", "PSU", {}, False, None),
}
QUICK_DEPTH = {"u_debug": 3, "g_debug": 3, "u_dump": 3}
OPS = ["u0", "u1", "u2", "u3", "m", "M", "e", "g", "p", "i0", "iT", "it", "id", "ic"]
# settings changed between initialisations; each is followed by a re-initialisation
SETS = ["st", "sp", "sg", "sa", "sP", "sF", "sz", "si", "sh"]
SET_CONFIGS = ["u_nd", "u_q", "u_nocache", "u_ket", "u_td_td", "u_frechet_stats", "g_nd", "g_mem1", "s_nd", "s_q"]
BIG = {"UNIT": "u_deg4", "GEN_MAT": "g_lindblad", "SYMPL": "s_2"}
TAUS = {"a": [0.3, 0.9], "b": [0.5, 0.2, 0.6]}

META = dict(
    rule="every sequence of operations {submit a0, submit a1 (all changed), submit a2 (one entry changed), submit the last again with one entry moved by 3e-10, change the "
         "submitted array in place and submit it, change it without submitting, error, gradient+norm, operators, "
         "re-initialise same / other durations and slot count / other target / other drift / other number and kind of controls} of the stated length, on "
         "each configuration, on fresh real objects; each query is compared with the reference for the last submitted "
         "state; and every sequence of up to three re-initialisations with other settings or another size, all queried "
         "after each and compared with a fresh object of these settings. states: distinct (configuration, model state, last two operations); transitions: operations",
    bounds=lambda tier: dict(depth=4 if tier == "quick" else 5, operations=len(OPS), configurations=len(CONFIGS)),
    assumptions=["operators are read after a query that computes the evolution"],
)


def cases(tier):
    out = []
    for depth_first in (1,):
        for c in CONFIGS:
            d = QUICK_DEPTH.get(c, 4) if tier == "quick" else QUICK_DEPTH.get(c, 4) + 1
            npre = 2
            for pre in itertools.product(OPS, repeat=npre):
                out.append(dict(config=c, prefix=list(pre), depth=d))
    for c in SET_CONFIGS:
        for n in (1, 2, 3):
            for seq in itertools.product(SETS, repeat=n):
                if n < 3 or tier != "quick" or len(set(seq)) == 3 and seq[0] < seq[1]:
                    out.append(dict(config=c, settings=list(seq)))
    return out


def full(x):
    return x.full() if isinstance(x, Qobj) else np.asarray(x)


_memo = {}


def drift_free(s):
    """a map that changes the initial operator or state"""
    n = s.dim
    return np.roll(np.eye(n), 1, axis=0) if s.kind != "GEN_MAT" else np.eye(n) + 0.3 * np.roll(np.eye(n), 1, axis=0)


class World:
    """real object + model state"""

    def __init__(self, name):
        import qutip_qtrl.logging_utils as lg

        sname, prop, fid, rf, dp, stats, ll = CONFIGS[name]
        base, *mods = sname.split("+")
        self.name = name
        self.rf = rf
        self.base = S.SYSTEMS[base]
        self.mods = mods
        self.approx = fid == "TDAPPROX"
        self.tau_id, self.targ_id, self.drift_id, self.ctrl_id = "a", 0, 0, 0
        self.init_id, self.pa = 0, "postop"
        self.sys = self.make_sys()
        kw = {}
        if ll:
            kw["log_level"] = getattr(lg, ll)
        self.optim = S.make_optim(self.sys, TAUS["a"], fid=fid, prop=prop, dyn_params=dict(dp), gen_stats=stats, **kw)
        self.dyn = self.optim.dynamics
        self.amps = None  # model: last submitted values
        self.buf = None   # the array object last submitted
        self.submit(self.pattern(0), init=True)

    def make_sys(self):
        s = self.base
        n_ts = len(TAUS[self.tau_id])
        drift = s.drift if self.drift_id == 0 else s.drift * 0.5 + (0.1 if s.kind != "UNIT" else 0) * np.eye(s.dim) + (
            0.3 * s.ctrls[0])
        ctrls = s.ctrls if self.ctrl_id == 0 else s.ctrls[1:]
        targ = s.target if self.targ_id == 0 else (s.target + 0.5 * s.initial if s.kind != "UNIT" else
                                                   (np.diag([1, 1j] + [1] * (s.dim - 2)).dot(s.target)))
        init = s.initial if not self.init_id else drift_free(s).dot(s.initial)
        r = S.System(s.name, s.kind, drift, ctrls, init, targ, s.dims)
        if self.mods and self.ctrl_id == 0:
            r = r.with_time("td" in self.mods, "tc" in self.mods, n_ts)
        return r

    def pattern(self, i):
        n = len(TAUS[self.tau_id])
        a = S.amps_for(n, self.sys.n_ctrls, "a")
        if i == 1:
            a = S.amps_for(n, self.sys.n_ctrls, "m") + 0.07
        if i == 3:  # next to nothing
            a = self.amps.copy()
            a[0, 0] += 3e-10
        if i == 2:
            a[n - 1, self.sys.n_ctrls - 1] += 0.4
        return a

    def submit(self, arr, init=False):
        self.buf = arr
        self.amps = arr.copy()
        if init:
            self.dyn.initialize_controls(arr)
        else:
            self.dyn.update_ctrl_amps(arr)

    def key(self):
        return (self.name, self.base.name, self.rf, self.pa, self.init_id, self.tau_id, self.targ_id, self.drift_id, self.ctrl_id, self.amps.tobytes())

    def ref(self):
        k = self.key()
        r = _memo.get(k)
        if r is None:
            s = self.sys
            R = Ref(s.kind, s.drift, s.ctrls, s.initial, s.target, self.amps, TAUS[self.tau_id], fid=self.rf, phase_app=self.pa)
            r = dict(err=R.err(), grad=R.grad(), props=R.props(), fwd=R.fwd(), gens=[R.gen(k) for k in range(R.n_ts)],
                     dprop=[[R.dprop(k, j) for j in range(R.n_c)] for k in range(R.n_ts)], onwd=R.onwd(), onto=R.onto(), fid=R.fidelity() if self.rf != "TD" else None)
            if len(_memo) > 5000:
                _memo.clear()
            _memo[k] = r
        return r

    def reinit(self, what):
        if what == "iT":
            self.tau_id = "b" if self.tau_id == "a" else "a"
        elif what == "it":
            self.targ_id ^= 1
        elif what == "id":
            self.drift_id ^= 1
        elif what == "ic":
            self.ctrl_id ^= 1
        self.sys = s = self.make_sys()
        d = self.dyn
        if what == "iT":
            d.tau = np.array(TAUS[self.tau_id])
        d.target = s.q(s.target)
        d.drift_dyn_gen = s.qdrift()
        if self.mods or what == "ic":
            d.ctrl_dyn_gen = s.qctrls()
        self.submit(self.pattern(0), init=True)

    def setting(self, op):
        """one setting changed on the real objects and in the model; then everything is submitted again"""
        import qutip_qtrl.fidcomp as fidcomp
        import qutip_qtrl.propcomp as propcomp

        d = self.dyn
        if op == "st":
            d.oper_dtype = np.ndarray if d.oper_dtype is Qobj else Qobj
        elif op == "sp":
            d.cache_phased_dyn_gen = not d.cache_phased_dyn_gen
        elif op == "sg":
            d.cache_prop_grad = not d.cache_prop_grad
        elif op == "sa":
            d.cache_dyn_gen_eigenvectors_adj = not d.cache_dyn_gen_eigenvectors_adj
        elif op == "sP":
            other = propcomp.PropCompDiag if self.base.kind == "UNIT" else propcomp.PropCompAugMat
            d.prop_computer = (propcomp.PropCompFrechet if isinstance(d.prop_computer, other) else other)(d)
        elif op == "sF":
            if self.base.kind != "UNIT":
                d.fid_computer = fidcomp.FidCompTraceDiff(d)
            elif self.rf == "PSU":
                d.fid_computer, self.rf = fidcomp.FidCompTraceDiff(d), "TD"
            else:
                d.fid_computer, self.rf = fidcomp.FidCompUnitary(d), "PSU"
        elif op == "sz":
            small = S.SYSTEMS[CONFIGS[self.name][0].split("+")[0]]
            big = S.SYSTEMS["u_ket4" if small.name == "u_ket" else BIG[small.kind]]
            self.base = big if self.base is small else small
            self.drift_id = self.targ_id = self.ctrl_id = 0
        elif op == "si":
            self.init_id ^= 1
        elif op == "sh":
            if self.base.kind == "SYMPL":
                self.pa = "preop" if self.pa == "postop" else "postop"
                d.phase_application = self.pa
            else:
                self.tau_id = "b" if self.tau_id == "a" else "a"
                d.tau = np.array(TAUS[self.tau_id])
        self.sys = s = self.make_sys()
        d.initial, d.target = s.q(s.initial), s.q(s.target)
        d.drift_dyn_gen, d.ctrl_dyn_gen = s.qdrift(), s.qctrls()
        self.submit(self.pattern(0), init=True)

    def do(self, op, fail):
        d = self.dyn
        if op[0] == "u":
            self.submit(self.pattern(int(op[1])))
        elif op == "m":
            self.buf[0, 0] += 0.3
            self.submit(self.buf)
        elif op == "M":
            self.buf[-1, -1] += 0.21
        elif op == "e":
            r = self.ref()
            e = d.fid_computer.get_fid_err()
            if not close(e, r["err"], 1e-8, 1e-9):
                fail("err", "error %r, expected %r" % (e, r["err"]))
            if r["fid"] is not None:
                f = d.fid_computer.get_fidelity()
                if not close(f, r["fid"], 1e-8, 1e-9):
                    fail("fidelity", "fidelity %r, expected %r" % (f, r["fid"]))
        elif op == "g":
            r = self.ref()
            g = np.array(d.fid_computer.get_fid_err_gradient())
            tol = 0.01 if self.approx else 1e-7
            if not close(g, r["grad"], tol, tol):
                fail("grad", "gradient %s, expected %s" % (g.tolist(), r["grad"].tolist()))
            if not close(d.fid_computer.grad_norm, np.linalg.norm(g), 1e-9, 1e-12):
                fail("grad_norm", "norm %r, gradient %s" % (d.fid_computer.grad_norm, g.tolist()))
        elif op == "p":
            r = self.ref()
            d.compute_evolution()
            fc = d.fid_computer
            for nm, want, use in (("dyn_gen", r["gens"], True), ("prop", r["props"], True), ("fwd_evo", r["fwd"], True),
                                  ("onwd_evo", r["onwd"], fc.uses_onwd_evo), ("onto_evo", r["onto"], fc.uses_onto_evo)):
                if not use:
                    continue
                got = getattr(d, nm)
                if len(got) != len(want) or not all(close(full(a), b, 1e-8, 1e-9) for a, b in zip(got, want)):
                    fail(nm, "%s does not belong to the current amplitudes" % nm)
            pg = d.prop_grad
            if pg is None:
                if d.prop_computer.grad_exact and d.cache_prop_grad:
                    fail("prop_grad", "no propagator gradients")
            elif not close([[full(x) for x in row] for row in pg], r["dprop"], 1e-7, 1e-8):
                fail("prop_grad", "prop_grad does not belong to the current amplitudes")
            if not close(full(d.full_evo), r["fwd"][-1], 1e-8, 1e-9):
                fail("full_evo", "full_evo does not belong to the current amplitudes")
            if not close(np.asarray(d.time), np.concatenate([[0], np.cumsum(TAUS[self.tau_id])]), 1e-9, 1e-9):
                fail("time", "time grid")
            if not close(d.ctrl_amps, self.amps, 0, 0):  # to the last bit
                fail("amps", "stored amplitudes %s, submitted %s" % (d.ctrl_amps.tolist(), self.amps.tolist()))
        elif op[0] == "s":
            self.setting(op)
        else:
            self.reinit(op)


def run_case(case, col):
    import qutip_qtrl.logging_utils as lg

    if "settings" in case:
        for tail in (["e", "g", "p"], ["g", "p", "e"], ["u1", "p", "g", "e"], ["p", "u2", "g", "p"]):
            for mid in ([], ["e", "g", "p"]):
                seq = []
                for x in case["settings"]:
                    seq += mid + [x]
                run_seq(case["config"], seq + tail, col)
        return
    rest = case["depth"] - len(case["prefix"])
    lv = [lg.get_logger(m).level for m in _mods()]
    try:
        for suf in itertools.product(OPS, repeat=rest):
            seq = list(case["prefix"]) + list(suf)
            if seq[-1] not in ("e", "g", "p"):
                continue  # nothing observed after the last query: covered by a shorter sequence
            run_seq(case["config"], seq, col)
    finally:
        for m, l in zip(_mods(), lv):
            lg.get_logger(m).setLevel(l)


def _mods():
    import sys

    return sorted(m for m in sys.modules if m.startswith("qutip_qtrl."))


def run_seq(config, seq, col):
    w = World(config)
    col.execution()
    for i, op in enumerate(seq):
        bad = []
        try:
            w.do(op, lambda sig, msg: bad.append((sig, msg)))
        except Exception as e:
            import traceback

            col.fail("exc:%s" % type(e).__name__, "%s after %s on %s" % (e, seq[: i + 1], config), seq=seq[: i + 1],
                     config=config, traceback=traceback.format_exc()[-2500:])
            return
        col.step()
        col.state((w.key(), seq[max(0, i - 1): i + 1]))
        if bad:
            for sig, msg in bad:
                col.fail("%s" % sig, "%s (configuration %s, history %s)" % (msg, config, seq[: i + 1]),
                         config=config, seq=seq[: i + 1])
            return
    col.validated()
    col.outcome(w.key())
    col.sample(dict(config=config, history=seq))
