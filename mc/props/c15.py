"""C15: statistics, over every scripted minimiser behaviour with every pattern of amplitude change, two runs in a row."""
import math

import numpy as np

from .. import runs as R
from ..script import Clock, explore

CONFIGS = {  # depth of run 1, run 2 (quick)
    "gen": (3, 1), "gen_approx": (4, 1), "bfgs": (3, 1), "bfgs_g": (3, 1), "lbfgs": (3, 1), "lbfgs_g": (3, 1), "lbfgs_q": (2, 1), "crab_fmin": (3, 1),
    "crab_nm": (3, 1),
}
META = dict(
    rule="every sequence of minimiser actions up to the depth over points that differ from the start in nothing / one entry / one slot / "
         "everything, followed by a second run (every second run up to its depth after runs of at most two actions); each counter of the statistics is compared with a model of the work done, "
         "collected from the recorded actions; runs without statistics are compared with runs with them",
    bounds=lambda tier: dict(depths={k: (v[0] + (tier != "quick"), v[1] + (tier != "quick")) for k, v in CONFIGS.items()}),
    assumptions=["one reading of the clock takes one virtual millisecond"],
)


def xs(x0, o):
    n = len(x0)
    one = x0.copy()
    one[-1] += 0.31
    nc = o.dynamics.num_ctrls if o.alg != "CRAB" else 2
    slot = x0.copy()
    slot[:nc] += 0.17
    al = x0 * 0.5 - 0.2
    return [one, slot, al]


def cases(tier):
    out = []
    more = 0 if tier == "quick" else 1
    for c, (d1, d2) in CONFIGS.items():
        n0 = 4 + (4 if c[:2] != "cr" and c != "gen_approx" else 0)
        for a in range(n0):
            out.append(dict(config=c, base=[a], d1=d1 + more, d2=d2, amp_mode=None))
    for c in ("gen", "lbfgs"):
        out.append(dict(config=c, base=[0], d1=1, d2=1, amp_mode="DYNAMIC"))
    return out


_P = {}


def run_case(case, col):
    explore(lambda ch: one(case, ch, col), case["base"])


LIM = dict(max_iter=1, max_wall_time=1e9, max_calls=10 ** 6, min_grad=0.0)


class Work:
    """what has been computed and is still valid"""

    def __init__(self, amps, unit):
        self.amps, self.unit = amps, unit
        self.evo = self.fid = self.grad = False

    def start(self):
        self.n = dict.fromkeys(("num_fidelity_func_calls", "num_grad_func_calls", "num_iter", "num_tslot_recompute", "num_fidelity_computes",
                                "num_grad_computes", "num_ctrl_amp_updates", "num_ctrl_amp_changes", "num_timeslot_changes"), 0)
        self._err()

    def _evo(self):
        if not self.evo:
            self.evo = True
            self.n["num_tslot_recompute"] += 1

    def _err(self):
        if not self.fid:
            self._evo()
            self.fid = True
            self.n["num_fidelity_computes"] += 1

    def submit(self, amps):
        ch = amps != self.amps
        if ch.any():
            self.n["num_ctrl_amp_updates"] += 1
            self.n["num_ctrl_amp_changes"] += int(ch.sum())
            self.n["num_timeslot_changes"] += int(ch.any(axis=1).sum())
            self.amps = amps
            self.evo = self.fid = self.grad = False

    def event(self, ev, amps):
        if ev[0] == "E":
            self.n["num_fidelity_func_calls"] += 1
            self.submit(amps)
            self._err()
        elif ev[0] == "G":
            self.n["num_grad_func_calls"] += 1
            self.submit(amps)
            if not self.grad:
                self._evo()
                if self.unit:
                    self._err()
                self.grad = True
                self.n["num_grad_computes"] += 1
        elif ev[0] == "C":
            self.n["num_iter"] += 1
        else:
            self.submit(amps)

    def end(self):
        self._err()


def one(case, ch, col):
    c = case["config"]
    P = _P.get(c)
    if P is None:
        P = _P[c] = R.Points(c, xs)
    more = dict(amp_update_mode=case["amp_mode"]) if case["amp_mode"] else None
    clock = Clock(tick=0.001)
    # same choices without statistics: the optimisation must be the same
    r1 = R.execute(c, ch, case["d1"], stats=True, limits=dict(LIM, fid_err_targ=P.targ), P=P, clock=clock, dts=(0.0,), more=more)
    unit = R.SYS[R.CONFIGS[c][0]][2] == "UNIT"
    w = Work(r1.start_amps, unit)
    judge(r1, w, col, c, "run 1")
    snap = dict(vars(r1.result.stats))
    from ..script import Chooser

    plain = R.execute(c, Chooser([x for x, _ in ch.trace]), case["d1"], limits=dict(LIM, fid_err_targ=P.targ), P=P, dts=(0.0,), more=more)
    col.check([e[:1] + e[1:2] * (e[0] != 'C') for e in plain.trace] == [e[:1] + e[1:2] * (e[0] != 'C') for e in r1.trace] and plain.result.fid_err == r1.result.fid_err
              and np.array_equal(plain.result.final_amps, r1.result.final_amps)
              and plain.result.termination_reason == r1.result.termination_reason, "effect", "statistics changed the run [%s]" % r1.text)
    # second run on the same optimiser
    r2 = R.execute(c, ch, case["d2"] if len(r1.trace) <= 2 else 0, limits=dict(LIM, fid_err_targ=P.targ), P=P, clock=clock, dts=(0.0,), optim=r1.optim)
    judge(r2, w, col, c, "run 2 after [%s]" % r1.text)
    col.check(r2.result.stats is not r1.result.stats, "shared", "both results share one statistics object")
    now = dict(vars(r1.result.stats))
    for k in snap:
        same = now[k] == snap[k] or (now[k] != now[k] and snap[k] != snap[k])
        col.check(same, "later:%s" % k, "statistics of run 1 changed by run 2: %s %r -> %r" % (k, snap[k], now[k]))
    col.execution(3)
    col.step(len(r1.trace) + len(r2.trace))
    for i in range(len(r1.trace)):
        col.state((c, [e[:2] for e in r1.trace[: i + 1]]))
    for i in range(len(r2.trace)):
        col.state((c, [e[:2] for e in r1.trace], [e[:2] for e in r2.trace[: i + 1]]))


def judge(r, w, col, c, what):
    w.start()
    for ev in r.trace:
        i = ev[2] if ev[0] == "R" else ev[1]
        w.event(ev, R.amps_of(r.optim, r.P.x[i]) if ev[0] != "C" else None)
    w.end()
    st = r.result.stats
    tag = "%s [%s]" % (what, r.text)
    if st is None:
        col.fail("missing", "no statistics in the result, %s" % tag)
        return
    for k, v in w.n.items():
        col.check(getattr(st, k) == v, k, "%s = %r, work done %r, %s" % (k, getattr(st, k), v, tag))

    def q(a, b):
        return a / b if b else math.nan

    for k, v in (("mean_num_ctrl_amp_updates_per_iter", q(w.n["num_ctrl_amp_updates"], w.n["num_iter"])),
                 ("mean_num_timeslot_changes_per_update", q(w.n["num_timeslot_changes"], w.n["num_ctrl_amp_updates"])),
                 ("mean_num_ctrl_amp_changes_per_update", q(w.n["num_ctrl_amp_changes"], w.n["num_ctrl_amp_updates"]))):
        g = getattr(st, k)
        col.check(abs(g - v) < 1e-12 or (g != g or abs(g) == math.inf) and v != v, k, "%s = %r, expected %r, %s" % (k, g, v, tag))
    col.check(abs(st.wall_time_optim - r.result.wall_time) < 1e-9, "wall_time_optim", "%r, run took %r, %s" % (
        st.wall_time_optim, r.result.wall_time, tag))
    parts = [st.wall_time_dyn_gen_compute, st.wall_time_prop_compute, st.wall_time_fwd_prop_compute, st.wall_time_onwd_prop_compute,
             st.wall_time_gradient_compute]
    nrec = w.n["num_tslot_recompute"]
    for p, nm in zip(parts[:4], ("dyn_gen", "prop", "fwd_prop", "onwd_prop")):
        col.check((p > 0) == (nrec > 0), "wall_time_%s" % nm, "time %r for %d evolution computations, %s" % (p, nrec, tag))
    col.check((parts[4] > 0) == (w.n["num_grad_computes"] > 0), "wall_time_gradient", "%r for %d, %s" % (parts[4], w.n["num_grad_computes"], tag))
    col.check(all(p >= 0 for p in parts) and sum(parts) <= st.wall_time_optim + 1e-9, "wall_time_parts",
              "parts %s of %r, %s" % (parts, st.wall_time_optim, tag))
    col.outcome((c, sorted(w.n.items())))
    col.validated()
