"""C05: time slots, over every sequence of settings up to a depth."""
import itertools

import numpy as np

from .. import systems as S
from ..ref import close

# name -> value
SETS = {
    "N3": ("n", 3), "N1": ("n", 1), "N5": ("n", 5),
    "T2": ("t", 2.0), "T.7": ("t", 0.7),
    "A4": ("tau", [0.1, 0.2, 0.3, 0.4]), "A2": ("tau", [0.9, 0.3]), "AL": ("taul", [0.5, 0.25, 0.5]), "A0": ("tau", None),
}
READS = ["rn", "rt", "ra", "all"]
OTHER = ["Tsame", "Nsame", "init", "ctl", "ctl0", "alias"]
OPS = list(SETS) + READS + OTHER
META = dict(
    rule="every sequence up to the depth of {set count (3 values), set total (2), set durations (array, list, reset), read each, read all, "
         "initialise slots, initialise controls with and without slots, change the submitted duration array in place} on a fresh system from "
         "{empty, count+total given, durations given through the entry point}; all quantities compared with the model after every sequence",
    bounds=lambda tier: dict(depth=4 if tier == "quick" else 5, operations=len(OPS), starts=4),
    assumptions=["time grid is read after one of count, total or durations"],
)


def cases(tier):
    d = 4 if tier == "quick" else 5
    return [dict(start=s, prefix=[a, b], depth=d) for s in ("empty", "nt", "tau", "single") for a in OPS for b in OPS]


class Model:
    def __init__(self):
        self.n, self.t, self.tau = None, None, None  # as requested
        self.init = False
        self.rounded = False  # durations were made from count and total since the total was given

    def derive(self):
        if self.n is None:
            self.n = 10
        if self.t is None:
            self.t = 1
        if self.tau is None:
            self.tau = [self.t / self.n] * self.n
            self.rounded = True
        else:
            self.n, self.t = len(self.tau), float(np.sum(self.tau))
        self.init = True

    def set(self, kind, v):
        if kind == "n":
            self.n = v
            if self.init:
                self.tau = None
                self.derive()
        elif kind == "t":
            self.t = v
            self.rounded = False
            if self.init:
                self.tau = None
                self.derive()
        else:
            self.tau = None if v is None else [float(x) for x in v]
            if v is not None:
                self.rounded = False
            self.derive()


_sys = S.SYSTEMS["u_z_x"]


def new(start):
    import qutip_qtrl.dynamics as dy
    import qutip_qtrl.optimconfig as oc
    import qutip_qtrl.pulseoptim as po

    m = Model()
    if start in ("nt", "tau"):
        kw = dict(num_tslots=4, evo_time=1.3) if start == "nt" else dict(tau=np.array([0.2, 0.6, 0.1]))
        o = po.create_pulse_optimizer(_sys.qdrift(), _sys.qctrls(), _sys.q(_sys.initial), _sys.q(_sys.target), dyn_type="UNIT",
                                      init_pulse_type="ZERO", **kw)
        d = o.dynamics
        if start == "nt":
            m.n, m.t = 4, 1.3
        else:
            m.set("tau", [0.2, 0.6, 0.1])
    else:
        cfg = oc.OptimConfig()
        d = dy.DynamicsUnitary(cfg)
        d.drift_dyn_gen = _sys.qdrift()
        d.ctrl_dyn_gen = _sys.qctrls()
        d.initial = _sys.q(_sys.initial)
        d.target = _sys.q(_sys.target)
        if start == "single":
            d.num_tslots = 1
            d.evo_time = 3
            m.n, m.t = 1, 3.0
        m_default(d, m, start)
    return d, m


def m_default(d, m, start):
    if start == "empty":
        m.n, m.t = None, None


def run_case(case, col):
    pre = case["prefix"]
    for suf in itertools.product(OPS, repeat=case["depth"] - len(pre)):
        run_seq(case["start"], list(pre) + list(suf), col)


def run_seq(start, seq, col):
    d, m = new(start)
    last = [None]
    col.execution()
    for i, op in enumerate(seq):
        try:
            apply(d, m, op, last, lambda sig, msg: col.fail(sig, "%s; start %s, history %s" % (msg, start, seq[: i + 1])))
        except Exception as e:
            import traceback

            col.fail("exc:%s" % type(e).__name__, "%s; start %s, history %s" % (e, start, seq[: i + 1]), tb=traceback.format_exc()[-1500:])
            return
        col.step()
        col.state((start, m.n, m.t, m.tau, m.init))
    check_all(d, m, lambda sig, msg: col.fail(sig, "%s; start %s, history %s" % (msg, start, seq)))
    col.outcome((m.n, m.t, m.tau))
    col.validated()
    col.sample(dict(start=start, history=seq))


def apply(d, m, op, last, fail):
    if op in SETS:
        k, v = SETS[op]
        if k == "n":
            d.num_tslots = v
            m.set("n", v)
        elif k == "t":
            d.evo_time = v
            m.set("t", v)
        else:
            a = v if v is None else (np.array(v, dtype=float) if k == "tau" else list(v))
            last[0] = a
            d.tau = a
            m.set("tau", v)
    elif op == "Tsame":
        m.init or m.derive()
        v = d.evo_time
        if not close(v, m.t, 1e-12, 1e-12):
            fail(sig_total(v, m), "evo_time %r, expected %r" % (v, m.t))
        d.evo_time = v
        m.set("t", m.t)
        m.rounded = True
    elif op == "Nsame":
        m.init or m.derive()
        if d.num_tslots != m.n:
            fail("count", "num_tslots %r, expected %r" % (d.num_tslots, m.n))
        d.num_tslots = m.n
        m.set("n", m.n)
    elif op == "rn":
        m.init or m.derive()
        if d.num_tslots != m.n:
            fail("count", "num_tslots %r, expected %r" % (d.num_tslots, m.n))
    elif op == "rt":
        m.init or m.derive()
        if not close(d.evo_time, m.t, 1e-12, 1e-12):
            fail(sig_total(d.evo_time, m), "evo_time %r, expected %r" % (d.evo_time, m.t))
    elif op == "ra":
        m.init or m.derive()
        if len(d.tau) != len(m.tau) or not close(np.asarray(d.tau), np.asarray(m.tau), 1e-12, 1e-12):
            fail("single-precision" if near_single(d.tau, m) else "durations", "tau %s, expected %s" % (list(d.tau), m.tau))
    elif op == "all":
        check_all(d, m, fail)
    elif op == "init":
        d.init_timeslots()
        m.derive()
    elif op in ("ctl", "ctl0"):
        m.init or m.derive()
        a = 0.1 * np.ones((d.num_tslots, d.num_ctrls))
        d.initialize_controls(a, init_tslots=op == "ctl")
        m.derive()
        d.compute_evolution()
        if len(d.fwd_evo) != m.n + 1 or len(d.prop) != m.n:
            fail("evolution", "evolution has %d points for %d slots" % (len(d.fwd_evo), m.n))
        if len(d.get_amp_times()) != m.n:
            fail("amp_times", "%s for %d slots" % (d.get_amp_times(), m.n))
    elif op == "alias":
        if last[0] is not None and len(last[0]):
            last[0][0] = last[0][0] + 7.0


SINGLE = 2.0**-22


def near_single(tau, m):
    """the known defect: equal slots of a given total, rounded to single precision"""
    tau = np.asarray(tau, dtype=float)
    e = m.t / m.n
    return len(tau) == m.n and len(set(tau)) == 1 and len(set(m.tau)) == 1 and e > 0 and abs(tau[0] - e) <= SINGLE * e


def sig_total(T, m):
    """re-initialising takes the total over from the rounded durations"""
    return "single-precision" if m.rounded and abs(T - m.t) <= SINGLE * abs(m.t) else "total"


def check_all(d, m, fail):
    m.init or m.derive()
    n = d.num_tslots
    tau, T, t = np.asarray(d.tau, dtype=float), float(d.evo_time), np.asarray(d.time, dtype=float)
    if n != m.n:
        fail("count", "num_tslots %r, expected %r" % (n, m.n))
    if len(tau) != n:
        fail("durations", "%d durations for %d slots" % (len(tau), n))
    single = near_single(tau, m)
    if not close(tau.sum(), T, 1e-12, 1e-12):
        fail("single-precision" if single else "total", "durations add up to %r, evo_time %r" % (tau.sum(), T))
    if not close(T, m.t, 1e-12, 1e-12):
        fail(sig_total(T, m), "evo_time %r, expected %r" % (T, m.t))
    if len(tau) == len(m.tau) and not close(tau, np.asarray(m.tau), 1e-12, 1e-12):
        fail("single-precision" if single else "durations", "tau %s, expected %s" % (tau.tolist(), m.tau))
    if len(t) != n + 1 or t[0] != 0 or not close(t, np.concatenate([[0], np.cumsum(tau)]), 1e-12, 1e-12):
        fail("time", "time %s for durations %s" % (t.tolist(), tau.tolist()))
    at = np.asarray(d.get_amp_times(), dtype=float)
    if not (len(at) == n and close(at, t[:-1], 0, 0)):
        fail("amp_times", "%s for %s" % (at.tolist(), t.tolist()))
