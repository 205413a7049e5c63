"""C13: the dump is an exact, immutable history, over scripted runs at every level and switch combination, and over operation sequences."""
import itertools

import numpy as np
from qutip import Qobj

from .. import runs as R
from .. import systems as S
from ..script import Chooser, Clock, Return, explore, minimiser_patch, patched
from .c15 import Work, xs

META = dict(
    rule="(a) every sequence of minimiser actions up to the depth for each optimiser, at every pair of levels (optimiser, dynamics), followed by a "
         "second run: every log entry compared with the event that caused it, the optimisation compared with one without dumping, earlier "
         "entries compared again after the second run and further updates; (b) every combination of the individual switches on fixed runs; (c) every "
         "sequence of level changes, switch changes, clearing and evaluations up to the depth, on the dynamics and on the optimiser",
    bounds=lambda tier: dict(depth_runs=2 if tier == "quick" else 3, depth_full="3 on four optimisers", switches="all 2^4 and 2^8", depth_ops=3 if tier == "quick" else 4),
    assumptions=["the number of changed amplitudes is judged when each submission is followed by an evaluation"],
)
LEVELS = [("FULL", "FULL"), ("SUMMARY", "FULL"), ("FULL", "SUMMARY"), ("CUSTOM", "NONE"), ("NONE", "CUSTOM"), ("SUMMARY", "SUMMARY")]
ON = ["lbfgs", "gen", "bfgs_g", "lbfgs_q", "lbfgs_g", "gen_approx", "crab_fmin", "bfgs", "crab_nm"]
OSW = ["dump_summary", "dump_fid_err", "dump_grad_norm", "dump_grad"]
DSW = ["dump_summary", "dump_amps", "dump_dyn_gen", "dump_prop", "dump_prop_grad", "dump_fwd_evo", "dump_onwd_evo", "dump_onto_evo"]
ITEM = dict(dump_amps="ctrl_amps", dump_dyn_gen="dyn_gen", dump_prop="prop", dump_prop_grad="prop_grad", dump_fwd_evo="fwd_evo",
            dump_onwd_evo="onwd_evo", dump_onto_evo="onto_evo")
LIM = dict(max_iter=1, max_wall_time=1e9, max_calls=10 ** 6, min_grad=0.0)


def cases(tier):
    out = []
    more = 0 if tier == "quick" else 1
    for c in ON:
        n0 = 4 + (4 if c[:2] != "cr" and c != "gen_approx" else 0)
        for lv in LEVELS:
            for a in range(n0):
                d = 2 + more if lv != ("FULL", "FULL") or c not in ("lbfgs", "gen_approx", "bfgs_g", "crab_fmin") else 3 + (more if c in ("lbfgs", "gen_approx") else 0)
                out.append(dict(kind="run", config=c, base=[a], lv=lv, d=d))
    for c in ("lbfgs", "lbfgs_g", "lbfgs_q", "crab_fmin"):
        for i in range(16):
            out.append(dict(kind="osw", config=c, i=i))
        for i in range(256):
            out.append(dict(kind="dsw", config=c, i=i))
    for c in range(len(DCONF)):
        for a in range(len(DOPS)):
            for b in range(len(DOPS)):
                out.append(dict(kind="dops", i=c, base=[a, b], depth=3 + more))
    for a in range(len(OOPS)):
        out.append(dict(kind="oops", base=[a], depth=3 + more))
    return out


def run_case(case, col):
    k = case["kind"]
    if k == "run":
        explore(lambda ch: scripted(case, ch, col), case["base"])
    elif k in ("osw", "dsw"):
        switches(case, col)
    elif k == "dops":
        dops(case, col)
    else:
        oops(case, col)


# ------------------------------------------------------------------ values the entries must have
_OPS = {}


def arr(x):
    if x is None:
        return None
    if isinstance(x, Qobj):
        return x.full()
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x
    if isinstance(x, np.ndarray):
        return [arr(y) for y in x.ravel()]
    return [arr(y) for y in x]


def same(a, b):
    a, b = arr(a), arr(b)
    if a is None or b is None:
        return a is b
    if isinstance(a, list) or isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.shape(a) == np.shape(b) and np.allclose(a, b, atol=1e-9, rtol=1e-9)


def operators(config, amps, get=None):
    """what a fresh system with these amplitudes has; None where the quantity is not calculated"""
    key = (config, amps.tobytes())
    if key not in _OPS:
        d = get() if get else R.build(config).dynamics
        d.update_ctrl_amps(amps.copy())
        d.fid_computer.get_fid_err()
        o = {}
        for k in ("dyn_gen", "prop", "fwd_evo"):
            o[k] = [q.full() for q in getattr(d, k)]
        # (quantities kept for the gradient exist only when cached / used)
        g = d.prop_grad if d.prop_computer.grad_exact and d.cache_prop_grad else None
        o["prop_grad"] = None if g is None else arr_grad(g)
        o["onwd_evo"] = [q.full() for q in d.onwd_evo] if d.fid_computer.uses_onwd_evo else None
        o["onto_evo"] = [q.full() for q in d.onto_evo] if d.fid_computer.uses_onto_evo else None
        o["ctrl_amps"] = amps.copy()
        _OPS[key] = o
        if len(_OPS) > 4000:
            _OPS.clear()
            _OPS[key] = o
    return _OPS[key]


def arr_grad(g):
    n_ts, n_c = np.shape(g)[:2]
    return [g[k, j].full() if isinstance(g[k, j], Qobj) else np.asarray(g[k, j]) for k in range(n_ts) for j in range(n_c)]


class Log(Work):
    """the work of a run, with the entries it must leave behind"""

    def __init__(self, amps, unit):
        Work.__init__(self, amps, unit)
        self.evos, self.errs, self.grads, self.iters = [], [], [], []
        self.lasterr = self.lastgn = None
        self.changed = (None, None)

    def submit(self, amps):
        ch = amps != self.amps
        self.changed = (int(ch.sum()), int(ch.any(axis=1).sum()))
        Work.submit(self, amps)

    def _evo(self):
        if not self.evo:
            self.evos.append(dict(amps=np.array(self.amps), it=self.n["num_iter"], fc=self.n["num_fidelity_func_calls"], gc=self.n["num_grad_func_calls"],
                                  changed=self.changed))
        Work._evo(self)

    def play(self, r, t0):
        self.start()
        self.fc = self.gc = None
        self.err = self.gn = None
        for ev in r.trace:
            if ev[0] == "C":
                self.event(ev, None)
                self.iters.append(dict(iter_num=self.n["num_iter"], fid_func_call_num=self.fc, grad_func_call_num=self.gc, fid_err=self.err, grad_norm=self.gn,
                                       wall_time=ev[1] - t0))
                continue
            i = ev[2] if ev[0] == "R" else ev[1]
            self.event(ev, R.amps_of(r.optim, r.P.x[i]))
            if ev[0] == "E":
                self.errs.append(r.P.err[i])
                self.err, self.fc = r.P.err[i], self.n["num_fidelity_func_calls"]
            elif ev[0] == "G":
                self.grads.append((r.P.gn[i], r.P.grad[i]))
                self.gn, self.gc = r.P.gn[i], self.n["num_grad_func_calls"]
        self.end()


_P = {}


def pts(c):
    if c not in _P:
        _P[c] = R.Points(c, xs)
    return _P[c]


def near(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= tol * (1 + abs(b))


def odump_check(o, want, L, col, tag):
    """OptimDump against the log L; want: switches that are on"""
    if want is None:
        col.check(o.dump is None, "optim:none", "optimiser dump exists; %s" % tag)
        return
    dp = o.dump
    if not col.check(dp is not None, "optim:missing", "no optimiser dump; %s" % tag):
        return
    e = L.errs if "dump_fid_err" in want else []
    col.check(len(dp.fid_err_log) == len(e) and all(near(a, b) for a, b in zip(dp.fid_err_log, e)), "fid_err_log", "%s, evaluated %s; %s" % (
        dp.fid_err_log, e, tag))
    g = [x[0] for x in L.grads] if "dump_grad_norm" in want else []
    col.check(len(dp.grad_norm_log) == len(g) and all(near(a, b, 1e-7) for a, b in zip(dp.grad_norm_log, g)), "grad_norm_log", "%s, evaluated %s; %s" % (
        dp.grad_norm_log, g, tag))
    g = [x[1] for x in L.grads] if "dump_grad" in want else []
    ok = len(dp.grad_log) == len(g) and all(np.shape(a) == np.shape(b) and np.allclose(a, b, atol=1e-7) for a, b in zip(dp.grad_log, g))
    ok or col.fail("grad_log", "%s, evaluated %s; %s" % ([np.asarray(a).tolist() for a in dp.grad_log], [np.asarray(a).tolist() for a in g], tag))
    it = L.iters if "dump_summary" in want else []
    if col.check(len(dp.iter_summary) == len(it), "iter_summary", "%d iteration summaries for %d iterations; %s" % (len(dp.iter_summary), len(it), tag)):
        for i, (a, b) in enumerate(zip(dp.iter_summary, it)):
            ok = a.idx == i and all(near(getattr(a, k), v, 1e-6) for k, v in b.items())
            ok or col.fail("iter_summary", "iteration summary %d is %s, expected %s; %s" % (i, vars(a), b, tag))


def ddump_check(d, want, L, config, stats, col, tag, get=None):
    if want is None:
        col.check(d.dump is None, "dyn:none", "dynamics dump exists; %s" % tag)
        return
    dp = d.dump
    if not col.check(dp is not None, "dyn:missing", "no dynamics dump; %s" % tag):
        return
    anyd = any(k in want for k in ITEM)
    items = L.evos if anyd else []
    if col.check(len(dp.evo_dumps) == len(items), "evo_dumps", "%d items for %d computations; %s" % (len(dp.evo_dumps), len(items), tag)):
        for i, (a, b) in enumerate(zip(dp.evo_dumps, items)):
            col.check(a.idx == i, "idx", "item %d has index %r; %s" % (i, a.idx, tag))
            item_check(a, want, operators(config, b["amps"], get), col, "item %d; %s" % (i, tag))
    su = L.evos if "dump_summary" in want else []
    if col.check(len(dp.evo_summary) == len(su), "evo_summary", "%d summaries for %d computations; %s" % (len(dp.evo_summary), len(su), tag)):
        for i, (a, b) in enumerate(zip(dp.evo_summary, su)):
            summary_check(a, i, i if anyd else None, b, stats, col, tag)


def item_check(a, want, ops, col, tag):
    for sw, name in ITEM.items():
        got, exp = getattr(a, name), ops[name] if sw in want else None
        if name == "prop_grad" and got is not None:
            got = arr_grad(got) if exp is not None else got
        if exp is None and sw in want and name == "prop_grad":
            continue  # (not calculated: whatever the place holder is)
        if not same(got, exp):
            col.fail(name, "%s of %s: %s, expected %s" % (name, tag, str(arr(got))[:200], str(exp)[:200]))


def summary_check(a, i, idx, b, stats, col, tag):
    ok = a.idx == i and a.evo_dump_idx == idx
    if stats:
        ok = ok and (a.iter_num, a.fid_func_call_num, a.grad_func_call_num) == (b["it"], b["fc"], b["gc"])
    if b["changed"][0] is not None:
        ok = ok and (a.num_amps_changed, a.num_timeslots_changed) == b["changed"]
    ok = ok and all(getattr(a, k) >= 0 for k in ("wall_time_dyn_gen_compute", "wall_time_prop_compute", "wall_time_fwd_prop_compute",
                                                 "wall_time_onwd_prop_compute"))
    ok or col.fail("evo_summary", "summary %d is %s, expected item %r and %s; %s" % (i, vars(a), idx, {k: v for k, v in b.items() if k != "amps"}, tag))


def want_of(level, sw):
    if level == "NONE":
        return None
    return list(sw) if level == "FULL" else ["dump_summary"]


def snapshot(o):
    """values of everything recorded so far"""
    out = []
    for dp in (o.dump, o.dynamics.dump):
        if dp is None:
            continue
        for k in ("fid_err_log", "grad_norm_log", "grad_log", "iter_summary", "evo_summary", "evo_dumps"):
            for i, x in enumerate(getattr(dp, k, [])):
                if k in ("iter_summary", "evo_summary"):
                    v = repr(sorted(vars(x).items()))
                elif k == "evo_dumps":
                    v = repr([arr_any(getattr(x, n)) for n in sorted(ITEM.values())])
                else:
                    v = repr(arr_any(x))
                out.append((type(dp).__name__, k, i, v))
    return out


def arr_any(x):
    if x is None or isinstance(x, (int, float)):
        return x
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x.tolist()
    if isinstance(x, Qobj):
        return x.full().tolist()
    if isinstance(x, np.ndarray):
        return [arr_any(y) for y in x.ravel()]
    if isinstance(x, (list, tuple)):
        return [arr_any(y) for y in x]
    return type(x).__name__


# ------------------------------------------------------------------ (a) runs
def key(r):
    t = [e[:1] + e[1:2] * (e[0] != "C") + ["raised" if isinstance(e[2], str) and e[2] == "raised" else ""] for e in r.trace]
    x = r.result
    return repr((t, [float(np.sum(e[2])) for e in r.trace if e[0] in "EG" and not isinstance(e[2], str)], x.fid_err, x.final_amps.tolist(), x.termination_reason,
                 x.num_iter, x.num_fid_func_calls, x.goal_achieved, x.grad_norm_final, x.initial_fid_err))


def prepare(lv):
    def f(o):
        o.dumping, o.dynamics.dumping = lv

    return f


def scripted(case, ch, col):
    c, d = case["config"], case["d"]
    P = pts(c)
    lim = dict(LIM, fid_err_targ=P.targ)
    stats = d % 2 == 1
    clock = Clock()
    r1 = R.execute(c, ch, d, stats=stats, limits=lim, P=P, clock=clock, prepare=prepare(case["lv"]), dts=(0.5,))
    o = r1.optim
    unit = R.SYS[R.CONFIGS[c][0]][2] == "UNIT"
    L = Log(r1.start_amps, unit)
    L.play(r1, r1.t0)
    tag = "%s at %s" % (r1.text, case["lv"])
    w1, w2 = want_of(case["lv"][0], OSW), want_of(case["lv"][1], DSW)
    odump_check(o, w1, L, col, tag)
    ddump_check(o.dynamics, w2, L, c, stats, col, tag)
    plain = R.execute(c, Chooser([x for x, _ in ch.trace]), d, stats=stats, limits=lim, P=P, dts=(0.5,))
    col.check(key(plain) == key(r1), "effect", "dumping changed the run: %s / %s; %s" % (key(plain)[:300], key(r1)[:300], tag))
    snap = snapshot(o)
    t1 = clock.t
    r2 = R.execute(c, Chooser([0, 1] if len(r1.trace) % 2 else [1, 2]), 2, stats=stats, limits=lim, P=P, clock=clock, optim=o, dts=(0.5,))
    L.play(r2, t1)
    tag += " then " + r2.text
    odump_check(o, w1, L, col, tag)
    ddump_check(o.dynamics, w2, L, c, stats, col, tag)
    # further updates leave what is recorded as it is
    o.dynamics.update_ctrl_amps(np.array(r1.start_amps) * 0.3 + 1.1)
    o.dynamics.fid_computer.get_fid_err()
    if P.uses_grad:
        o.dynamics.fid_computer.get_fid_err_gradient()
    o.dynamics.ctrl_amps[:] = 0.123
    for a in ("prop", "fwd_evo", "dyn_gen"):
        getattr(o.dynamics, a)
    now = dict(((x[0], x[1], x[2]), x[3]) for x in snapshot(o))
    for a, b, i, v in snap:
        col.check(now.get((a, b, i)) == v, "changed", "%s.%s[%d] changed afterwards: %s -> %s; %s" % (a, b, i, v[:150], str(now.get((a, b, i)))[:150], tag))
    col.execution(3)
    col.step(len(r1.trace) + len(r2.trace))
    col.validated()
    for i in range(len(r1.trace)):
        col.state((c, case["lv"], [e[:2] for e in r1.trace[: i + 1]]))
    col.outcome((c, case["lv"], len(L.evos), len(L.errs), len(L.grads), len(L.iters)))


# ------------------------------------------------------------------ (b) switches
def switches(case, col):
    c, i = case["config"], case["i"]
    P = pts(c)
    names = OSW if case["kind"] == "osw" else DSW
    want = [n for k, n in enumerate(names) if i >> k & 1]
    for start in ("CUSTOM", "SUMMARY", "FULL"):
        def prep(o):
            h = o if case["kind"] == "osw" else o.dynamics
            h.dumping = start
            for n in names:
                setattr(h.dump, n, n in want)

        for script in ([0, 1, 0, 0], [1, 0, 0, 2]):
            lim = dict(LIM, fid_err_targ=P.targ)
            r = R.execute(c, Chooser(script), 4, stats=True, limits=lim, P=P, prepare=prep)
            L = Log(r.start_amps, R.SYS[R.CONFIGS[c][0]][2] == "UNIT")
            L.play(r, r.t0)
            tag = "%s with switches %s from %s" % (r.text, want, start)
            if case["kind"] == "osw":
                odump_check(r.optim, want, L, col, tag)
                h = r.optim
            else:
                ddump_check(r.dyn, want, L, c, True, col, tag)
                h = r.dyn
            ops = operators(c, r.start_amps)
            allsw = [n for n in names if n not in ITEM or n == "dump_prop_grad" or ops[ITEM[n]] is not None]
            lvl_check(h, want, allsw, col, tag)
            plain = R.execute(c, Chooser(script), 4, stats=True, limits=lim, P=P)
            col.check(key(plain) == key(r), "effect", "dumping changed the run; %s" % tag)
            col.execution(2)
            col.step(len(r.trace))
            col.validated()
            col.state((case["kind"], c, i, start, str(script)))
            col.outcome((case["kind"], c, i))


def lvl_check(h, want, allsw, col, tag):
    """the level reported"""
    rest = [n for n in want if n != "dump_summary"]
    full = all(n in want for n in allsw)
    exp = "SUMMARY" if want == ["dump_summary"] else "FULL" if full else "CUSTOM"
    ok = h.dumping == exp and h.dump.level == exp
    # switching on something that is not calculated does not make it another level
    if not ok and full and rest:
        ok = h.dumping in ("FULL", "CUSTOM") and set(want) != set(allsw)
    col.check(ok, "level", "level %r for switches %s; %s" % (h.dumping, want, tag))


# ------------------------------------------------------------------ (c) operation sequences
DOPS = ["A", "B", "again", "NONE", "SUMMARY", "FULL", "full", "CUSTOM", "amps-on", "prop-off", "summary-off", "clear", "grad", "fidcomp"]
DCONF = ["lbfgs", "lbfgs_g"]
OOPS = ["run", "run2", "NONE", "SUMMARY", "FULL", "summary", "CUSTOM", "custom", "grad-on", "err-off", "summary-off", "clear"]


class Levels:
    """model of the level and the switches"""

    def __init__(self, names):
        self.names, self.want, self.last = names, None, None

    def set(self, level):
        lv = level.upper()
        if lv == "NONE":
            self.want = self.last = None
            return "none"
        new = self.want is None
        if lv == "CUSTOM":
            if self.last != "CUSTOM":
                self.want = ["dump_summary"]
        else:
            self.want = want_of(lv, self.names)
        self.last = lv
        return "new" if new else "kept"

    def switch(self, name, on):
        if self.want is None:
            return False
        w = set(self.want)
        (w.add if on else w.discard)(name)
        self.want = [n for n in self.names if n in w]
        return True


def dops(case, col):
    for rest in itertools.product(range(len(DOPS)), repeat=case["depth"] - 2):
        dops_one(case["i"], [DOPS[x] for x in case["base"] + list(rest)], col)


_BUILT = {}


def dops_one(ci, seq, col):
    import qutip_qtrl.fidcomp as fc

    config = DCONF[ci]
    o = R.build(config)
    d = o.dynamics
    shape = d.ctrl_amps.shape
    VAL = {"A": 0.2 + 0.1 * np.arange(np.prod(shape)).reshape(shape), "B": 0.5 * np.cos(1.7 * np.arange(np.prod(shape)).reshape(shape))}
    M = Levels(DSW)
    items, sums = [], []   # (switches, amplitudes, traced fidelity), (index of the item, changed)
    cur, evo, td = d.ctrl_amps.copy(), False, config == "lbfgs_g"
    old = []  # dumps given up and what they held

    def get():
        dd = R.build(config).dynamics
        if td and config != "lbfgs_g":
            dd.fid_computer = fc.FidCompTraceDiff(dd)
            dd.initialize_controls(cur.copy())
        return dd

    def need(ch):
        nonlocal evo
        if evo:
            return
        evo = True
        if M.want is not None:
            idx = None
            if any(k in ITEM for k in M.want):
                items.append((list(M.want), cur.copy(), td))
                idx = len(items) - 1
            if "dump_summary" in M.want:
                sums.append((idx, ch))

    for k, op in enumerate(seq):
        tag = "%s of %s on %s" % (k + 1, seq, config)
        if op in ("A", "B", "again"):
            v = VAL[op] if op in VAL else cur
            ch = v != cur
            d.update_ctrl_amps(v.copy())
            if ch.any():
                cur, evo = v.copy(), False
            d.fid_computer.get_fid_err()
            need((int(ch.sum()), int(ch.any(axis=1).sum())) if ch.any() else (None, None))
        elif op == "grad":
            if evo:
                d.fid_computer.get_fid_err_gradient()
        elif op == "fidcomp":
            d.fid_computer = fc.FidCompTraceDiff(d) if not td else fc.FidCompUnitary(d) if config == "lbfgs" else fc.FidCompTraceDiff(d)
            td = True if config == "lbfgs_g" else not td
            d.initialize_controls(cur.copy())
            evo = False
        elif op == "clear":
            if d.dump is not None:
                d.dump.clear()
                items, sums = [], []
        elif op in ("amps-on", "prop-off", "summary-off"):
            n = dict(amps="dump_amps", prop="dump_prop", summary="dump_summary")[op.split("-")[0]]
            if M.switch(n, op.endswith("on")):
                setattr(d.dump, n, op.endswith("on"))
        else:
            held = d.dump
            st = M.set(op)
            d.dumping = op
            if st in ("none", "new"):
                items, sums = [], []
            if st == "kept":
                col.check(d.dump is held, "replaced", "changing the level replaced the dump; %s" % tag)
        # compare
        if M.want is None:
            col.check(d.dump is None and d.dumping == "NONE", "dyn:none", "dump %r; %s" % (d.dump, tag))
        elif col.check(d.dump is not None, "dyn:missing", "no dump; %s" % tag):
            dp = d.dump
            ok = col.check(len(dp.evo_dumps) == len(items), "evo_dumps", "%d items, expected %d; %s" % (len(dp.evo_dumps), len(items), tag))
            ok2 = col.check(len(dp.evo_summary) == len(sums), "evo_summary", "%d summaries, expected %d; %s" % (len(dp.evo_summary), len(sums), tag))
            if k == len(seq) - 1 and ok and ok2:
                for i, (a, (w, am, t)) in enumerate(zip(dp.evo_dumps, items)):
                    col.check(a.idx == i, "idx", "item %d has index %r; %s" % (i, a.idx, tag))
                    td, keep = t, td
                    cur, keepc = am, cur
                    item_check(a, w, operators((config, t), am, get), col, "item %d; %s" % (i, tag))
                    td, cur = keep, keepc
                for i, (a, (idx, ch)) in enumerate(zip(dp.evo_summary, sums)):
                    col.check(a.idx == i and a.evo_dump_idx == idx and (ch[0] is None or (a.num_amps_changed, a.num_timeslots_changed) == ch), "evo_summary",
                              "summary %d is %s, expected item %r, changes %s; %s" % (i, vars(a), idx, ch, tag))
            lvl_check(d, M.want, [n for n in DSW if n not in ("dump_onwd_evo", "dump_onto_evo") or n in uses(d)], col, tag)
        col.step()
    col.execution()
    col.validated()
    col.state((ci, tuple(seq)))
    col.outcome((ci, len(items), len(sums), M.want))


def uses(d):
    return [n for n, u in (("dump_onwd_evo", d.fid_computer.uses_onwd_evo), ("dump_onto_evo", d.fid_computer.uses_onto_evo)) if u]


def oops(case, col):
    for rest in itertools.product(range(len(OOPS)), repeat=case["depth"] - 1):
        oops_one([OOPS[x] for x in case["base"] + list(rest)], col)


def oops_one(seq, col):
    o = R.build("lbfgs")
    M = Levels(OSW)
    logs = dict(fid_err_log=[], grad_norm_log=[], grad_log=[], iter_summary=[])
    for k, op in enumerate(seq):
        tag = "%d of %s" % (k + 1, seq)
        if op in ("run", "run2"):
            seen = []

            def handler(call):
                n = len(call.x0)
                for i in range(2 if op == "run2" else 1):
                    x = np.full(n, 0.2 + 0.3 * i)
                    e = call.fun(x)
                    seen.append(("E", e))
                    g = np.array(call.jac(x))
                    seen.append(("G", g))
                    call.callback(x)
                    seen.append(("C", i + 1))
                return Return("converged", call.x0, 0.5, nit=1, nfev=1)

            m = minimiser_patch(handler)
            m.update(Clock().mapping())
            with patched(m):
                o.run_optimization()
            nE = 0
            if M.want is not None:
                for kind, v in seen:
                    if kind == "E":
                        nE += 1
                        if "dump_fid_err" in M.want:
                            logs["fid_err_log"].append(v)
                        e = v
                    elif kind == "G":
                        if "dump_grad_norm" in M.want:
                            logs["grad_norm_log"].append(np.linalg.norm(v))
                        if "dump_grad" in M.want:
                            logs["grad_log"].append(v)
                        g = np.linalg.norm(v)
                    elif "dump_summary" in M.want:
                        logs["iter_summary"].append((v, nE, nE, e, g))
        elif op == "clear":
            if o.dump is not None:
                o.dump.clear()
                logs = {k: [] for k in logs}
        elif op in ("grad-on", "err-off", "summary-off"):
            n = dict(grad="dump_grad", err="dump_fid_err", summary="dump_summary")[op.split("-")[0]]
            if M.switch(n, op.endswith("on")):
                setattr(o.dump, n, op.endswith("on"))
        else:
            st = M.set(op)
            o.dumping = op
            if st in ("none", "new"):
                logs = {k: [] for k in logs}
        if M.want is None:
            col.check(o.dump is None and o.dumping == "NONE", "optim:none", "dump %r; %s" % (o.dump, tag))
        elif col.check(o.dump is not None, "optim:missing", "no dump; %s" % tag):
            dp = o.dump
            for n in ("fid_err_log", "grad_norm_log"):
                got = getattr(dp, n)
                col.check(len(got) == len(logs[n]) and np.allclose(got, logs[n], atol=1e-9), n, "%s, expected %s; %s" % (got, logs[n], tag))
            got = dp.grad_log
            col.check(len(got) == len(logs["grad_log"]) and all(np.allclose(np.ravel(a), b, atol=1e-9) for a, b in zip(got, logs["grad_log"])), "grad_log",
                      "%s, expected %s; %s" % (got, logs["grad_log"], tag))
            got = [(s.idx, s.iter_num, s.fid_func_call_num, s.grad_func_call_num, s.fid_err, s.grad_norm) for s in dp.iter_summary]
            exp = [(i,) + x for i, x in enumerate(logs["iter_summary"])]
            col.check(len(got) == len(exp) and all(np.allclose(np.array(a, dtype=float), np.array(b, dtype=float)) for a, b in zip(got, exp)), "iter_summary",
                      "%s, expected %s; %s" % (got, exp, tag))
            lvl_check(o, M.want, OSW, col, tag)
        col.step()
    col.execution()
    col.validated()
    col.state(("oops", tuple(seq)))
    col.outcome(("oops", [len(v) for v in logs.values()], M.want))
