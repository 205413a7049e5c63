"""C23: a broken off or refused operation leaves nothing half done."""
import itertools
import warnings

import numpy as np
from qutip import Qobj

from .. import duo
from .. import systems as S
from ..fault import Broken, Faults, Interrupt
from ..ref import close
from ..script import Clock, Draws, patched
from . import c19 as B
from . import c20 as U
from . import c21 as D

META = dict(
    rule="(a) every operation of the dynamics broken off at every computation it makes (matrix functions, products, operator construction), in every "
         "configuration, after every preparation and followed by every continuation (thorough: broken off twice): the exception reaches the caller, values "
         "belong to the amplitudes in force; (b) optimisation runs broken off at every computation, then run again: as a new optimiser; (c) the entry points "
         "broken off at every computation, then called again; (d) every sequence of refused requests and valid operations to the depth: settings and values "
         "as without the refused ones",
    bounds=lambda tier: dict(configurations=list(D.CFG), operations=OPS, preparations=[" ".join(p) for p in PREP], continuations=len(CONT), runs=list(U.CONF), refused=list(REFUSED),
                             faults=1 if tier == "quick" else 2, depth=3 if tier == "quick" else 4),
    assumptions=["faults at calls into scipy, qutip, numpy.linalg, numpy.random and matrix products; the statements between them are one step",
                 "after a broken off or refused initialize_controls the controls have to be initialised again"],
)
OPS = ["u1", "u2", "err", "grad", "evo", "read", "init", "fid"]
PREP = [(), ("u1",), ("u1", "err"), ("u1", "grad"), ("u1", "evo"), ("u1", "err", "grad"), ("u1", "grad", "read"), ("u1", "read", "u2")]
CONT = [(), ("u1",), ("u2",), ("u0",), ("err",), ("grad",), ("evo",), ("read",), ("init",), ("u2", "u1"), ("same",)]
MAXN = 4000


def cases(tier):
    out = []
    for cfg in D.CFG:
        for op in OPS:
            for i, p in enumerate(PREP):
                if tier == "quick" and i in (3, 4, 5):
                    continue
                out.append(dict(kind="break", cfg=cfg, op=op, prep=i, twice=tier != "quick"))
    for c in U.CONF:
        for s in ("converged", "goal") if tier == "quick" else U.SCRIPTS:
            for part in range(4):
                out.append(dict(kind="run", config=c, script=s, part=part))
    for f in ENTRY:
        out.append(dict(kind="entry", entry=f))
    for cfg in D.CFG:
        for a in REFUSED:
            out.append(dict(kind="refused", cfg=cfg, first=a, depth=3 if tier == "quick" else 4))
    return out


def run_case(case, col):
    {"break": breaks, "run": runs, "entry": entries, "refused": refusals}[case["kind"]](case, col)


# ------------------------------------------------------------------ (a)
def amps(cfg, a):
    return D.AMPS[a][:, : D.SY[D.CFG[cfg][0]].n_ctrls].copy()


def lists(d):
    out = []
    for a in ("dyn_gen", "prop", "fwd_evo", "onwd_evo", "onto_evo"):
        v = getattr(d, a)
        out.append(None if v is None else [x.full() for x in v])
    v = d.prop_grad
    out.append(None if v is None else [x.full() for x in v.flat])
    out += [d.full_evo.full(), d.onto_evo_target.full()]
    return out


def values(d):
    f = d.fid_computer
    out = [f.get_fid_err(), np.array(f.get_fid_err_gradient()), f.grad_norm, f.get_fidelity() if hasattr(f, "get_fidelity") else None]
    return out + lists(d)


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return close(a, b, 1e-9, 1e-10)


def make(cfg, stats=False):
    sn, prop, fid, dp = D.CFG[cfg]
    o = S.make_optim(D.SY[sn], D.TAU, fid=fid, prop=prop, dyn_params=dict(dp), log_level=40, gen_stats=stats)
    o.dynamics.initialize_controls(amps(cfg, "a0"))
    return o


_BASE = {}


def base(cfg, a):
    if (cfg, a) not in _BASE:
        d = make(cfg).dynamics
        if a != "a0":
            d.initialize_controls(amps(cfg, a))
        _BASE[cfg, a] = values(d)
    return _BASE[cfg, a]


def do(cfg, d, op):
    f = d.fid_computer
    if op in ("u0", "u1", "u2"):
        d.update_ctrl_amps(amps(cfg, "a" + op[1]))
    elif op == "same":
        d.update_ctrl_amps(np.array(d.ctrl_amps))
    elif op == "err":
        f.get_fid_err()
    elif op == "grad":
        f.get_fid_err_gradient()
    elif op == "fid":
        (f.get_fidelity if hasattr(f, "get_fidelity") else f.get_fid_err)()
    elif op == "evo":
        d.compute_evolution()
    elif op == "init":
        d.initialize_controls(amps(cfg, "a2"))
    elif op == "read":
        values(d)


def in_force(cfg, d):
    for a in ("a0", "a1", "a2"):
        if np.array_equal(d.ctrl_amps, amps(cfg, a)):
            return a
    return None


def judge(cfg, d, tag, col):
    a = in_force(cfg, d)
    if not col.check(a is not None, "amps", "amplitudes in force are %s; %s" % (d.ctrl_amps, tag)):
        return False
    try:
        v = values(d)
    except Exception as e:
        return col.fail("break:raised:%s" % type(e).__name__, "%r; %s" % (e, tag))
    b = base(cfg, a)
    for i, (x, y) in enumerate(zip(v, b)):
        if not same(x, y):
            return col.fail("break:value", "value %d does not belong to the amplitudes in force (%s): %s, expected %s; %s" % (
                i, a, np.round(x[0] if isinstance(x, list) else x, 7), np.round(y[0] if isinstance(y, list) else y, 7), tag))
    return True


def breaks(case, col):
    cfg, op, prep = case["cfg"], case["op"], PREP[case["prep"]]
    for cont in CONT:
        for exc in (Interrupt, Broken):
            if exc is Broken and cont and not case["twice"]:
                continue
            n = 0
            while n < MAXN:
                n += 1
                d = make(cfg, stats=exc is Broken).dynamics
                for p in prep:
                    do(cfg, d, p)
                F = Faults(exc)
                ok, _ = F(lambda: do(cfg, d, op), n)
                tag = "%s: after %s, %s broken off (%s) at computation %d (%s), then %s" % (
                    cfg, " ".join(prep) or "initialisation", op, exc.__name__, n, F.where, " ".join(cont) or "nothing")
                if F.where is None:
                    break
                col.execution()
                col.step(len(prep) + 1 + len(cont))
                col.state((cfg, op, prep, n, cont))
                if not col.check(not F.swallowed, "swallowed", "the exception did not reach the caller; %s" % tag):
                    continue
                try:
                    if op == "init":
                        d.initialize_controls(amps(cfg, "a2"))
                    for c in cont:
                        do(cfg, d, c)
                except Exception as e:
                    col.fail("break:raised:%s" % type(e).__name__, "%r; %s" % (e, tag))
                    continue
                judge(cfg, d, tag, col)
                col.outcome((cfg, op, F.where))
                if case["twice"] and cont in ((), ("grad",), ("u2",)):
                    twice(cfg, op, prep, n, exc, cont, col)
            col.validated()


def twice(cfg, op, prep, n, exc, cont, col):
    for c in (cont or (op,)):
        m = 0
        while m < MAXN:
            m += 1
            d = make(cfg).dynamics
            for p in prep:
                do(cfg, d, p)
            Faults(exc)(lambda: do(cfg, d, op), n)
            if op == "init" and c != "init":
                return
            F = Faults(exc)
            F(lambda: do(cfg, d, c), m)
            if F.where is None:
                break
            tag = "%s: after %s, %s broken off (%s) at computation %d, then %s at computation %d" % (cfg, " ".join(prep), op, exc.__name__, n, c, m)
            col.execution()
            col.step(2)
            if "init" in (op, c):
                d.initialize_controls(amps(cfg, "a2"))
            if not judge(cfg, d, tag, col):
                return


# ------------------------------------------------------------------ (b)
def runs(case, col):
    c, script = case["config"], case["script"]
    n = case["part"] + 1 - 4
    while n < MAXN:
        n += 4
        exc = (Interrupt, Broken)[n // 4 % 2]
        o = U.create(c)
        F = Faults(exc)
        F(lambda: U.play(o, script), n)
        tag = "%s: run(%s) broken off (%s) at computation %d (%s)" % (c, script, exc.__name__, n, F.where)
        if F.where is None:
            break
        col.execution(2)
        col.state((c, script, n))
        if not col.check(not F.swallowed, "swallowed", "the exception did not reach the caller; %s" % tag):
            continue
        # values belong to the amplitudes in force
        d = o.dynamics
        new = U.create(c)
        new.dynamics.initialize_controls(np.array(d.ctrl_amps))
        try:
            r = B.same(look(d), look(new.dynamics), "values")
            col.check(r is None, "run:values", "differ from those of a new optimiser with the same amplitudes at %s; %s" % (r, tag))
            st = U.state(o)
            seen, res = U.play(o, "long")
        except Exception as e:
            col.fail("run:raised:%s" % type(e).__name__, "%r; %s" % (e, tag))
            continue
        new = U.create(c)
        U.start(new, st)
        seen2, res2 = U.play(new, "long")
        r = B.same(seen, seen2, "run")
        col.check(r is None, "run:again", "the next run differs from that of a new optimiser at %s; %s" % (r, tag))
        r = B.same(U.view(res), U.view(res2), "result")
        col.check(r is None, "run:result", "the next run's result differs from that of a new optimiser at %s; %s" % (r, tag))
        col.step(len(seen) + 2)
        col.outcome((c, script, F.where))
    col.validated()


def look(d):
    out = [d.fid_computer.get_fid_err(), [x.full() for x in d.fwd_evo], [x.full() for x in d.prop]]
    if d.prop_computer.grad_exact or type(d.fid_computer).__name__ == "FidCompTraceDiffApprox":
        out += [np.array(d.fid_computer.get_fid_err_gradient()), d.fid_computer.grad_norm]
    return out


# ------------------------------------------------------------------ (c)
def pulse(f, **kw):
    def call():
        return B.res(B.opt(f, **kw))
    return call


def grape(f):
    def call():
        import qutip_qtrl.cy_grape as cg
        import qutip_qtrl.grape as g

        s = S.SYSTEMS["u_z_xy"]
        t = np.linspace(0, 1.0, 5)
        with patched(dict(Draws((0.25, 0.75, 0.5, 0.9, 0.1, 0.65)).mapping())), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = getattr(g, f)(s.q(s.target), s.qdrift(), s.qctrls(), 3, t, u_start=np.full((2, 5), 0.1), u_limits=None, eps=0.1)
        return dict(u=B.arr(r.u), U=B.arr(r.U_f))
    return call


ENTRY = {
    "unitary": pulse("optimize_pulse_unitary", init_pulse_type="RND"), "general": pulse("optimize_pulse", sysn="g_c", init_pulse_type="RNDFOURIER"),
    "sympl": pulse("optimize_pulse", sysn="s_1", init_pulse_type="LIN"), "crab": pulse("opt_pulse_crab", sysn="g_c", num_coeffs=1),
    "crab_u": pulse("opt_pulse_crab_unitary", num_coeffs=1, guess_pulse_type="SINE"), "stats": pulse("optimize_pulse_unitary", gen_stats=True, init_pulse_type="RNDWAVES"),
    "dump": pulse("optimize_pulse_unitary", init_pulse_type="SAW", dyn_params=dict(dumping="FULL"), optim_params=dict(dumping="FULL")),
    "grape_unitary": grape("grape_unitary"), "cy_grape_unitary": grape("cy_grape_unitary"), "grape_unitary_adaptive": grape("grape_unitary_adaptive"),
}


def entries(case, col):
    f = ENTRY[case["entry"]]
    ref = f()
    col.check(B.same(f(), ref) is None, "entry:repeat", "%s: a second call differs" % case["entry"])
    n = 0
    while n < MAXN:
        n += 1
        exc = (Interrupt, Broken)[n % 2]
        F = Faults(exc)
        F(f, n)
        tag = "%s broken off (%s) at computation %d (%s), then called again" % (case["entry"], exc.__name__, n, F.where)
        if F.where is None:
            break
        col.execution(2)
        col.step(2)
        col.state((case["entry"], n))
        col.outcome((case["entry"], F.where))
        if not col.check(not F.swallowed, "swallowed", "the exception did not reach the caller; %s" % tag):
            continue
        r = B.same(f(), ref)
        col.check(r is None, "entry:again", "%s: differs at %s" % (tag, r))
    col.validated()


# ------------------------------------------------------------------ (d)
def bad_set(path, v):
    """an assignment refused at once"""
    def f(o, cfg):
        x = o
        ps = path.split(".")
        for p in ps[:-1]:
            x = getattr(x, p)
        setattr(x, ps[-1], v)
    return f


def bad_init(path, v):
    """a setting refused by the next initialisation, then put right"""
    def f(o, cfg):
        x = o
        ps = path.split(".")
        for p in ps[:-1]:
            x = getattr(x, p)
        old = getattr(x, ps[-1])
        a = np.array(o.dynamics.ctrl_amps)
        try:
            setattr(x, ps[-1], v)
            o.dynamics.initialize_controls(a)
        finally:
            setattr(x, ps[-1], old)
            o.dynamics.initialize_controls(a)
    return f


def bad_run(path, v):
    """a setting refused by the next run, then put right"""
    def f(o, cfg):
        x = o
        ps = path.split(".")
        for p in ps[:-1]:
            x = getattr(x, p)
        old = getattr(x, ps[-1])
        try:
            setattr(x, ps[-1], v)
            o.run_optimization()
        finally:
            setattr(x, ps[-1], old)
    return f


def bad_computer(o, cfg):
    import qutip_qtrl.fidcomp as fc

    fc.FidCompTraceDiff(o.dynamics)


def bad_crab(o, cfg):
    import qutip_qtrl.optimizer as om

    oc = om.OptimizerCrab(o.config, o.dynamics)
    oc.termination_conditions = o.termination_conditions
    oc.run_optimization()


def bad_file(o, cfg):
    from qutip_qtrl import loadparams

    loadparams.load_parameters("/nonexistent/file.ini", config=o.config, dynamics=o.dynamics, optim=o)


def bad_pulse(o, cfg):
    import qutip_qtrl.pulsegen as pg

    pg.create_pulse_gen("FOO", dyn=o.dynamics)


def bad_check(o, cfg):
    import qutip_qtrl.optimconfig as oc

    n = type(o.dynamics)(o.config)
    n.check_ctrls_initialized()


UNIT = lambda cfg: D.SY[D.CFG[cfg][0]].kind == "UNIT" and D.CFG[cfg][2] in ("DEF", "UNIT")
ANY = lambda cfg: True
Z = np.zeros((2, 2))
REFUSED = {
    # name: (applies, request, exceptions)
    "phase": (UNIT, bad_set("dynamics.fid_computer.phase_option", "FOO"), "UsageError"), "phase None": (UNIT, bad_set("dynamics.fid_computer.phase_option", None), "UsageError"),
    "phase_application": (ANY, bad_set("dynamics.phase_application", "FOO"), "ValueError"),
    "dumping": (ANY, bad_set("dynamics.dumping", "FOO"), "ValueError"), "dumping 3": (ANY, bad_set("dynamics.dumping", 3), "TypeError"),
    "optim dumping": (ANY, bad_set("dumping", "FOO"), "ValueError"), "optim dumping 3": (ANY, bad_set("dumping", 3.5), "TypeError"),
    "drift": (ANY, bad_init("dynamics.drift_dyn_gen", Z), "TypeError"), "drift list": (ANY, bad_init("dynamics.drift_dyn_gen", [Z, Z, Z]), "TypeError"),
    "ctrls": (ANY, bad_init("dynamics.ctrl_dyn_gen", 3), "TypeError"), "ctrls list": (ANY, bad_init("dynamics.ctrl_dyn_gen", [Z]), "TypeError"),
    "ctrls array": (ANY, bad_init("dynamics.ctrl_dyn_gen", Z), "TypeError"), "initial": (ANY, bad_init("dynamics.initial", Z), "TypeError"),
    "target": (ANY, bad_init("dynamics.target", Z), "TypeError"), "oper_dtype": (ANY, bad_init("dynamics.oper_dtype", float), "ValueError"),
    "prop_computer": (ANY, bad_init("dynamics.prop_computer", None), "UsageError"), "fid_computer": (ANY, bad_init("dynamics.fid_computer", 3), "UsageError"),
    "tslot_computer": (ANY, bad_init("dynamics.tslot_computer", None), "UsageError"), "sparse": (
        lambda cfg: D.SY[D.CFG[cfg][0]].dim == 2, bad_init("dynamics.sparse_eigen_decomp", True), "ValueError"),
    "no conditions": (ANY, bad_run("termination_conditions", None), "UsageError"), "no dynamics": (ANY, bad_run("dynamics", 3), "UsageError"),
    "no goal": (ANY, bad_run("termination_conditions.fid_err_targ", None), "UsageError"), "computer": (
        lambda cfg: D.CFG[cfg][1] == "APPROX", bad_computer, "UsageError"),
    "crab": (ANY, bad_crab, "UsageError"), "file": (ANY, bad_file, "ValueError"), "pulse type": (ANY, bad_pulse, "ValueError"), "uninitialised": (ANY, bad_check, "UsageError"),
}
VALID = ["u1", "u2", "grad", "dump", "phase SU", "init"]


def refusals(case, col):
    cfg = case["cfg"]
    if not REFUSED[case["first"]][0](cfg):
        return
    names = [n for n in REFUSED if REFUSED[n][0](cfg)]
    for pre in VALID:
        for rest in itertools.product(names + VALID, repeat=case["depth"] - 2):
            refusal(cfg, (pre, case["first"]) + rest, col)


def valid(o, cfg, op):
    d = o.dynamics
    if op == "dump":
        d.dumping = "FULL"
        o.dumping = "SUMMARY"
    elif op == "phase SU":
        if UNIT(cfg):
            d.fid_computer.phase_option = "SU"
    else:
        do(cfg, d, op)


_PLAIN = {}


def plain(cfg, seq):
    if (cfg, seq) not in _PLAIN:
        o = make(cfg)
        for op in seq:
            valid(o, cfg, op)
        _PLAIN[cfg, seq] = settings(o), values(o.dynamics)
    return _PLAIN[cfg, seq]


def settings(o):
    x = B.attrs(o)
    d = o.dynamics
    x["more"] = [B.arr(v) if not isinstance(v, type) else v.__name__ for v in (
        d.phase_application, d.dump and d.dump.level, d.dump and d.dump.dump_any, o.dump and o.dump.level, d.unitarity_check_level, type(d.tslot_computer).__name__,
        d.sparse_eigen_decomp, o.method, o.alg)]
    return x


def refusal(cfg, seq, col):
    tag = "%s: %s" % (cfg, ", ".join(seq))
    o = make(cfg)
    for op in seq:
        if op in REFUSED:
            f, exc = REFUSED[op][1:]
            before = settings(o)
            try:
                f(o, cfg)
            except Exception as e:
                if not col.check(type(e).__name__ in exc.split(), "refused:%s" % op, "%s raised %r; %s" % (op, e, tag)):
                    return
            else:
                col.fail("refused:%s" % op, "%s was accepted; %s" % (op, tag))
                return
            r = B.same(settings(o), before)
            if not col.check(r is None, "refused:settings:%s" % op, "settings after / before %s differ at %s; %s" % (op, r, tag)):
                return
        else:
            valid(o, cfg, op)
        col.step()
    # initialisations repeat the amplitudes in force: no difference in values
    want = plain(cfg, tuple(x for x in seq if x in VALID))
    r = B.same(settings(o), want[0])
    col.check(r is None, "refused:settings", "settings differ at %s; %s" % (r, tag))
    try:
        v = values(o.dynamics)
        col.check(same(v, want[1]), "refused:values", "values differ from those without the refused requests; %s" % tag)
    except Exception as e:
        col.fail("refused:raised:%s" % type(e).__name__, "%r; %s" % (e, tag))
    col.execution()
    col.validated()
    col.state((cfg, seq))
    col.outcome((cfg, seq[1]))
