"""C17: saved control amplitudes read back as what was saved."""
import itertools
import logging
import os

import numpy as np

from .. import systems as S
from ..frozen import freeze
from ..fsfault import Faults, scratch, tree
from ..script import Chooser, Clock, Draws, Return, explore, minimiser_patch, patched
from .c14 import ErrLog

META = dict(
    rule="(a) every shape, slot division, value pattern, times option, explicit or current amplitudes, file name form: the file parsed and compared, "
         "the system compared before and after; (b) every sequence of updates, runs and saves up to the depth; (c) every entry point with a file "
         "extension, under every sequence of minimiser actions up to the depth, log level and way of ending: initial and final file against the "
         "result; (d) every file operation of a save or of an optimisation made to fail, singly and in pairs, and obstacles",
    bounds=lambda tier: dict(slots="1-4", controls="1-3", depth_ops=4 if tier == "quick" else 5, depth_run=2 if tier == "quick" else 3, faults="1 and 2 at every operation"),
    assumptions=["stored precision is six significant digits"],
)
PATS = {"zero": lambda n: np.zeros(n), "dist": lambda n: 0.35 + 0.2345678 * np.arange(n), "neg": lambda n: -1.234567891 * (1 + np.arange(n)),
        "tiny": lambda n: 1.234567e-12 * (1 + np.arange(n)), "huge": lambda n: 9.87654321e11 * (1 + np.arange(n)) * (-1) ** np.arange(n),
        "mixed": lambda n: np.array([[0.0, -2.5e-7, 123456.789, 1e20, -1.0][i % 5] for i in range(n)]), "ints": lambda n: np.arange(n) - 1.0}
TAUS = {1: [[0.7]], 2: [[0.5, 0.5], [0.3, 0.9]], 3: [[0.4] * 3, [0.1, 0.5, 0.25]], 4: [[0.2, 0.7, 0.1, 1.3]]}
CTRL = {1: "u_z_x", 2: "u_z_xy", 3: "u_zx_xyz"}


def cases(tier):
    out = []
    for nt in TAUS:
        for i in range(len(TAUS[nt])):
            for nc in CTRL:
                out.append(dict(kind="save", nt=nt, i=i, nc=nc))
    for a in range(len(OPS)):
        for b in range(len(OPS)):
            out.append(dict(kind="ops", base=[a, b], depth=4 if tier == "quick" else 5))
    for e in range(len(ENTRY)):
        for lv in (None, 20, 10, 5):
            for a in range(5):
                out.append(dict(kind="run", e=e, lv=lv, base=[a], depth=2 if tier == "quick" else 3))
    for e in range(len(ENTRY)):
        for part in range(8):
            out.append(dict(kind="fault", e=e, part=part, of=8))
    out.append(dict(kind="savefault"))
    out.append(dict(kind="obst"))
    return out


def run_case(case, col):
    k = case["kind"]
    if k == "run":
        explore(lambda ch: run(case, ch, col), case["base"])
    else:
        globals()["c_" + k](case, col)


# ------------------------------------------------------------------ reading
def parse(text):
    """the rows of a saved file"""
    lines = text.split("\n")
    if lines[-1] != "":
        raise ValueError("no end of line at the end")
    return [[float(x) for x in ln.split("\t")] for ln in lines[:-1]]


def check_file(path, times, amps, col, sig, tag):
    if not os.path.isfile(path):
        col.fail(sig + ":missing", "no file %s; %s" % (os.path.basename(path), tag))
        return
    try:
        rows = parse(open(path).read())
    except ValueError as e:
        col.fail(sig + ":format", "%s; %s" % (e, tag))
        return
    want = [([t] if t is not None else []) + list(a) for t, a in zip(times if times is not None else [None] * len(amps), amps)]
    ok = len(rows) == len(want) and all(len(r) == len(w) and all(abs(x - y) <= 5.1e-6 * abs(y) for x, y in zip(r, w)) for r, w in zip(rows, want))
    ok or col.fail(sig + ":content", "file holds %s, expected %s; %s" % (rows, want, tag))


def dynamics(nt, i, nc):
    s = S.SYSTEMS[CTRL[nc]]
    o = S.make_optim(s, TAUS[nt][i])
    d = o.dynamics
    d.init_timeslots()
    return o, d


def starts(tau):
    return [float(sum(tau[:k])) for k in range(len(tau))]


def state(d):
    return {k: freeze(v) for k, v in vars(d).items()}


# ------------------------------------------------------------------ (a)
def c_save(case, col):
    nt, nc = case["nt"], case["nc"]
    tau = TAUS[nt][case["i"]]
    st = starts(tau)
    other = [10.0 * k + 0.125 for k in range(nt)]
    for pat, times, given, name, verb in itertools.product(PATS, ("none", "list", "array", "tuple", "exclude", "EXCLUDE", "bogus"), (False, True),
                                                           ("default", "changed", "given", "abs"), (False, True)):
        with scratch() as dr:
            o, d = dynamics(nt, case["i"], nc)
            A = PATS[pat](nt * nc).reshape(nt, nc)
            B = A[::-1, ::-1] * 1.5 + 0.25
            d.initialize_controls(A.copy())
            if verb:
                d.fid_computer.get_fid_err()
            fn = {"default": "ctrl_amps.txt", "changed": "other.dat", "given": "x y.txt", "abs": os.path.join(dr, "out", "f")}[name]
            if name == "changed":
                d.def_amps_fname = fn
            tv = {"none": None, "list": other, "array": np.array(other), "tuple": tuple(other)}.get(times, times)
            kw = dict(verbose=verb)
            if times != "none":
                kw["times"] = tv
            if given:
                kw["amps"] = B
            if name in ("given", "abs"):
                kw["file_name"] = fn
            before, fa = state(d), (freeze(B), freeze(tv))
            r = d.save_amps(**kw)
            tag = "%d slots, %d controls, %s amplitudes, times %r, explicit amplitudes %s, name %s" % (nt, nc, pat, times, given, fn)
            after = state(d)
            for k in set(before) | set(after):
                col.check(before.get(k) == after.get(k), "disturbed", "saving changed %s; %s" % (k, tag))
            col.check(fa == (freeze(B), freeze(tv)), "disturbed", "saving changed what it was given; " + tag)
            want_t = None if times.lower() == "exclude" else st if times in ("none", "bogus") else other
            check_file(fn, want_t, B if given else A, col, "save", tag)
            t = [k for k, v in tree(dr).items() if v is not None]
            col.check(len(t) == 1, "files", "files %s; %s" % (t, tag))
            col.execution()
            col.step()
            col.validated()
            col.state((nt, case["i"], nc, pat, times, given, name))
            col.outcome((nt, nc, want_t is None, given, name))


# ------------------------------------------------------------------ (b)
OPS = ["A", "B", "run", "save", "save2", "exclude", "given", "reinit", "restore"]


def c_ops(case, col):
    for rest in itertools.product(range(len(OPS)), repeat=case["depth"] - 2):
        one([OPS[x] for x in case["base"] + list(rest)], col)


def one(seq, col):
    with scratch() as dr:
        s = S.SYSTEMS["u_z_xy"]
        tau = [0.3, 0.9]
        o = S.make_optim(s, tau)
        d = o.dynamics
        d.init_timeslots()
        V = {"A": np.array([[0.1, 0.2], [0.3, 0.4]]), "B": np.array([[-1.5, 2.5], [0.0, 7.25]])}
        cur = V["A"] * 3
        d.initialize_controls(cur.copy())
        model, n = {}, 0
        kept = cur.copy()
        for k, op in enumerate(seq):
            n += 1
            f = "f%d" % n
            if op in V:
                d.update_ctrl_amps(V[op].copy())
                cur = V[op]
            elif op == "run":
                x = np.array([0.7, -0.7, 0.25, 1.0]) * n

                def handler(call):
                    call.fun(x.copy())
                    return Return("converged", x, 0.5, nit=1, nfev=1)

                m = minimiser_patch(handler)
                m.update(Clock().mapping())
                with patched(m):
                    o.run_optimization()
                cur = x.reshape(2, 2)
            elif op == "save":
                d.save_amps(f)
                model[f] = (starts(tau), cur.copy())
            elif op == "save2":
                d.save_amps()
                model["ctrl_amps.txt"] = (starts(tau), cur.copy())
            elif op == "exclude":
                d.save_amps(f, times="exclude")
                model[f] = (None, cur.copy())
            elif op == "given":
                d.save_amps(f, amps=kept * 2)
                model[f] = (starts(tau), kept * 2)
            elif op == "reinit":
                tau = [0.25 * n, 0.5]
                d.tau = np.array(tau)
                d.init_timeslots()
                d.initialize_controls(cur.copy())
            elif op == "restore":
                d.update_ctrl_amps(kept.copy())
                cur = kept.copy()
            col.step()
        tag = "after %s" % seq
        t = {k: v for k, v in tree("." ).items() if v is not None}
        col.check(set(t) == set(model), "files", "files %s, expected %s; %s" % (sorted(t), sorted(model), tag))
        for f, (tm, a) in model.items():
            check_file(f, tm, a, col, "ops", "%s %s" % (f, tag))
        col.check(np.array_equal(d.ctrl_amps, cur), "disturbed", "amplitudes %s, expected %s; %s" % (d.ctrl_amps.tolist(), cur.tolist(), tag))
        col.execution()
        col.validated()
        col.state(tuple(seq))
        col.outcome(sorted(map(str, model.items())))


# ------------------------------------------------------------------ (c)
ENTRY = [("optimize_pulse", "u_z_xy", {}), ("optimize_pulse", "u_z_xy", dict(optim_method="FMIN_L_BFGS_B", amp_lbound=-2.0, amp_ubound=2.0)),
         ("optimize_pulse", "g_c", dict(dyn_type="GEN_MAT", optim_method="BFGS")), ("optimize_pulse_unitary", "u_zx_xyz", {}),
         ("optimize_pulse_unitary", "u_z_xy", dict(optim_method="FMIN_BFGS")),
         ("optimize_pulse_unitary", "u_z_xy+tc", {}),
         ("opt_pulse_crab", "g_c", dict(dyn_type="GEN_MAT", num_coeffs=1)), ("opt_pulse_crab_unitary", "u_z_xy", dict(num_coeffs=1))]
TAU = [0.25, 0.5, 0.4]


def entry(e, ext, lv, handler):
    import qutip_qtrl.pulseoptim as po

    name, sn, kw = ENTRY[e]
    s = S.SYSTEMS[sn.split("+")[0]]
    if "+" in sn:
        s = s.with_time(0, 1, len(TAU))
    kw = dict(kw, tau=np.array(TAU), fid_err_targ=1e-30, max_iter=3, max_wall_time=5.0)
    if name.startswith("optimize"):
        kw["init_pulse_type"] = "LIN"
    if lv is not None:
        kw["log_level"] = lv
    if ext is not None:
        kw["out_file_ext"] = ext
    clock = Clock()
    m = minimiser_patch(lambda call: handler(call, clock))
    m.update(clock.mapping())
    m.update(Draws().mapping())
    with patched(m):
        return getattr(po, name)(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), **kw)


def actor(ch, depth):
    def handler(call, clock):
        n = len(call.x0)
        P = [0.3 * np.cos(np.arange(n) + i) for i in range(2)]
        x, cb = call.x0.copy(), False
        for i in range(depth + 1):
            A = ["E0", "E1"] + (["G"] if call.jac is not None else []) + ["C", "W", "R"]
            a = A[ch.choose(len(A))]
            if a[0] == "E":
                x = P[int(a[1])]
                call.fun(x.copy())
            elif a == "G":
                call.jac(x.copy())
            elif a in "CW":
                if a == "W":
                    clock.t += 50.0
                call.callback(x.copy())
            else:
                break
        return Return(["converged", "maxiter"][ch.choose(2)], P[ch.choose(2)], 0.5, nit=1, nfev=1, grad=np.zeros(n))

    return handler


def run(case, ch, col):
    with scratch() as dr:
        lv = restore_levels()
        r = entry(case["e"], "p.txt", case["lv"], actor(ch, case["depth"]))
        tag = "%s log level %s actions %s" % (ENTRY[case["e"]], case["lv"], [c for c, _ in ch.trace])
        check_pair(r, col, tag)
        t = sorted(k for k, v in tree(dr).items() if v is not None)
        col.check(t == ["cwd/ctrl_amps_final_p.txt", "cwd/ctrl_amps_initial_p.txt"], "files", "files %s; %s" % (t, tag))
        r2 = None
        if case["lv"] is None:
            with scratch() as d2:
                r2 = entry(case["e"], None, None, actor(Chooser([c for c, _ in ch.trace]), case["depth"]))
                col.check(not any(v is not None for v in tree(d2).values()), "unasked", "files %s without an extension; %s" % (sorted(tree(d2)), tag))
                col.check(same(r, r2), "effect", "saving changed the result; " + tag)
        lv()
    col.execution()
    col.step(len(ch.trace))
    col.validated()
    col.state((case["e"], case["lv"], tuple(ch.trace)))
    col.outcome((case["e"], r.termination_reason))


def check_pair(r, col, tag):
    check_file("ctrl_amps_initial_p.txt", starts(TAU), r.initial_amps, col, "initial", tag)
    check_file("ctrl_amps_final_p.txt", starts(TAU), r.final_amps, col, "final", tag)


def same(a, b):
    return np.array_equal(a.final_amps, b.final_amps) and np.array_equal(a.initial_amps, b.initial_amps) and a.fid_err == b.fid_err and (
        a.termination_reason == b.termination_reason and a.num_fid_func_calls == b.num_fid_func_calls)


def restore_levels():
    lg = {v: v.level for v in logging.Logger.manager.loggerDict.values() if isinstance(v, logging.Logger)}

    def back():
        for k, v in lg.items():
            k.setLevel(v)

    return back


# ------------------------------------------------------------------ (d)
def fixed(call, clock):
    n = len(call.x0)
    x = 0.3 * np.cos(np.arange(n))
    call.fun(x.copy())
    call.callback(x.copy())
    return Return("converged", x, 0.5, nit=1, nfev=1, grad=np.zeros(n))


class Logs:
    def __enter__(self):
        self.h = ErrLog()
        self.lg = [v for v in logging.Logger.manager.loggerDict.values() if isinstance(v, logging.Logger)] + [logging.getLogger()]
        for lg in self.lg:
            lg.addHandler(self.h)
        return self.h

    def __exit__(self, *a):
        for lg in self.lg:
            lg.removeHandler(self.h)


def c_fault(case, col):
    e = case["e"]
    with scratch() as d:
        with Faults(d) as f:
            ref = entry(e, "p.txt", None, fixed)
        n, ops = f.count, f.ops
    if not col.check(n >= 6 and "w" in ops, "vacuous", "operations %r" % ops):
        return
    todo = [[(i, k)] for i in range(n) for k in range(3)] + [[(i, a), (j, b)] for i in range(n) for j in range(i + 1, n) for a in (0, 1) for b in (0, 1)]
    for faults in todo[case["part"]:: case["of"]]:
        tag = "%s with faults %s of %r" % (ENTRY[e], faults, ops)
        with scratch() as d, Logs() as h:
            with Faults(d, faults) as f:
                r = entry(e, "p.txt", None, fixed)
            col.check(same(r, ref), "result", "result changed; " + tag)
            if f.hits:
                col.check(h.msgs, "silent", "no error reported; " + tag)
            # a file whose operations did not fail is as it should be; with one fault only one of the two can be affected
            ok = 0
            for nm, a in (("initial", r.initial_amps), ("final", r.final_amps)):
                p = "ctrl_amps_%s_p.txt" % nm
                try:
                    rows = parse(open(p).read())
                    want = [[t] + list(x) for t, x in zip(starts(TAU), a)]
                    ok += np.shape(rows) == np.shape(want) and np.allclose(rows, want, rtol=6e-6)
                except (OSError, ValueError):
                    pass
            if f.hits == 0 or (len(faults) == 1 and faults[0][1] != 2):
                col.check(ok >= (2 if f.hits == 0 else 1), "other", "%d good files; %s" % (ok, tag))
        col.execution()
        col.step(f.count)
        col.validated()
        col.n["faults"] += f.hits
        col.state((e, tuple(faults)))
        col.outcome((e, ok, f.hits))


def c_savefault(case, col):
    for nt, nc in itertools.product(TAUS, CTRL):
        for times in (None, "exclude"):
            i = 0
            while True:
                stop = False
                for kind in (0, 1, 2):
                    with scratch() as dr, Logs() as h:
                        o, d = dynamics(nt, 0, nc)
                        A = PATS["dist"](nt * nc).reshape(nt, nc)
                        d.initialize_controls(A.copy())
                        e0 = d.fid_computer.get_fid_err()
                        before = state(d)
                        tag = "%d slots, %d controls, fault %d of kind %d" % (nt, nc, i, kind)
                        with Faults(dr, [(i, kind)]) as f:
                            d.save_amps(times=times)
                        if f.hits:
                            col.check(h.msgs, "silent", "no error reported; " + tag)
                        after = state(d)
                        for k in set(before) | set(after):
                            col.check(before.get(k) == after.get(k), "disturbed", "the failed save changed %s; %s" % (k, tag))
                        col.check(d.fid_computer.get_fid_err() == e0, "disturbed", "fidelity changed; " + tag)
                        d.save_amps(times=times)
                        check_file("ctrl_amps.txt", None if times else starts(TAUS[nt][0]), A, col, "later", tag)
                        stop = stop or i >= f.count
                        col.execution()
                        col.step()
                        col.n["faults"] += f.hits
                        col.state((nt, nc, times, i, kind))
                if stop:
                    break
                i += 1
            col.validated()
            col.check(i > 2, "vacuous", "%d operations" % i)
            col.outcome((nt, nc, times, i))


def c_obst(case, col):
    for e in range(len(ENTRY)):
        for what in ("initial", "final", "both", "nodir"):
            with scratch() as d, Logs() as h:
                ref = entry(e, "p.txt", None, fixed)
                ext = "p.txt"
                for nm in ("initial", "final"):
                    if what == "nodir":
                        os.remove("ctrl_amps_%s_p.txt" % nm)
                        ext = "x/p.txt"
                    elif what in (nm, "both"):
                        os.remove("ctrl_amps_%s_p.txt" % nm)
                        os.mkdir("ctrl_amps_%s_p.txt" % nm)
                n = len(h.msgs)
                col.check(n == 0, "noise", "errors %s reported without a fault" % h.msgs)
                r = entry(e, ext, None, fixed)
                tag = "%s with %s file obstructed" % (ENTRY[e], what)
                col.check(same(r, ref), "result", "result changed; " + tag)
                col.check(len(h.msgs) >= (2 if what in ("both", "nodir") else 1), "silent", "errors reported: %s; %s" % (h.msgs, tag))
                for nm, a in (("initial", r.initial_amps), ("final", r.final_amps)):
                    if what in ("initial", "final") and what != nm:
                        check_file("ctrl_amps_%s_p.txt" % nm, starts(TAU), a, col, "other", tag)
            col.execution(2)
            col.step(2)
            col.validated()
            col.state((e, what))
            col.outcome((e, what))
