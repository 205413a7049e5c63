"""C16: parameter files set exactly what they name, with the type the attribute has."""
import itertools
import logging
import math
import os
import pathlib

import numpy as np
from qutip import Qobj

from .. import systems as S
from ..frozen import freeze
from ..fsfault import scratch
from ..script import Clock, Return, minimiser_patch, patched

META = dict(
    rule="(a) every value text of the alphabet into an attribute of every type, of a general object and of each object of the package; (b) every "
         "ordered choice of up to three assignments (valid, malformed, unknown name, absent section) with every set of objects to load into; "
         "(c) every ordered pair/triple of files; (d) files that cannot be read; all against a model of the file, everything not named "
         "compared before and after; (e) runs with loaded parameters against runs with the same attributes set",
    bounds=lambda tier: dict(texts=len(TEXTS), assignments=3 if tier == "quick" else 4, objects="all 2^6 sets", files=2 if tier == "quick" else 3),
    assumptions=["names of attributes are lower case (the file format ignores case)", "after a malformed value the rest of its section is not judged",
                 "texts with no clear reading for the type of the attribute (a truth value or list for a number) are not judged"],
)
TEXTS = ["0", "1", "-3", "+4", "2.5", "-0.0", "1e-3", "1E5", "inf", "1/4", "np.pi", "2*3", "True", "false", "YES", "no", "on", "Off", "abc", "", "None", "1+2j",
         "2j", "[1,2,3]", "[0.5, -1]", "[[0,1],[1,0]]", "(1, 2)", "a = b", "x y", "#5", "1.", ".5", "007", "1 2", "'q'"]
TYPES = ["float", "int", "bool", "str", "none", "complex", "list", "farr", "qobj", "npfloat", "npint", "npbool"]
BAD, SKIP = "bad", "skip"


def initial(t):
    return {"float": 0.75, "int": 7, "bool": True, "str": "orig", "none": None, "complex": 1 + 1j, "list": [9], "farr": np.array([9.0, 8.0]),
            "qobj": Qobj([[2, 0], [0, 3]]), "npfloat": np.float64(0.75), "npint": np.int64(7), "npbool": np.bool_(True)}[t]


def number(text):
    """(value) of an arithmetic text, or None"""
    try:
        return float(text)
    except ValueError:
        return {"1/4": 0.25, "1/2": 0.5, "np.pi": math.pi, "2*3": 6.0}.get(text)


def truth(text):
    return {"1": True, "yes": True, "true": True, "on": True, "0": False, "no": False, "false": False, "off": False}.get(text.lower())


def literal(text):
    return {"[1,2,3]": [1, 2, 3], "[0.5, -1]": [0.5, -1], "[[0,1],[1,0]]": [[0, 1], [1, 0]], "(1, 2)": [1, 2]}.get(text)


def expect(t, text):
    """('ok', value) | (BAD,) | (SKIP,)"""
    if t in ("float", "npfloat"):
        v = number(text)
        if v is not None:
            return "ok", v
        return (BAD,) if text in ("abc", "", "x y", "a = b", "1 2", "YES", "on", "Off", "false", "no") else (SKIP,)
    if t in ("int", "npint"):
        try:
            return "ok", int(text)
        except ValueError:
            return (BAD,)
    if t in ("bool", "npbool"):
        v = truth(text)
        return (BAD,) if v is None else ("ok", v)
    if t == "str":
        return "ok", text
    if t == "none":
        try:
            return "ok", float(text)
        except ValueError:
            v = truth(text)
            return "ok", text if v is None else v
    if t == "complex":
        try:
            return "ok", complex(text)
        except ValueError:
            return (BAD,)
    if t == "list":
        v = literal(text)
        if v is not None:
            return "ok", v
        return (SKIP,) if text == "'q'" else (BAD,)
    if t == "farr":
        v = literal(text)
        if v is not None:
            return "ok", np.array(v, dtype=float)
        return (BAD,) if text in ("abc", "", "x y", "a = b", "1 2", "YES", "on", "Off", "no", "false", "1+2j", "2j", "#5") else (SKIP,)
    if t == "qobj":
        v = literal(text)
        if v is not None and np.ndim(v) == 2:
            return "ok", Qobj(v)
        return (BAD,) if text in ("abc", "", "x y", "a = b", "1 2", "YES") else (SKIP,)


def agrees(t, got, want):
    if t == "farr":
        return isinstance(got, np.ndarray) and got.dtype == float and got.shape == want.shape and np.array_equal(got, want)
    if t == "qobj":
        return isinstance(got, Qobj) and got.shape == want.shape and np.array_equal(got.full(), want.full())
    if t == "list":
        return type(got) is list and len(got) == len(want) and all(a == b for a, b in zip(got, want))
    if t in ("int", "npint"):
        return isinstance(got, (int, np.integer)) and not isinstance(got, bool) and got == want
    if t in ("bool", "npbool"):
        return isinstance(got, (bool, np.bool_)) and bool(got) == want
    if t in ("float", "npfloat"):
        return isinstance(got, (float, int, np.floating)) and not isinstance(got, bool) and (got == want or abs(got - want) < 1e-15)
    if t == "complex":
        return isinstance(got, (complex, np.complexfloating)) and got == want
    if t == "str":
        return type(got) is str and got == want
    if isinstance(want, str) or isinstance(want, bool):
        return type(got) is type(want) and got == want

    return isinstance(got, (int, float)) and got == want


class Rec(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.WARNING)
        self.n = 0

    def emit(self, rec):
        self.n += 1

    def __enter__(self):
        self.lg = [v for v in logging.Logger.manager.loggerDict.values() if isinstance(v, logging.Logger)] + [logging.getLogger()]
        for lg in self.lg:
            lg.addHandler(self)
        return self

    def __exit__(self, *a):
        for lg in self.lg:
            lg.removeHandler(self)


class Thing:
    pass


SECT = {"config": "optimconfig", "term_conds": "termconds", "dynamics": "dynamics", "optim": "optimizer", "pulsegen": "pulsegen", "obj": "my section"}


def objects():
    import qutip_qtrl.dynamics as dy
    import qutip_qtrl.optimconfig as oc
    import qutip_qtrl.optimizer as op
    import qutip_qtrl.pulsegen as pg
    import qutip_qtrl.termcond as tc

    cfg = oc.OptimConfig()
    d = dy.DynamicsUnitary(cfg)
    o = op.OptimizerLBFGSB(cfg, d)
    t = Thing()
    for k in TYPES:
        setattr(t, k, initial(k))
    t.other = 5
    p = pg.create_pulse_gen("SINE")
    return {"config": cfg, "term_conds": tc.TerminationConditions(), "dynamics": d, "optim": o, "pulsegen": p, "obj": t}


def snap(objs):
    return {(k, n): freeze(v) for k, o in objs.items() for n, v in vars(o).items()}


def load(path, objs, given):
    """returns (raised, number of warnings)"""
    import qutip_qtrl.loadparams as lp

    kw = {k: objs[k] for k in given}
    if "obj" in given:
        kw["section"] = SECT["obj"]
    with Rec() as r:
        try:
            lp.load_parameters(path, **kw)
        except Exception as e:
            return e, r.n
    return None, r.n


def write(path, entries):
    """entries: (section, name, text) in order, grouped by section"""
    s = []
    for sec in dict.fromkeys(e[0] for e in entries):
        s.append("[%s]" % sec)
        for e in entries:
            if e[0] == sec and e[1] is not None:
                s.append("%s = %s" % (e[1], e[2]))
    with open(path, "w") as f:
        f.write("\n".join(s) + "\n")


def cases(tier):
    out = [dict(kind="text", type=t) for t in TYPES]
    for k in SECT:
        if k != "obj":
            out.append(dict(kind="real", obj=k))
    out += [dict(kind="real", obj=x) for x in ("pulsegen:" + t for t in ("LIN", "RNDWALK1", "GAUSSIAN", "GAUSSIAN_EDGE", "CRAB_FOURIER"))]
    out += [dict(kind="real", obj=x) for x in ("dynamics:GEN_MAT", "dynamics:SYMPL", "optim:Optimizer", "optim:OptimizerBFGS", "optim:OptimizerCrab",
                                               "optim:OptimizerCrabFmin")]
    n = len(ASSIGN)
    for a in range(n):
        out.append(dict(kind="multi", base=[a], given="all"))
        for b in range(n):
            if b != a:
                out.append(dict(kind="multi", base=[a, b], given="sets"))
                out.append(dict(kind="multi", base=[a, b], more=1 if tier == "quick" else 2, given="all"))
    for a in range(len(FILES)):
        for b in range(len(FILES)):
            out.append(dict(kind="files", base=[a, b], more=0))
            if tier != "quick":
                out.append(dict(kind="files", base=[a, b], more=1))
    for i in range(len(BROKEN)):
        out.append(dict(kind="broken", i=i))
    for i in range(len(E2E)):
        out.append(dict(kind="e2e", i=i))
    return out


def run_case(case, col):
    with scratch() as d:
        globals()["c_" + case["kind"]](case, col, os.path.join(d, "cwd", "p.ini"))


# ------------------------------------------------------------------ (a)
def c_text(case, col, path):
    t = case["type"]
    for text in TEXTS:
        for how in (str, pathlib.Path):
            write(path, [(SECT["obj"], t, text)])
            objs = objects()
            before = snap(objs)
            err, nw = load(how(path), objs, ["obj"])
            got = getattr(objs["obj"], t)
            e = expect(t, text)
            tag = "%r loaded into an attribute that is %r" % (text, initial(t))
            judge(e, t, got, objs, before, ("obj", t), err, nw, col, tag)
            col.execution()
            col.step()
            col.validated()
            col.state((t, text))
            col.outcome((t, e[0], repr(got)))


def judge(e, t, got, objs, before, key, err, nw, col, tag):
    after = snap(objs)
    if e[0] == "ok":
        col.check(err is None, "raised", "%r; %s" % (err, tag))
        col.check(agrees(t, got, e[1]), "value:%s" % t, "now %r (%s), expected %r; %s" % (got, type(got).__name__, e[1], tag))
    elif e[0] == BAD:
        col.check(err is not None or nw > 0, "unreported:%s" % t, "a malformed value was neither refused nor reported; " + tag)
        col.check(after.get(key) == before.get(key), "changed:%s" % t, "a malformed value changed the attribute to %r; %s" % (got, tag))
    others(before, after, [key], col, tag)


def others(before, after, keys, col, tag):
    for k in set(before) | set(after):
        if k not in keys and before.get(k) != after.get(k):
            col.fail("other", "%s.%s changed from %s to %s; %s" % (k[0], k[1], str(before.get(k))[:80], str(after.get(k))[:80], tag))


def c_real(case, col, path):
    """attributes of the package's own objects"""
    import qutip_qtrl.dynamics as dy
    import qutip_qtrl.optimizer as op
    import qutip_qtrl.pulsegen as pg

    def get():
        objs = objects()
        k, _, sub = case["obj"].partition(":")
        if sub:
            if k == "pulsegen":
                objs[k] = pg.create_pulse_gen(sub)
            elif k == "dynamics":
                objs[k] = {"GEN_MAT": dy.DynamicsGenMat, "SYMPL": dy.DynamicsSymplectic}[sub](objs["config"])
            else:
                objs[k] = getattr(op, sub)(objs["config"], objs["dynamics"])
        return k, objs

    k, objs = get()
    kind = {float: "float", int: "int", bool: "bool", str: "str", type(None): "none"}
    names = [(n, kind[type(v)]) for n, v in vars(objs[k]).items() if not n.startswith("_") and n == n.lower() and type(v) in kind]
    if len(names) < 5:
        col.fail("vacuous", "attributes %s" % names)
    for n, t in names:
        for text in TEXTS:
            if n in ("dump", "stats"):
                continue
            write(path, [(SECT[k], n, text)])
            k, objs = get()
            before = snap(objs)
            err, nw = load(path, objs, [k])
            judge(expect(t, text), t, getattr(objs[k], n), objs, before, (k, n), err, nw, col, "%s.%s = %s" % (case["obj"], n, text))
            col.execution()
            col.step()
            col.validated()
            col.state((case["obj"], n, text))
    for kk, n, text, want in PROPS:
        if kk != case["obj"]:
            continue
        write(path, [(SECT[k], n, text)])
        k, objs = get()
        keep = {x: getattr(o, "log_level") for x, o in objs.items() if hasattr(o, "log_level")}
        err, nw = load(path, objs, [k])
        got = getattr(objs[k], n)
        for x, v in keep.items():
            objs[x].log_level = v
        col.check(err is None and type(got) is type(want) and got == want, "property", "%s.%s = %s gives %r, expected %r (%r)" % (k, n, text, got, want, err))
        col.execution()
        col.step()
        col.state((case["obj"], n, text))
    col.outcome((case["obj"], len(names)))


PROPS = [("config", "log_level", "10", 10), ("optim", "log_level", "40", 40), ("optim", "dumping", "FULL", "FULL"), ("optim", "dumping", "summary", "SUMMARY"),
         ("dynamics", "dumping", "FULL", "FULL"), ("dynamics", "num_tslots", "4", 4), ("dynamics", "evo_time", "2.5", 2.5), ("dynamics", "evo_time", "3", 3.0),
         ("config", "prop_type", "FRECHET", "FRECHET"), ("config", "fid_type", "TRACEDIFF", "TRACEDIFF"), ("config", "dyn_type", "UNIT", "UNIT"),
         ("dynamics", "log_level", "20", 20), ("pulsegen", "log_level", "20", 20),
         ("config", "alg", "CRAB", "CRAB"), ("config", "optim_method", "FMIN_BFGS", "FMIN_BFGS")]

# ------------------------------------------------------------------ (b)
# (object, name, text, type or None if there is no such attribute)
ASSIGN = [
    ("config", "alg", "CRAB", "str"), ("config", "fid_type", "1", "str"), ("config", "nosuch", "1", None),
    ("term_conds", "fid_err_targ", "1e-3", "float"), ("term_conds", "max_wall_time", "abc", "float"), ("term_conds", "fid_goal", "0.5", "none"),
    ("dynamics", "memory_optimization", "1", "int"), ("dynamics", "time_depend_drift", "yes", "bool"), ("dynamics", "unitarity_tol", "1/4", "float"),
    ("optim", "amp_lbound", "-1", "none"), ("optim", "approx_grad", "maybe", "bool"), ("optim", "max_metric_corr", "20", "int"),
    ("pulsegen", "scaling", "0.25", "float"), ("pulsegen", "num_waves", "2", "none"),
    ("obj", "list", "[1,2,3]", "list"), ("obj", "qobj", "[[0,1],[1,0]]", "qobj"), ("obj", "int", "2.5", "int"),
    (None, "x", "1", None),
]


def c_multi(case, col, path):
    base = case["base"]
    more = case.get("more", 0)
    allk = list(SECT)
    pool = [i for i in range(len(ASSIGN)) if i not in base]
    for rest in itertools.permutations(pool, more):
        idx = base + list(rest)
        entries = [ASSIGN[i] for i in idx]
        write(path, [(SECT.get(e[0], "unrelated"), e[1], e[2]) for e in entries])
        sets = [allk] if case["given"] == "all" else [[k for b, k in enumerate(allk) if m >> b & 1] for m in range(2 ** len(allk))]
        for given in sets:
            objs = objects()
            before = snap(objs)
            err, nw = load(path, objs, given)
            tag = "%s loaded into %s" % ([("%s.%s" % e[:2], e[2]) for e in entries], given)
            verdict(entries, given, objs, before, err, nw, col, tag)
            col.execution()
            col.step(len(idx))
            col.validated()
        col.state(tuple(idx))
    col.outcome((case["given"], base))


def verdict(entries, given, objs, before, err, nw, col, tag):
    after = snap(objs)
    col.check(err is None, "raised", "%r; %s" % (err, tag))
    stopped, keys, odd = set(), [], 0
    for k, n, text, t in entries:
        if k not in given:
            continue
        keys.append((k, n))
        if k in stopped:
            continue
        if t is None:
            odd += 1
            col.check(not hasattr(objs[k], n) or (k, n) in before, "created", "%s.%s was created; %s" % (k, n, tag))
            continue
        e = expect(t, text)
        got = getattr(objs[k], n)
        if e[0] == BAD:
            odd += 1
            stopped.add(k)
            col.check(after.get((k, n)) == before.get((k, n)), "changed:%s" % t, "%s.%s is now %r; %s" % (k, n, got, tag))
        else:
            col.check(agrees(t, got, e[1]), "value:%s" % t, "%s.%s is %r, expected %r; %s" % (k, n, got, e[1], tag))
    absent = [k for k in given if k not in [e[0] for e in entries]]
    col.check(nw >= odd, "unreported", "%d warnings for %d values or names that cannot be set; %s" % (nw, odd, tag))
    others(before, after, keys, col, tag)


# ------------------------------------------------------------------ (c)
FILES = [
    [("config", "alg", "A", "str"), ("optim", "amp_lbound", "-2", "none")],
    [("config", "alg", "B", "str"), ("pulsegen", "freq", "3.5", "float")],
    [("optim", "amp_lbound", "-1.5", "none"), ("optim", "amp_ubound", "0", "none")],
    [("obj", "float", "2", "float"), ("obj", "str", "7", "str"), ("obj", "none", "x", "none")],
    [("obj", "none", "4", "none"), ("obj", "str", "other", "str"), ("obj", "list", "[0.5, -1]", "list")],
    [("dynamics", "unitarity_check_level", "1", "int"), ("obj", "farr", "[1,2,3]", "farr"), ("obj", "none", "yes", "none")],
]


def c_files(case, col, path):
    for rest in itertools.product(range(len(FILES)), repeat=case["more"]):
        seq = case["base"] + list(rest)
        objs = objects()
        before = snap(objs)
        want = {}
        for i in seq:
            write(path, [(SECT[e[0]], e[1], e[2]) for e in FILES[i]])
            err, nw = load(path, objs, list(SECT))
            col.check(err is None, "raised", "%r; files %s" % (err, seq))
            stopped = set()
            for k, n, text, t in FILES[i]:
                if k in stopped or (t == "none" and want.get((k, n), [0])[0] == "skip"):
                    want[(k, n)] = ("skip", None)
                    continue
                if t == "none" and (k, n) in want:
                    # has a type now
                    old = want[(k, n)][1]
                    t = "str" if isinstance(old, str) else "bool" if isinstance(old, bool) else "num" if isinstance(old, float) else "none"
                e = ("ok", number(text)) if t == "num" and number(text) is not None else (SKIP,) if t == "num" else expect(t, text)
                if e[0] == "ok":
                    want[(k, n)] = (t, e[1])
                elif e[0] == BAD:
                    stopped.add(k)
                else:
                    want[(k, n)] = ("skip", None)
            for (k, n), (t, v) in want.items():
                if t == "skip":
                    continue
                got = getattr(objs[k], n)
                if t == "num":
                    ok = not isinstance(got, (bool, str)) and got == v
                else:
                    ok = agrees(t, got, v)
                col.check(ok, "order", "%s.%s is %r, expected %r after the files %s" % (k, n, got, v, seq))
            col.step()
        others(before, snap(objs), list(want), col, "files %s" % seq)
        col.execution()
        col.validated()
        col.state(tuple(seq))
        col.outcome(sorted(map(str, want.items())))


# ------------------------------------------------------------------ (d)
BROKEN = [("missing", None), ("directory", None), ("noheader", "alg = CRAB\n"), ("twice", "[optimconfig]\nalg = A\nalg = B\n"),
          ("section twice", "[optimconfig]\nalg = A\n[optimconfig]\nalg = B\n"), ("syntax", "[optimconfig]\nalg\n"), ("open bracket", "[optimconfig\nalg = A\n"),
          ("empty", ""), ("only comments", "# alg = A\n; x\n"), ("comment", "[optimconfig]\n# alg = A\nfid_type = X\n")]


def c_broken(case, col, path):
    what, text = BROKEN[case["i"]]
    if what == "directory":
        os.mkdir(path)
    elif text is not None:
        with open(path, "w") as f:
            f.write(text)
    for given in (["config"], list(SECT)):
        objs = objects()
        before = snap(objs)
        err, nw = load(path, objs, given)
        if what in ("missing", "directory"):
            col.check(isinstance(err, ValueError), "missing", "%r for a file that is %s" % (err, what))
        elif what in ("empty", "only comments"):
            col.check(err is None and nw > 0 or err is not None, "empty", "%r, %d warnings for a file that is %s" % (err, nw, what))
        elif what != "comment":
            col.check(err is not None, "broken", "no error for a file with %s" % what)
        if what == "comment":
            col.check(objs["config"].alg == "GRAPE" and objs["config"].fid_type == "X", "comment", "alg %r, fid_type %r" % (objs["config"].alg, objs["config"].fid_type))
        else:
            others(before, snap(objs), [], col, "file %s" % what)
        col.execution()
        col.step()
    col.validated()
    col.state(what)
    col.outcome(what)


# ------------------------------------------------------------------ (e) loaded parameters at work
E2E = [
    [("optim", "amp_lbound", "-0.5"), ("optim", "amp_ubound", "0")],
    [("optim", "amp_lbound", "0"), ("optim", "amp_ubound", "1.5")],
    [("term_conds", "max_iterations", "7"), ("term_conds", "min_gradient_norm", "1e-3")],
    [("dynamics", "num_tslots", "3"), ("dynamics", "evo_time", "2")],
    [("dynamics", "initial_ctrl_scaling", "0.5"), ("dynamics", "initial_ctrl_offset", "0.25")],
    [("pulsegen", "scaling", "0.5"), ("pulsegen", "offset", "0.125"), ("pulsegen", "start_phase", "1/2")],
    [("pulsegen", "num_waves", "2")],
    [("pulsegen", "lbound", "-0.25"), ("pulsegen", "ubound", "0.5")],
    [("optim", "max_metric_corr", "4"), ("term_conds", "max_fid_func_calls", "9")],
    [("config", "amp_lbound", "0"), ("config", "amp_ubound", "0.5")],
    [("config", "amp_lbound", "-0.5"), ("config", "amp_ubound", "0")],
]


def c_e2e(case, col, path):
    entries = E2E[case["i"]]
    write(path, [(SECT[e[0]], e[1], e[2]) for e in entries])
    a, b = full_run(path, entries, True), full_run(path, entries, False)
    col.check(a == b, "effect", "loading %s gives %s, setting the attributes %s" % (entries, a, b))
    if entries[0][0] == "config":
        w = [(float(entries[0][2]), float(entries[1][2]))] * 8
        col.check(a["bounds"] == str(w), "bounds", "limits %s of the configuration: minimiser told %s" % (entries, a["bounds"]))
    col.execution(2)
    col.step(2)
    col.validated()
    col.state(case["i"])
    col.outcome(sorted(a.items()))


def full_run(path, entries, use_file):
    import qutip_qtrl.dynamics as dy
    import qutip_qtrl.loadparams as lp
    import qutip_qtrl.optimconfig as oc
    import qutip_qtrl.optimizer as op
    import qutip_qtrl.pulsegen as pg
    import qutip_qtrl.termcond as tc

    def prep(k, o):
        for kk, n, text in entries:
            if kk == "config" and k == "config":
                setattr(o, n, None)  # (limits are not attributes of a new configuration)
            if kk == k and not use_file:
                v = number(text)
                if n in ("num_tslots", "max_metric_corr"):
                    v = int(v)
                setattr(o, n, v)
        if use_file:
            lp.load_parameters(path, **{k: o})
        return o

    s = S.SYSTEMS["u_z_xy"]
    cfg = prep("config", oc.OptimConfig())
    d = dy.DynamicsUnitary(cfg)
    d.drift_dyn_gen, d.ctrl_dyn_gen, d.initial, d.target = s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target)
    d.num_tslots, d.evo_time = 4, 1.5
    prep("dynamics", d)
    d.init_timeslots()
    t = prep("term_conds", tc.TerminationConditions())
    o = prep("optim", op.OptimizerLBFGSB(cfg, d))
    o.termination_conditions = t
    p = pg.create_pulse_gen("SINE", dyn=d)
    prep("pulsegen", p)
    p.init_pulse()
    amps = np.array([p.gen_pulse(), p.gen_pulse()]).T
    d.initialize_controls(amps)
    calls = []

    def handler(call):
        calls.append(call)
        call.fun(call.x0)
        return Return("converged", call.x0, 0.5, nit=1, nfev=1, grad=np.zeros(len(call.x0)))

    m = minimiser_patch(handler)
    m.update(Clock().mapping())
    with patched(m):
        r = o.run_optimization()
    c = calls[0]
    return dict(bounds=str([(float(a) if a is not None else None, float(b) if b is not None else None) for a, b in c.opt("bounds")] if c.opt("bounds") else None),
                opts=str({k: c.opt(k) for k in ("maxiter", "maxfev", "gtol", "maxcor")}), x0=str(c.x0.tolist()), amps=str(r.final_amps.tolist()), err=repr(r.fid_err),
                time=str(np.asarray(r.time).tolist()))
