"""C14: dump files hold exactly what is recorded, and file faults never cost the optimisation."""
import itertools
import logging
import os
import re

import numpy as np
from qutip import Qobj

from .. import runs as R
from ..fsfault import Faults, scratch, tree
from ..script import Clock, Return, minimiser_patch, patched
from .c13 import DSW, ITEM, OSW, arr_any

META = dict(
    rule="(a) every combination of the dump switches, separators, names and write-out forms on fixed runs of several optimisers: every file parsed and "
         "compared with the recorded values; (b) every sequence of evaluations, name/directory/separator changes, clearing and write-outs up to the "
         "depth, the complete directory tree compared with a model of it; (c) in a history of two runs and two write-outs every file operation "
         "(mkdir, open, write, close, in the C library) made to fail - refused, torn, or everything from then on - singly and in pairs, and every "
         "obstacle in the place of a directory or file; another process creating the directory, or part of its path, first; "
         "(d) the dumps of optimiser and dynamics writing into one, nested or the default directory: nothing overwritten",
    bounds=lambda tier: dict(depth=3 if tier == "quick" else 4, switches="all 2^4 and 2^8", faults="1 at every operation and kind" + (
        "; pairs in the summary-level history" if tier == "quick" else "; pairs in every history")),
    assumptions=["names are changed before the first interactive output or followed by a write-out",
                 "after a failed write during the run, files are judged again from the next write-out on"],
)
SEPS = [" ", ",", ";", "\t"]
CFG = ["lbfgs", "lbfgs_g", "lbfgs_q", "gen_approx", "crab_fmin"]


def cases(tier):
    out = []
    for c in CFG:
        for i in range(16):
            out.append(dict(kind="osw", config=c, i=i))
        for i in range(0, 256, 4):
            out.append(dict(kind="dsw", config=c, i=i))
    for c in ("lbfgs", "lbfgs_g", "lbfgs_q"):
        for n in (0, 1, 2):
            for s in range(len(SEPS)):
                out.append(dict(kind="form", config=c, n=n, sep=s))
    depth = 3 if tier == "quick" else 4
    for who in ("o", "d"):
        for a in range(len(OPS)):
            for b in range(len(OPS)):
                out.append(dict(kind="ops", who=who, base=[a, b], depth=depth))
    for i in range(len(HIST)):
        for k in range(3):
            for part in range(8):
                out.append(dict(kind="fault", hist=i, k=k, part=part, of=8))
        if HIST[i][3] or tier != "quick":
            for part in range(64):
                out.append(dict(kind="pair", hist=i, part=part, of=64))
    for i in range(len(OBST)):
        out.append(dict(kind="obst", i=i))
    out.append(dict(kind="race"))
    for c in CFG:
        for live in range(4):
            out.append(dict(kind="both", config=c, live=live))
    return out


def run_case(case, col):
    k = case["kind"]
    if k in ("osw", "dsw"):
        switches(case, col)
    elif k == "form":
        forms(case, col)
    elif k == "ops":
        for rest in itertools.product(range(len(OPS)), repeat=case["depth"] - 2):
            ops(case["who"], [OPS[x] for x in case["base"] + list(rest)], col)
    elif k == "fault":
        for i in range(case["part"], hist_ops(case["hist"]), case["of"]):
            fault(case["hist"], [(i, case["k"])], col)
    elif k == "pair":
        n = hist_ops(case["hist"])
        pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
        for a, b in pairs[case["part"]:: case["of"]]:
            for ka, kb in ((0, 0), (1, 0)):
                fault(case["hist"], [(a, ka), (b, kb)], col)
    elif k == "race":
        races(col)
    elif k == "both":
        both(case, col)
    else:
        obstacle(case["i"], col)


# ------------------------------------------------------------------ a run with a fixed sequence of evaluations
def play(o, n, log=None):
    """one run of the optimiser: n iterations of error, gradient, callback, then a normal return"""
    def handler(call):
        P = R.points_n(o)
        for i in range(n):
            x = P[i].copy()
            call.fun(x)
            if call.jac is not None and o.alg != "CRAB" and not o.approx_grad:
                call.jac(x)
            call.callback(x)
        return Return("converged", P[0] if n == 0 else P[n - 1], 0.5, nit=n, nfev=n)

    m = minimiser_patch(handler)
    m.update(Clock().mapping())
    with patched(m):
        return o.run_optimization()


def points_n(o):
    x0 = R.Points.x0(o)
    k = np.arange(len(x0))
    return [0.4 * np.cos(1.3 * k + 0.5 * i) + 0.13 * i for i in range(4)]


R.points_n = points_n


def res_key(x):
    return repr((x.fid_err, x.final_amps.tolist(), x.termination_reason, x.num_iter, x.num_fid_func_calls, x.goal_achieved, x.initial_fid_err,
                 x.grad_norm_final, x.grad_norm_min_reached))


# ------------------------------------------------------------------ what the files must hold
# a file is a list of entries: ("H", word, ints), ("T", columns, rows), ("M", matrix, digits)
def matrix(a):
    if isinstance(a, Qobj):
        return a.full()
    return np.atleast_2d(np.asarray(a)) if np.ndim(a) != 1 else np.asarray(a).reshape(-1, 1)


ICOL = ["idx", "iter_num", "fid_func_call_num", "grad_func_call_num", "fid_err", "grad_norm", "wall_time"]
ECOL = ["idx", "evo_dump_idx", "iter_num", "fid_func_call_num", "grad_func_call_num", "num_amps_changed", "num_timeslots_changed",
        "wall_time_dyn_gen_compute", "wall_time_prop_compute", "wall_time_fwd_prop_compute", "wall_time_onwd_prop_compute"]


def table(cols, rows):
    return [("T", cols, [[getattr(r, c) for c in cols] for r in rows])] if rows else []


def vec(v):
    return [("M", matrix(v), 12)] if len(v) else []


def optim_parts(dp):
    """[(public name of the file, entries)] in the order of the single file"""
    out = []
    if dp.dump_summary:
        out.append(("summary", [], table(ICOL, dp.iter_summary)))
    if dp.dump_fid_err:
        out.append(("fid_err_log", [("H", "fidelity errors", ())], vec(dp.fid_err_log)))
    if dp.dump_grad_norm:
        out.append(("grad_norm_log", [("H", "norms", ())], vec(dp.grad_norm_log)))
    if dp.dump_grad:
        for i, g in enumerate(dp.grad_log):
            out.append(("fid_err_gradients%d" % (i + 1), [("H", "gradients", (i + 1,))], [("M", matrix(g), 12)]))
    return out


def item_parts(it):
    out = []
    if it.ctrl_amps is not None:
        out.append(("ctrl_amps", [("H", "amps", ())], [("M", matrix(it.ctrl_amps), 5)]))
    for name, title, word in (("dyn_gen", "dynamics gen", "generator"), ("prop", "propagators", "propagator"), ("prop_grad", "gradients", "gradient"),
                              ("fwd_evo", "forward", "evolution from 0 to"), ("onwd_evo", "onward", "to end"), ("onto_evo", "onto", "onto target")):
        v = getattr(it, name)
        if v is None:
            continue
        e = []
        if name == "prop_grad":
            for k in range(np.shape(v)[0]):
                for j in range(np.shape(v)[1]):
                    e += [("H", word, (k, j)), ("M", matrix(v[k, j]), 12)]
        else:
            for k, m in enumerate(v):
                e += [("H", word, (0, k) if name == "fwd_evo" else (k,)), ("M", matrix(m), 12)]
        out.append((name, [("H", title, ())], e))
    return out


def dyn_parts(dp, single):
    out = []
    if dp.dump_summary:
        out.append(("summary", [], table(ECOL, dp.evo_summary)))
    for i, it in enumerate(dp.evo_dumps):
        if single:
            out.append((None, [("H", "evolution computation", (it.idx,))], []))
        out += [(n if single else "evo%d-%s" % (it.idx, n), h, e) for n, h, e in item_parts(it)]
    return out


def is_optim(dp):
    return hasattr(dp, "fid_err_log")


def single_file(dp):
    e = []
    for n, h, x in (optim_parts(dp) if is_optim(dp) else dyn_parts(dp, True)):
        e += h + x
    return e


def files(dp):
    """{file name part: entries} of the type specific files"""
    return {n: e for n, h, e in (optim_parts(dp) if is_optim(dp) else dyn_parts(dp, False))}


NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?nan|[-+]?inf"
CPX = re.compile(r"^\(?\s*(%s)([+-](?:\d+\.?\d*)(?:[eE][-+]?\d+)?)j\s*\)?$" % NUM)


def value(t):
    t = t.strip().replace("+-", "-")
    m = CPX.match(t)
    if m:
        return complex(float(m.group(1)), float(m.group(2)))
    return float(t)


def columns(line, sep):
    if sep.strip():
        return [x.strip() for x in line.split(sep)]
    if sep == "\t":
        return [x.strip() for x in line.strip("\n").split("\t")]
    return re.sub(r"\(\s+", "(", line).split()


def compare(text, entries, dsep, ssep):
    """None, or what is wrong with the file"""
    lines = text.split("\n")
    if lines[-1] != "":
        return "no end of line at the end of the file: %r" % lines[-1][-40:]
    lines = lines[:-1]
    pos = 0
    for e in entries:
        if e[0] == "H":
            if pos >= len(lines):
                return "ends before the heading %r %s" % e[1:]
            ln = lines[pos]
            ints = tuple(int(x) for x in re.findall(r"\d+", ln))
            if e[1] not in ln.lower() or ints != e[2]:
                return "line %d is %r, expected the heading %r %s" % (pos + 1, ln[:80], e[1], e[2])
            pos += 1
        elif e[0] == "T":
            if len(lines) < pos + 1 + len(e[2]):
                return "%d lines left, expected a table of %d rows" % (len(lines) - pos, len(e[2]))
            h = columns(lines[pos], ssep)
            if h != e[1]:
                return "table columns %s, expected %s" % (h, e[1])
            for i, row in enumerate(e[2]):
                got = columns(lines[pos + 1 + i], ssep)
                if len(got) != len(row) or not all(cell(a, b) for a, b in zip(got, row)):
                    return "table row %d is %s, recorded %s" % (i, got, row)
            pos += 1 + len(e[2])
        else:
            a = e[1]
            for i, row in enumerate(a):
                if pos >= len(lines):
                    return "ends at row %d of %d of a matrix" % (i, len(a))
                got = columns(lines[pos], dsep) if len(row) > 1 else [lines[pos].strip()]
                try:
                    v = np.array([value(x) for x in got])
                except ValueError:
                    return "line %d is %r, expected the numbers %s" % (pos + 1, lines[pos][:80], row)
                if v.shape != row.shape or not np.allclose(v, row, rtol=10.0 ** -e[2], atol=1e-300):
                    return "line %d holds %s, recorded %s" % (pos + 1, v, row)
                pos += 1
    if pos != len(lines):
        return "%d further lines: %r" % (len(lines) - pos, lines[pos][:80])
    return None


def cell(text, v):
    if v is None:
        return text == "None"
    try:
        x = float(text)
    except ValueError:
        return False
    if isinstance(v, (int, np.integer)):
        return x == v
    return abs(x - v) <= 0.051 * abs(v) if abs(v) < 1 and "e" in text else abs(x - v) <= 0.051 * abs(v) + 1e-300


def expect_tree(dp, where=None):
    """{relative path: entries} for the files of a dump that writes into its directory"""
    return {n: e for n, e in files(dp).items()}


def check_dir(dp, d, base, ext, dsep, ssep, col, tag, allow=()):
    """directory d holds exactly the files of the dump"""
    t = tree(d)
    want = {"%s-%s.%s" % (base, n, ext): e for n, e in files(dp).items()}
    for n in t:
        if n not in want and n not in allow:
            col.fail("files", "unexpected file %r; %s" % (n, tag))
    for n, e in want.items():
        if n not in t:
            if e or not any(True for _ in e):
                if e:
                    col.fail("files", "no file %r among %s; %s" % (n, sorted(t), tag))
            continue
        w = compare(t[n], e, dsep, ssep)
        if w:
            col.fail("content:%s" % re.sub(r"\d+", "", n.split(".")[0].split("-", 1)[1]), "%s: %s; %s" % (n, w, tag))


def check_single(text, dp, col, tag):
    w = compare(text, single_file(dp), dp.data_sep, dp.summary_sep)
    if w:
        col.fail("single:%s" % type(dp).__name__, "%s; %s" % (w, tag))


# ------------------------------------------------------------------ (a) switches and forms
def subset(names, i):
    return [n for b, n in enumerate(names) if i >> b & 1]


def switches(case, col):
    names, attr = (OSW, "o") if case["kind"] == "osw" else (DSW, "d")
    for i in range(case["i"], case["i"] + (1 if attr == "o" else 4)):
        for live in (False, True):
            with scratch() as d:
                o = R.build(case["config"])
                h = o if attr == "o" else o.dynamics
                h.dumping = "FULL"
                h.dump_dir = os.path.join(d, "out", "a", "b")
                dp = h.dump
                on = subset(names, i)
                for n in names:
                    setattr(dp, n, n in on)
                h.dump_to_file = live
                if live and attr == "d":
                    dp.write_to_file = True
                tag = "%s, switches %s, %s" % (case["config"], on, "during the run" if live else "afterwards")
                play(o, 2)
                if not live:
                    col.check(not any(v is not None for v in tree(d).values()), "unasked", "files %s written; %s" % (sorted(tree(d)), tag))
                    dp.writeout()
                check_dir(dp, os.path.join(d, "out", "a", "b"), dp.fname_base, "txt", " ", " ", col, tag)
                f = os.path.join(d, "cwd", "all.dat")
                dp.writeout(f)
                check_single(open(f).read(), dp, col, tag + ", to a file name")
                with open(f, "wb") as fh:
                    dp.writeout(fh)
                    col.check(not fh.closed, "closed", "the stream given was closed; " + tag)
                check_single(open(f).read(), dp, col, tag + ", to a stream")
                col.check(not any(v is not None for k, v in tree(d).items() if k.startswith("home")), "elsewhere", "files in the home directory; " + tag)
                col.execution(3)
                col.step(3)
                col.validated(3)
                col.state((case["kind"], case["config"], i, live))
                col.outcome((case["kind"], case["config"], len(tree(d))))


def forms(case, col):
    ssep = dsep = SEPS[case["sep"]]
    for attr, base, ext, form, sumf in itertools.product("od", (None, "x.y"), (None, "dat"), ("live", "after", "item"), (None, "abs", "rel", "home")):
        if form == "item" and (attr == "o" or sumf or ext):
            continue
        with scratch() as d:
            o = R.build(case["config"])
            h = o if attr == "o" else o.dynamics
            h.dumping = "FULL"
            h.dump_dir = os.path.join(d, "out")
            dp = h.dump
            dp.summary_sep, dp.data_sep = ssep, dsep
            if base:
                dp.fname_base = base
            if ext:
                dp.dump_file_ext = ext
            sp = {None: None, "abs": os.path.join(d, "cwd", "s.txt"), "rel": "s.txt", "home": "~/s.txt"}[sumf]
            full = {None: None, "abs": sp, "rel": os.path.join(d, "out", "s.txt"), "home": os.path.join(d, "home", "s.txt")}[sumf]
            if sp:
                dp.summary_file = sp
                col.check(dp.summary_file == full, "summary_file", "%r set, now %r, expected %r" % (sp, dp.summary_file, full))
            if form == "live":
                h.dump_to_file = True
                dp.write_to_file = True
            tag = "%s %s, base %r, extension %r, separators %r, summary file %r, %s, %d iterations" % (case["config"], attr, base, ext, dsep, sp, form, case["n"])
            play(o, case["n"])
            if form == "item":
                for it in dp.evo_dumps:
                    f = os.path.join(d, "cwd", "item%d" % it.idx)
                    it.writeout(f)
                    e = []
                    for _, hd, x in item_parts(it):
                        e += hd + x
                    w = compare(open(f).read(), e, dsep, ssep)
                    col.check(not w, "item", "%s; %s" % (w, tag))
                    it.writeout()
                dp.dump_summary = False
            if form == "after":
                dp.writeout()
            b, x = base or dp.fname_base, ext or "txt"
            if full:
                rows = files(dp)["summary"]
                t = open(full).read() if os.path.exists(full) else None
                if t is None:
                    col.check(not rows, "files", "no summary file at %r; %s" % (full, tag))
                else:
                    w = compare(t, rows, dsep, ssep)
                    col.check(not w, "content:summary", "%s; %s" % (w, tag))
                dp.dump_summary = False
                check_dir(dp, os.path.join(d, "out"), b, x, dsep, ssep, col, tag, ["s.txt"] if sumf == "rel" else [])
                dp.dump_summary = True
            else:
                check_dir(dp, os.path.join(d, "out"), b, x, dsep, ssep, col, tag)
            f = os.path.join(d, "cwd", "all.dat")
            dp.writeout(f)
            check_single(open(f).read(), dp, col, tag + ", to a file name")
            col.execution()
            col.step(2)
            col.validated()
            col.state((case["config"], case["n"], case["sep"], attr, base, ext, form, sumf))
            col.outcome((attr, form, sumf, len(tree(d))))


# ------------------------------------------------------------------ (b) sequences
OPS = ["eval", "eval2", "write", "single", "base", "dir", "ext", "summary-abs", "summary-rel", "sep", "clear"]


def ops(who, seq, col):
    with scratch() as d:
        o = R.build("lbfgs")
        h = o if who == "o" else o.dynamics
        h.dumping = "FULL"
        h.dump_dir = os.path.join(d, "out")
        dp = h.dump
        model = {}          # path -> (entries, data separator, summary separator)
        cdir, base, ext, summ = os.path.join(d, "out"), dp.fname_base, "txt", None
        n = 0
        for k, op in enumerate(seq):
            tag = "%d of %s on the %s dump" % (k + 1, seq, "optimiser" if who == "o" else "dynamics")
            if op in ("eval", "eval2"):
                play(o, 1 if op == "eval" else 2)
            elif op == "write":
                dp.writeout()
                for nm, e in files(dp).items():
                    p = os.path.join(cdir, "%s-%s.%s" % (base, nm, ext)) if nm != "summary" or summ is None else summ
                    model[p] = (e, dp.data_sep, dp.summary_sep)
            elif op == "single":
                p = os.path.join(d, "cwd", "single%d" % n)
                dp.writeout(p)
                model[p] = (single_file(dp), dp.data_sep, dp.summary_sep)
            elif op == "base":
                n += 1
                base = "base%d" % n
                dp.fname_base = base
            elif op == "dir":
                n += 1
                cdir = os.path.join(d, "out%d" % n, "x")
                h.dump_dir = cdir
            elif op == "ext":
                n += 1
                ext = "e%d" % n
                dp.dump_file_ext = ext
            elif op == "summary-abs":
                n += 1
                summ = os.path.join(d, "cwd", "s%d" % n)
                dp.summary_file = summ
            elif op == "summary-rel":
                n += 1
                summ = os.path.join(cdir, "r%d" % n)
                dp.summary_file = "r%d" % n
            elif op == "sep":
                dp.data_sep, dp.summary_sep = ",", ";"
            elif op == "clear":
                dp.clear()
                col.check(not any(files(dp)[x] for x in files(dp)), "clear", "still %s; %s" % (sorted(files(dp)), tag))
            col.check(os.path.realpath(h.dump_dir) == os.path.realpath(cdir), "dump_dir", "%r, expected %r; %s" % (h.dump_dir, cdir, tag))
            col.step()
        t = {os.path.join(d, k): v for k, v in tree(d).items() if v is not None}
        for p in t:
            if p not in model:
                col.fail("files", "unexpected file %r; %s" % (os.path.relpath(p, d), tag))
        for p, (e, ds, ss) in model.items():
            if p not in t:
                col.check(not e, "files", "no file %r among %s; %s" % (os.path.relpath(p, d), sorted(os.path.relpath(x, d) for x in t), tag))
            else:
                w = compare(t[p], e, ds, ss)
                col.check(not w, "content", "%s: %s; %s" % (os.path.relpath(p, d), w, tag))
        col.execution()
        col.validated()
        col.state((who, tuple(seq)))
        col.outcome((who, len(model), len(t)))


# ------------------------------------------------------------------ (c) faults
# (configuration, optimiser level, dynamics level, pairs at the quick tier)
HIST = [
    ("lbfgs", "SUMMARY", None, True),
    ("lbfgs", None, "SUMMARY", True),
    ("lbfgs", "FULL", None, True),
    ("lbfgs", "FULL", "FULL", False),
    ("lbfgs_g", "FULL", "FULL", False),
    ("lbfgs_q", "SUMMARY", "FULL", False),
    ("gen_approx", "FULL", "SUMMARY", False),
    ("crab_fmin", "FULL", "SUMMARY", False),
]
_N, _PLAIN = {}, {}


class ErrLog(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.ERROR)
        self.msgs = []

    def emit(self, rec):
        self.msgs.append(rec.getMessage())


def steps(i, d, done):
    """the history: a generator of (name, value) per step; `done` collects the objects"""
    c, lo, ld, _ = HIST[i]
    o = R.build(c)
    dy = o.dynamics
    done["o"] = o
    start = dy.ctrl_amps.copy()
    done["dumps"] = [x for x, l in ((o, lo), (dy, ld)) if l]

    def configure():
        for x, l in ((o, lo), (dy, ld)):
            if l:
                x.dumping = l
                x.dump_to_file = True
                x.dump_dir = os.path.join(d, "out", "o" if x is o else "d")

    def run(n):
        dy.initialize_controls(start.copy())
        return res_key(play(o, n))

    yield "configure", configure
    yield "run1", lambda: run(1)
    for x in done["dumps"]:
        yield "writeout", lambda x=x: x.dump.writeout()
        yield "single", lambda x=x: x.dump.writeout(os.path.join(d, "cwd", "single" + ("o" if x is o else "d")))
    yield "run2", lambda: run(2)
    yield "writeout", lambda: done["dumps"][-1].dump.writeout()


def plain(i):
    """results of the runs without any dumping"""
    c = HIST[i][0]
    if c not in _PLAIN:
        o = R.build(c)
        start = o.dynamics.ctrl_amps.copy()
        out = {}
        for nm, n in (("run1", 1), ("run2", 2)):
            o.dynamics.initialize_controls(start.copy())
            out[nm] = res_key(play(o, n))
        _PLAIN[c] = out
    return _PLAIN[c]


def hist_ops(i):
    if i not in _N:
        with scratch() as d:
            with Faults(d) as f:
                for nm, act in steps(i, d, {}):
                    act()
            assert f.count > 10 and f.hits == 0 and "w" in f.ops and "o" in f.ops and "d" in f.ops, f.ops
            _N[i] = f.count
    return _N[i]


def rec(x):
    """everything a dump has recorded"""
    dp = x.dump
    if is_optim(dp):
        return [("e", list(map(arr_any, dp.fid_err_log))), ("n", list(map(arr_any, dp.grad_norm_log))), ("g", list(map(arr_any, dp.grad_log))),
                ("s", [repr(sorted(vars(s).items())) for s in dp.iter_summary])]
    return [("i", [repr([arr_any(getattr(s, n)) for n in sorted(ITEM.values())]) for s in dp.evo_dumps])]


_REC = {}


def unfaulted(i):
    """what is recorded after each step when nothing fails"""
    if i not in _REC:
        with scratch() as d:
            done, out = {}, {}
            for k, (nm, act) in enumerate(steps(i, d, done)):
                act()
                out[k] = [rec(x) for x in done["dumps"]]
            _REC[i] = out
    return _REC[i]


def prefix(a, b):
    """each list of a is a prefix of the list of b"""
    return all(x == y[: len(x)] for (_, x), (_, y) in zip(a, b))


def fault(i, faults, col):
    want = unfaulted(i)
    pl = plain(i)
    tag = "faults %s in the history %s" % (faults, HIST[i][:3])
    eh = ErrLog()
    loggers = [v for k, v in logging.Logger.manager.loggerDict.items() if isinstance(v, logging.Logger)] + [logging.getLogger()]
    with scratch() as d:
        for lg in loggers:
            lg.addHandler(eh)
        try:
            done, raised, lost = {}, False, False
            with Faults(d, faults) as f:
                hits = 0
                for k, (nm, act) in enumerate(steps(i, d, done)):
                    nerr = len(eh.msgs)
                    err = None
                    try:
                        v = act()
                    except OSError as e:
                        err, v = type(e).__name__, None
                    now = fault_hits()
                    hit, hits = now > hits, now
                    at = "%s (step %d); %s" % (nm, k, tag)
                    ds = done["dumps"]
                    if err:
                        raised = True
                        col.check(hit or any(not os.path.isdir(x.dump.dump_dir) for x in ds if x.dump), "raised", "%s without a fault; %s" % (err, at))
                    elif hit:
                        off = any(x.dump is not None and not x.dump.write_to_file for x in ds)
                        col.check(off and len(eh.msgs) > nerr, "silent", "a fault was neither raised nor reported with file output turned off; " + at)
                        lost = True
                    if nm in ("run1", "run2") and not err:
                        col.check(v == pl[nm], "result", "result %s, without dumping %s; %s" % (v[:300], pl[nm][:300], at))
                    if not raised:
                        if all(x.dump is not None for x in ds):
                            got = [rec(x) for x in ds]
                            col.check(got == want[k], "recorded", "recorded %s, without faults %s; %s" % (str(got)[:300], str(want[k])[:300], at))
                    elif nm == "run1" and err:
                        got = [rec(x) for x in ds if x.dump]
                        col.check(all(prefix(a, b) for a, b in zip(got, want[k])), "recorded", "recorded %s is not the beginning of %s; %s" % (
                            str(got)[:300], str(want[k])[:300], at))
                    col.step()
                col.n["faults"] += hits
            # everything works again: runs and written files are as if nothing had happened
            o = done["o"]
            for x in done["dumps"]:
                sub = "o" if x is o else "d"
                if x.dump is None:
                    x.dumping = HIST[i][1 if x is o else 2]
                p = os.path.join(d, "out2", sub)
                x.dump_dir = p
                x.dump.clear()
            start = R.build(HIST[i][0]).dynamics.ctrl_amps.copy()
            for nm, n in (("run2", 2),):
                o.dynamics.initialize_controls(start.copy())
                v = res_key(play(o, n))
                col.check(v == pl[nm], "result", "result after the faults %s, without dumping %s; %s" % (v[:300], pl[nm][:300], tag))
            for x in done["dumps"]:
                sub = "o" if x is o else "d"
                p = os.path.join(d, "out2", sub)
                dp = x.dump
                if x.dump_to_file:
                    check_dir(dp, p, dp.fname_base, "txt", " ", " ", col, "during a later run; " + tag)
                dp.writeout()
                check_dir(dp, p, dp.fname_base, "txt", " ", " ", col, "later write-out; " + tag)
                s = os.path.join(d, "cwd", "later" + sub)
                dp.writeout(s)
                check_single(open(s).read(), dp, col, "later write-out; " + tag)
            home = [k for k, v in tree(d).items() if v is not None and k.startswith("home")]
            col.check(not home, "elsewhere", "files %s in the home directory; %s" % (home, tag))
        finally:
            for lg in loggers:
                lg.removeHandler(eh)
    col.execution()
    col.validated()
    col.state((i, tuple(faults)))
    col.outcome((i, raised, lost))


def fault_hits():
    from .. import fsfault

    return fsfault.lib().fsf_hits()


# ------------------------------------------------------------------ obstacles
OBST = [(who, what, when) for who in "od" for what in ("dir-is-file", "parent-is-file", "file-is-dir", "dir-removed") for when in ("live", "after")]


def obstacle(i, col):
    who, what, when = OBST[i]
    pl = plain(0)
    eh = ErrLog()
    loggers = [v for k, v in logging.Logger.manager.loggerDict.items() if isinstance(v, logging.Logger)] + [logging.getLogger()]
    tag = "%s, %s dump, written %s" % (what, "optimiser" if who == "o" else "dynamics", "during the run" if when == "live" else "afterwards")
    with scratch() as d:
        for lg in loggers:
            lg.addHandler(eh)
        try:
            o = R.build("lbfgs")
            h = o if who == "o" else o.dynamics
            p = os.path.join(d, "out", "x")
            if what == "dir-is-file":
                open(p, "w").write("precious")
            elif what == "parent-is-file":
                open(p, "w").write("precious")
                p = os.path.join(p, "y")
            h.dumping = "FULL"
            h.dump_to_file = when == "live"
            h.dump_dir = p
            dp = h.dump
            if what == "file-is-dir":
                os.mkdir(os.path.join(p, "%s-summary.txt" % dp.fname_base))
            if what == "dir-removed":
                os.rmdir(p)
            start = o.dynamics.ctrl_amps.copy()
            err = None
            o.dynamics.initialize_controls(start)
            try:
                v = res_key(play(o, 1))
            except OSError as e:
                err = e
            if when == "after":
                col.check(err is None, "raised", "%r; %s" % (err, tag))
                try:
                    dp.writeout()
                    wrote = True
                except OSError as e:
                    wrote = False
                col.check(wrote == (what == "dir-removed"), "silent", "write-out %s; %s" % ("gave no error" if wrote else "failed", tag))
            elif what in ("dir-is-file", "parent-is-file"):
                col.check(err is not None or (eh.msgs and not dp.write_to_file), "silent", "no error reported; " + tag)
            elif what == "file-is-dir":
                col.check(err is not None or eh.msgs, "silent", "no error reported; " + tag)
            if err is None:
                col.check(v == pl["run1"], "result", "%s, without dumping %s; %s" % (v[:300], pl["run1"][:300], tag))
            if what in ("dir-is-file", "parent-is-file"):
                col.check(open(os.path.join(d, "out", "x")).read() == "precious", "overwritten", "the file in the place of the directory changed; " + tag)
            n = len(eh.msgs)
            col.check(not [k for k, v in tree(d).items() if v is not None and k.startswith("home")], "elsewhere", "files in the home directory; " + tag)
            # a good directory: all written there
            q = os.path.join(d, "out2")
            h.dump_dir = q
            dp.writeout()
            check_dir(dp, q, dp.fname_base, "txt", " ", " ", col, "later; " + tag)
        finally:
            for lg in loggers:
                lg.removeHandler(eh)
    col.execution()
    col.validated()
    col.step(3)
    col.state((who, what, when))
    col.outcome((what, err is None))


# ------------------------------------------------------------------ another process creates the directory first
def races(col):
    pl = plain(0)
    for who, how, sub in itertools.product("od", ("set", "params", "removed", "default"), ("x", "x/y", "x/y/z")):
        n = sub.count("/") + 1
        for hit in range(n + 1):
            for m in itertools.combinations(range(n), hit):
                tag = "%s dump, directory %s (%s), another process first at %s" % ("optimiser" if who == "o" else "dynamics", sub, how, list(m))
                with scratch() as d:
                    o = R.build("lbfgs")
                    h = o if who == "o" else o.dynamics
                    p = os.path.join(d, "out", sub)
                    if how == "default":
                        if sub != "x":
                            continue
                        p = os.path.join(d, "home", "qtrl_dump")
                    try:
                        if how in ("params", "removed"):
                            h.dumping = "FULL"
                            if how == "removed":
                                h.dump_dir = p
                                os.removedirs(p)
                                os.makedirs(os.path.join(d, "out"), exist_ok=True)
                        with Faults(d, [(k, 3) for k in m]) as f:
                            if how == "set":
                                h.dumping = "FULL"
                                h.dump_dir = p
                            elif how == "params":
                                h.apply_params(dict(dump_dir=p))
                            elif how == "removed":
                                col.check(h.dump.create_dump_dir() is True, "race", "the directory is there, but was reported as failed; " + tag)
                            else:
                                h.dumping = "FULL"
                                p = h.dump_dir
                        h.dump_to_file = True
                        if not f.hits and m:
                            continue
                        dp = h.dump
                        dp.write_to_file = dp.write_to_file or how != "set"
                        o.dynamics.initialize_controls(o.dynamics.ctrl_amps.copy())
                        v = res_key(play(o, 1))
                        col.check(v == pl["run1"], "result", "%s, without dumping %s; %s" % (v[:300], pl["run1"][:300], tag))
                        col.check(dp.write_to_file, "race", "file output was turned off though the directory is there; " + tag)
                        dp.writeout()
                        check_dir(dp, p, dp.fname_base, "txt", " ", " ", col, tag)
                    except OSError as e:
                        col.fail("race:raised", "%r; %s" % (e, tag))
                col.execution()
                col.validated()
                col.step(3)
                col.state((who, how, sub, m))
                col.outcome((how, len(m)))


# ------------------------------------------------------------------ the dumps of an optimiser and of its dynamics in one directory
def both(case, col):
    for where, lo, ld, back, runs in itertools.product(("default", "set", "nested"), ("SUMMARY", "FULL"), ("SUMMARY", "FULL"), (False, True), (1, 2)):
        with scratch() as d:
            o = R.build(case["config"])
            hs = [o, o.dynamics]
            for h, l in zip(hs, (lo, ld)):
                h.dumping = l
            p, q = o.dump_dir, o.dynamics.dump_dir
            if where != "default":
                p = q = os.path.join(d, "out", "both")
                if where == "nested":
                    q = os.path.join(p, "dyn")
                o.dump_dir, o.dynamics.dump_dir = p, q
            tag = "%s, dumps %s of the optimiser and %s of the dynamics, %s directory, written %s, %d runs" % (
                case["config"], lo, ld, where, ("afterwards", "the first during the run", "the second during the run", "during the run")[case["live"]], runs)
            for b, h in enumerate(hs):
                h.dump_to_file = bool(case["live"] >> b & 1)
                h.dump.write_to_file = h.dump_to_file
            for n in range(runs):
                play(o, 2)
            todo = [h for b, h in enumerate(hs) if not case["live"] >> b & 1]
            for h in reversed(todo) if back else todo:
                h.dump.writeout()
            names = {q: {}, p: {}}
            for h, x in zip(hs, (p, q)):
                names[x].update({"%s-%s.txt" % (h.dump.fname_base, n): None for n in files(h.dump)})
            for h, x in zip(hs, (p, q)):
                check_dir(h.dump, x, h.dump.fname_base, "txt", " ", " ", col, tag,
                          allow=set(names[x]) | ({"dyn"} | {"dyn/" + n for n in names[q]} if where == "nested" and x == p else set()))
            col.execution(runs)
            col.step(2)
            col.validated(2)
            col.state((case["config"], case["live"], where, lo, ld, back, runs))
            col.outcome(("both", where, lo, ld))
