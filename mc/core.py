"""Check runner: cases -> exhaustive execution on the real code -> evidence.

A property module offers
    cases(tier)          -> iterable of JSON-able case descriptors (the whole
                            bounded space, simplest first)
    run_case(case, col)  -> executes every behaviour of that case, counting
                            states/transitions in `col` and calling
                            col.fail(...) for each violation
    META                 -> dict: rule, assumptions, level
Replay of a violation runs the recorded case again (`check.py ID --replay F`).
"""
import collections
import concurrent.futures as cf
import concurrent.futures.process
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Mismatch(Exception):
    """An observed behaviour disagrees with the property."""

    def __init__(self, sig, msg):
        Exception.__init__(self, msg)
        self.sig = sig


class Collector:
    def __init__(self):
        self.n = collections.Counter()
        self.outcomes = set()
        self.states = set()
        self.fails = []
        self.nfails = 0
        self._persig = collections.Counter()
        self.samples = []
        self.case = None
        self.longest = 0.0

    # -- counting
    def state(self, key):
        """A distinct model/implementation state (hashable or str)."""
        self.states.add(_h(key))

    def step(self, k=1):
        self.n["transitions"] += k

    def execution(self, k=1):
        self.n["executions"] += k

    def validated(self, k=1):
        """an execution of the model compared step by step with the code"""
        self.n["validated"] += k

    def outcome(self, key):
        self.outcomes.add(_h(key))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # -- violations
    def fail(self, sig, msg, **detail):
        self.nfails += 1
        self._persig[str(sig)] += 1
        if self._persig[str(sig)] <= 2 and len(self._persig) < 60:
            self.fails.append(
                dict(sig=str(sig), msg=str(msg), case=self.case, detail=detail)
            )

    def check(self, ok, sig, msg="", **detail):
        if not ok:
            self.fail(sig, msg or sig, **detail)
        return ok


def _h(key):
    if isinstance(key, bytes):
        b = key
    else:
        b = repr(key).encode()
    return hashlib.blake2b(b, digest_size=8).digest()


def _jd(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (set, frozenset)):
        return sorted(map(str, o))
    return repr(o)


def run_one(mod, case, col):
    col.case = case
    nf = col.nfails
    t0 = time.time()
    if CTL is not None:
        left = CTL.left()
        signal.setitimer(signal.ITIMER_REAL, left, 5.0)
    try:
        try:
            mod.run_case(case, col)
        finally:
            if CTL is not None:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except DoesNotEnd as e:
        if time.time() - t0 >= CTL.per_case - 1:
            col.fail("does-not-end", "the case was still running after %d s (cases here take seconds)" % CTL.per_case)
        else:
            col.n["cut_short"] += 1
            return
    except Mismatch as e:
        col.fail(e.sig, str(e))
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        loc = "?"
        for fr in reversed(traceback.extract_tb(e.__traceback__)):
            if "qutip_qtrl" in fr.filename:
                loc = "%s:%s" % (os.path.basename(fr.filename), fr.name)
                break
        col.fail(
            "exception:%s:%s" % (type(e).__name__, loc),
            "unexpected %s: %s" % (type(e).__name__, e),
            traceback=tb[-3000:],
        )
    col.n["cases"] += 1
    col.longest = max(col.longest, time.time() - t0)
    if col.nfails == nf:
        col.n["cases_ok"] += 1


class DoesNotEnd(BaseException):
    pass


def _on_alarm(*a):
    raise DoesNotEnd()


class Control:
    """Limits of one run, shared by the workers: when to stop starting cases, and how long a case may take."""

    def __init__(self, tier, findings):
        self.t0 = time.time()
        quick = tier == "quick"
        self.per_case = 250.0 if quick else 7200.0
        self.stop = mp.Value("d", self.t0 + (680.0 if quick else 1e6))
        self.end = self.t0 + (840.0 if quick else 1e7)
        self.known = {f["sig"] for f in findings}

    def left(self):
        return max(1.0, min(self.per_case, self.end - time.time()))

    def over(self):
        return time.time() > self.stop.value

    def seen(self, col):
        """a violation was found: the run goes on for another minute only"""
        if any(f["sig"] not in self.known for f in col.fails):
            with self.stop.get_lock():
                self.stop.value = min(self.stop.value, time.time() + (0.0 if os.environ.get("QTRL_MC_FIRST") else 60.0))


CTL = None
_MOD = None


def _worker(arg):
    cases, quiet = arg
    import numpy as np

    np.seterr(all="ignore")
    col = Collector()
    if CTL is not None:
        signal.signal(signal.SIGALRM, _on_alarm)
    for c in cases:
        if CTL is not None and CTL.over():
            col.n["not_started"] += 1
            continue
        nf = col.nfails
        run_one(_MOD, c, col)
        if CTL is not None and col.nfails > nf:
            CTL.seen(col)
    return col


def _init_worker(quiet):
    if quiet:
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)


def merge(cols):
    out = Collector()
    for c in cols:
        out.n.update(c.n)
        out.outcomes |= c.outcomes
        out.states |= c.states
        out.nfails += c.nfails
        out.longest = max(out.longest, c.longest)
        out._persig.update(c._persig)
        out.fails.extend(c.fails)
        for s in c.samples:
            if len(out.samples) < 3:
                out.samples.append(s)
    return out


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def main(prop, tier, seed, replay=None, serial=False, limit=None, stride=1):
    global _MOD
    import importlib

    t0 = time.time()
    mod = importlib.import_module("mc.props.%s" % prop.lower())
    _MOD = mod
    if replay:
        with open(replay) as f:
            rec = json.load(f)
        col = Collector()
        run_one(mod, rec["case"], col)
        for fl in col.fails:
            print("REPRODUCED %s: %s" % (fl["sig"], fl["msg"]))
            print(json.dumps(fl.get("detail"), indent=1, default=_jd)[:6000])
        if not col.fails:
            print("not reproduced: the case now passes")
        return 1 if col.fails else 0

    try:
        cases = list(mod.cases(tier))
    except Exception:  # the code under test fails where it must work
        traceback.print_exc()
        path = os.path.join(VERIF, "replays", "%s-0.json" % prop)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, msg=traceback.format_exc()), f)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if limit:
        cases = cases[:limit]
    cases = cases[::stride]
    assert cases
    quiet = not os.environ.get("QTRL_MC_DEBUG")
    findings = [
        f for f in load_findings()
        if f.get("property") == prop and f.get("status") == "known"
    ]
    global CTL
    if not serial:
        CTL = Control(tier, findings)
    nproc = 1 if serial else min(8, os.cpu_count() or 1)
    if nproc == 1:
        col = _worker((cases, False))
    else:
        # deal the cases round-robin over many small chunks: even load
        nchunks = min(len(cases), nproc * getattr(mod, "CHUNKS_PER_PROC", 16))
        chunks = [cases[i::nchunks] for i in range(nchunks)]
        cols = []
        ex = cf.ProcessPoolExecutor(
            nproc, mp_context=mp.get_context("fork"),
            initializer=_init_worker, initargs=(quiet,)
        )
        try:
            fs = [ex.submit(_worker, (c, quiet)) for c in chunks]
            for f in cf.as_completed(fs, timeout=max(1.0, CTL.end + 15 - time.time())):
                cols.append(f.result())
            ex.shutdown(wait=True)
        except cf.process.BrokenProcessPool:
            c = Collector()
            c.case = dict(kind="process")
            c.fail("process-died", "a worker process died while running the cases")
            cols.append(c)
        except cf.TimeoutError:
            c = Collector()
            c.case = dict(kind="process")
            c.n["not_started"] += 1
            c.fail("does-not-end", "a worker did not come back by the end of the run")
            cols.append(c)
            for p in list(ex._processes.values()):
                p.kill()
        finally:
            ex.shutdown(wait=False, cancel_futures=True)
        col = merge(cols)
    complete = stride == 1 and not limit and not (col.n["not_started"] or col.n["cut_short"])
    # post-run global checks (e.g. vacuity guards)
    if hasattr(mod, "finish") and complete:
        mod.finish(col, tier)

    known_hit = collections.Counter()
    fresh = []
    for fl in col.fails:
        k = None
        for f in findings:
            if f["sig"] == fl["sig"]:
                k = f
                break
        if k is not None:
            known_hit[k["sig"]] += 1
        else:
            fresh.append(fl)
    for f in findings:
        print(
            "KNOWN-FINDING: property=%s %s" % (prop, f["text"])
        )
    rc = 0
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        # one replay file per distinct signature, at most five
        seen = {}
        for fl in sorted(
            fresh, key=lambda x: len(json.dumps(x["case"], default=_jd))
        ):
            seen.setdefault(fl["sig"], fl)
        for i, (sig, fl) in enumerate(list(seen.items())[:5]):
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump(
                    dict(property=prop, tier=tier, sig=sig, msg=fl["msg"],
                         case=fl["case"], detail=fl["detail"],
                         how="/opt/venv/bin/python check.py %s --replay %s"
                             % (prop, path)),
                    f, indent=1, default=_jd)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (sig, fl["msg"][:600]))
        rc = 1
        for sig in sorted(seen):
            print("  [%d x] %s" % (col._persig[sig], sig))
    meta = mod.META
    wall = time.time() - t0
    level = meta.get("level", "model_checking")
    cov = dict(
        states=len(col.states),
        transitions=int(col.n["transitions"]),
        traces_validated_against_impl=int(col.n["validated"]),
        evaluations=int(col.n["executions"]),
        distinct_nontrivial=len(col.outcomes),
        rule=meta["rule"],
        cases=int(col.n["cases"]),
        distinct_outcomes=len(col.outcomes),
        bounds=meta["bounds"](tier) if callable(meta.get("bounds")) else meta.get("bounds"),
        exhaustive=complete,
        longest_case_s=round(col.longest, 2),
        samples=col.samples or [cases[0], cases[-1]],
    )
    for k, v in sorted(col.n.items()):
        if k not in ("transitions", "validated", "executions", "cases", "cases_ok"):
            cov[k] = int(v)
    cov = json.loads(json.dumps(cov, default=_jd))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=meta.get("assumptions", []), wall_s=round(wall, 2),
              violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))
    if not complete:
        print("%s: stopped before all cases were run (%d of %d)" % (prop, col.n["cases"], len(cases)))
    print(
        "%s %s: %d cases, %d executions, %d states, %d transitions, "
        "%d distinct outcomes, %d violations (%d known), %.1fs"
        % (prop, tier, col.n["cases"], col.n["executions"], len(col.states),
           col.n["transitions"], len(col.outcomes), len(fresh),
           sum(known_hit.values()), wall)
    )
    return rc
