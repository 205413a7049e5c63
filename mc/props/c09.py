"""C09: initial pulses, over configurations, every short history of calls, and every assignment of a set of values to the draws."""
import itertools

import numpy as np

from .. import pulses as P
from ..script import Draws, patched

SCALES = [(1.0, 0.0), (0.35, -0.2), (-1.5, 0.7), (0.0, 0.4)]
META = dict(
    rule="per pulse type: every slot layout x scaling/offset x parameter set x way of giving them (params, attributes, call arguments) against "
         "the reference waveform; every sequence of {generate with each argument, change scaling/offset, re-initialise, reset, generate again} "
         "up to the depth against a model of the generator; for random pulses, every assignment of values to the draws (set equality with the "
         "reference over the same assignments, so the order of draws is free)",
    bounds=lambda tier: dict(depth=4 if tier == "quick" else 5, layouts=P.LAYOUTS, scalings=SCALES),
    assumptions=["random numbers come from numpy.random uniform sampling", "at a jump of a wave either value is accepted"],
)

# per type: parameter sets by name
PARAMS = {
    "ZERO": [{}],
    "LIN": [{}, dict(start_val=0.2, end_val=-0.9), dict(gradient=0.7, start_val=0.1), dict(gradient=-1.3), dict(end_val=0.25),
            dict(start_val=0.5)],
    "GAUSSIAN": [{}, dict(mean=0.1, variance=0.05), dict(mean=0.0), dict(mean=0.0, variance=0.3), dict(variance=0.02)],
    "GAUSSIAN_EDGE": [{}, dict(decay_time=0.05), dict(decay_time=0.4)],
    "RND": [{}],
    "RNDFOURIER": [{}, dict(min_wavelen=0.3), dict(min_wavelen=0.13)],
    "RNDWAVES": [dict(num_comp_waves=3), dict(num_comp_waves=2, min_wavelen=0.2, max_wavelen=0.7), dict(num_comp_waves=1)],
    "RNDWALK1": [{}, dict(max_d_amp=0.4)],
    "RNDWALK2": [{}, dict(max_d2_amp=0.2)],
}
for _t in P.PERIODIC:
    PARAMS[_t] = [{}, dict(num_waves=2.3), dict(wavelen=0.37), dict(freq=1.7), dict(freq=0.9, start_phase=0.8), dict(num_waves=1, start_phase=2.0),
                  dict(start_phase=5.1), dict(wavelen=0.9, start_phase=-0.6)]
GEN_ARGS = {"LIN": ("gradient", "start_val", "end_val"), "GAUSSIAN": ("mean", "variance"), "GAUSSIAN_EDGE": ("decay_time",),
            "RNDFOURIER": ("min_wavelen",), "RNDWAVES": ("num_comp_waves", "min_wavelen", "max_wavelen"), "RNDWALK1": ("max_d_amp",),
            "RNDWALK2": ("max_d2_amp",), "ZERO": (), "RND": ()}
for _t in P.PERIODIC:
    GEN_ARGS[_t] = ("num_waves", "wavelen", "freq", "start_phase")
ZERO = {"LIN": [dict(start_val=0.0), dict(end_val=0.0), dict(gradient=0.0)], "GAUSSIAN": [dict(mean=0.0)], "RNDWALK1": [dict(max_d_amp=0.0)], "RNDWALK2": [dict(max_d2_amp=0.0)]}


class Model:
    """What the generator should produce."""

    def __init__(self, kind, tau, scaling=1.0, offset=0.0, params=None):
        self.kind, self.tau = kind, np.array(tau, dtype=float)
        self.T = float(self.tau.sum())
        self.defaults = (scaling, offset, dict(params or {}))
        self.reset()

    def reset(self):
        self.scaling, self.offset, p = self.defaults
        T = self.T
        self.p = {"LIN": dict(start_val=-1.0, end_val=None, gradient=None), "GAUSSIAN": dict(mean=T / 2, variance=T / 2),
                  "GAUSSIAN_EDGE": dict(decay_time=T / 10), "RNDFOURIER": dict(min_wavelen=T / 10),
                  "RNDWAVES": dict(num_comp_waves=20, min_wavelen=T / 10, max_wavelen=2 * T), "RNDWALK1": dict(max_d_amp=0.1),
                  "RNDWALK2": dict(max_d2_amp=0.01)}.get(self.kind, dict(f=1.0, start_phase=0.0))
        self.give(p)
        if self.kind == "LIN" and self.p["gradient"] is None and self.p["end_val"] is None:
            self.p["end_val"] = 1.0

    def give(self, a):
        a = dict(a)
        if self.kind in P.PERIODIC:
            if "start_phase" in a:
                self.p["start_phase"] = a["start_phase"]
            if "num_waves" in a:
                self.p["f"] = a["num_waves"] / self.T
            elif "wavelen" in a:
                self.p["f"] = 1.0 / a["wavelen"]
            elif "freq" in a:
                self.p["f"] = a["freq"]
        elif self.kind == "LIN":
            if "gradient" in a and "end_val" not in a:
                self.p["end_val"] = None
            self.p.update(a)
        else:
            self.p.update(a)

    def wave(self, call=None, draws=None):
        """(values, mask of slots at a jump)"""
        if call and self.kind not in ("GAUSSIAN", "GAUSSIAN_EDGE"):
            self.give(call)
        p = dict(self.p)
        if call:
            p.update({k: v for k, v in call.items() if k in p})
        t, k = P.starts(self.tau), self.kind
        mask = np.zeros(len(t), dtype=bool)
        if k == "ZERO":
            y = np.zeros(len(t))
        elif k == "LIN":
            g = p["gradient"]
            if p["end_val"] is not None:
                g = (p["end_val"] - p["start_val"]) / t[-1] if len(t) > 1 else 0.0
            y = p["start_val"] + g * t
        elif k in P.PERIODIC:
            phi = 2 * np.pi * p["f"] * t + p["start_phase"]
            y, mask = P.phase_wave(k, phi), P.jumps(k, phi)
        elif k == "GAUSSIAN":
            y = np.exp(-((t - p["mean"]) ** 2) / (2 * p["variance"]))
        elif k == "GAUSSIAN_EDGE":
            y = 1 - np.exp(-(t**2) / p["decay_time"]) - np.exp(-((t - self.T) ** 2) / p["decay_time"])
        else:
            return P.random_wave(k, self.tau, self.T, p, self.scaling, draws) + self.offset, mask
        return self.scaling * y + self.offset, mask


def make(kind, layout, params=None, scaling=None, offset=None, dyn_params=None):
    import qutip_qtrl.pulsegen as pg

    pr = dict(P.layout_params(layout))
    pr.update(params or {})
    if scaling is not None:
        pr["scaling"] = scaling
    if offset is not None:
        pr["offset"] = offset
    d = P.dyn_for(layout, dyn_params)
    return pg.create_pulse_gen(kind, dyn=d, pulse_params=pr or None)


def close(a, b, mask, m):
    a = np.asarray(a, dtype=float)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    # at a jump: one of the two values
    if np.any(np.abs(np.abs((a - m.offset)[mask]) - abs(m.scaling)) > 1e-3 * abs(m.scaling) + 1e-9):
        return False
    # equal durations are kept in single precision by the code (C05)
    return bool(np.all(np.abs(a - b)[~mask] <= 2e-5 * (1 + np.abs(b[~mask]))))


def cases(tier):
    out = []
    for k in P.TYPES:
        for lay in P.LAYOUTS:
            out.append(dict(kind="product", type=k, layout=lay))
    for k in P.TYPES:
        if k in P.RANDOM:
            for lay in ("alone_tau", "dyn_eq"):
                for i in range(len(PARAMS[k])):
                    out.append(dict(kind="draws", type=k, layout=lay, params=i, tier=tier))
        n = len(ops(k))
        for lay in ("dyn_tau", "alone_n") + (("alone_tau", "dyn_eq") if tier == "thorough" else ()):
            for a in range(n):
                out.append(dict(kind="seq", type=k, layout=lay, first=a, depth=4 if tier == "quick" else 5))
    out.append(dict(kind="reject"))
    return out


def ops(kind):
    o = [("gen", {})]
    for i, p in enumerate(PARAMS[kind]):
        a = {x: p[x] for x in p if x in GEN_ARGS[kind]}
        if a:
            o.append(("gen", a))
    # zero is a value like any other
    o += [("gen", a) for a in ZERO.get(kind, [dict(start_phase=0.0)] if kind in P.PERIODIC else [])]
    o += [("scaling", 0.35), ("scaling", -1.2), ("offset", 0.3), ("init", None), ("reset", None)]
    return o


def run_case(case, col):
    dict(product=product, seq=seq, draws=draws, reject=reject)[case["kind"]](case, col)


def product(case, col):
    k, lay = case["type"], case["layout"]
    tau = P.LAYOUTS[lay]
    for i, p in enumerate(PARAMS[k]):
        if "min_wavelen" in p and (p["min_wavelen"] > np.sum(tau) or p.get("max_wavelen", 9) <= p["min_wavelen"]):
            continue
        for (sc, off) in SCALES:
            for how in ("params", "attr", "call", "apply", "dyn"):
                a = {x: p[x] for x in p if x in GEN_ARGS[k]}
                if how == "dyn" and not lay.startswith("dyn"):
                    continue
                dr = (0.3, 0.8, 0.55, 0.1)
                with patched(Draws(dr).mapping()):
                    if how == "params":
                        g = make(k, lay, p, sc, off)
                    elif how == "dyn":
                        g = make(k, lay, p, dyn_params=dict(initial_ctrl_scaling=sc, initial_ctrl_offset=off))
                    else:
                        g = make(k, lay)
                        g.scaling, g.offset = sc, off
                    m = Model(k, tau, sc, off, p if how != "call" else None)
                    call = {}
                    if how == "attr":
                        if k == "LIN" and "gradient" in p and "end_val" not in p:
                            g.end_val = None
                        for x in p:
                            setattr(g, x, p[x])
                    elif how == "apply":
                        g.apply_params(dict(p, scaling=sc, offset=off))
                        if k == "LIN" and "gradient" in p and "end_val" not in p:
                            g.end_val = None
                    elif how == "call":
                        call = a
                    y = np.array(g.gen_pulse(**call), dtype=float)
                    n1 = None
                col.execution()
                tag = "%s %s params %s scaling %g offset %g by %s" % (k, lay, p, sc, off, how)
                if k in P.RANDOM:
                    r = P.Stream(np.resize(dr, 400))
                    want, mask = m.wave(call, r)
                    # the order of the draws is free: only the range and the shape are judged here (see 'draws')
                    ok = y.shape == (len(tau),) and np.all(np.isfinite(y)) and within(k, y, m, len(tau))
                    col.check(ok, "range:%s" % k, "%s outside its documented range; %s" % (y.tolist(), tag))
                else:
                    want, mask = m.wave(call)
                    col.check(close(y, want, mask, m), "shape:%s" % k, "%s, expected %s; %s" % (y.tolist()[:8], want.tolist()[:8], tag))
                col.state((k, lay, i, sc, off, how))
                col.step()
                col.validated()
                col.outcome(y.round(9).tobytes())
        col.sample(dict(type=k, layout=lay, params=p))


def within(k, y, m, n):
    z, s = y - m.offset, abs(m.scaling)
    e = 1e-9 + 1e-9 * s
    if k == "RND":
        return np.all(np.abs(z) <= s + e)
    if k in ("RNDFOURIER", "RNDWAVES"):
        return np.all(np.abs(z) <= np.sqrt(8) * s + e)
    if abs(z[0]) > s + e:
        return False
    if k == "RNDWALK1":
        return np.all(np.abs(np.diff(z)) <= m.p["max_d_amp"] * s + e)
    d = np.concatenate([[0.0], np.diff(z)])
    return np.all(np.abs(np.diff(d)) <= m.p["max_d2_amp"] * s + e)


def seq(case, col):
    k, lay = case["type"], case["layout"]
    O = ops(k)
    tau = P.LAYOUTS[lay]
    D = (0.3, 0.8, 0.55, 0.1, 0.95, 0.42)
    dyn = P.dyn_for(lay)
    import qutip_qtrl.pulsegen as pg

    for L in range(0, case["depth"]):
        for suf in itertools.product(range(len(O)), repeat=L):
            h = (case["first"],) + suf
            pr = dict(P.layout_params(lay))
            g = pg.create_pulse_gen(k, dyn=dyn, pulse_params=pr or None)
            if k == "RNDWAVES":
                g.num_comp_waves = 3
            m = Model(k, tau)
            if k == "RNDWAVES":
                m.p["num_comp_waves"] = 3
            hist = []
            seen = {}
            for o in h + (0, 0):
                op, a = O[o]
                hist.append("%s %s" % (op, a))
                tag = "%s %s after %s" % (k, lay, hist)
                if op == "gen":
                    if k in P.RANDOM:
                        with patched(Draws(D).mapping()):
                            y = np.array(g.gen_pulse(**a), dtype=float)
                        m.give(a)
                        key = repr((m.scaling, m.offset, sorted(m.p.items())))
                        if key in seen:
                            col.check(np.array_equal(seen[key], y), "repeat:%s" % k,
                                      "%s, earlier %s for the same draws and parameters; %s" % (y.tolist(), seen[key].tolist(), tag))
                        seen[key] = y
                        # a new generator with these parameters
                        g2 = pg.create_pulse_gen(k, dyn=dyn, pulse_params=dict(pr, scaling=m.scaling, offset=m.offset, **m.p))
                        with patched(Draws(D).mapping()):
                            y2 = np.array(g2.gen_pulse(), dtype=float)
                        col.check(y.shape == y2.shape and np.allclose(y, y2, 1e-9, 1e-12), "history:%s" % k,
                                  "%s, a new generator %s; %s" % (y.tolist(), y2.tolist(), tag))
                        col.check(within(k, y, m, len(tau)), "range:%s" % k, tag)
                    else:
                        y = np.array(g.gen_pulse(**a), dtype=float)
                        want, mask = m.wave(a)
                        col.check(close(y, want, mask, m), "history:%s" % k, "%s, expected %s; %s" % (y.tolist(), want.tolist(), tag))
                    col.outcome(y.round(9).tobytes())
                    # what was handed out stays
                elif op == "init":
                    g.init_pulse()
                elif op == "reset":
                    g.reset()
                    m.reset()
                    if k == "RNDWAVES":
                        g.num_comp_waves = 3
                        m.p["num_comp_waves"] = 3
                else:
                    setattr(g, op, a)
                    setattr(m, op, a)
                col.step()
                col.state((k, lay, m.scaling, m.offset, sorted(m.p.items(), key=str)))
            if k in P.PERIODIC:
                # descriptions of the same wave agree
                f, w, nw = g.freq, g.wavelen, g.num_waves
                ok = abs(f - m.p["f"]) <= 1e-6 * abs(f) and abs(w * f - 1) < 1e-9 and abs(nw - f * m.T) <= 1e-6 * max(abs(nw), 1)
                col.check(ok, "descriptions:%s" % k, "freq %r wavelen %r num_waves %r for %r; %s %s" % (f, w, nw, m.p["f"], k, hist))
            col.execution()
            col.validated()
            col.sample(dict(type=k, layout=lay, history=hist))


VALS = (0.5, 0.9)


def draws(case, col):
    """every assignment of the values to the first draws; set of pulses == set of documented pulses"""
    k, lay = case["type"], case["layout"]
    tau = P.LAYOUTS[lay]
    p = PARAMS[k][case["params"]]
    vals = VALS if case["tier"] == "quick" else VALS + (0.0,)
    m0 = Model(k, tau, 0.8, 0.15, p)
    st = P.Stream(())
    m0.wave(None, st)
    npos = st.i
    assert npos <= 12
    g = make(k, lay, p, 0.8, 0.15)
    got, want = [], []
    for v in itertools.product(vals, repeat=npos):
        d = list(v) + [0.5] * 8
        with patched(Draws(d).mapping()):
            y = np.array(g.gen_pulse(), dtype=float)
        if y.shape != (len(tau),):
            col.fail("shape:%s" % k, "pulse of shape %s for %d slots" % (y.shape, len(tau)))
            return
        got.append(y)
        want.append(m0.wave(None, P.Stream(d))[0])
        col.execution()
        col.step()
        col.state((k, lay, case["params"], v))
        col.outcome(y.round(8).tobytes())
    A, B = np.array(got), np.array(want)
    bad = unmatched(A, B)
    col.check(bad is None, "draws:%s" % k, "pulse %s for some draws is none of the documented ones; %s %s" % (bad, k, p))
    bad = unmatched(B, A)
    col.check(bad is None, "draws:%s" % k, "documented pulse %s never comes; %s %s" % (bad, k, p))
    col.validated(len(got))
    col.sample(dict(type=k, layout=lay, draws=npos, assignments=len(got)))


def unmatched(A, B, tol=5e-5):
    order = np.argsort(B[:, 0])
    b0 = B[order, 0]
    for row in A:
        lo, hi = np.searchsorted(b0, row[0] - tol), np.searchsorted(b0, row[0] + tol)
        c = B[order[lo:hi]]
        if len(c) == 0 or np.abs(c - row).max(axis=1).min() > tol:
            return row.tolist()
    return None


def reject(case, col):
    import qutip_qtrl.pulsegen as pg

    def bad(what, f):
        col.execution()
        col.step()
        col.state(what)
        col.outcome(what)
        try:
            f()
        except (AttributeError, NameError, IndexError) as e:
            col.fail("reject", "%s: %r" % (what, e))
        except Exception:
            col.validated()
            return
        col.fail("reject", "%s was accepted" % what)

    bad("unknown pulse type", lambda: pg.create_pulse_gen("NOSUCH"))
    for t in (1.0, 0.4):
        bad("min_wavelen above the pulse time", lambda: pg.create_pulse_gen("RNDFOURIER", pulse_params=dict(pulse_time=t)).gen_pulse(min_wavelen=2 * t))
        bad("min_wavelen above the pulse time", lambda: pg.create_pulse_gen("RNDWAVES", pulse_params=dict(pulse_time=t)).gen_pulse(min_wavelen=2 * t))
        bad("max_wavelen below min_wavelen", lambda: pg.create_pulse_gen("RNDWAVES", pulse_params=dict(pulse_time=t)).gen_pulse(
            min_wavelen=0.5 * t, max_wavelen=0.4 * t))
    for k in P.TYPES:
        bad("upper limit below lower limit %s" % k, lambda: pg.create_pulse_gen(k, pulse_params=dict(lbound=0.3, ubound=0.2)).gen_pulse())
