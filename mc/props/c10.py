"""C10: chopped-random-basis pulses, over configurations, evaluation sequences and generator histories."""
import itertools

import numpy as np

from .. import crabref as X
from .. import pulses as P
from .. import systems as S
from ..script import Draws, Return, minimiser_patch, patched
from .c09 import Model

SYS = {"c1": ("u_z_x", 1), "c2": ("u_z_xy", 2), "c3": ("u_zx_xyz", 3), "q3": ("u_q3", 3)}
TAU = {"uneq": [0.3, 0.55, 0.2, 0.45], "eq": None}
NT, ET = 4, 1.5
GUESS = [None, ("SINE", dict(num_waves=1.3, start_phase=0.4), 0.7, 0.2), ("LIN", dict(start_val=0.4, end_val=-0.5), 1.5, 0.0),
         ("GAUSSIAN", {}, 1.0, -0.1)]
ACTIONS = [None, "MODULATE", "ADD", "add"]
RAMP = [None, ("GAUSSIAN_EDGE", dict(decay_time=0.1)), ("LIN", dict(start_val=0.2, end_val=0.8))]
BOUNDS = [(None, None), (-1.2, 0.9), (0.1, 0.8), (None, 0.6), (-0.4, None), (None, -0.2), (0.0, 1.0), (0.0, None), (-1.0, 0.0), (None, 0.0), (0.3, None),
          ("list", "list"), (-np.inf, 0.5), (-0.5, np.inf)]
META = dict(
    rule="every combination of number of controls, coefficients, fixed/free and per-generator different frequencies, guess pulse and action, ramping, "
         "limits, slot layout through the entry points; for each, every sequence up to the depth of evaluations over an alphabet of variable "
         "vectors (start, each variable changed alone, all different) under the scripted minimiser, amplitudes compared with the reference "
         "expansion after each; every sequence of generator operations {set, get, generate, generate with coefficients, initialise with/without "
         "coefficients, guess, action, ramp, limits, reset} up to the depth against a model",
    bounds=lambda tier: dict(evaluations=2 if tier == "quick" else 3, generator_operations=4 if tier == "quick" else 5, limits=BOUNDS[:11],
                             guesses=[g and g[0] for g in GUESS]),
    assumptions=["random numbers come from numpy.random uniform sampling", "initial coefficients and frequency offsets are read from the generators"],
)


def cases(tier):
    out = []
    for s in SYS:
        for nc in (1, 2, None):
            for gi in range(len(GUESS)):
                for t in TAU:
                    out.append(dict(kind="run", sys=s, nc=nc, guess=gi, tau=t, tier=tier))
    for ff in (True, False):
        for nc in (1, 2):
            for a in range(len(OPS)):
                out.append(dict(kind="gen", fix=ff, nc=nc, first=a, depth=4 if tier == "quick" else 5))
    for s in ("c2", "c3"):
        out.append(dict(kind="mixed", sys=s, tier=tier))
    return out


def run_case(case, col):
    dict(run=run, gen=gen, mixed=mixed)[case["kind"]](case, col)


def bound(b, j, lo):
    if b == "list":
        return [-0.8, -0.3, 0.1][j] if lo else [0.9, 0.2, 0.7][j]
    return b


def barg(b, n, lo):
    return [bound(b, j, lo) for j in range(n)] if b == "list" else b


def entry(case, action, ramp, lb, ub, fix, scal, extra=None):
    """keyword arguments of the entry point"""
    name, n = SYS[case["sys"]]
    a = dict(alg="CRAB", dyn_type="UNIT", amp_lbound=barg(lb, n, True), amp_ubound=barg(ub, n, False),
             alg_params=dict(fix_frequency=fix), fid_err_targ=1e-30, max_iter=50)
    if TAU[case["tau"]]:
        a["tau"] = np.array(TAU[case["tau"]])
    else:
        a.update(num_tslots=NT, evo_time=ET)
    if case["nc"] is not None:
        a["alg_params"]["num_coeffs"] = case["nc"]
    if scal is not None:
        a["alg_params"]["init_coeff_scaling"] = scal
    g = GUESS[case["guess"]]
    if g:
        a.update(init_pulse_type=g[0], init_pulse_params=dict(g[1]), pulse_scaling=g[2], pulse_offset=g[3])
        if action:
            a["init_pulse_params"]["pulse_action"] = action
    if ramp:
        a.update(ramping_pulse_type=ramp[0], ramping_pulse_params=dict(ramp[1]))
    a.update(extra or {})
    return a


def expected_shape(case, tau):
    g = GUESS[case["guess"]]
    return None if not g else Model(g[0], tau, g[2], g[3], g[1])


def run(case, col):
    import qutip_qtrl.pulseoptim as po

    name, n = SYS[case["sys"]]
    s = S.SYSTEMS[name]
    tau = TAU[case["tau"]] or [ET / NT] * NT
    big = case["tier"] == "thorough"
    combos = []
    for ai, action in enumerate(ACTIONS if GUESS[case["guess"]] else [None]):
        for ri, ramp in enumerate(RAMP):
            for bi, (lb, ub) in enumerate(BOUNDS):
                for fix in (True, False):
                    if not big and not fix and (ri == 2 or bi > 6):
                        continue
                    combos.append((action, ramp, lb, ub, fix, (None, 0.6)[bi % 2]))
    ncoef = case["nc"] or max(2, s.dim - 1)
    for q, (action, ramp, lb, ub, fix, scal) in enumerate(combos):
        nb = 2 if fix else 3
        tag = "%s nc=%s guess=%s action=%s ramp=%s limits=(%s,%s) fixed=%s tau=%s" % (
            case["sys"], case["nc"], GUESS[case["guess"]], action, ramp, lb, ub, fix, case["tau"])
        a = entry(case, action, ramp, lb, ub, fix, scal)
        gm = expected_shape(case, tau)
        guess = gm.wave()[0] if gm else None
        rw = Model(ramp[0], tau, 1.0, 0.0, ramp[1]).wave()[0] if ramp else None

        def lim(j):
            return bound(lb, j, True), bound(ub, j, False)

        def limited_guess(j):
            return guess if guess is None else clip_shift(guess, *lim(j), off=GUESS[case["guess"]][3])

        def ref(x, o):
            A = np.zeros((len(tau), n))
            for j, pgen in enumerate(o.pulse_generator):
                c = np.asarray(x).reshape(n, ncoef, nb)[j]
                A[:, j] = X.pulse(c, pgen.freqs, tau, limited_guess(j), action or "MODULATE", rw, *lim(j),
                                  scaling=1.0 if scal is None else scal)
            return A

        with patched(Draws((0.3, 0.8, 0.55, 0.1, 0.95, 0.42, 0.65)).mapping()):
            o = po.create_pulse_optimizer(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), **a)
            d = o.dynamics
            d.init_timeslots()
            amps = np.zeros((len(tau), n))
            for j, pgen in enumerate(o.pulse_generator):
                pgen.init_pulse()
                amps[:, j] = pgen.gen_pulse()
            d.initialize_controls(amps)
        T = float(np.sum(tau))
        for j, pgen in enumerate(o.pulse_generator):
            c = np.asarray(pgen.coeffs)
            ok = c.shape == (ncoef, nb) and np.all(np.abs(c) <= (1.0 if scal is None else scal) + 1e-12)
            col.check(ok, "coeffs", "coefficients %s; %s" % (c.tolist(), tag))
            dev = np.asarray(pgen.freqs) - 2 * np.pi / T * np.arange(1, ncoef + 1)
            col.check(dev.shape == (ncoef,) and np.all(np.abs(dev) <= 0.5 + 1e-5), "freqs", "frequencies %s; %s" % (pgen.freqs, tag))
            if guess is not None:
                col.check(close(pgen.guess_pulse, limited_guess(j)), "guess", "%s, expected %s; %s" % (
                    np.asarray(pgen.guess_pulse).tolist(), limited_guess(j).tolist(), tag))
        if not col_ok(col):
            return
        x0 = np.concatenate([np.ravel(p.get_optim_var_vals()) for p in o.pulse_generator])
        nv = n * ncoef * nb
        col.check(len(x0) == nv, "count", "%d variables, expected %d; %s" % (len(x0), nv, tag))
        col.check(close(amps, ref(x0, o)), "initial", "initial amplitudes %s, expansion %s; %s" % (amps.tolist(), ref(x0, o).tolist(), tag))
        pts = [x0.copy()] + [x0 + 0.37 * (np.arange(nv) == i) for i in range(nv)] + [0.11 * np.arange(nv) - 0.4, np.zeros(nv)]
        # every sequence for the plainest combinations, a covering walk for the others
        L = (2 if case["tier"] == "quick" else 3) if (q % 7 == 0 and nv <= 8) else 1
        seqs = list(itertools.product(range(len(pts)), repeat=L)) if L > 1 else [tuple(range(len(pts)))]
        for sq in seqs:
            sq = list(sq)
            seen = []

            def handler(call):
                col.check(call.x0.shape == (nv,) and np.array_equal(call.x0, cur[0]), "x0", "start vector %s, coefficients %s; %s" % (
                    call.x0.tolist(), cur[0].tolist(), tag))
                for i in sq:
                    x = pts[i].copy()
                    call.fun(x)
                    got = d.ctrl_amps.copy()
                    x[:] = np.nan
                    seen.append(i)
                    want = ref(pts[i], o)
                    col.check(close(got, want), "expansion", "amplitudes %s, expansion %s at point %s after %s; %s" % (
                        got.tolist(), want.tolist(), pts[i].tolist(), seen, tag))
                    col.step()
                    col.state((case["sys"], case["nc"], case["guess"], case["tau"], q, tuple(seen)))
                return Return("converged", pts[sq[-1]], 0.5, nit=0, nfev=len(sq))

            cur = [np.concatenate([np.ravel(p.get_optim_var_vals()) for p in o.pulse_generator])]
            with patched(minimiser_patch(handler)):
                r = o.run_optimization()
            xf = np.concatenate([np.ravel(p.get_optim_var_vals()) for p in o.pulse_generator])
            col.check(np.array_equal(xf, pts[sq[-1]]), "left", "coefficients left %s, returned %s; %s" % (xf.tolist(), pts[sq[-1]].tolist(), tag))
            col.check(close(r.final_amps, ref(xf, o)), "final", "final amplitudes %s, expansion %s; %s" % (
                r.final_amps.tolist(), ref(xf, o).tolist(), tag))
            again = np.array([p.gen_pulse() for p in o.pulse_generator]).T
            col.check(close(r.final_amps, again), "final", "generators give %s, result %s; %s" % (again.tolist(), r.final_amps.tolist(), tag))
            col.check(o.num_optim_vars == nv, "count", "num_optim_vars %r, expected %d; %s" % (o.num_optim_vars, nv, tag))
            col.execution()
            col.validated()
            col.outcome(np.asarray(r.final_amps).round(8).tobytes())
        col.sample(dict(config=tag, evaluations=len(seqs)))


def col_ok(col):
    return col.nfails < 40


def clip_shift(g, lb, ub, off):
    """the guess pulse within the limits: unaltered if it is, otherwise shifted, scaled only if the range is too large"""
    lb, ub = X.finite(lb), X.finite(ub)
    if (ub is None or g.max() <= ub) and (lb is None or g.min() >= lb):
        return g
    p = g - off
    if lb is None:
        return p + ub - p.max()
    if ub is None:
        return p + lb - p.min()
    r = p.max() - p.min()
    if r > ub - lb:
        p = p * (ub - lb) / r
    return p + lb - p.min()


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 2e-5 * (1 + np.abs(b))))


# ------------------------------------------------------------------ generators of different size
def mixed(case, col):
    """generators with different numbers of coefficients and basis functions: each has its own block"""
    import qutip_qtrl.pulsegen as pg
    import qutip_qtrl.pulseoptim as po

    name, n = SYS[case["sys"]]
    s = S.SYSTEMS[name]
    tau = [0.3, 0.55, 0.2, 0.45]
    kinds = [(nc, ff) for nc in (1, 2, 3) for ff in (True, False)]
    for comb in itertools.product(kinds, repeat=n):
        if case["tier"] == "quick" and n == 3 and sum(c[0] for c in comb) > 5:
            continue
        for method in ("FMIN", "Nelder-Mead"):
            with patched(Draws((0.3, 0.8, 0.55, 0.1, 0.95)).mapping()):
                o = po.create_pulse_optimizer(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), alg="CRAB", dyn_type="UNIT", tau=np.array(tau),
                                              fid_err_targ=1e-30, optim_method=method)
                d = o.dynamics
                d.init_timeslots()
                o.pulse_generator = [pg.PulseGenCrabFourier(dyn=d, num_coeffs=nc, fix_freqs=ff) for nc, ff in comb]
                amps = np.zeros((len(tau), n))
                for j, g in enumerate(o.pulse_generator):
                    g.init_pulse()
                    amps[:, j] = g.gen_pulse()
                d.initialize_controls(amps)
            sizes = [nc * (2 if ff else 3) for nc, ff in comb]
            nv = sum(sizes)
            tag = "coefficients/fixed %s %s" % (comb, method)

            def ref(x):
                A, i = np.zeros((len(tau), n)), 0
                for j, g in enumerate(o.pulse_generator):
                    A[:, j] = X.pulse(np.asarray(x[i: i + sizes[j]]).reshape(comb[j][0], -1), g.freqs, tau)
                    i += sizes[j]
                return A

            x0 = np.concatenate([np.ravel(p.get_optim_var_vals()) for p in o.pulse_generator])
            pts = [0.11 * np.arange(nv) - 0.4] + [x0 + 0.29 * (np.arange(nv) == i) for i in range(nv)]

            def handler(call):
                col.check(len(call.x0) == nv and np.array_equal(call.x0, x0), "x0", "start vector %s of %s; %s" % (call.x0.tolist(), x0.tolist(), tag))
                for i, x in enumerate(pts):
                    y = x.copy()
                    call.fun(y)
                    y[:] = np.nan
                    col.check(close(d.ctrl_amps, ref(x)), "expansion", "amplitudes %s, expansion %s; %s" % (
                        d.ctrl_amps.tolist(), ref(x).tolist(), tag))
                    col.step()
                    col.state((comb, method, i))
                return Return("converged", pts[0], 0.5)

            with patched(minimiser_patch(handler)):
                r = o.run_optimization()
            col.check(close(r.final_amps, ref(pts[0])), "final", tag)
            col.check(close(r.initial_amps, ref(x0)), "initial", tag)
            col.check(o.num_optim_vars == nv, "count", "num_optim_vars %r, expected %d; %s" % (o.num_optim_vars, nv, tag))
            col.execution()
            col.validated()
            col.outcome((comb, r.final_amps.round(8).tobytes()))


# ------------------------------------------------------------------ one generator, histories
OPS = ["gen", "setA", "setL", "genC", "init", "initC", "initN", "get", "guess", "action", "ramp", "bounds", "ubound0", "scaling", "reset", "noRand"]


def gen(case, col):
    for L in range(case["depth"]):
        for suf in itertools.product(range(len(OPS)), repeat=L):
            history(case, (case["first"],) + suf, col)


class GModel:
    pass


def history(case, seq, col):
    import qutip_qtrl.pulsegen as pg

    tau = [0.3, 0.55, 0.2, 0.45]
    nc0, ff = case["nc"], case["fix"]
    nb = 2 if ff else 3
    hist = []
    g = pg.PulseGenCrabFourier(num_coeffs=nc0, params=dict(tau=np.array(tau)), fix_freqs=ff)
    m = GModel()

    def defaults():
        m.inited, m.guess, m.action, m.ramp, m.lb, m.ub, m.scaling = False, None, "MODULATE", None, None, None, 1.0
        m.c = m.f = m.active = None
        m.rc = m.rf = True

    defaults()
    m.nc = nc0
    G = np.array([0.5, -0.3, 0.8, 0.2])
    R_ = np.array([0.1, 0.7, 1.0, 0.4])

    def bad(sig, msg):
        col.fail(sig, "%s; fixed=%s history %s" % (msg, ff, hist))

    def vec(k):
        return 0.2 * np.arange(m.nc * nb) - 0.3 + 0.05 * k

    def init(num=None, coeffs=None):
        g.init_pulse(**{k: v for k, v in (("num_coeffs", num), ("init_coeffs", coeffs)) if v is not None})
        after_init(num, coeffs)

    def after_init(num=None, coeffs=None):
        if num:
            m.nc = num
        m.inited = True
        c, f = np.asarray(g.coeffs, dtype=float), np.asarray(g.freqs, dtype=float)
        if c.shape != (m.nc, nb) or f.shape != (m.nc,) or g.num_optim_vars != m.nc * nb:
            bad("init", "coefficients %s frequencies %s for %d" % (c.shape, f.shape, m.nc))
            raise StopIteration
        harm = 2 * np.pi / np.sum(tau) * np.arange(1, m.nc + 1)
        if not np.all(np.abs(f - harm) <= (0.5 if m.rf else 0) + 1e-9):
            bad("init", "frequencies %s, harmonics %s, randomised %s" % (f.tolist(), harm.tolist(), m.rf))
        if coeffs is not None:
            if not np.array_equal(c, np.reshape(coeffs, (m.nc, nb))):
                bad("init", "coefficients %s, given %s" % (c.tolist(), np.asarray(coeffs).tolist()))
        elif m.rc:
            if not np.all(np.abs(c) <= abs(m.scaling) + 1e-12):
                bad("init", "coefficients %s beyond scaling %g" % (c.tolist(), m.scaling))
        elif not np.array_equal(c, np.full((m.nc, nb), m.scaling)):
            bad("init", "coefficients %s, scaling %g without randomisation" % (c.tolist(), m.scaling))
        m.c, m.f = c.copy(), f.copy()
        # what was set before takes effect on initialisation
        m.active = (m.guess, m.action, m.lb, m.ub, m.nc, m.scaling)

    def check(y):
        # the guess pulse, action and limits are taken over on initialisation
        gu, ac, lb, ub, nc, sc = m.active
        want = X.pulse(m.c, m.f, tau, gu, ac, m.ramp, lb, ub, sc)
        if not close(y, want):
            bad("expansion", "pulse %s, expansion %s" % (np.asarray(y).tolist(), want.tolist()))

    stale = False
    try:
        with patched(Draws((0.3, 0.8, 0.55, 0.1, 0.95, 0.42, 0.65)).mapping()):
            for o in tuple(seq) + (0,):
                op = OPS[o]
                hist.append(op)
                if op in ("setA", "setL", "get") and not m.inited:
                    hist[-1] += "(skipped)"
                    continue
                if op in ("gen", "genC") and stale:
                    # changed after initialisation: the generator is initialised again first
                    init()
                    stale = False
                if op == "gen":
                    first = not m.inited
                    y = g.gen_pulse()
                    if first:
                        after_init()
                    check(y)
                    y2 = g.gen_pulse()
                    if not np.array_equal(y, y2):
                        bad("repeat", "pulse %s, then %s" % (y.tolist(), y2.tolist()))
                elif op == "setA":
                    v = vec(1)
                    g.set_optim_var_vals(v)
                    m.c = v.reshape(m.nc, nb).copy()
                    v[:] = 99.0
                elif op == "setL":
                    v = vec(2)
                    g.set_optim_var_vals(list(v))
                    m.c = v.reshape(m.nc, nb).copy()
                elif op == "genC":
                    if m.inited and np.asarray(g.coeffs).shape != (m.nc, nb):
                        bad("init", "coefficients %s" % (np.asarray(g.coeffs).shape,))
                    first = not m.inited
                    v = vec(3).reshape(m.nc, nb)
                    y = g.gen_pulse(coeffs=v.copy())
                    if first:
                        after_init(coeffs=v)
                    m.c = v.copy()
                    check(y)
                elif op == "init":
                    init()
                    stale = False
                elif op == "initC":
                    init(coeffs=vec(4))
                    stale = False
                elif op == "initN":
                    init(num=3 - m.nc)
                    stale = False
                elif op == "get":
                    v = g.get_optim_var_vals()
                    if not np.array_equal(np.ravel(v), m.c.ravel()):
                        bad("get", "variables %s, set %s" % (v, m.c.ravel().tolist()))
                    g.set_optim_var_vals(np.array(v))
                elif op == "guess":
                    g.guess_pulse = G.copy()
                    m.guess, stale = G, m.inited
                elif op == "action":
                    g.guess_pulse_action = "ADD" if m.action == "MODULATE" else "MODULATE"
                    m.action, stale = g.guess_pulse_action, m.inited
                elif op == "ramp":
                    m.ramp = R_ if m.ramp is None else None
                    g.ramping_pulse = None if m.ramp is None else R_.copy()
                elif op == "bounds":
                    g.lbound, g.ubound = m.lb, m.ub = (-0.4, 0.6)
                    stale = m.inited
                elif op == "ubound0":
                    g.ubound, g.lbound = 0.0, -np.inf
                    m.ub, m.lb = 0.0, -np.inf
                    stale = m.inited
                elif op == "scaling":
                    g.scaling = m.scaling = 0.25
                    stale = m.inited
                elif op == "noRand":
                    g.randomize_coeffs, g.randomize_freqs = False, False
                    m.rc = m.rf = False
                elif op == "reset":
                    g.reset()
                    defaults()
                    stale = False
                    if g.num_basis_funcs != nb:
                        bad("reset", "%d basis functions, expected %d" % (g.num_basis_funcs, nb))
                col.step()
                col.state((ff, m.nc, m.inited, m.action, m.guess is not None, m.ramp is not None, m.lb, m.ub, m.scaling, stale, m.rc,
                           None if m.c is None else m.c.round(6).tobytes()))
            v = g.get_optim_var_vals()
            if not np.array_equal(np.ravel(v), m.c.ravel()):
                bad("get", "variables %s, expected %s" % (v, m.c.ravel().tolist()))
    except StopIteration:
        pass
    except Exception as e:
        import traceback

        bad("exc:%s" % type(e).__name__, "%s %s" % (e, traceback.format_exc()[-700:]))
    col.execution()
    col.validated()
    col.outcome((ff, m.nc, m.active is None or str(m.active[1:4]), None if m.c is None else m.c.round(6).tobytes()))
    col.sample(dict(fixed=ff, history=hist))
