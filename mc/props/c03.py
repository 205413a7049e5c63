"""C03: the error gradient is the derivative of the error."""
import numpy as np
from qutip import Qobj

from .. import configs
from ..ref import close
from ..systems import amps_for

META = dict(
    rule="every configuration of the product x amplitude pattern; each (slot, control) entry of the gradient is one "
         "transition, compared with the derivative of the reference model (block-matrix exponential) and, for one "
         "entry per configuration, with a central difference of the error the code itself reports",
    bounds=lambda tier: dict(dim="2..4", slots="1..3" if tier == "quick" else "1..4", controls="1..3"),
    assumptions=["for states with vanishing overlap (non-differentiable point of the modulus) the gradient is not compared",
                 "finite-difference method compared to 1e-4"],
)


def cases(tier):
    out = []
    for c in configs.product(tier):
        if c["prop"] == "APPROX" and c["fid"] != "TDA":
            continue  # no gradient in this configuration (used gradient-free)
        out.append(c)
    return out


def full(x):
    return x.full() if isinstance(x, Qobj) else np.asarray(x)


def run_case(cfg, col):
    s, tau, optim, rf, sc = configs.build(cfg)
    dyn = optim.dynamics
    fc = dyn.fid_computer
    n_ts = len(tau)
    first = True
    for an in cfg["amps"]:
        amps = amps_for(n_ts, s.n_ctrls, an)
        ref = configs.reference(s, tau, amps, rf, sc, cfg["pa"])
        if first:
            dyn.initialize_controls(amps.copy())
            first = False
        else:
            dyn.update_ctrl_amps(amps.copy())
        g = np.array(fc.get_fid_err_gradient())
        gn = fc.grad_norm
        col.execution()
        col.state((sorted(cfg.items(), key=str), an))
        ctx = dict(cfg=cfg, amps=an)
        approx = cfg["fid"] == "TDA"
        col.check(g.shape == (n_ts, s.n_ctrls), "grad:shape", "gradient shape %s" % (g.shape,), **ctx)
        col.check(np.isrealobj(g), "grad:real", "gradient is not real", **ctx)
        smooth = rf not in ("PSU", "SU") or (
            abs(ref.fidelity() - 1) > 1e-9 and (rf == "SU" or abs(ref.overlap()) > 1e-9))
        if smooth:
            want = ref.grad()
            tol = 2e-4 if approx else 1e-7
            if not close(g, want, tol, tol):
                col.fail("grad:value", "gradient differs from the derivative: max diff %.3g (system %s, %s/%s, mode %s)"
                         % (np.max(np.abs(g - want)), cfg["sys"], cfg["prop"], cfg["fid"], cfg["mem"]),
                         got=g, want=want, **ctx)
            col.step(g.size)
            # independent of the reference: central difference of the reported error
            k, j = n_ts - 1, s.n_ctrls - 1
            h = 1e-5
            e = []
            for sg in (1, -1):
                a2 = amps.copy()
                a2[k, j] += sg * h
                dyn.update_ctrl_amps(a2)
                e.append(fc.get_fid_err())
            fd = (e[0] - e[1]) / (2 * h)
            col.check(abs(fd - g[k, j]) <= 5e-4 * max(1, abs(fd)), "grad:selfdiff",
                      "central difference of own error %.6g, gradient %.6g" % (fd, g[k, j]), **ctx)
            dyn.update_ctrl_amps(amps.copy())
        else:
            col.n["nonsmooth_skipped"] += 1
        col.check(close(gn, np.sqrt(np.sum(g ** 2)), 1e-12, 1e-14), "grad:norm", "gradient norm %r" % gn, **ctx)
        # public propagator gradients, when kept
        g2 = fc.get_fid_err_gradient()
        col.check(close(g2, g, 1e-12, 1e-13), "grad:repeat", "repeated query differs", **ctx)
        pg = dyn.prop_grad
        if pg is not None and not approx and dyn.cache_prop_grad:
            for k in range(n_ts):
                for j in range(s.n_ctrls):
                    col.check(close(full(pg[k, j]), ref.dprop(k, j), 1e-7, 1e-8), "prop_grad:value",
                              "propagator gradient (%d,%d) differs (system %s, %s)" % (k, j, cfg["sys"], cfg["prop"]), **ctx)
                    col.step()
        col.validated()
        col.outcome(np.round(g, 6).tobytes())
        col.sample(dict(cfg=cfg, amps=amps, gradient=g))
