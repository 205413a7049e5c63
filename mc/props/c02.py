"""C02: evolution is the exact ordered product of slot propagators."""
import numpy as np
from qutip import Qobj

from .. import configs
from ..ref import close, omega
from ..systems import amps_for

META = dict(
    rule="every configuration of the product (system x slots x time-dependence x propagator x fidelity measure x "
         "representation/caching x phase application) is built through the public entry point and run for every "
         "amplitude pattern; a state is one (configuration, pattern) evolution, a transition one slot step compared "
         "with the reference; outcomes are distinct final evolutions",
    bounds=lambda tier: dict(dim="2..4", slots="1..3" if tier == "quick" else "1..4", controls="1..3",
                             memory_modes=len(configs.MEM_QUICK + configs.MEM_MID) if tier == "quick" else len(configs.MEM)),
    assumptions=["scipy.linalg.expm is correct to 1e-10 on 8x8 matrices",
                 "operators outside the alphabet behave like those inside it"],
)


def cases(tier):
    return list(configs.product(tier))


def full(x):
    return x.full() if isinstance(x, Qobj) else np.asarray(x)


def run_case(cfg, col):
    s, tau, optim, rf, sc = configs.build(cfg)
    dyn = optim.dynamics
    n_ts = len(tau)
    first = True
    for an in cfg["amps"]:
        amps = amps_for(n_ts, s.n_ctrls, an)
        ref = configs.reference(s, tau, amps, rf, sc, cfg["pa"])
        if first:
            dyn.initialize_controls(amps.copy())
            first = False
        else:
            dyn.update_ctrl_amps(amps.copy())
        dyn.fid_computer.get_fid_err()
        col.execution()
        col.state((sorted(cfg.items(), key=str), an))
        ctx = dict(cfg=cfg, amps=an)

        def cmp(name, got, want, tol=1e-8):
            ok = len(got) == len(want) and all(close(full(g), w, rtol=tol, atol=tol) for g, w in zip(got, want))
            if not ok:
                col.fail("%s:%s" % (name, "len" if len(got) != len(want) else "value"),
                         "%s differs from the reference (system %s, %s/%s, mode %s)"
                         % (name, cfg["sys"], cfg["prop"], cfg["fid"], cfg["mem"]), **ctx)
            for g in got:
                if not isinstance(g, Qobj):
                    col.fail(name + ":type", "%s entry is %r, not a Qobj" % (name, type(g)), **ctx)
                    break
            col.step(len(want))

        cmp("dyn_gen", dyn.dyn_gen, [ref.gen(k) for k in range(n_ts)])
        cmp("prop", dyn.prop, ref.props())
        cmp("fwd_evo", dyn.fwd_evo, ref.fwd())
        if dyn.fid_computer.uses_onwd_evo:
            cmp("onwd_evo", dyn.onwd_evo, ref.onwd())
        if dyn.fid_computer.uses_onto_evo:
            cmp("onto_evo", dyn.onto_evo, ref.onto())
            cmp("onto_evo_target", [dyn.onto_evo_target], [ref.onto_target()])
        cmp("full_evo", [dyn.full_evo], [ref.fwd()[-1]])
        col.check(dyn.full_evo.dims == s.q(s.initial).dims, "full_evo:dims",
                  "full_evo dims %s, initial dims %s" % (dyn.full_evo.dims, s.q(s.initial).dims), **ctx)
        for p in dyn.prop:
            col.check(p.dims == s.q(ref.prop(0)).dims, "prop:dims", "prop dims %s" % (p.dims,), **ctx)
        if s.kind == "UNIT":
            for p in dyn.prop:
                u = full(p)
                col.check(close(u.dot(u.conj().T), np.eye(len(u)), 1e-9, 1e-9), "prop:unitary",
                          "propagator not unitary", **ctx)
        if s.kind == "SYMPL":
            om = omega(s.dim // 2)
            for p in dyn.prop:
                u = full(p)
                lhs = u.T.dot(om).dot(u)
                # expm(dg.(-Om)) preserves Om under congruence by the transpose
                rhs = u.dot(om).dot(u.T)
                col.check(close(lhs, om, 1e-9, 1e-9) and close(rhs, om, 1e-9, 1e-9), "prop:symplectic",
                          "propagator not symplectic", **ctx)
            col.check(close(full(dyn.omega), om), "omega", "symplectic form differs", **ctx)
        col.check(close(np.asarray(dyn.time), np.concatenate([[0], np.cumsum(tau)])), "time", "time grid", **ctx)
        col.validated()
        col.outcome(np.round(full(dyn.full_evo), 6).tobytes())
        col.sample(dict(cfg=cfg, amps=amps, full_evo=full(dyn.full_evo).round(4).tolist()
                        if not np.iscomplexobj(full(dyn.full_evo)) else str(full(dyn.full_evo).round(4).tolist())))
