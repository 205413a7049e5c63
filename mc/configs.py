"""The configuration product shared by C02 (evolution) and C03 (gradient)."""
import itertools

import numpy as np
from qutip import Qobj

from .ref import Ref
from .systems import SYSTEMS, TAUS, amps_for, make_optim

EXACT = {"UNIT": ["DIAG", "FRECHET", "AUG_MAT"], "GEN_MAT": ["FRECHET", "AUG_MAT"], "SYMPL": ["FRECHET", "AUG_MAT"]}

# (fid_type, fid_params, ref fid, needs exact prop?)
FIDS = {
    "PSU": ("UNIT", {"phase_option": "PSU"}, "PSU", None),
    "SU": ("UNIT", {"phase_option": "SU"}, "SU", None),
    "TD": ("TRACEDIFF", {}, "TD", None),
    "TDs": ("TRACEDIFF", {"scale_factor": 0.37}, "TD", 0.37),
    "TDA": ("TDAPPROX", {"epsilon": 1e-6}, "TD", None),
}

MEM = {
    "def": {},
    "nd": {"oper_dtype": "nd"},
    "nd_nophase": {"oper_dtype": "nd", "cache_phased_dyn_gen": False},
    "nd_nograd": {"oper_dtype": "nd", "cache_prop_grad": False},
    "nd_noadj": {"oper_dtype": "nd", "cache_dyn_gen_eigenvectors_adj": False},
    "nd_none": {"oper_dtype": "nd", "cache_phased_dyn_gen": False, "cache_prop_grad": False,
                "cache_dyn_gen_eigenvectors_adj": False},
    "nd_mem1": {"oper_dtype": "nd", "memory_optimization": 1},
    "q": {"oper_dtype": "q"},
    "q_nophase": {"oper_dtype": "q", "cache_phased_dyn_gen": False},
    "q_nograd": {"oper_dtype": "q", "cache_prop_grad": False},
    "q_noadj": {"oper_dtype": "q", "cache_dyn_gen_eigenvectors_adj": False},
    "q_none": {"oper_dtype": "q", "cache_phased_dyn_gen": False, "cache_prop_grad": False,
               "cache_dyn_gen_eigenvectors_adj": False},
    "mem1": {"memory_optimization": 1},
    "mem2": {"memory_optimization": 2},
    "q_sparse": {"oper_dtype": "q", "sparse_eigen_decomp": True},
}
MEM_QUICK = ["def", "nd_none", "q", "mem1"]
MEM_MID = ["nd_nophase", "nd_nograd", "nd_noadj", "q_none", "mem2"]


def dyn_params(mem):
    d = dict(MEM[mem])
    if "oper_dtype" in d:
        d["oper_dtype"] = np.ndarray if d["oper_dtype"] == "nd" else Qobj
    return d


def methods(kind, is_unitary_like):
    out = []
    for p in EXACT[kind]:
        for f in ("PSU", "SU", "TD", "TDs"):
            if f in ("PSU", "SU") and not is_unitary_like:
                continue
            out.append((p, f))
    out.append(("APPROX", "TDA"))
    if is_unitary_like:
        out.append(("APPROX", "PSU"))
    out.append(("DEF", "DEF"))
    return out


UNITARY_LIKE_G = ("g_c", "g_ket")


def product(tier):
    """yields config dicts; simplest first"""
    quick = tier == "quick"
    for sname, s in SYSTEMS.items():
        ul = s.kind == "UNIT" or sname in UNITARY_LIKE_G
        taus = ["eq1", "eq2", "uneq3"] if quick else ["eq1", "eq2", "uneq2", "eq3", "uneq3", "uneq4"]
        amps = ["a", "z", "m"] if quick else ["a", "z", "m", "s"]
        for tname in taus:
            for td, tc in ((0, 0), (1, 0), (0, 1), (1, 1)):
                if quick and tname == "eq2" and (td or tc):
                    continue
                if quick and tname == "eq1" and (td ^ tc):
                    continue
                for p, f in methods(s.kind, ul):
                    for mem in (MEM_QUICK + MEM_MID if quick else list(MEM)):
                        if (mem in ("mem2", "q_sparse")) and s.dim <= 2:
                            continue  # documented as rejected
                        if quick and tname != "uneq3" and mem in MEM_MID:
                            continue
                        for pa in (("postop", "preop") if s.kind == "SYMPL" else ("postop",)):
                            yield dict(sys=sname, tau=tname, td=td, tc=tc, prop=p, fid=f, mem=mem, pa=pa,
                                       amps=(amps if tname == "uneq3" or not quick else amps[:2]) + (["e", "f"] if s.kind == "UNIT" and tname == "uneq3" else []))


def build(cfg, tier=None):
    s0 = SYSTEMS[cfg["sys"]]
    tau = TAUS[cfg["tau"]]
    s = s0.with_time(cfg["td"], cfg["tc"], len(tau))
    ft = "DEF"
    fp = None
    if cfg["fid"] != "DEF":
        ft, fp, rf, sc = FIDS[cfg["fid"]]
        fp = dict(fp)
    else:
        rf, sc = ("PSU" if s.kind == "UNIT" else "TD"), None
    dp = dyn_params(cfg["mem"])
    if s.kind == "SYMPL" and cfg["pa"] == "preop":
        dp["phase_application"] = "preop"
    optim = make_optim(s, tau, fid=ft, prop=cfg["prop"], dyn_params=dp, fid_params=fp)
    return s, tau, optim, rf, sc


def reference(s, tau, amps, rf, sc, pa="postop"):
    return Ref(s.kind, s.drift, s.ctrls, s.initial, s.target, amps, tau, fid=rf, scale=sc, phase_app=pa)
