"""Reference waveforms of the initial pulse types (independent of the code), and slot layouts."""
import numpy as np

TYPES = ["ZERO", "LIN", "SINE", "SQUARE", "SAW", "TRIANGLE", "GAUSSIAN", "GAUSSIAN_EDGE", "RND", "RNDFOURIER", "RNDWAVES",
         "RNDWALK1", "RNDWALK2"]
PERIODIC = ["SINE", "SQUARE", "SAW", "TRIANGLE"]
RANDOM = ["RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2"]

# layouts: name -> (how, durations)
LAYOUTS = {
    "dyn_eq": [0.3] * 5,
    "dyn_one": [0.8],
    "dyn_tau": [0.2, 0.7, 0.1, 0.45, 0.33],
    "alone_n": [0.4] * 4,
    "alone_tau": [0.15, 0.6, 0.25, 0.4],
    "alone_list": [0.5, 0.25, 0.125],
    "alone_def": [0.01] * 100,
}


def layout_params(name):
    tau = LAYOUTS[name]
    if name == "alone_n":
        return dict(num_tslots=len(tau), pulse_time=float(np.sum(tau)))
    if name == "alone_tau":
        return dict(tau=np.array(tau))
    if name == "alone_list":
        return dict(tau=list(tau))
    return {}


def dyn_for(name, dyn_params=None):
    """a Dynamics object as the entry points make it, or None"""
    if not name.startswith("dyn"):
        return None
    from . import systems as S
    import qutip_qtrl.pulseoptim as po

    s = S.SYSTEMS["u_z_x"]
    tau = LAYOUTS[name]
    kw = dict(tau=np.array(tau)) if name == "dyn_tau" else dict(num_tslots=len(tau), evo_time=float(np.sum(tau)))
    o = po.create_pulse_optimizer(s.qdrift(), s.qctrls(), s.q(s.initial), s.q(s.target), dyn_type="UNIT", init_pulse_type="ZERO",
                                  dyn_params=dyn_params, **kw)
    return o.dynamics


def starts(tau):
    return np.concatenate([[0.0], np.cumsum(np.asarray(tau, dtype=float))])[:-1]


def phase_wave(kind, phi):
    if kind == "SINE":
        return np.sin(phi)
    if kind == "SQUARE":
        return np.where(np.sin(phi) >= 0, 1.0, -1.0)
    if kind == "SAW":
        return np.arctan2(np.sin(phi), np.cos(phi)) / np.pi
    if kind == "TRIANGLE":
        return 2 / np.pi * np.arcsin(np.clip(np.sin(phi), -1, 1))
    raise KeyError(kind)


def jumps(kind, phi, eps=2e-4):
    """slots at which the wave form jumps (either value is right)"""
    if kind == "SQUARE":
        return np.abs(np.sin(phi)) < eps
    if kind == "SAW":
        return (np.abs(np.sin(phi)) < eps) & (np.cos(phi) < 0)
    return np.zeros(len(phi), dtype=bool)


class Stream:
    def __init__(self, vals, rest=0.5):
        self.v, self.i, self.rest = list(vals), 0, rest

    def __call__(self):
        self.i += 1
        return self.v[self.i - 1] if self.i <= len(self.v) else self.rest


def random_wave(kind, tau, T, p, scaling, r):
    """the documented random pulse for the stream of draws r (uniform in [0,1))"""
    t = starts(tau)
    n = len(tau)
    if kind == "RND":
        return scaling * np.array([2 * r() - 1 for _ in range(n)])
    if kind == "RNDFOURIER":
        w, wl = 2.0 * T, []
        while w > p["min_wavelen"]:
            wl.append(w)
            w /= 2
        out = np.zeros(n)
        for w in wl:
            a, ph = np.sqrt(8) * scaling / len(wl) * (2 * r() - 1), r() * np.pi / 2
            out += a * np.sin(2 * np.pi * t / w + ph)
        return out
    if kind == "RNDWAVES":
        out = np.zeros(n)
        for _ in range(p["num_comp_waves"]):
            a, ph = np.sqrt(8) * scaling / p["num_comp_waves"] * (2 * r() - 1), r() * np.pi / 2
            w = p["min_wavelen"] + r() * (p["max_wavelen"] - p["min_wavelen"])
            out += a * np.sin(2 * np.pi * t / w + ph)
        return out
    a = scaling * (2 * r() - 1)
    out = []
    if kind == "RNDWALK1":
        for _ in range(n):
            out.append(a)
            a += (2 * r() - 1) * p["max_d_amp"] * scaling
        return np.array(out)
    if kind == "RNDWALK2":
        g = 0.0
        for _ in range(n):
            out.append(a)
            g += (2 * r() - 1) * p["max_d2_amp"] * scaling
            a += g
        return np.array(out)
    raise KeyError(kind)
