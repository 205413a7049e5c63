"""Reference expansion of chopped-random-basis pulses."""
import numpy as np

from .pulses import starts


def finite(b):
    return None if b is None or np.isinf(b) else float(b)


def guess_scale(g):
    return 0.0 if g is None else max(np.max(g) - np.min(g), np.max(g))


def squash(p, lb, ub, scaling, nc, guess):
    """the documented smooth limits"""
    lb, ub = finite(lb), finite(ub)
    if lb is None and ub is None:
        return p
    if lb is not None and ub is not None:
        return np.tanh(p) * (ub - lb) / 2 + (ub + lb) / 2
    wide = scaling * nc + guess_scale(guess)
    if lb is None:
        m, s = (0.0, ub) if ub > 0 else (ub - abs(wide), wide)
        return np.where(p > m, np.tanh(p) * s + m, p)
    m, s = (0.0, -lb) if lb < 0 else (lb + abs(wide), wide)
    return np.where(p < m, np.tanh(p) * s + m, p)


def raw(c, freqs, t):
    """c: [num_coeffs, 2 or 3]; third column: frequencies"""
    c = np.asarray(c, dtype=float)
    f = c[:, 2] if c.shape[1] == 3 else np.asarray(freqs, dtype=float)
    return sum(c[i, 0] * np.sin(f[i] * t) + c[i, 1] * np.cos(f[i] * t) for i in range(len(c)))


def pulse(c, freqs, tau, guess=None, action="MODULATE", ramp=None, lb=None, ub=None, scaling=1.0):
    t = starts(tau)
    p = raw(c, freqs, t)
    if guess is not None:
        if action.upper() == "ADD":
            p = p + guess
        elif action.upper() == "MODULATE":
            p = (1.0 + p) * guess
    if ramp is not None:
        p = p * ramp
    return squash(p, lb, ub, scaling, len(c), guess)
