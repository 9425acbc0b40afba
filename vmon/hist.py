"""Forcing histories for the thermal models."""
import numpy as np

KINDS = ("ramp", "step", "pulse", "sine", "walk", "flip", "asym", "late", "north", "south", "big", "tiny", "zero", "noise",
         "huge", "split", "cold", "back")
LIVE = tuple(k for k in KINDS if k not in ("zero", "tiny", "noise"))


def history(rng, kind, n):
    """Yearly hemispheric forcing."""
    t = np.arange(n) / max(n - 1, 1)
    a = rng.uniform(1, 6)
    if kind == "ramp":
        f = a * t
        g = f * rng.uniform(0.5, 1.5)
    elif kind == "step":
        f = np.full(n, a)
        g = np.full(n, a * rng.uniform(0.5, 1.5))
    elif kind == "pulse":
        f = np.zeros(n)
        g = np.zeros(n)
        f[rng.integers(0, n)] = a * 2
        g[rng.integers(0, n)] = -a
    elif kind == "sine":
        f = a * np.sin(2 * np.pi * t * rng.uniform(1, 6))
        g = a * np.cos(2 * np.pi * t * rng.uniform(1, 6))
    elif kind == "walk":
        f = np.cumsum(rng.normal(size=n) * 0.3)
        g = np.cumsum(rng.normal(size=n) * 0.3)
    elif kind == "flip":
        f = np.where(np.arange(n) % 7 < 3, a, -a)
        g = -f * rng.uniform(0.2, 1)
    elif kind == "asym":
        f = a * t
        g = -a * t ** 2
    elif kind == "late":
        f = np.where(t > 0.7, a, 0.0)
        g = np.where(t > 0.85, -a / 2, 0.0)
    elif kind == "north":
        f, g = a * t, np.zeros(n)
    elif kind == "south":
        f, g = np.zeros(n), a * t
    elif kind == "big":
        f = 14 * t
        g = 9 * t + 2
    elif kind == "tiny":
        f = 1e-6 * rng.normal(size=n)
        g = 1e-6 * rng.normal(size=n)
    elif kind == "zero":
        f, g = np.zeros(n), np.zeros(n)
    elif kind == "huge":
        a = rng.uniform(25, 150) * rng.choice([-1, 1])
        f = a * t
        g = f * rng.uniform(0.3, 1.2)
    elif kind == "split":  # the hemispheres driven far apart
        a = rng.uniform(10, 60) * rng.choice([-1, 1])
        f = np.full(n, a)
        g = np.full(n, -a * rng.uniform(0.5, 1.2))
    elif kind == "cold":
        a = rng.uniform(5, 70)
        f = -a * t ** 0.5
        g = -a * t ** 2
    elif kind == "back":  # up and down again through zero
        a = rng.uniform(5, 30)
        f = a * np.sin(2 * np.pi * t)
        g = a * np.sin(2 * np.pi * t * rng.uniform(0.7, 1.4))
    else:
        f = rng.normal(size=n) * 3
        g = rng.normal(size=n) * 3
    return f, g


def volcanoes(rng, n, cols_n, cols_s, on=True):
    if not on:
        return np.zeros((n, 12)), np.zeros((n, 12))
    hit = (rng.random((n, 1)) < 0.35) * 1.0
    vn = -hit * rng.exponential(1.5, (n, 1)) * rng.uniform(0, 1.5, (n, cols_n))
    vs = -hit * rng.exponential(1.0, (n, 1)) * rng.uniform(0, 1.5, (n, cols_s))
    if rng.random() < 0.25:  # sulphur removed: positive volcanic forcing
        vn, vs = -vn * rng.uniform(0.3, 4), -vs * rng.uniform(0.3, 4)
    elif rng.random() < 0.2:  # of both signs, different months
        vn = vn * rng.choice([-1.0, 1.0], vn.shape)
        vs = vs * rng.choice([-1.0, 1.0], vs.shape)
    return vn, vs
