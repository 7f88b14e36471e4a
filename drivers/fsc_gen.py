"""Instances of finite-state control problems."""
import itertools
import numpy as np
from vlib import *


def problems(tag, n, tmax, nxmax, numax):
    """Yields (label, f, L, LT, x0s): per-stage lists; deterministic in the seed."""
    g = rng("fsc", tag)
    # boundary shapes first
    shapes = [(1, 1, 1), (1, 2, 1), (1, 1, 2), (1, 2, 2), (2, 1, 1), (2, 2, 2), (3, 2, 2), (4, 3, 2), (7, 2, 3), (8, 3, 3), (9, 2, 2), (5, 4, 3)]
    for i in range(n):
        if i < len(shapes):
            T, nx, nu = shapes[i]
        else:
            T = int(g.integers(1, tmax + 1))
            nx = int(g.integers(1, nxmax + 1))
            nu = int(g.integers(1, numax + 1))
        kind = ["int", "real", "neg", "ties", "intdtype", "big", "mixed", "chain"][i % 8]
        tv = i % 3 != 1
        f = [g.integers(0, nx, size=(nx, nu)) for _ in range(T if tv else 1)]
        if kind == "chain":   # banded moves: many unreachable states
            base = np.clip(np.arange(nx)[:, None] + np.arange(nu)[None, :] - (nu // 2), 0, nx - 1)
            f = [base.copy() for _ in f]
        if i % 5 == 4:
            f = [a.astype(np.int32) for a in f]
        if not tv:
            f = f * T
        lo, hi = {"int": (0, 10), "real": (0, 1), "neg": (-5, 5), "ties": (0, 2), "intdtype": (-3, 8), "big": (1e6, 1e11), "mixed": (-1, 100), "chain": (0, 3)}[kind]
        if kind in ("int", "ties"):
            L = [g.integers(lo, hi, size=(nx, nu)).astype(float) for _ in range(T)]
            LT = g.integers(lo, hi, size=nx).astype(float)
        elif kind == "intdtype":
            L = [g.integers(lo, hi, size=(nx, nu)) for _ in range(T)]
            LT = g.integers(lo, hi, size=nx)
            if i % 16 >= 8:  # integer stage costs with a real terminal cost
                LT = LT + g.integers(0, 4, size=nx) / 4.0
        else:
            L = [g.uniform(lo, hi, size=(nx, nu)) for _ in range(T)]
            LT = g.uniform(lo, hi, size=nx)
        x0s = sorted(set([0, nx - 1, int(g.integers(0, nx))]))
        yield "%s T=%d nx=%d nu=%d #%d" % (kind, T, nx, nu, i), f, L, LT, x0s


def tiny(n):
    """A spread of all problems with T=1..2 and two states and controls, costs 0/1."""
    g = rng("fsc-tiny")
    tabs = list(itertools.product([0, 1], repeat=4))
    for j in range(n):
        T = 1 + j % 2
        f = [np.array(tabs[g.integers(16)]).reshape(2, 2) for _ in range(T)]
        L = [np.array(tabs[g.integers(16)], float).reshape(2, 2) for _ in range(T)]
        LT = np.array(tabs[g.integers(16)][:2], float)
        yield "tiny T=%d #%d" % (T, j), f, L, LT, [0, 1]


def define(ses, f, L, LT):
    T = len(f)
    nx, nu = f[0].shape
    scale = max([abs(np.asarray(a)).max() for a in L] + [abs(np.asarray(LT)).max()])
    ses.add("problem", P=dict(T=T, nx=int(nx), nu=int(nu), f=idx(f), L=enc(L), LT=enc(LT), scale=num(float(scale))))
