"""Hidden Markov models with positive probabilities, and observation sequences."""
import numpy as np
from vlib import *


def models(tag, n, tmax):
    g = rng("hmm", tag)
    for i in range(n):
        T = i + 1 if i < 9 else int(g.integers(1, tmax + 1))
        nx = int(g.integers(2, 6)) if i % 9 else 1 + i % 2
        ny = int(g.integers(1, 6)) if i % 4 else nx
        kind = ["real", "skew", "dyadic", "uniform", "ge", "peaked"][i % 6]
        if kind == "ge":
            from parallel_control import ge_model_np
            m = ge_model_np.GEModel()
            prior, Pi, Po = m.prior, m.Pi, m.Po
            nx, ny = Po.shape
        else:
            def rows(m, n):
                if kind == "dyadic":   # exact ties between paths
                    a = 2.0 ** -g.integers(1, 3, size=(m, n))
                elif kind == "uniform":
                    a = np.ones((m, n))
                elif kind == "peaked":
                    a = 10.0 ** -g.uniform(0, 6, size=(m, n))
                elif kind == "skew":
                    a = g.uniform(0.01, 1, size=(m, n)) ** 3
                else:
                    a = g.uniform(0.1, 1, size=(m, n))
                return a if kind == "dyadic" else a / a.sum(axis=1, keepdims=True)
            prior, Pi, Po = rows(1, nx)[0], rows(nx, nx), rows(nx, ny)
        ys = g.integers(0, ny, size=T)
        yield "%s T=%d n=%d m=%d #%d" % (kind, T, nx, ny, i), prior, Pi, Po, ys


def define(ses, prior, Pi, Po, ys):
    ses.add("model", M=dict(n=len(prior), T=len(ys), prior=enc(prior), Pi=enc(Pi), Po=enc(Po), ys=idx(ys)))
