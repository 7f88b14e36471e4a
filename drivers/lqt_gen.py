"""Linear quadratic tracking problems: convex, moderately conditioned."""
import numpy as np
from vlib import *
from parallel_control import lqt_np


def spd(g, n, lo=0.5, hi=3.0):
    q, _ = np.linalg.qr(g.normal(size=(n, n)))
    return (q * g.uniform(lo, hi, size=n)) @ q.T


def sym(a):
    return 0.5 * (a + a.T)


def problem(g, T, n, m, p, pT=None, tv=True, cross=True, Z=True, s=True, rankdef=False, sparse=True):
    """Per-stage lists of a convex problem. rankdef: some state directions carry no stage cost."""
    pT = p if pT is None else pT
    out = {k: [] for k in "FLXUcHrZsM"}
    for k in range(T):
        if k and not tv:
            for key in out:
                out[key].append(out[key][0])
            continue
        F = g.normal(size=(n, n))
        F *= g.uniform(0.4, 1.1) / max(1e-9, np.max(np.abs(np.linalg.eigvals(F))))
        L = g.normal(size=(n, m))
        X = sym(spd(g, p))
        if rankdef:
            w = g.normal(size=(p, 1))
            X = w @ w.T
        U = sym(spd(g, m, 0.5, 2.0))
        H = g.normal(size=(p, n))
        # keep [X M; M' U] positive definite
        M = 0.4 * np.linalg.cholesky(X + 1e-9 * np.eye(p)) @ g.uniform(-1, 1, size=(p, m)) @ np.linalg.cholesky(U).T / np.sqrt(p * m) if cross else np.zeros((p, m))
        z = spd(g, m, 0.6, 1.6) @ np.diag(g.choice([-1, 1], size=m)) if Z else np.eye(m)
        if Z and m > 1:
            z = z + 0.2 * np.triu(g.normal(size=(m, m)), 1)
        vals = dict(F=F, L=L, X=X, U=U, c=g.normal(size=n), H=H, r=2 * g.normal(size=p), Z=z, s=g.normal(size=m) if s else np.zeros(m), M=M)
        for key in out:
            out[key].append(vals[key])
    if T > 1 and sparse:
        # every parameter is constant or varying on its own, or vanishes at some stages
        for key in out:
            w = int(g.integers(0, 7))
            if w == 0 and key != "M":
                out[key] = [out[key][0]] * T
            elif w == 1 and key in "crsMX":
                for k in range(T):
                    if (g.random() < 0.5 or k == 0) and not (key == "X" and cross):
                        out[key][k] = 0 * out[key][k]
            elif w == 2 and T > 2:   # the same objects come back
                q = int(g.integers(2, 4))
                out[key] = [out[key][k % q] for k in range(T)]
        if cross:   # X, U may now be those of another stage: scale the cross weights down until the cost is convex again
            for k in range(T):
                for _ in range(12):
                    w = np.block([[out["X"][k], out["M"][k]], [out["M"][k].T, out["U"][k]]])
                    if np.linalg.eigvalsh(w)[0] > 0.05 * np.linalg.eigvalsh(out["U"][k])[0]:
                        break
                    out["M"][k] = 0.5 * out["M"][k]
                else:
                    out["M"][k] = 0 * out["M"][k]
    HT = g.normal(size=(pT, n))
    XT = sym(spd(g, pT))
    rT = g.normal(size=pT)
    return dict(out, HT=HT, XT=XT, rT=rT)


def make(d):
    return lqt_np.LQT.checkAndExpand(d["F"], d["L"], d["X"], d["U"], d["XT"], d["c"], d["H"], d["r"], d["HT"], d["rT"], d["Z"], d["s"], d["M"])


def define(ses, d):
    T, n, m = len(d["F"]), d["F"][0].shape[0], d["L"][0].shape[1]
    P = dict(T=T, n=n, m=m)
    for k in "FLXUcHrZsM":
        P[k] = enc(d[k])
    for k in ("HT", "XT", "rT"):
        P[k] = enc(d[k])
    ses.add("problem", P=P)


def shapes(g, i, tmax, nmax=4, mmax=3):
    base = [(1, 1, 1, 1), (1, 2, 1, 2), (2, 1, 1, 1), (2, 2, 2, 1), (3, 2, 1, 2), (4, 3, 2, 2), (5, 2, 2, 3), (7, 2, 1, 1), (8, 2, 1, 2), (9, 1, 2, 1)]
    if i < len(base):
        return base[i]
    return int(g.integers(1, tmax + 1)), int(g.integers(1, nmax + 1)), int(g.integers(1, mmax + 1)), int(g.integers(1, nmax + 1))


def bw(r, law=True, vals=True):
    e = dict(K=enc(r[0]), d=enc(r[1]), law=law, vals=vals)
    if vals:
        e.update(S=enc(r[2]), v=enc(r[3]))
    return e


def unstable(g, T):
    """A time-invariant problem with three unstable modes and two controls."""
    while True:
        A = np.diag([2.4, 2.1, 1.8])
        S = g.normal(size=(3, 3))
        F = S @ A @ np.linalg.inv(S)
        if np.linalg.cond(S) < 8:
            break
    L = S @ g.normal(size=(3, 2))
    one = dict(F=F, L=L, X=sym(spd(g, 3)), U=sym(spd(g, 2)), c=0.1 * g.normal(size=3), H=np.eye(3), r=g.normal(size=3), Z=np.eye(2), s=np.zeros(2), M=np.zeros((3, 2)))
    return dict({k: [v] * T for k, v in one.items()}, HT=np.eye(3), XT=np.eye(3), rT=np.zeros(3))
