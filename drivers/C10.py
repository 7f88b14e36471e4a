from vlib import *
import lqt_gen as G
from parallel_control import lqt_np


def build(tr):
    n = 48 if not THOROUGH else 300
    g = rng("C10")
    for i in range(n):
        nx, nu = (1, 1) if i == 0 else (int(g.integers(1, 5)), int(g.integers(1, 4)))
        F = g.normal(size=(nx, nx))
        F *= [0.7, 1.0, 1.2][i % 3] / max(1e-9, np.max(np.abs(np.linalg.eigvals(F))))
        L = g.normal(size=(nx, nu))
        X = G.sym(G.spd(g, nx))
        U = G.sym(G.spd(g, nu))
        XT = G.sym(G.spd(g, nx, 0.0, 4.0)) if i % 4 else np.zeros((nx, nx))
        if i % 5 == 4 and nx > 1:  # only some directions cost anything
            w = g.normal(size=(nx, 1))
            X = w @ w.T
        if i % 8 == 7:
            F, L, X, U, XT = [np.round(2 * a).astype(int) for a in (F, L, X, U, XT)]
            X, U, XT = X @ X.T, U @ U.T + np.eye(nu, dtype=int), XT @ XT.T
            F = np.tril(F, -1) + np.eye(nx, dtype=int)
        ses = tr.session("n=%d m=%d #%d" % (nx, nu, i))
        zn = np.zeros(nx)
        ses.add("problem", P=dict(T=1, n=nx, m=nu, F=enc([F]), L=enc([L]), X=enc([X]), U=enc([U]), c=enc([zn]), H=enc([np.eye(nx)]), r=enc([zn]),
                                  Z=enc([np.eye(nu)]), s=enc([np.zeros(nu)]), M=enc([np.zeros((nx, nu))]), XT=enc(XT), HT=enc(np.eye(nx)), rT=enc(zn)))
        lqr = lqt_np.LQR(F, L, X, U, XT)
        sk = lambda r: dict(K=enc(r[0]), S=enc(r[1]))
        fw = lambda r: dict(us=enc(r[0]), xs=enc(r[1]))
        for T in [1, 2 + i % 7] if not THOROUGH else [1, 2, 3, 2 + i % 30]:
            for how in ("seq", "par"):
                r = ses.call("reg_backward", lambda: getattr(lqr, how + "BackwardPass")(T), sk, T=T, how=how)
                x0 = 2 * g.normal(size=nx)
                Ks = [0.3 * g.normal(size=(nu, nx)) for _ in range(T)]
                for how2 in ("seq", "par"):
                    for KK in [Ks] + ([r[0]] if r is not None else []):
                        ses.call("reg_forward", lambda: getattr(lqr, how2 + "ForwardPass")(x0, KK), fw, x0=enc(x0), K=enc(KK), how=how2)
        for steps in [1, 2, 3 + i % 5]:
            ses.call("reg_iter", lambda: lqr.lqrIter(steps), sk, steps=steps)
        for steps in [0, 1, 2, 3] if not THOROUGH else [0, 1, 2, 3, 4, 5, 6]:
            ses.call("reg_double", lambda: lqr.lqrDouble(steps), sk, steps=steps)
        r = None
        # stabilisable and detectable with a margin, so that everything converges fast
        def margin(A, B):
            return min(np.linalg.svd(np.hstack([A - lam * np.eye(nx), B]), compute_uv=False)[-1] for lam in np.linalg.eigvals(A) if abs(lam) > 0.9) if np.any(np.abs(np.linalg.eigvals(A)) > 0.9) else 1
        if margin(F, L) > 0.2 and margin(F.T.astype(float), np.real(X).astype(float)) > 0.2:
            r = ses.call("dare", lambda: lqr.lqrDare(), sk)
            if r is not None:
                kd = dict(Kd=enc(r[0]), Sd=enc(r[1]))
                ses.call("limit", lambda: lqr.lqrIter(400), sk, how="iter", **kd)
                ses.call("limit", lambda: lqr.lqrDouble(9), sk, how="double", **kd)
    for i in range(3):
        d = G.unstable(rng("long", i), 1)
        F, L, X, U = [d[k][0] for k in "FLXU"]
        zn = np.zeros(3)
        ses = tr.session("long unstable #%d" % i)
        ses.add("problem", P=dict(T=1, n=3, m=2, F=enc([F]), L=enc([L]), X=enc([X]), U=enc([U]), c=enc([zn]), H=enc([np.eye(3)]), r=enc([zn]),
                                  Z=enc([np.eye(2)]), s=enc([np.zeros(2)]), M=enc([np.zeros((3, 2))]), XT=enc(X), HT=enc(np.eye(3)), rT=enc(zn)))
        lqr = lqt_np.LQR(F, L, X, U, X)
        r = ses.call("dare", lambda: lqr.lqrDare(), sk)
        if r is not None:
            kd = dict(Kd=enc(r[0]), Sd=enc(r[1]))
            for how, fn in [("iter", lambda: lqr.lqrIter(500)), ("double", lambda: lqr.lqrDouble(9)),
                            ("seq", lambda: [a[0] for a in lqr.seqBackwardPass(500)]), ("par", lambda: [a[0] for a in lqr.parBackwardPass(500)])]:
                ses.call("limit", fn, sk, how=how, **kd)


main(build)
