from clqt_gen import *
from parallel_control import clqt_np


def track(tr, g, i):
    n = [1, 2, 3, 2, 2][i % 5]; m = [1, 1, 2, 2, 3][i % 5]; p = int(g.integers(1, 3))
    q = tracker(g, n, m, p, [2, 0, 1, 3, 2][i % 5])
    ses = tr.session("tracker #%d" % i)
    ses.add("problem", P=enc_tracker(q))
    C = clqt_np.CLQT(q["F"], q["L"], q["X"], q["U"], q["XT"], q["c"], q["H"], q["r"], q["HT"], q["rT"], q["T"])
    ST = q["HT"].T @ q["XT"] @ q["HT"]; vT = q["HT"].T @ q["XT"] @ q["rT"]
    x0 = g.normal(size=n)
    x0 = g.integers(-2, 3, size=n) if i % 4 == 3 else x0
    bout = lambda r: dict(K=enc(r[0]), d=enc(r[1]), S=enc(r[2]), v=enc(r[3]))
    fout = lambda r: dict(us=enc(r[0]), xs=enc(r[1]))
    for j, (blocks, steps) in enumerate([(1, 1), (3, 2), (2, 3), (5, 1), (1, 4), (4, 2), (7, 1)] if not THOROUGH else
                                        [(b, s) for b in (1, 2, 3, 4, 5, 6, 8, 9) for s in (1, 2, 3, 5) if b * s <= 24]):
        N = blocks * steps
        own = (i + j) % 3 == 0                     # the defaults, or explicit dt and t0
        t0 = 0.0 if own else float(g.choice([0.0, 0.3, -0.2]))
        dt = q["T"] / N if own else float(g.choice([0.05, 0.1]))
        kw = {} if own else dict(dt=dt, t0=t0)
        if not own and (i + j) % 3 == 1:
            kw.pop("t0"); t0 = 0.0
        fw = bool(g.integers(2)); zoh = bool(g.integers(2))
        T = dict(dt=num(dt), t0=num(t0), steps=steps, blocks=blocks)
        T1 = dict(dt=num(dt), t0=num(t0), steps=N, blocks=1)
        S1, v1 = (ST, vT) if j % 2 else (psd(g, n), g.normal(size=n))
        ses.call("backward", lambda: C.seqBackwardPass(N, **kw, **({} if j % 2 else dict(S=S1, v=v1))), bout, how="seq", fw=fw, S1=enc(S1), v1=enc(v1), **T1)
        r = ses.call("backward", lambda: C.parBackwardPass(blocks, steps, forward=fw, **kw), bout, how="par", fw=fw, S1=enc(ST), v1=enc(vT), **T)
        if r is None:
            continue
        K, d, S, v = r
        if j % 2:                                  # any law, not only the optimal one
            K = [k + 0.3 * g.normal(size=k.shape) for k in K]; d = [e + 0.3 * g.normal(size=e.shape) for e in d]
        L = dict(K=enc(K), d=enc(d), x0=enc(x0))
        ses.call("forward", lambda: C.seqForwardPass(x0, K, d, u_zoh=zoh, **kw), fout, how="seq", zoh=zoh, fw=fw, **T1, **L)
        f2 = not fw
        ses.call("forward", lambda: C.parForwardPass(x0, K, d, blocks, steps, forward=f2, u_zoh=zoh, **kw), fout, how="par", zoh=zoh, fw=f2, **T, **L)
        A0, b0, C0 = np.zeros((n, n)), x0, np.zeros((n, n))
        ini = {}
        if j % 2:
            A0, b0, C0 = g.normal(size=(n, n)), g.normal(size=n), psd(g, n)
            ini = dict(A=A0, b=b0, C=C0)
        w = ses.call("values", lambda: C.seqFwdBwdPass(x0, N, **kw, **ini), lambda r: dict(A=enc(r[0]), b=enc(r[1]), C=enc(r[2])), A0=enc(A0), b0=enc(b0), C0=enc(C0), **T1)
        if w is None:
            continue
        B = dict(S=enc(S), v=enc(v), **L)
        ses.call("meet", lambda: C.combineForwardBackward(K, d, S, v, *w), fout, how="seq", A=enc(w[0]), b=enc(w[1]), C=enc(w[2]), **T1, **B)
        ses.call("meet", lambda: C.parFwdBwdPass(x0, K, d, S, v, blocks, steps, forward=fw, **kw), fout, how="par", fw=fw, **T, **B)
        if j in (1, 2):
            ses.call("elements", lambda: C.parBackwardPass_init(blocks, steps, forward=f2, **kw), lambda r: dict(elems=[elem(e) for e in r]), side="end", fw=f2, x0=enc(x0), **T)
            ses.call("elements", lambda: C.parFwdBwdPass_init(x0, blocks, steps, forward=f2, **kw), lambda r: dict(elems=[elem(e) for e in r]), side="start", fw=f2, x0=enc(x0), **T)


def regulate(tr, g, i):
    n = [2, 1, 3][i % 3]; m = [1, 1, 2][i % 3]
    q = regulator(g, n, m, ["", "int", "noterm", ""][i % 4])
    ses = tr.session("regulator #%d" % i)
    ses.add("problem", P=enc_regulator(q))
    C = clqt_np.CLQR(q["F"], q["L"], q["X"], q["U"], q["XT"], q["T"])
    x0 = g.normal(size=n) if i % 4 != 1 else g.integers(-2, 3, size=n)
    z = lambda N: enc(np.zeros((N, m)))
    fout = lambda r: dict(us=enc(r[0]), xs=enc(r[1]))
    def bout(N):
        return lambda r: dict(K=enc(r[0]), d=z(N), S=enc(r[1]), v=enc(np.zeros((N + 1, n))))
    for j, (blocks, steps) in enumerate([(1, 1), (2, 2), (5, 1), (3, 2), (1, 3)] if not THOROUGH else
                                        [(b, s) for b in (1, 2, 3, 4, 5, 6, 8, 9) for s in (1, 2, 3, 5) if b * s <= 20]):
        N = blocks * steps
        own = j % 2 == 0
        dt0 = q["T"] / N
        dt = dt0 if own else 0.08
        kw = {} if own else dict(dt=dt)
        T = dict(dt=num(dt0), t0="0", steps=steps, blocks=blocks)       # the parallel passes use the default step
        T1 = dict(dt=num(dt), t0="0", steps=N, blocks=1)
        S1 = q["XT"] if j % 2 else psd(g, n)
        sk = {} if j % 2 else dict(S=S1)
        for how in ("seq", "exact"):
            ses.call("backward", lambda: C.seqBackwardPass(N, **kw, **sk, method="rk4" if how == "seq" else "exact"), bout(N), how=how, fw=False, S1=enc(S1), v1=enc(np.zeros(n)), **T1)
        r = None
        for how in ("par-exact", "par"):
            r = ses.call("backward", lambda: C.parBackwardPass(blocks, steps, extract_method="rk4" if how == "par" else "exact"), bout(N), how=how, fw=False, S1=enc(q["XT"]), v1=enc(np.zeros(n)), **T)
        if r is None:
            continue
        K, S = r
        if j % 2:
            K = [k + 0.3 * g.normal(size=k.shape) for k in K]
        L = dict(K=enc(K), d=z(N), x0=enc(x0))
        zoh = bool((i + j) % 2)
        for how in ("seq", "exact"):
            ses.call("forward", lambda: C.seqForwardPass(x0, K, u_zoh=zoh, method="rk4" if how == "seq" else "exact", **kw), fout, how=how, zoh=zoh, fw=False, **T1, **L)
        ses.call("forward", lambda: C.parForwardPass(x0, K, blocks, steps, u_zoh=zoh), fout, how="par", zoh=zoh, fw=True, **T, **L)
        A0, b0, C0 = np.zeros((n, n)), x0, np.zeros((n, n))
        ini = {}
        if j % 2:
            A0, b0, C0 = g.normal(size=(n, n)), g.normal(size=n), psd(g, n)
            ini = dict(A=A0, b=b0, C=C0)
        w = ses.call("values", lambda: C.seqFwdBwdPass(x0, N, **kw, **ini), lambda r: dict(A=enc(r[0]), b=enc(r[1]), C=enc(r[2])), A0=enc(A0), b0=enc(b0), C0=enc(C0), **T1)
        if w is None:
            continue
        B = dict(S=enc(S), v=enc(np.zeros((N + 1, n))), **L)
        ses.call("meet", lambda: C.combineForwardBackward(K, S, *w), fout, how="seq", A=enc(w[0]), b=enc(w[1]), C=enc(w[2]), **T1, **B)
        ses.call("meet", lambda: C.parFwdBwdPass(x0, K, S, blocks, steps), fout, how="par", fw=True, **T, **B)
        # from either end
        for f in (False, True):
            ses.call("elements", lambda: C.parBackwardPass_init(blocks, steps, forward=f), lambda r: dict(elems=[elem(e) for e in r]), side="end", fw=f, x0=enc(x0), **T)
            if j < 2:
                ses.call("elements", lambda: C.parFwdBwdPass_init(x0, blocks, steps, forward=f), lambda r: dict(elems=[elem(e) for e in r]), side="start", fw=f, x0=enc(x0), **T)
        def flow():
            es = C.parForwardPass_init(x0, K, blocks, steps, forward=False)
            return C.parForwardPass_extract(K, clqt_np.lqt_np.par_forward_pass_scan(es), steps)
        ses.call("forward", flow, fout, how="par", zoh=False, fw=False, **T, **L)


def build(tr):
    for i in range(10 if not THOROUGH else 60):
        if mine(i):
            track(tr, rng("C15 track", i), i)
    for i in range(8 if not THOROUGH else 48):
        if mine(i):
            regulate(tr, rng("C15 reg", i), i)


main(build)
