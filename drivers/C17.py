from clqt_gen import *
from parallel_control import clqt_np, parareal_clqt_np

HORIZONS = (1.5, 2.5, 4.0)               # long blocks, so that coarse and fine steps differ visibly


def tame(q, blocks):
    """Coarse steps neither diverge nor leave the range where rounding is harmless."""
    n = q["n"]
    def parts(t):
        L, H = q["L"](t), q["H"](t)
        return q["F"](t), L @ np.linalg.solve(q["U"](t), L.T), H.T @ q["X"](t) @ H
    def ric(S, t):
        F, B, Q = parts(t)
        return -F.T @ S + S @ B @ S - S @ F - Q
    def fwd(C, t):
        F, B, Q = parts(t)
        return F @ C + C @ F.T + B - C @ Q @ C
    def rk(f, x, t, h):
        a = f(x, t); b = f(x + h / 2 * a, t + h / 2); c = f(x + h / 2 * b, t + h / 2); d = f(x + h * c, t + h)
        return x + h / 6 * (a + 2 * b + 2 * c + d)
    h = q["T"] / blocks
    S, C = q["HT"].T @ q["XT"] @ q["HT"], np.zeros((n, n))
    for k in range(blocks):
        S = rk(ric, S, q["T"] - k * h, -h); C = rk(fwd, C, k * h, h)
        if not np.max(np.abs([S, C])) < 6.0:
            return False
    return True


def problem(g, n, m, p, deg, blocks):
    while True:
        q = tracker(g, n, m, p, deg)
        q["T"] = float(g.choice(HORIZONS))
        if all(tame(q, b) for b in blocks):
            return q


def solver(q):
    return parareal_clqt_np.Parareal_CLQT_np(
        clqt_np.CLQT(q["F"], q["L"], q["X"], q["U"], q["XT"], q["c"], q["H"], q["r"], q["HT"], q["rT"], q["T"]))


bout = lambda r: dict(K=enc(r[0]), d=enc(r[1]), S=enc(r[2]), v=enc(r[3]))
fout = lambda r: dict(us=enc(r[0]), xs=enc(r[1]))
vout = lambda r: dict(A=enc(r[0]), b=enc(r[1]), C=enc(r[2]))


def run(tr, g, i):
    n = [1, 2, 2, 3, 2][i % 5]; m = [1, 1, 2, 2, 3][i % 5]; p = int(g.integers(1, 3))
    plans = [(3, 2), (2, 3), (5, 1), (1, 3), (4, 2)]
    if THOROUGH:
        plans = [(b, s) for b in (1, 2, 3, 4, 5, 7) for s in (1, 2, 3, 4) if b * s <= 16]
    q = problem(g, n, m, p, [1, 0, 2, 1, 3][i % 5], {b for b, _ in plans})
    R = solver(q)
    x0 = g.normal(size=n)
    for j, (blocks, steps) in enumerate(plans):
        if not THOROUGH and (i + j) % 5 > 1:
            continue
        ses = tr.session("parareal #%d.%d" % (i, j))
        ses.add("problem", P=enc_tracker(q), T=num(q["T"]))
        N = blocks * steps
        wild = g.normal(size=(N, m, n)) * 0.3, g.normal(size=(N, m)) * 0.3
        its = [None] + (list(range(blocks + 2)) if THOROUGH else sorted({0, int(g.integers(1, blocks + 1)), blocks if j % 2 else blocks + 1}))
        for niter in its:
            kw = {} if niter is None else dict(niter=niter)
            T = dict(blocks=blocks, steps=steps, niter=steps if niter is None else niter)
            r = ses.call("backward", lambda: R.backwardPass(blocks, steps, **kw), bout, **T)
            if r is None:
                continue
            K, d = (r[0], r[1]) if j % 2 else ([a + b for a, b in zip(r[0], wild[0])], [a + b for a, b in zip(r[1], wild[1])])
            zoh = bool(g.integers(2))
            ses.call("forward", lambda: R.forwardPass(blocks, steps, x0, K, d, u_zoh=zoh, **kw), fout, zoh=zoh, x0=enc(x0), K=enc(K), d=enc(d), **T)
            ses.call("values", lambda: R.fwdBwdPass(blocks, steps, x0, **kw), vout, x0=enc(x0), **T)


VARS = {}


def run_tf(tr, g, key, i, half):
    import tensorflow as tf
    from parallel_control import parareal_clqt_tf as pt
    n, m, p, deg, blocks, steps, niter = key
    f64 = lambda v: tf.constant(np.asarray(v, float), tf.float64)
    q = problem(g, n, m, p, deg, (blocks, 2 * blocks))
    ses = tr.session("parareal tf #%s %d.%d" % (key, i, half))
    ses.add("problem", P=enc_tracker(q), T=num(q["T"]))
    names = ("F", "L", "X", "U", "c", "H", "r")
    if key not in VARS:                        # problems of one shape share the traced graphs
        vs = {k: [tf.Variable(np.asarray(c, float), dtype=tf.float64) for c in q[k].cs] for k in names}
        def make(cs):
            def f(t):
                v = cs[-1] + 0.0
                for c in cs[-2::-1]:
                    v = c + t * v
                return v
            return f
        VARS[key] = (vs, [make(vs[k]) for k in names])
    vs, F = VARS[key]
    for k in names:
        for var, c in zip(vs[k], q[k].cs):
            var.assign(np.asarray(c, float))
    FLc = (F[0], F[1], F[4])
    XT, HT, rT, Tt = f64(q["XT"]), f64(q["HT"]), f64(q["rT"]), f64(q["T"])
    x0n = g.normal(size=n); x0 = f64(x0n)
    E = lambda r, ks: {k: enc(a.numpy()) for k, a in zip(ks, r)}
    T = dict(blocks=blocks, steps=steps, niter=niter)
    zoh = bool((n + m + niter) % 2)
    if half == 0:
        ses.call("backward", lambda: pt.pclqt_backwardpass(blocks, steps, niter, XT, HT, rT, Tt, *F), lambda r: E(r, "SvKd"), **T)
        one = (blocks + niter) % 2             # the combined solvers repeat the passes: one of them per shape
        if one or THOROUGH:
            ses.call("solve", lambda: pt.pclqt_backwardforwardpass(blocks, steps, niter, x0, XT, HT, rT, Tt, *F), lambda r: E(r, ("xs", "us")), how="roll", x0=enc(x0n), **T)
        if not one or THOROUGH:
            ses.call("solve", lambda: pt.pclqt_backwardbwdfwdpass(blocks, steps, niter, x0, XT, HT, rT, Tt, *F), lambda r: E(r, ("xs", "us")), how="meet", x0=enc(x0n), **T)
    else:
        N = blocks * steps
        K = 0.7 * g.normal(size=(N, m, n)); d = g.normal(size=(N, m))
        ses.call("forward", lambda: pt.pclqt_forwardpass(blocks, steps, niter, x0, Tt, f64(K), f64(d), *FLc, u_zoh=zoh), lambda r: E(r, ("xs", "us")),
                 zoh=zoh, x0=enc(x0n), K=enc(K), d=enc(d), **T)
        ses.call("values", lambda: pt.pclqt_fwdbwdpass(blocks, steps, niter, x0, Tt, *F), lambda r: E(r, "AbC"), x0=enc(x0n), **T)


KEYS = [(2, 1, 1, 1, 3, 2, 1), (1, 2, 2, 2, 4, 2, 2), (2, 2, 1, 1, 2, 3, 3), (3, 1, 1, 0, 5, 1, 1)]
MORE = [(2, 3, 1, 1, 4, 2, 1), (1, 1, 2, 1, 1, 2, 3)] + [(n, 1 + (n + b) % 3, 1 + b % 2, 1 + (b + s) % 2, b, s, k) for n in (1, 2, 3) for b in (2, 3, 4) for s in (1, 2, 3) for k in (1, 2, 4)]


def build(tr):
    for i in range(10 if not THOROUGH else 40):
        if mine(i):
            run(tr, rng("C17", i), i)
    for k, key in enumerate(KEYS + (MORE if THOROUGH else [])):
        for half in (0, 1):
            if mine(2 * k + half):
                for j in range(4):
                    run_tf(tr, rng("C17 tf", k, j), key, j, half)


main(build)
