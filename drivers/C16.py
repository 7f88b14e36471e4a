from clqt_gen import *
import tensorflow as tf
from parallel_control import clqt_tf

f64 = lambda v: tf.constant(np.asarray(v, float), tf.float64)
VARS = {}


def funcs(q, key):
    """Parameter functions backed by variables, so that problems of one shape share the traced graphs."""
    names = ("F", "L", "X", "U", "c", "H", "r")
    if key not in VARS:
        vs = {k: [tf.Variable(np.asarray(c, float), dtype=tf.float64) for c in q[k].cs] for k in names}
        def make(cs):
            def f(t):
                v = cs[-1] + 0.0
                for c in cs[-2::-1]:
                    v = c + t * v
                return v
            return f
        VARS[key] = (vs, [make(vs[k]) for k in names])
    vs, fs = VARS[key]
    for k in names:
        for var, c in zip(vs[k], q[k].cs):
            var.assign(np.asarray(c, float))
    return fs


def track(tr, g, key, i):
    n, m, p, deg, blocks, steps = key
    q = tracker(g, n, m, p, deg)
    ses = tr.session("tracker tf #%d" % i)
    ses.add("problem", P=enc_tracker(q))
    F = funcs(q, key[:4])
    FLc = (F[0], F[1], F[4])
    XT, HT, rT = f64(q["XT"]), f64(q["HT"]), f64(q["rT"])
    N = blocks * steps
    x0n = g.normal(size=n); x0 = f64(x0n)
    bout = lambda r: dict(K=enc(r[2].numpy()), d=enc(r[3].numpy()), S=enc(r[0].numpy()), v=enc(r[1].numpy()))
    fout = lambda r: dict(us=enc(r[1].numpy()), xs=enc(r[0].numpy()))
    own = i % 3 == 0
    S0, v0 = q["HT"].T @ q["XT"] @ q["HT"], q["HT"].T @ q["XT"] @ q["rT"]
    fw = bool((n + m + p + blocks + steps) % 2); zoh = bool((n + m + blocks) % 2)
    mp = dict(max_parallel=blocks) if (n + m + blocks) % 3 else {}     # one traced variant per shape
    if own:
        t0n, dtn = 0.0, q["T"] / N
        def seq():
            dt, t0, ST, vT = clqt_tf.clqt_seq_backwardpass_defaults(N, XT, HT, rT, f64(q["T"]))
            return clqt_tf.clqt_seq_backwardpass(N, dt, t0, ST, vT, *F)
        def par():
            dt, t0, ST, vT = clqt_tf.par_backwardpass_defaults(blocks, steps, XT, HT, rT, f64(q["T"]))
            return clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, *F, forward=fw, **mp)
        S1, v1 = S0, v0
    else:
        t0n, dtn = float(g.choice([0.0, 0.3, -0.2])), float(g.choice([0.05, 0.1]))
        S1, v1 = psd(g, n), g.normal(size=n)
        seq = lambda: clqt_tf.clqt_seq_backwardpass(N, f64(dtn), f64(t0n), f64(S1), f64(v1), *F)
        par = lambda: clqt_tf.clqt_par_backwardpass(blocks, steps, f64(dtn), f64(t0n), f64(S1), f64(v1), *F, forward=fw, **mp)
    T = dict(dt=num(dtn), t0=num(t0n), steps=steps, blocks=blocks)
    T1 = dict(dt=num(dtn), t0=num(t0n), steps=N, blocks=1)
    dt, t0 = f64(dtn), f64(t0n)
    SV = dict(S1=enc(S1), v1=enc(v1))
    ses.call("backward", seq, bout, how="seq", fw=fw, **T1, **SV)
    r = ses.call("backward", par, bout, how="par", fw=fw, **T, **SV)
    if r is None:
        return
    S, v, K, d = (a.numpy() for a in r)
    if i % 2:
        K = K + 0.3 * g.normal(size=K.shape); d = d + 0.3 * g.normal(size=d.shape)
    L = dict(K=enc(K), d=enc(d), x0=enc(x0n))
    Kt, dt_, St, vt = f64(K), f64(d), f64(S), f64(v)
    ses.call("forward", lambda: clqt_tf.clqt_seq_forwardpass(x0, Kt, dt_, dt, t0, *FLc, u_zoh=zoh), fout, how="seq", zoh=zoh, fw=fw, **T1, **L)
    ses.call("forward", lambda: clqt_tf.clqt_par_forwardpass(blocks, steps, x0, Kt, dt_, dt, t0, *FLc, forward=not fw, u_zoh=zoh, **mp), fout, how="par", zoh=zoh, fw=not fw, **T, **L)
    A0, b0, C0 = np.zeros((n, n)), x0n, np.zeros((n, n))
    if own:
        def fb():
            dt, t0, A, b, C = clqt_tf.clqt_seq_fwdbwdpass_defaults(x0, N, f64(q["T"]))
            return clqt_tf.clqt_seq_fwdbwdpass(N, dt, t0, A, b, C, *F)
    else:
        A0, b0, C0 = g.normal(size=(n, n)), g.normal(size=n), psd(g, n)
        fb = lambda: clqt_tf.clqt_seq_fwdbwdpass(N, dt, t0, f64(A0), f64(b0), f64(C0), *F)
    w = ses.call("values", fb, lambda r: dict(A=enc(r[0].numpy()), b=enc(r[1].numpy()), C=enc(r[2].numpy())), A0=enc(A0), b0=enc(b0), C0=enc(C0), **T1)
    if w is None:
        return
    B = dict(S=enc(S), v=enc(v), **L)
    ses.call("meet", lambda: clqt_tf.clqt_combine_fwdbwd(Kt, dt_, St, vt, *w), fout, how="seq", A=enc(w[0].numpy()), b=enc(w[1].numpy()), C=enc(w[2].numpy()), **T1, **B)
    def meet():
        dd, tt = (dt, t0)
        if own:
            dd, tt = clqt_tf.clqt_par_fwdbwdpass_defaults(blocks, steps, f64(q["T"]))
        return clqt_tf.clqt_par_fwdbwdpass(blocks, steps, x0, St, vt, Kt, dt_, dd, tt, *F, forward=fw, **mp)
    ses.call("meet", meet, fout, how="par", fw=fw, **T, **B)
    # a batch of start times, each with its own boundary data
    if i % 2 == 0:
        nb = 3
        tb = g.uniform(-0.3, 0.5, size=nb)
        Sb = np.array([psd(g, n) for _ in range(nb)]); vb = g.normal(size=(nb, n))
        Tb = lambda k: dict(dt=num(dtn), t0=num(tb[k]), steps=N, blocks=1)
        def spread(op, fn, outs, fields):
            try:
                r = [a.numpy() for a in fn()]
                err = None if all(a.shape[0] == nb for a in r) else "batch shape %s" % [a.shape for a in r]
            except Exception as ex:
                err = "%s: %s" % (type(ex).__name__, str(ex)[:200])
            for k in range(nb):
                e = dict(fields(k), op=op)
                if err:
                    e["error"] = err
                else:
                    e.update({o: enc(a[k]) for o, a in zip(outs, r)})
                ses.add(**e)
            return None if err else r
        r = spread("backward", lambda: clqt_tf.clqt_seq_backwardpass(N, dt, f64(tb), f64(Sb), f64(vb), *F), ("S", "v", "K", "d"),
                   lambda k: dict(how="seq", fw=fw, S1=enc(Sb[k]), v1=enc(vb[k]), **Tb(k)))
        if r is not None:
            xb = g.normal(size=(nb, n)); Kb = r[2] + 0.2 * g.normal(size=r[2].shape); db = r[3]
            spread("forward", lambda: clqt_tf.clqt_seq_forwardpass(f64(xb), f64(Kb), f64(db), dt, f64(tb), *FLc, u_zoh=zoh), ("xs", "us"),
                   lambda k: dict(how="seq", zoh=zoh, fw=fw, K=enc(Kb[k]), d=enc(db[k]), x0=enc(xb[k]), **Tb(k)))
            Ab = g.normal(size=(nb, n, n)); Cb = np.array([psd(g, n) for _ in range(nb)])
            spread("values", lambda: clqt_tf.clqt_seq_fwdbwdpass(N, dt, f64(tb), f64(Ab), f64(xb), f64(Cb), *F), ("A", "b", "C"),
                   lambda k: dict(A0=enc(Ab[k]), b0=enc(xb[k]), C0=enc(Cb[k]), **Tb(k)))


KEYS = [(2, 1, 1, 2, 3, 2), (1, 1, 1, 1, 1, 3), (2, 2, 1, 0, 7, 1), (3, 1, 2, 1, 2, 2), (1, 2, 1, 3, 1, 1), (2, 3, 2, 1, 4, 2), (3, 2, 1, 2, 5, 1), (2, 1, 1, 1, 1, 4)]
MORE = [(n, 1 + (n + b) % 3, 1 + b % 2, (b + s) % 4, b, s) for n in (1, 2, 3) for b in (1, 2, 3, 6, 7, 8, 9) for s in (1, 2, 3) if b * s <= 18]


def build(tr):
    keys = KEYS + (MORE if THOROUGH else [])
    for k, key in enumerate(keys):
        if mine(k):
            for j in range(6 if not THOROUGH else 12):
                track(tr, rng("C16", k, j), key, j + k % 2)


main(build)
