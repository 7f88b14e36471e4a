from vlib import *
import lqt_gen as G
import tensorflow as tf
from parallel_control import lqt_np, condensing_np, condensing_tf, lqt_tf
from parallel_control.linear_model_np import LinearModel

KEYS = "FLcXHrUZsM"


def solve_np(clqt, x0):
    K, d, S, v = clqt.seqBackwardPass()
    return clqt.seqForwardPass(x0, K, d)


def run(ses, g, lqt, d, Ncs, x0s, full=True):
    G.define(ses, d)
    T, nx, nu = len(d["F"]), d["F"][0].shape[0], d["L"][0].shape[1]
    for Nc in Ncs:
        tfalso = THOROUGH or full or (Nc % 2 == len(d["F"]) % 2)
        cond = condensing_np.LQTCondenser()
        q = ses.call("condensed", lambda: cond.condense(lqt, Nc),
                     lambda r: dict(Q=dict({k: enc(getattr(r, k)) for k in KEYS}, HT=enc(r.HT), rT=enc(r.rT), XT=enc(r.XT), T=len(r.F), n=nx, m=nu * Nc)), Nc=Nc, how="np")
        if q is not None:
            for x0 in x0s:
                def sol():
                    cu, cx = solve_np(q, x0)
                    u, x = cond.convertUX(cu, cx)
                    return u, x
                ses.call("condensed_solution", sol, lambda r: dict(us=enc(r[0]), xs=enc(r[1])), x0=enc(x0), Nc=Nc, how="np")
        if not tfalso:
            continue
        Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = lqt_tf.lqt_np_to_tf(lqt)

        def out(r):
            Fst, cst, Lst, Hst, rst, Xst, Ust, Mst, sst = [a.numpy() for a in r[:9]]
            nb = Fst.shape[0]
            return dict(Q=dict(F=enc(Fst), c=enc(cst), L=enc(Lst), H=enc(Hst), r=enc(rst), X=enc(Xst), U=enc(Ust), M=enc(Mst), s=enc(sst),
                               Z=enc([np.eye(nu * Nc)] * nb), HT=enc(lqt.HT), rT=enc(lqt.rT), XT=enc(lqt.XT), T=nb, n=nx, m=nu * Nc))
        t = ses.call("condensed", lambda: condensing_tf.condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc), out, Nc=Nc, how="tf")
        if t is not None:
            for j, x0 in enumerate(x0s):
                def sol():
                    Fst, cst, Lst, Hst, rst, Xst, Ust, Mst, sst, La, cb, Lb = t
                    F2, c2, X2 = lqt_tf.lqt_gen_to_canon(Fst, cst, Lst, Hst, rst, Xst, Ust, Mst, sst)
                    bw = lqt_tf.lqt_seq_backwardpass if j == 0 else lqt_tf.lqt_par_backwardpass
                    S, v, K, dd = bw(F2, c2, Lst, Hst, HT, rst, rT, X2, XT, Ust)
                    K, dd = lqt_tf.lqt_canon_to_gen(K, dd, Hst, rst, Ust, Mst, sst)
                    fw = lqt_tf.lqt_seq_forwardpass if j == 0 else lqt_tf.lqt_par_forwardpass
                    xs, us = fw(tf.constant(x0), Fst, cst, Lst, K, dd)
                    return condensing_tf.convertUX(us, xs, La, cb, Lb, T)
                ses.call("condensed_solution", sol, lambda r: dict(us=enc(r[0].numpy()), xs=enc(r[1].numpy())), x0=enc(x0), Nc=Nc, how="tf")


def build(tr):
    tf.config.run_functions_eagerly(True)
    n = 22 if not THOROUGH else 160
    for i in range(n):
        if not mine(i):
            continue
        g = rng("C11", i)
        if i < 9:
            T, (nx, nu, p) = [1, 2, 3, 4, 5, 6, 7, 9, 11][i], [(1, 1, 1), (2, 1, 2), (2, 2, 1), (3, 2, 2)][i % 4]
        else:
            T, nx, nu, p = G.shapes(g, 100, 12 if not THOROUGH else 30)
        d = G.problem(g, T, nx, nu, p, tv=i % 5 != 4, cross=False, Z=False, s=False, rankdef=i % 3 == 2, sparse=i % 2 == 0)
        ses = tr.session("T=%d n=%d m=%d p=%d #%d" % (T, nx, nu, p, i))
        if i < 9 or THOROUGH:
            Ncs = list(range(1, min(T, 12) + 2))
        else:
            Ncs = sorted(set(int(k) for k in g.integers(1, T + 3, size=4)))
        lim = 16 if not THOROUGH else 40
        Ncs = [k for k in Ncs if k * nu <= lim or k == 1]
        run(ses, g, G.make(d), d, Ncs, [2 * g.normal(size=nx) for _ in range(1 if i % 4 else 2)], full=i % 4 == 0)
    # the shipped tracking model: outputs that do not observe the state within one stage
    if mine(n):
        m = LinearModel(5)
        lqt, x0 = m.getLQT(m.genData(3), steps=3)
        d = {k: getattr(lqt, k) for k in ("F", "L", "X", "U", "c", "H", "r", "Z", "s", "M", "HT", "XT", "rT")}
        ses = tr.session("tracking model")
        run(ses, g, lqt, d, [1, 2, 4, 5, 8], [x0])


main(build)
