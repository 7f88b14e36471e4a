from vlib import *
import lqt_gen as G
import tensorflow as tf
from parallel_control import lqt_np, lqt_tf


def build(tr):
    n = 22 if not THOROUGH else 240
    for i in range(n):
        if not mine(i):
            continue
        g = rng("C09", i)
        tf.config.run_functions_eagerly(i % 4 != 0)   # most sessions without retracing, some as compiled graphs
        if i < 11:
            T, (nx, nu, p) = i + 1, [(1, 1, 1), (2, 1, 2), (3, 2, 2), (2, 2, 1)][i % 4]
        else:
            T, nx, nu, p = G.shapes(g, 100, 12 if not THOROUGH else 40)
        gen = i % 2 == 1
        d = G.problem(g, T, nx, nu, p, pT=p if i % 3 else int(g.integers(1, nx + 1)), tv=i % 5 != 4, cross=gen, Z=False, s=gen, rankdef=i % 6 == 5)
        ses = tr.session("%s T=%d n=%d m=%d p=%d #%d" % ("general" if gen else "canonical", T, nx, nu, p, i))
        run(ses, g, d, gen, i)
    tf.config.run_functions_eagerly(False)
    for i in range(2):
        if mine(i):
            ses = tr.session("long unstable #%d" % i)
            d = G.unstable(rng("long", i), 100)
            G.define(ses, d)
            t = lqt_tf.lqt_np_to_tf(G.make(d))
            for fn in (lqt_tf.lqt_seq_backwardpass, lqt_tf.lqt_par_backwardpass):
                ses.call("backward", lambda: fn(*t), order)


def order(r, vals=True):
    e = dict(K=enc(r[2].numpy()), d=enc(r[3].numpy()), law=True, vals=vals)
    if vals:
        e.update(S=enc(r[0].numpy()), v=enc(r[1].numpy()))
    return e


def run(ses, g, d, gen, i):
    G.define(ses, d)
    lqt = G.make(d)
    T, nx, nu = len(d["F"]), d["F"][0].shape[0], d["L"][0].shape[1]
    fw = lambda r: dict(us=enc(r[1].numpy()), xs=enc(r[0].numpy()))
    mp = [dict(), dict(max_parallel=T), dict(max_parallel=T + int(g.integers(1, 9)))][1 if T in (1, 3, 7, 15) and i % 7 else i % 3]
    x0 = 2 * g.normal(size=nx)
    t0 = tf.constant(x0)
    if gen:
        def canon():
            Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Ms, ss = lqt_tf.lqt_np_to_tf_gen(lqt)
            F2, c2, X2 = lqt_tf.lqt_gen_to_canon(Fs, cs, Ls, Hs, rs, Xs, Us, Ms, ss)
            return (F2, c2, Ls, Hs, HT, rs, rT, X2, XT, Us), (Hs, rs, Us, Ms, ss), (Fs, cs, Ls)
        for kind in ("seq", "par"):
            def law():
                a, b, dyn = canon()
                S, v, K, dd = lqt_tf.lqt_seq_backwardpass(*a) if kind == "seq" else lqt_tf.lqt_par_backwardpass(*a, **mp)
                return (S, v) + lqt_tf.lqt_canon_to_gen(K, dd, *b)
            # the value functions of the canonical problem differ in v only by what the substitution moves into the law
            r = ses.call("backward", law, lambda r: order(r, False), how=kind)
            if r is None:
                continue
            Fs, cs, Ls = canon()[2]
            ses.call("optimal", lambda: lqt_tf.lqt_seq_forwardpass(t0, Fs, cs, Ls, r[2], r[3]), fw, x0=enc(x0), how=kind + "-seq")
            ses.call("optimal", lambda: lqt_tf.lqt_par_forwardpass(t0, Fs, cs, Ls, r[2], r[3], **mp), fw, x0=enc(x0), how=kind + "-par")
        return
    a = lqt_tf.lqt_np_to_tf(lqt)
    Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = a
    ses.call("backward", lambda: lqt_tf.lqt_seq_backwardpass(*a), order, how="seq")
    r = ses.call("backward", lambda: lqt_tf.lqt_par_backwardpass(*a, **mp), order, how="par")
    K = 0.3 * g.normal(size=(T, nu, nx))
    dd = g.normal(size=(T, nu))
    ses.call("forward", lambda: lqt_tf.lqt_seq_forwardpass(t0, Fs, cs, Ls, tf.constant(K), tf.constant(dd)), fw, x0=enc(x0), K=enc(K), d=enc(dd), optimal=False)
    ses.call("forward", lambda: lqt_tf.lqt_par_forwardpass(t0, Fs, cs, Ls, tf.constant(K), tf.constant(dd), **mp), fw, x0=enc(x0), K=enc(K), d=enc(dd), optimal=False)
    xs, us = g.normal(size=(T + 1, nx)), g.normal(size=(T, nu))
    cost = lambda xs, us: lqt_tf.lqt_cost(tf.constant(xs), tf.constant(us), Hs, HT, rs, rT, Xs, XT, Us)
    ses.call("cost", lambda: cost(xs, us), lambda r: dict(val=enc(r.numpy())), xs=enc(xs), us=enc(us), optimal=False)
    if r is None:
        return
    o = ses.call("optimal", lambda: lqt_tf.lqt_par_fwdbwdpass(t0, Fs, cs, Ls, Hs, rs, Xs, Us, *r, **mp), fw, x0=enc(x0))
    ses.call("optimal", lambda: lqt_tf.lqt_par_forwardpass(t0, Fs, cs, Ls, r[2], r[3], **mp), fw, x0=enc(x0), how="par")
    if o is not None:
        ses.call("cost", lambda: cost(*o), lambda r: dict(val=enc(r.numpy())), xs=enc(o[0].numpy()), us=enc(o[1].numpy()), optimal=True)


main(build)
