from vlib import *
import fsc_gen
import tensorflow as tf
from parallel_control import fsc_np, fsc_tf


def build(tr):
    n, m = (30, 4) if not THOROUGH else (300, 60)
    g = rng("C04")
    tmax = 10 if not THOROUGH else 40
    probs = list(fsc_gen.problems("C04", n, tmax, 5, 4)) + list(fsc_gen.tiny(m))
    for T in range(1, 10 if not THOROUGH else 40):
        f = [g.integers(0, 3, size=(3, 2)) for _ in range(T)]
        L = [g.integers(-4, 9, size=(3, 2)) / 4.0 for _ in range(T)]
        probs.append(("length T=%d" % T, f, L, g.integers(0, 9, size=3) / 8.0, [int(g.integers(3))]))
    for i, (label, f, L, LT, x0s) in enumerate(probs):
        if not mine(i):
            continue
        ses = tr.session(label)
        fsc_gen.define(ses, f, L, LT)
        fsc = fsc_np.FSC(f, L, LT)
        T, (nx, nu) = len(f), f[0].shape
        w = ses.call("convert", lambda: fsc_tf.fsc_np_to_tf(fsc), lambda r: dict(f=idx(r[0].numpy()), L=enc(r[1].numpy()), LT=enc(r[2].numpy())))
        fs, Ls, lT = tf.constant(np.stack(f), tf.int32), tf.constant(np.stack(L), tf.float64), tf.constant(LT, tf.float64)
        bw = lambda r: dict(u=idx(r[0].numpy()), V=enc(r[1].numpy()))
        ses.call("backward", lambda: fsc_tf.fsc_seq_backwardpass(fs, Ls, lT), bw, kind="seq")
        mp = [dict(), dict(max_parallel=T), dict(max_parallel=T + 1 + int(g.integers(0, 9)))][1 if T in (1, 3, 7, 15) and i % 7 else i % 3]
        r = ses.call("backward", lambda: fsc_tf.fsc_par_backwardpass(fs, Ls, lT, **mp), bw, kind="par", mp=mp.get("max_parallel", 0))
        pol = g.integers(0, nu, size=(T, nx))
        rnd = tf.constant(pol, tf.int32)
        for x0 in x0s[:2]:
            t0 = tf.constant(x0, tf.int32)
            fx = lambda r: dict(us=idx(r[1].numpy()), xs=idx(r[0].numpy()))
            fu = lambda r: dict(us=idx(r[0].numpy()), xs=idx(r[1].numpy()))
            ses.call("forward", lambda: fsc_tf.fsc_seq_forwardpass(t0, fs, rnd), fx, x0=int(x0), pol=idx(pol), optimal=False, kind="seq")
            ses.call("forward", lambda: fsc_tf.fsc_par_forwardpass(t0, fs, rnd, **mp), fu, x0=int(x0), pol=idx(pol), optimal=False, kind="par")
            if r is None:
                continue
            po = r[0].numpy()
            ses.call("forward", lambda: fsc_tf.fsc_seq_forwardpass(t0, fs, r[0]), fx, x0=int(x0), pol=idx(po), optimal=True, kind="seq")
            ses.call("forward", lambda: fsc_tf.fsc_par_forwardpass(t0, fs, r[0], **mp), fu, x0=int(x0), pol=idx(po), optimal=True, kind="par")
            ses.call("fwdbwd", lambda: fsc_tf.fsc_par_fwdbwdpass(t0, fs, Ls, r[0], r[1], **mp), fu, x0=int(x0))


main(build)
