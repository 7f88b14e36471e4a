from vlib import *
import fsc_gen
from parallel_control import fsc_np


def build(tr):
    n, m = (150, 40) if not THOROUGH else (1500, 1000)
    g = rng("C03")
    tmax = 10 if not THOROUGH else 40
    probs = list(fsc_gen.problems("C03", n, tmax, 5, 4)) + list(fsc_gen.tiny(m))
    # every horizon once, with a small state space
    for T in range(1, 20 if not THOROUGH else 70):
        f = [g.integers(0, 3, size=(3, 2)) for _ in range(T)]
        L = [g.integers(-4, 9, size=(3, 2)) / 4.0 for _ in range(T)]
        probs.append(("length T=%d" % T, f, L, g.integers(0, 9, size=3) / 8.0, [int(g.integers(3))]))
    for label, f, L, LT, x0s in probs:
        ses = tr.session(label)
        fsc_gen.define(ses, f, L, LT)
        fsc = fsc_np.FSC(f, L, LT)
        T, (nx, nu) = len(f), f[0].shape
        r = ses.call("backward", lambda: fsc.parBackwardPass(), lambda r: dict(u=idx(r[0]), V=enc(r[1])))
        rnd = [g.integers(0, nu, size=nx) for _ in range(T)]
        for x0 in x0s:
            fw = lambda r: dict(us=idx(r[0]), xs=idx(r[1]))
            ses.call("forward", lambda: fsc.parForwardPass(x0, rnd), fw, x0=int(x0), pol=idx(rnd), optimal=False)
            if r is None:
                continue
            ses.call("forward", lambda: fsc.parForwardPass(x0, r[0]), fw, x0=int(x0), pol=idx(r[0]), optimal=True)
            ses.call("fwdbwd", lambda: fsc.parFwdBwdPass(x0, r[0], r[1]), fw, x0=int(x0), variant=1)
            ses.call("fwdbwd", lambda: fsc.parFwdBwdPass2(x0, r[0], r[1]), fw, x0=int(x0), variant=2)
    # the combination rules on arbitrary elements
    ses = tr.session("combination rules")
    ses.add("problem", P=dict(T=1, nx=1, nu=1, f=[[[0]]], L=[[["0"]]], LT=["0"], scale="0"))
    for i in range(40 if not THOROUGH else 400):
        nx = 1 + i % 5
        A, B = g.integers(-9, 9, size=(nx, nx)) / 2.0, g.uniform(-3, 3, size=(nx, nx))
        if i % 3 == 0:
            A[g.uniform(size=A.shape) < 0.3] = 1e20
        ses.call("combine_V", lambda: fsc_np.combine_V(A, B), lambda r: dict(C=enc(r)), A=enc(A), B=enc(B))
        p, q = g.integers(0, nx, size=nx), g.integers(0, nx, size=nx)
        ses.call("combine_f", lambda: fsc_np.combine_f(p, q), lambda r: dict(h=idx(r)), f=idx(p), g=idx(q))


main(build)
