from vlib import *
import fsc_gen
from parallel_control import fsc_np


def build(tr):
    n, m = (160, 40) if not THOROUGH else (1500, 1000)
    g = rng("C02")
    tmax = 10 if not THOROUGH else 24
    probs = list(fsc_gen.problems("C02", n, tmax, 5, 4)) + list(fsc_gen.tiny(m))
    for label, f, L, LT, x0s in probs:
        ses = tr.session(label)
        fsc_gen.define(ses, f, L, LT)
        fsc = fsc_np.FSC(f, L, LT)
        T, (nx, nu) = len(f), f[0].shape
        r = ses.call("backward", lambda: fsc.seqBackwardPass(), lambda r: dict(u=idx(r[0]), V=enc(r[1])))
        rnd = [g.integers(0, nu, size=nx) for _ in range(T)]
        for x0 in x0s:
            pols = [(rnd, False)]
            if r is not None:
                pols.append((r[0], True))
            for pol, optimal in pols:
                w = ses.call("forward", lambda: fsc.seqForwardPass(x0, pol),
                             lambda r: dict(us=idx(r[0]), xs=idx(r[1])), x0=int(x0), pol=idx(pol), optimal=optimal)
                if w is not None:
                    us, xs = w
                    ses.call("cost", lambda: fsc.cost(xs, us), lambda r: dict(val=enc(r)), xs=idx(xs), us=idx(us))
            us = [int(v) for v in g.integers(0, nu, size=T)]
            xs = ses.call("simulate", lambda: fsc.seqSimulation(x0, us), lambda r: dict(xs=idx(r)), x0=int(x0), us=us)
            if xs is not None:
                ses.call("cost", lambda: fsc.cost(xs, us), lambda r: dict(val=enc(r)), xs=idx(xs), us=us)
            if nu ** T <= (300 if not THOROUGH else 3000):
                ses.call("batch", lambda: fsc.batch_solution(x0),
                         lambda r: dict(us=idx(r[0]), xs=idx(r[1]), cost=enc(r[2])), x0=int(x0))


main(build)
