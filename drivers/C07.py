from vlib import *
import lqt_gen as G


def build(tr):
    n = 60 if not THOROUGH else 400
    g = rng("C07")
    for i in range(n):
        T, nx, nu, p = G.shapes(g, i, 10 if not THOROUGH else 30)
        kw = dict(tv=i % 4 != 1, cross=i % 5 != 2, Z=i % 3 != 1, s=i % 7 != 3, rankdef=i % 6 == 5)
        d = G.problem(g, T, nx, nu, p, pT=int(g.integers(1, nx + 1)) if i % 2 else p, **kw)
        if i % 9 == 8:   # stage costs of varying dimension
            for k in range(T):
                pk = 1 + k % 3
                e = G.problem(g, 1, nx, nu, pk)
                for key in "XHrM":
                    d[key][k] = e[key][0]
                d["U"][k] = d["U"][k] + e["U"][0]
                d["M"][k] = 0 * d["M"][k]
        if i % 11 == 10:  # integer data
            for key in "FLXUcHrZsM":
                d[key] = [np.round(2 * a).astype(int) for a in d[key]]
            for k in range(T):
                d["X"][k] = d["X"][k] @ d["X"][k].T
                d["U"][k] = d["U"][k] @ d["U"][k].T + np.eye(nu, dtype=int) * 8
                d["Z"][k] = np.eye(nu, dtype=int)
                d["M"][k] = 0 * d["M"][k]
                d["F"][k] = np.round(d["F"][k] / 2).astype(int)
            d["HT"], d["rT"] = np.eye(nx, dtype=int), np.round(d["r"][0] if p == nx else np.ones(nx)).astype(int)
            d["XT"] = np.eye(nx, dtype=int)
        ses = tr.session("T=%d n=%d m=%d p=%d %s #%d" % (T, nx, nu, p, "".join(k[0] for k in kw if kw[k]), i))
        G.define(ses, d)
        lqt = G.make(d)
        r = ses.call("backward", lambda: lqt.seqBackwardPass(), G.bw)
        K = [0.3 * g.normal(size=(nu, nx)) for _ in range(T)]
        dd = [g.normal(size=nu) for _ in range(T)]
        fw = lambda r: dict(us=enc(r[0]), xs=enc(r[1]))
        for j in range(2):
            x0 = 3 * g.normal(size=nx)
            if j and i % 3 == 0:
                x0 = np.round(x0).astype(int)
            ses.call("forward", lambda: lqt.seqForwardPass(x0, K, dd), fw, x0=enc(x0), K=enc(K), d=enc(dd), optimal=False)
            us = [g.normal(size=nu) for _ in range(T)]
            xs = ses.call("simulate", lambda: lqt.seqSimulation(x0, us), lambda r: dict(xs=enc(r)), x0=enc(x0), us=enc(us))
            if xs is not None:
                ses.call("cost", lambda: lqt.cost(us, xs), lambda r: dict(val=enc(r)), xs=enc(xs), us=enc(us), optimal=False)
            ys = [g.normal(size=nx) for _ in range(T + 1)]   # the cost of states that do not follow the dynamics
            ses.call("cost", lambda: lqt.cost(us, ys), lambda r: dict(val=enc(r)), xs=enc(ys), us=enc(us), optimal=False)
            if r is not None:
                w = ses.call("forward", lambda: lqt.seqForwardPass(x0, r[0], r[1]), fw, x0=enc(x0), K=enc(r[0]), d=enc(r[1]), optimal=True)
                if w is not None:
                    ses.call("cost", lambda: lqt.cost(w[0], w[1]), lambda r: dict(val=enc(r)), xs=enc(w[1]), us=enc(w[0]), optimal=True)
        # the law serves every starting stage: a shorter list of controls simulates a prefix
        if T > 1:
            us = [g.normal(size=nu) for _ in range(T // 2)]
            x0 = g.normal(size=nx)
            ses.call("simulate", lambda: lqt.seqSimulation(x0, us), lambda r: dict(xs=enc(r)), x0=enc(x0), us=enc(us))
    # long horizons with unstable dynamics: rounding errors must not grow along the recursion
    for i in range(3):
        d = G.unstable(rng("long", i), 100 if not THOROUGH else 300)
        ses = tr.session("long unstable #%d" % i)
        G.define(ses, d)
        lqt = G.make(d)
        ses.call("backward", lambda: lqt.seqBackwardPass(), G.bw)


main(build)
