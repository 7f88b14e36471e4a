from vlib import *
import lqt_gen as G
from parallel_control import lqt_np


def build(tr):
    n = 64 if not THOROUGH else 400
    g = rng("C08")
    for i in range(n):
        T, nx, nu, p = G.shapes(g, i, 12 if not THOROUGH else 40)
        noZ = i % 3 == 1
        kw = dict(tv=i % 4 != 1, cross=i % 5 != 2, Z=not noZ, s=i % 7 != 3, rankdef=i % 6 == 5)
        varp = i % 9 == 8
        d = G.problem(g, T, nx, nu, p, pT=int(g.integers(1, nx + 1)) if varp else p, **kw)
        ses = tr.session("T=%d n=%d m=%d p=%d %s #%d" % (T, nx, nu, p, "".join(k[0] for k in kw if kw[k]), i))
        G.define(ses, d)
        lqt = G.make(d)
        r = ses.call("backward", lambda: lqt.parBackwardPass(), G.bw)
        if noZ:
            ses.call("backward", lambda: lqt.seqTransformedBackwardPass(), lambda r: G.bw(r, vals=False), how="transformed")
        K = [0.3 * g.normal(size=(nu, nx)) for _ in range(T)]
        dd = [g.normal(size=nu) for _ in range(T)]
        fw = lambda r: dict(us=enc(r[0]), xs=enc(r[1]))
        x0 = 3 * g.normal(size=nx)
        ses.call("forward", lambda: lqt.parForwardPass(x0, K, dd), fw, x0=enc(x0), K=enc(K), d=enc(dd), optimal=False)
        if r is not None:
            ses.call("forward", lambda: lqt.parForwardPass(x0, r[0], r[1]), fw, x0=enc(x0), K=enc(r[0]), d=enc(r[1]), optimal=True)
            ses.call("optimal", lambda: lqt.parFwdBwdPass(x0, *r), fw, x0=enc(x0), how="FwdBwd")
            ses.call("optimal", lambda: lqt.parFwdBwdPass2(x0, *r), fw, x0=enc(x0), how="FwdBwd2")
        if not varp:
            ses.call("optimal", lambda: lqt.batchSolution(x0), fw, x0=enc(x0), how="batch")

        def elem():
            return (g.normal(size=(nx, nx)), g.normal(size=nx), G.sym(G.spd(g, nx)), g.normal(size=nx), G.sym(G.spd(g, nx)))
        e5 = lambda e: dict(zip(["A", "b", "C", "eta", "J"], [enc(v) for v in e]))
        a, b = elem(), elem()
        ses.call("combine_V", lambda: lqt_np.combine_abcej(*a, *b), lambda r: dict(C=e5(r)), A=e5(a), B=e5(b))
        a, b = [(g.normal(size=(nx, nx)), g.normal(size=nx)) for _ in range(2)]
        e2 = lambda e: dict(F=enc(e[0]), c=enc(e[1]))
        ses.call("combine_f", lambda: lqt_np.combine_fc(*a, *b), lambda r: dict(C=e2(r)), A=e2(a), B=e2(b))


main(build)
