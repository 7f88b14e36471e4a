from vlib import *
import hmm_gen
from parallel_control import viterbi_np


def build(tr):
    n = 120 if not THOROUGH else 800
    g = rng("C05")
    for label, prior, Pi, Po, ys in hmm_gen.models("C05", n, 14 if not THOROUGH else 40):
        ses = tr.session(label)
        hmm_gen.define(ses, prior, Pi, Po, ys)
        v = viterbi_np.Viterbi_np(prior, Pi, Po)
        nx, T = len(prior), len(ys)
        dec = lambda r: dict(path=idx(r[0]), V=enc(r[1]))
        for name, form, each in [("ref_viterbi", "prob", False), ("ref_viterbi_log", "log", False), ("ref_viterbi_log_v2", "log", False),
                                 ("seqViterbi", "log", False), ("parBwdFwdViterbi", "log", False), ("parBwdFwdBwdViterbi", "log", True)]:
            ses.call("decode", lambda: getattr(v, name)(ys), dec, how=name, form=form, each=each)
        for _ in range(3):
            p = [int(x) for x in g.integers(0, nx, size=T + 1)]
            us = p[::-1][1:]

            def ctl():
                fsc = v.getFSC(ys)
                xs = fsc.seqSimulation(p[-1], us)
                return xs, fsc.cost(xs, us)
            ses.call("control", ctl, lambda r: dict(xs=idx(r[0]), cost=enc(r[1])), path=p)
        xs = [int(x) for x in g.integers(0, nx, size=T + 1)]
        Vs = [g.integers(0, 99, size=nx) / 8.0 for _ in range(T + 1)]
        e = dict(xs=idx(xs), Vs=enc(Vs))
        ses.call("back", lambda: v.fscToViterbi(xs, Vs), lambda r: dict(path=idx(r[0]), V=enc(r[1]), xs2=idx(xs), Vs2=enc(Vs)), **e)


main(build)
