from types import SimpleNamespace
from vlib import *
import hmm_gen
import tensorflow as tf
from parallel_control import viterbi_tf


def build(tr):
    n = 32 if not THOROUGH else 400
    for i, (label, prior, Pi, Po, ys) in enumerate(hmm_gen.models("C06", n, 14 if not THOROUGH else 40)):
        if not mine(i):
            continue
        ses = tr.session(label)
        hmm_gen.define(ses, prior, Pi, Po, ys)
        model = SimpleNamespace(prior=prior, Pi=Pi, Po=Po)
        dec = lambda r: dict(path=idx(r[0].numpy()), V=enc(r[1].numpy()))
        c64 = lambda a: tf.constant(a, tf.float64)
        y = tf.constant(ys, [tf.int32, tf.int64][i % 2])
        for name, each in [("viterbi_fsc_seq_bwfw", False), ("viterbi_fsc_par_bwfw", False), ("viterbi_fsc_par_bwfwbw", True)]:
            ses.call("decode", lambda: getattr(viterbi_tf, name)(*viterbi_tf.make_viterbi_fsc(model, ys)), dec, how=name, form="log", each=each)
        for name, each in [("viterbi_seq_fwbw", False), ("viterbi_par_fwbw", False), ("viterbi_seqpar_fwbw", False), ("viterbi_par_fwbwfw", True)]:
            ses.call("decode", lambda: getattr(viterbi_tf, name)(c64(prior), c64(Pi), c64(Po), y), dec, how=name, form="log", each=each)


main(build)
