from vlib import *
import lqt_gen as G
import nl_gen
import tensorflow as tf
from parallel_control import lqt_np, lqt_tf, nlqt_np, nlqt_tf, nonlinear_model_np, nonlinear_model_tf


def define(ses, d, mod):
    T, n, m = len(d["F"]), d["F"][0].shape[0], d["L"][0].shape[1]
    P = dict(T=T, n=n, m=m)
    for k in list("FLXUcHrZsM") + ["HT", "XT", "rT"]:
        P[k] = enc(d[k])
    ses.add("problem", P=P, Mod=mod)


def trajectories(g, model, T, n, m, x0):
    """Nominal trajectories: simulated, resting states, arbitrary (not following the dynamics)."""
    us = [0.5 * g.normal(size=m) for _ in range(T)]
    xs = [x0]
    for u in us:
        xs.append(model.f(xs[-1], u))
    yield us, xs
    yield [0.5 * g.normal(size=m) for _ in range(T)], [x0] * 2 + [np.zeros(n) for _ in range(T - 1)]
    yield [0.5 * g.normal(size=m) for _ in range(T)], [x0] + [g.normal(size=n) for _ in range(T)]


def run_np(ses, g, d, model, affine, x0, ntraj, methods=(0, 1, 2)):
    T, n, m = len(d["F"]), d["F"][0].shape[0], d["L"][0].shape[1]
    nl = nlqt_np.NLQT(G.make({k: (list(v) if isinstance(v, list) else v) for k, v in d.items()}), model)
    for j, (us, xs) in enumerate(trajectories(g, model, T, n, m, x0)):
        if j >= ntraj:
            break
        ses.call("linearize", lambda: nl.linearize(us, xs) or nl.lqt, lambda q: dict(F=enc(q.F), L=enc(q.L), c=enc(q.c)), us=enc(us), xs=enc(xs))
        for w in methods:
            ses.call("iterate", lambda: nl.iterate(us, xs, w), lambda r: dict(us2=enc(r[0]), xs2=enc(r[1])), us=enc(us), xs=enc(xs), affine=affine, how=w)
        u2 = [g.normal(size=m) for _ in range(T - 1 if T > 1 and j else T)]
        ses.call("simulate", lambda: nl.simulate(x0, u2), lambda r: dict(xs=enc(r)), x0=enc(x0), us=enc(u2))
        ses.call("cost", lambda: nl.cost(x0, us), lambda r: dict(val=enc(r)), x0=enc(x0), us=enc(us))
    # iterate to rest
    us, xs = next(trajectories(g, model, T, n, m, x0))
    u0 = us
    for it in range(40):
        u2, x2 = nl.iterate(us, xs, it % 3)
        e = max(np.max(np.abs(a - b)) for a, b in zip(list(u2) + list(x2), list(us) + list(xs)))
        us, xs = u2, x2
        if not np.isfinite(e) or e < 1e-11:
            break
    if np.isfinite(e) and e < 1e-9:
        ses.add("fixed_point", us=enc(us), xs=enc(xs), us0=enc(u0))


def run_tf(ses, g, d, model, fns, affine, x0, ntraj, mp):
    T, n, m = len(d["F"]), d["F"][0].shape[0], d["L"][0].shape[1]
    f, Fx, Fu = fns
    Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = lqt_tf.lqt_np_to_tf(G.make(d))
    c = lambda a: tf.constant(np.array(a))
    for j, (us, xs) in enumerate(trajectories(g, model, T, n, m, x0)):
        if j >= ntraj:
            break
        ses.call("linearize", lambda: nlqt_tf.nlqt_linearize(c(us), c(xs)[:-1], f, Fx, Fu), lambda q: dict(F=enc(q[0].numpy()), c=enc(q[1].numpy()), L=enc(q[2].numpy())), us=enc(us), xs=enc(xs))
        for fn, kw in ((nlqt_tf.nlqt_iterate_seq, {}), (nlqt_tf.nlqt_iterate_par_1, mp), (nlqt_tf.nlqt_iterate_par_2, mp)):
            ses.call("iterate", lambda: fn(c(us), c(xs), f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us, **kw), lambda r: dict(us2=enc(r[0].numpy()), xs2=enc(r[1].numpy())), us=enc(us), xs=enc(xs), affine=affine, how=fn.__name__ if hasattr(fn, "__name__") else "?")
        u2 = g.normal(size=(T, m))
        ses.call("simulate", lambda: nlqt_tf.nlqt_simulate(c(x0), c(u2), f), lambda r: dict(xs=enc(r.numpy())), x0=enc(x0), us=enc(u2))
        ses.call("cost", lambda: nlqt_tf.nlqt_cost(c(x0), c(us), f, Hs, HT, rs, rT, Xs, XT, Us), lambda r: dict(val=enc(r.numpy())), x0=enc(x0), us=enc(us))


def build(tr):
    tf.config.run_functions_eagerly(True)
    n = 28 if not THOROUGH else 240
    for i in range(n):
        if not mine(i):
            continue
        g = rng("C12", i)
        T, nx, nu, p = G.shapes(g, i if i < 9 else 100, 9 if not THOROUGH else 20, 3, 2)
        if i < 9:
            T = i + 1
        usetf = i % 2 == 1
        affine = i % 5 == 3
        d = G.problem(g, T, nx, nu, p, pT=p if i % 3 else int(g.integers(1, nx + 1)), cross=not usetf and i % 4 < 3, Z=not usetf and i % 3 != 1, s=not usetf)
        model = nl_gen.PolyModel(nl_gen.poly_terms(g, nx, nu, "affine" if affine else "poly"), nx, nu)
        x0 = 0.8 * g.normal(size=nx)
        ses = tr.session("%s %s T=%d n=%d m=%d #%d" % ("tf" if usetf else "np", "affine" if affine else "poly", T, nx, nu, i))
        define(ses, d, nl_gen.enc_mod(model.terms))
        if usetf:
            run_tf(ses, g, d, model, model.tf(), affine, x0, 3 if THOROUGH else 2, [{}, dict(max_parallel=T), dict(max_parallel=T + 2)][1 if T in (1, 3, 7) and i % 7 else i % 3])
        else:
            run_np(ses, g, d, model, affine, x0, 3)
    # the shipped car model
    for i in range(3 if not THOROUGH else 20):
        if not mine(n + i):
            continue
        g = rng("car", i)
        dt = float(g.uniform(0.05, 0.2))
        T = int(g.integers(3, 9))
        d = G.problem(g, T, 4, 2, 3, cross=False, Z=False, s=False)
        model = nonlinear_model_np.NonlinearModel(dt)
        x0 = np.append(g.normal(size=3), g.uniform(0.5, 1.5))
        ses = tr.session("car T=%d #%d" % (T, i))
        define(ses, d, dict(kind="car", dt=num(dt)))
        run_np(ses, g, d, model, False, x0, 3)
        fns = [lambda x, u, h=h: h(x, u, dt) for h in (nonlinear_model_tf.nonlinear_model_f, nonlinear_model_tf.nonlinear_model_Fx, nonlinear_model_tf.nonlinear_model_Fu)]
        run_tf(ses, g, d, model, fns, False, x0, 1, {})


main(build)
