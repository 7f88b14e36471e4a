"""The shipped benchmark models, recorded."""
from vlib import *
os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
import contextlib, io
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import tensorflow as tf
from parallel_control import (finite_model_np, linear_model_np, linear_model_tf, nonlinear_model_np, nonlinear_model_tf, mass_model_np, ge_model_np, text_model,
                              cnonlin_models_np as cn, cnonlin_models_tf as ct, finite_speedtest, linear_speedtest, nonlinear_speedtest)

TC = lambda v: tf.constant(np.asarray(v, dtype=float), dtype=tf.float64)
ALPHABETS = ["ab", "cba", " xyz", "z", "bdfhj", " abcdefghijklmnopqrstuvwxyz"]


def text(tr, g, i):
    ab = ALPHABETS[i % 6]
    n = 1 if len(ab) > 5 else 1 + (i // 2) % (3 if len(ab) < 5 else 2)
    e = float(g.choice([0.1, 0.5, 0.01, 1.0]))
    m = text_model.TextModel(ab, e, n) if i % 3 else (text_model.TextModel(ab, e, order=n))
    K = len(ab)
    ses = tr.session("text %r order %d #%d" % (ab, n, i))
    pos = lambda t: [ab.index(c) for c in t]
    word = lambda k: "".join(ab[int(j)] for j in g.integers(0, K, size=k))
    for k in (n, n + 1, int(g.integers(n, 40))):
        t = word(k)
        ses.call("text", lambda: dict(Po=enc(m.get1stOrderPo()), Pi=enc(m.get1stOrderPi(t)), prior=enc(m.get1stOrderPrior(t)),
                                      PoN=enc(m.getNthOrderPo()), PiN=enc(m.getNthOrderPi(t)), priorN=enc(m.getNthOrderPrior(t))), lambda r: r, K=K, errp=num(e), order=n, train=pos(t))
    t = word(int(g.integers(1, 30)))
    zs = [int(z) for z in g.integers(0, K ** n, size=len(t))]      # contexts
    ses.call("codec", lambda: dict(ys=idx(m.textToIndex(t)), back=pos(m.indexToText(np.array(zs))), round=pos(m.indexToText(m.textToIndex(t)))), lambda r: r, K=K, text=pos(t), zs=zs)
    t = word(400)
    np.random.seed(int(g.integers(2 ** 31)))
    ses.call("noisy", lambda: m.makeNoisyText(t), lambda r: dict(out=pos(r)), K=K, errp=num(e), text=pos(t))


def channel(tr, g, i):
    m = ge_model_np.GEModel(int(g.integers(1000))) if i else ge_model_np.GEModel()
    ses = tr.session("channel #%d" % i)
    for T in (1, 700):
        def one():
            x, y = m.genData(T)
            return dict(x=idx(x), y=idx(y), bits=idx(ge_model_np.get_b_list(x)))
        ses.call("channel", one, lambda r: r, T=T, Pi=enc(m.Pi), Po=enc(m.Po), prior=enc(m.prior))


def game(tr, g, i):
    m = finite_model_np.FiniteModel(int(g.integers(1000))) if i else finite_model_np.FiniteModel()
    ses = tr.session("game #%d" % i)
    for n, T in ((int(g.integers(1, 6)), int(g.integers(1, 8))), (8 + i % 3, 7), (5, 1)):
        def one():
            tk, x0 = m.genData(T, n)
            p = m.getFSC(tk)
            return dict(track=enc(tk), x0=int(x0), f=idx(p.f), L=enc(p.L), LT=enc(p.LT))
        ses.call("game", one, lambda r: r, n=n, T=T)


def lq(r):
    p, x0 = r
    return dict(T=len(p.F), **{k: enc(getattr(p, k)) for k in ("F", "L", "c", "H", "r", "X", "U", "HT", "XT", "rT")}, x0=enc(x0))


def walk(tr, g, i):
    m = linear_model_np.LinearModel(int(g.integers(1000))) if i else linear_model_np.LinearModel()
    ses = tr.session("walk #%d" % i)
    for N in (1, 2, int(g.integers(50, 200))):
        xy = ses.call("walk", lambda: m.genData(N), lambda r: dict(xy=enc(r)), N=N)
    for steps, N in ((10, 2), (int(g.integers(1, 8)), int(g.integers(1, 4))), (1, 3)):
        xy = g.normal(size=(2, N))
        kw = {} if steps == 10 else dict(steps=steps)
        ses.call("walk_lqt", lambda: m.getLQT(xy, **kw), lq, xy=enc(xy), steps=steps)
    P, x0 = m.getCLQT()
    for t in (0.0, float(g.uniform(0, 50)), float(g.uniform(0, 50)), 50.0):
        ses.call("curve", lambda: {k: enc(getattr(P, k)(t)) for k in "FLcHXUr"}, lambda r: r, t=num(t), tol="1e-11", HT=enc(P.HT), XT=enc(P.XT), rT=enc(P.rT), T=num(P.T), x0=enc(x0), how="np")
    names = ["F", "L", "X", "U", "c", "H", "r"]
    for dtype, tol in ((tf.float64, "1e-11"), (tf.float32, "2e-4")):
        q = linear_model_tf.get_clqt() if dtype == tf.float64 else linear_model_tf.get_clqt(dtype)
        t = float(np.float32(g.uniform(0, 50)))
        fs = dict(zip(names, q[5:]))
        ses.call("curve", lambda: {k: enc(fs[k](tf.constant(t, dtype)).numpy()) for k in names}, lambda r: r, t=num(t), tol=tol,
                 HT=enc(q[3].numpy()), XT=enc(q[2].numpy()), rT=enc(q[4].numpy()), T=enc(q[1].numpy()), x0=enc(q[0].numpy()), how="tf")


def car(tr, g, i):
    dt = float(g.uniform(0.02, 0.5)) if i % 3 else 0.1
    m = nonlinear_model_np.NonlinearModel(dt) if i % 3 else nonlinear_model_np.NonlinearModel()
    ses = tr.session("car #%d" % i)
    B = int(g.integers(1, 6))
    x, u = 3 * g.normal(size=(B, 4)), 2 * g.normal(size=(B, 2))
    ses.call("car", lambda: dict(f=enc([m.f(a, b) for a, b in zip(x, u)]), Fx=enc([m.Fx(a, b) for a, b in zip(x, u)]), Fu=enc([m.Fu(a, b) for a, b in zip(x, u)])), lambda r: r, dt=num(dt), x=enc(x), u=enc(u), how="np")
    kw = dict(dt=dt) if i % 3 else {}
    N = nonlinear_model_tf
    ses.call("car", lambda: dict(f=enc(N.nonlinear_model_f(TC(x), TC(u), **kw).numpy()), Fx=enc(N.nonlinear_model_Fx(TC(x), TC(u), **kw).numpy()), Fu=enc(N.nonlinear_model_Fu(TC(x), TC(u), **kw).numpy())), lambda r: r,
             dt=num(dt), x=enc(x), u=enc(u), how="tf")
    for n, st in ((60, 10), (int(g.integers(2, 40)), int(g.integers(1, 7))), (1 + i % 2, 1)):
        kw = {} if st == 10 else dict(steps=st)
        ses.call("round", lambda: m.genData(n, **kw), lambda r: dict(xyt=enc(r[0]), dense=enc(r[1])), N=n, steps=st)
    for st, n in ((10, 2), (int(g.integers(1, 6)), int(g.integers(1, 5)))):
        xyt = np.cumsum(g.normal(size=(3, n)) * float(g.choice([0.1, 1.0])), axis=1)
        kw = {} if st == 10 else dict(steps=st)
        r = ses.call("car_lqt", lambda: m.getLQT(xyt, **kw), lq, xyt=enc(xyt), steps=st)
        if r is None:
            continue
        P, x0 = r
        for zero in (True, False):
            kw = {} if zero else dict(init_to_zero=False)
            ses.call("guess", lambda: m.initialGuess(P, x0, **kw), lambda q: dict(us=enc(q[0]), xs=enc(q[1])), r=enc(P.r), dt=num(dt), x0=enc(x0), zero=zero)


def ends(F, n=None):
    k = len(F)
    return [F[j] for j in sorted({0, k // 2, k - 1})]


def chain_event(r, full=None):
    p, x0 = r
    return dict(T=len(p.F), F=enc(ends(p.F)), L=enc(ends(p.L)), X=enc(ends(p.X)), U=enc(ends(p.U)), XT=enc(p.XT), HT=enc(p.HT), rT=enc(p.rT), x0=enc(x0))


def chain(tr, g, i):
    ses = tr.session("chain #%d" % i)
    N = [1, 2, 3, 4, 5][i % 5]
    m = mass_model_np.MassModel(N) if N < 5 else mass_model_np.MassModel()
    if i == 4:
        ses.call("chain", lambda: m.getLQT(), chain_event, N=N, dt=num(0.005), Tf=num(10.0))
    for dt, Tf in ((0.1, 0.3), (0.1, 0.25), (10.0 / 58, 10.0), (float(g.uniform(0.05, 0.4)), 1.7), (2.0 / int(g.integers(3, 60)), 2.0)):
        ses.call("chain", lambda: m.getLQT(dt, Tf), chain_event, N=N, dt=num(dt), Tf=num(Tf))


def grid(tr, g, i):
    kind = ["linear", "velocity", "upwind"][i % 3]
    ses = tr.session("grid %s #%d" % (kind, i))
    nx, nu = int(g.integers(2, 12)), int(g.integers(2, 9))
    if i < 3:
        nx = nu = 100
    x, u = 2 * g.normal(size=5), 2 * g.normal(size=5)
    kw = {} if i < 3 else dict(x_grid_steps=nx, u_grid_steps=nu)
    base = dict(kind=kind, nx=nx, nu=nu)
    for lib, C, tol, dt in (("np", cn, "1e-12", jnp.float64), ("tf", ct, "1e-12", tf.float64), ("np", cn, "1e-5", jnp.float32), ("tf", ct, "1e-5", tf.float32)):
        single = tol == "1e-5"
        a, b = (x.astype(np.float32), u.astype(np.float32)) if single else (x, u)
        con = (lambda v: tf.constant(v)) if lib == "tf" else jnp.array
        def one():
            f, L, LT, T, xg, ug = getattr(C, kind + "_model")(**kw, **(dict(dtype=dt) if single else {}))
            return dict(xg=enc(np.asarray(xg)), ug=enc(np.asarray(ug)), T=num(float(T)), f=enc([float(f(con(p), con(q))) for p, q in zip(a, b)]), L=enc([float(L(con(p), con(q))) for p, q in zip(a, b)]), LT=enc([float(LT(con(p))) for p in a]))
        ses.call("grid", one, lambda r: r, x=enc(a), u=enc(b), tol=tol, how=lib, **base)


def reach(tr, g, i):
    ses = tr.session("reach #%d" % i)
    n = 4 + i
    xg = [np.linspace(-1, 1, n), np.linspace(-1, 1, 2 * n + 1), np.linspace(-2, -0.1, n), np.linspace(0, 1, n), np.sort(g.normal(size=n))][i % 5]
    h, inf = float(g.uniform(0.05, 1.5)), float(g.choice([1e20, 1e6]))
    for lib, fn in (("np", lambda: cn.upwind_model_block_V(inf, h, jnp.array(xg))), ("tf", lambda: ct.upwind_model_block_V(TC(inf), TC(h), TC(xg)))):
        ses.call("reach", lambda: np.asarray(fn()), lambda r: dict(V=enc(r)), x=enc(xg), h=num(h), inf=num(inf), how=lib)


def sizes(tr, g, i):
    ses = tr.session("sizes #%d" % i)
    quiet = lambda fn: contextlib.redirect_stdout(io.StringIO()).__enter__() and fn()
    def run(gen, count):
        with contextlib.redirect_stdout(io.StringIO()):
            return [count(v) for v in gen()]
    a, b, n = [(1, 1.6, 3), (1.2, 1.8, 4), (0.5, 1.5, 2)][i % 3]
    want = [int(t) for t in np.logspace(a, b, num=n, base=10).astype(int)]
    ses.call("sizes", lambda: run(lambda: linear_speedtest.mass_generator(2, a, b, n), lambda v: int(v[1].shape[0])), lambda r: dict(got=r), want=want, how="mass")
    T = [29, 53, 12][i % 3]
    ses.call("sizes", lambda: run(lambda: linear_speedtest.mass_generator_2(T, 1, 4, 1), lambda v: [int(v[1].shape[0]), int(v[1].shape[1])]), lambda r: dict(got=r), want=[[T, 2 * N] for N in (1, 2, 3)], how="mass2")
    ses.call("sizes", lambda: run(lambda: finite_speedtest.finite_generator(4, a, b, n), lambda v: [int(v[1].shape[0]), int(v[1].shape[1])]), lambda r: dict(got=r), want=[[t, 4] for t in want], how="finite")
    if a >= 1:
        ses.call("sizes", lambda: run(lambda: linear_speedtest.tracking_generator(a, b, n), lambda v: int(v[1].shape[0])), lambda r: dict(got=r), want=[10 * (t // 10) for t in want], how="tracking")


PLAN = [(text, 12), (channel, 3), (game, 5), (walk, 5), (car, 8), (chain, 5), (grid, 9), (reach, 10), (sizes, 3)]


def build(tr):
    j = 0
    for fn, n in PLAN:
        for i in range(n * (6 if THOROUGH else 1)):
            if mine(j):
                fn(tr, rng("C21", fn.__name__, i), i)
            j += 1


main(build)
