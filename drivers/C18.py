from vlib import *
os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
import contextlib, io
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import tensorflow as tf
from parallel_control import hjb_grid_1d_np as hn, hjb_grid_1d_tf as ht, cnonlin_models_np as cn

TC = lambda v: tf.constant(np.asarray(v, dtype=float), dtype=tf.float64)
N = lambda v: np.asarray(v)


def poly(ts):
    """Polynomial with one or two variables as a Python function of arrays (NumPy, JAX or TensorFlow)."""
    def fn(*z):
        r = 0.0 * z[0] + (0.0 * z[1] if len(z) > 1 else 0.0)
        for c, e in ts:
            m = float(c)
            for v, k in zip(z, e):
                for _ in range(k):
                    m = m * v
            r = r + m
        return r
    return fn


def enc_poly(ts):
    return [dict(c=num(float(c)), e=[int(k) for k in e]) for c, e in ts]


# ---------------------------------------------------------------- combinations
def values(g, n, m, kind):
    if kind == "real":
        return g.normal(size=(n, m)) * 10.0 ** g.uniform(-2, 3)
    if kind == "ints":          # many ties, flat places
        return g.integers(0, 3, size=(n, m)).astype(float)
    if kind == "unreachable":
        return np.where(g.random((n, m)) < 0.45, 1e20, np.round(g.normal(size=(n, m)), 2))
    if kind == "quadratic":     # as from a linear quadratic problem
        x, y = np.meshgrid(np.linspace(-1, 1, n), np.linspace(-1, 1, m), indexing="ij")
        return (x - y) ** 2 * g.uniform(1, 5) + x * x * g.uniform(0, 1) + g.uniform(-1, 1) * y
    return np.zeros((n, m))


KINDS = ["real", "ints", "quadratic", "unreachable", "flat"]


def combos(ses, g, i):
    kind = KINDS[i % 5]
    n = int(g.integers(2, 8)); m = n if i % 3 else int(g.integers(1, 6)); p = n if i % 2 else int(g.integers(2, 6))
    p = max(p, 2)
    A, B = values(g, p, n, kind), values(g, n, m, kind)
    # middle dimension n >= 2; the code reflects at the rows of A or of the sum, so keep A square
    A = values(g, n, n, kind)
    one = lambda r: dict(C=[enc(N(r))])
    for how, fn in (("combine_V", hn.combine_V), ("combine_V2", hn.combine_V2)):
        ses.call("combine", lambda: fn(jnp.array(A), jnp.array(B)), one, kind="min", A=[enc(A)], B=[enc(B)], how=how)
    ses.call("combine", lambda: hn.combine_V_interp(jnp.array(A), jnp.array(B)), one, kind="interp", A=[enc(A)], B=[enc(B)], how="combine_V_interp")
    if i % 2:       # loop version: square arguments
        B2 = values(g, n, n, kind)
        ses.call("combine", lambda: hn.combine_V_interp2(A, B2), one, kind="interp", A=[enc(A)], B=[enc(B2)], how="combine_V_interp2")
    nb = int(g.integers(1, 4))
    As = [values(g, n, n, kind) for _ in range(nb)]; Bs = [values(g, n, m, kind) for _ in range(nb)]
    As[0], Bs[0] = A, B
    SA, SB = TC(np.stack(As)), TC(np.stack(Bs))
    many = lambda r: dict(C=enc(N(r)))
    E = dict(A=enc(np.stack(As)), B=enc(np.stack(Bs)))
    ses.call("combine", lambda: ht.combine_V(SA, SB), many, kind="min", how="tf", **E)
    ses.call("combine", lambda: ht.combine_V2(SA, SB), many, kind="min", how="tf2", **E)
    ses.call("combine", lambda: ht.combine_V_rev(SB, SA), many, kind="min", how="tf rev", **E)
    ses.call("combine", lambda: ht.combine_V_interp(SA, SB), many, kind="interp", how="tf interp", **E)
    ses.call("combine", lambda: ht.combine_V_interp_rev(SB, SA), many, kind="interp", how="tf interp rev", **E)


def scans(ses, g, i):
    n = int(g.integers(2, 6)); k = i % 8 + 1
    kind = KINDS[i % 4]
    el = [values(g, n, n, kind) for _ in range(k)]
    out = lambda r: dict(C=[enc(N(v)) for v in r])
    ses.call("scan", lambda: hn.par_backward_pass_scan([jnp.array(e) for e in el]), out, kind="min", E=[enc(e) for e in el])
    if k <= 5:
        el = [values(g, n, n, "real") for _ in range(k)]
        ses.call("scan", lambda: hn.par_backward_pass_scan_interp([jnp.array(e) for e in el]), out, kind="interp", E=[enc(e) for e in el])


# ---------------------------------------------------------------- block passes
def block_pass(ses, g, i):
    kind = ["real", "quadratic", "ints", "unreachable"][i % 4]
    n = int(g.integers(3, 7)); blocks = 1 + (i // 4) % 5 if kind == "real" else 1 + (i * 5 // 4) % 9
    V = values(g, n, n, kind)
    if kind == "real":
        V = V / np.max(np.abs(V))
    lt = [(float(g.normal()), [2]), (float(g.normal()), [1]), (float(g.normal()), [0])] if kind != "ints" else [(1, [2])]
    x = np.linspace(-1, 1, n) if kind != "ints" else np.arange(n) - n // 2.0
    LT = poly(lt); W = LT(x)
    s = hn.HJB_Grid_1d(None, None, LT, 1.0, blocks, 3, jnp.array(x))
    E = dict(V=enc(V), LT=enc(W), blocks=blocks)
    out = lambda r: dict(vs=[enc(N(v)) for v in r])
    par = "orders" if kind == "real" else "ties"
    ses.call("blocks", lambda: s.seqBackwardPass_assoc(jnp.array(V)), out, how="seq", **E)
    ses.call("blocks", lambda: s.parBackwardPass(jnp.array(V)), out, how=par, **E)
    tx = TC(x)
    ses.call("blocks", lambda: ht.seq_bw_pass_assoc(LT, blocks, tx, TC(V)), out, how="seq", lib="tf", **E)
    mp = [10000, blocks + 1, 2 * blocks, 64][i % 4]
    ses.call("blocks", lambda: ht.par_bw_pass(LT, blocks, tx, TC(V), max(mp, 2)), out, how=par, lib="tf", **E)


def upwind_blocks(ses, g, i):
    """The shipped model with unreachable transitions."""
    n = [9, 12, 21][i % 3]; blocks = [3, 4, 2][i % 3]
    f, L, LT, T, x, u = cn.upwind_model(n, 4)
    V = N(cn.upwind_model_block_V(hn._HJB_GRID_NP_INFTY, T / (2 if i % 2 else 1) , x))
    W = N(LT(x))
    s = hn.HJB_Grid_1d(f, L, LT, T, blocks, 3, x)
    E = dict(V=enc(V), LT=enc(W), blocks=blocks)
    out = lambda r: dict(vs=[enc(N(v)) for v in r])
    ses.call("blocks", lambda: s.seqBackwardPass_assoc(jnp.array(V)), out, how="seq", **E)
    ses.call("blocks", lambda: s.parBackwardPass(jnp.array(V)), out, how="ties", **E)
    ses.call("blocks", lambda: ht.seq_bw_pass_assoc(lambda x: -x, blocks, TC(N(x)), TC(V)), out, how="seq", lib="tf", **E)
    ses.call("blocks", lambda: ht.par_bw_pass(lambda x: -x, blocks, TC(N(x)), TC(V)), out, how="ties", lib="tf", **E)


# ---------------------------------------------------------------- finite differences
MODELS = [
    dict(f=[(1, [1, 0]), (1, [0, 1])], L=[(0.5, [2, 0]), (0.5, [0, 2])], LT=[(1.0, [2])]),
    dict(f=[(1, [0, 0]), (-0.1, [2, 0]), (1, [0, 1])], L=[(0.5, [2, 0]), (0.5, [0, 2])], LT=[(2.0, [2])]),
    dict(f=[(1, [1, 1])], L=[], LT=[(-1, [1])]),
    dict(f=[(0.7, [0, 1]), (-0.4, [3, 0])], L=[(1, [2, 0]), (0.3, [1, 1]), (0.2, [0, 4]), (-0.1, [0, 1])], LT=[(0.5, [3]), (-1, [1]), (0.2, [0])]),
    dict(f=[(1, [0, 1]), (0.5, [1, 2])], L=[(1, [0, 2]), (-0.5, [1, 0])], LT=[(0.3, [4]), (-0.5, [2])]),
]


def finite(ses, g, i):
    M = MODELS[i % 5]
    if i >= 5:
        M = dict(f=M["f"] + [(float(g.normal() * .3), [1, 0])], L=M["L"] + [(float(g.normal()), [1, 0]), (abs(float(g.normal())), [0, 2])],
                 LT=M["LT"] + [(float(g.normal()), [1])])
    n = int(g.integers(3, 9)) if i % 7 else 2; m = int(g.integers(1, 7)); blocks = 1 + i % 3; steps = 1 + (i // 3) % 4
    lo = float(g.uniform(-2, 0)); x = np.linspace(lo, lo + float(g.uniform(1, 4)), n); u = np.linspace(-1.5, 2, m) if i % 4 else np.sort(g.normal(size=m))
    dx = x[1] - x[0]
    T = float(g.uniform(0.2, 0.6)) * dx * blocks * steps if i % 5 else 1.0
    f, L, LT = poly(M["f"]), poly(M["L"]), poly(M["LT"])
    if not M["L"]:      # as in the shipped model: a running cost that is a scalar zero
        L = lambda x, u: 0.0
        Lt = lambda x, u: tf.constant(0.0, dtype=tf.float64)
    else:
        Lt = L
    s = hn.HJB_Grid_1d(f, L, LT, T, blocks, steps, jnp.array(x))
    E = dict(f=enc_poly(M["f"]), L=enc_poly(M["L"]) or enc_poly([(0, [0, 0])]), LT=enc_poly(M["LT"]), T=num(T), blocks=blocks, steps=steps, x=enc(x), u=enc(u))
    out = lambda r: dict(vs=[enc(N(v)) for v in r])
    ju = jnp.array(u)
    ses.call("fd", lambda: s.seqBackwardPass_symfd(ju), out, scheme="central", lib="np", **E)
    ses.call("fd", lambda: s.seqBackwardPass_upwind(ju), out, scheme="upwind", lib="np", **E)
    tT = TC(T) if i % 2 else T
    ses.call("fd", lambda: ht.seq_bw_pass_symfd(f, Lt, LT, tT, blocks, steps, TC(x), TC(u)), out, scheme="central", lib="tf", **E)
    ses.call("fd", lambda: ht.seq_bw_pass_upwind(f, Lt, LT, tT, blocks, steps, TC(x), TC(u)), out, scheme="upwind", lib="tf", **E)


# ---------------------------------------------------------------- shooting
def shooting(ses, g, i):
    n = [1, 2, 3, 4, 7, 5][i % 6]; T = [1.0, 0.3, 1 / 3, 2.5, 0.07][i % 5]
    if i == 1:
        n, T = 49, 1.0
    if i == 2:
        n, T = 15, 1 / 3
    if n > 10:
        M = MODELS[0]
    else:
        M = MODELS[[0, 1, 3, 4][i % 4]]
    f, L = poly(M["f"]), poly(M["L"])
    nb = 1 if n > 10 else int(g.integers(1, 4))
    x0, xf = g.normal(size=nb), g.normal(size=nb)
    sc = 0.4
    th = [sc * g.normal(size=(nb, 2 * n)), sc * g.normal(size=(nb, n + 1))]
    E = dict(f=enc_poly(M["f"]), L=enc_poly(M["L"]), T=num(T))
    for b in range(nb):
        one = lambda r: dict(cost=[enc(N(r[0]))], miss=enc(N(r[1])))
        F = dict(x0=[num(x0[b])], xf=[num(xf[b])])
        ses.call("shoot", lambda: hn.fun_and_con_1(f, L, T, x0[b], xf[b], jnp.array(th[0][b][0::2]), jnp.array(th[0][b][1::2])), one, how=1, theta=[enc(th[0][b])], **E, **F)
        ses.call("shoot", lambda: hn.fun_and_con_2(f, L, T, x0[b], xf[b], jnp.array(th[1][b])), one, how=2, theta=[enc(th[1][b])], **E, **F)
    if i % 2 == 0 or n > 10:
        many = lambda r: dict(cost=enc(N(r[0])), miss=enc(N(r[1])[:, 0]))
        F = dict(x0=enc(x0), xf=enc(xf))
        t = TC(th[0])
        ses.call("shoot", lambda: ht.fun_and_con_1(f, L, TC(T), TC(x0), TC(xf), t[:, 0::2], t[:, 1::2]), many, how=1, theta=enc(th[0]), lib="tf", **E, **F)
        ses.call("shoot", lambda: ht.fun_and_con_2(f, L, TC(T), TC(x0), TC(xf), TC(th[1])), many, how=2, theta=enc(th[1]), lib="tf", **E, **F)


def tables(ses, g, i):
    """Affine dynamics and quadratic costs: the shooting problem is a quadratic program."""
    a, b, c0 = float(g.uniform(-1, 1)), float(g.uniform(0.5, 1.5)), float(g.normal() * .3)
    M = dict(f=[(a, [1, 0]), (b, [0, 1]), (c0, [0, 0])],
             L=[(float(g.uniform(0, 1)), [2, 0]), (float(g.uniform(0.5, 2)), [0, 2]), (float(g.normal() * .2), [1, 1]), (float(g.normal()), [1, 0]), (float(g.normal()), [0, 1])])
    f, L = poly(M["f"]), poly(M["L"])
    T = float(g.uniform(0.3, 1.2)); n = 1 + i % 3; blocks = 1 + i % 2
    E = dict(f=enc_poly(M["f"]), L=enc_poly(M["L"]), steps=n)
    x0 = np.sort(g.normal(size=3)); xf = np.sort(g.normal(size=2))
    out = lambda r: dict(V=enc(N(r)))
    F = dict(x0=enc(x0), xf=enc(xf), T=num(T))
    J = jnp.array
    which = i % 4
    quiet = contextlib.redirect_stdout(io.StringIO())
    with quiet:
        if which < 2:
            ses.call("table", lambda: hn.V_eval_1(f, L, T, n, J(x0), J(xf), 4), out, how=1, **E, **F)
            ses.call("table", lambda: hn.V_eval_2(f, L, T, n, J(x0), J(xf), 4), out, how=2, **E, **F)
            s = hn.HJB_Grid_1d(f, L, None, T, blocks, n, J(x0))
            m = [1, 2, 2, 1][i % 4]
            G = dict(x0=enc(x0), xf=enc(x0), T=num(T / blocks))
            ses.call("table", lambda: s.directShootingValueFunction(m, 3), out, how=m, **E, **G)
            if i % 2:
                ses.call("table", lambda: s.directShootingValueFunction(), out, how=2, **E, **G)
        else:
            # compiled, the second derivatives of the scan take minutes to trace
            tf.config.run_functions_eagerly(True)
            G = dict(x0=enc(x0[:2]), xf=enc(x0[:2]), T=num(T / blocks))
            if which == 2:
                ses.call("table", lambda: ht.V_eval_1(f, L, TC(T), 1 + i % 2 if not THOROUGH else n, TC(x0), TC(xf), 1), out, how=1, lib="tf", **dict(E, steps=1 + i % 2 if not THOROUGH else n), **F)
            elif not THOROUGH:
                ses.call("table", lambda: ht.direct_shooting_block_V(f, L, TC(T / blocks), 2, TC(x0[:2]), 1), out, how=2, lib="tf", **dict(E, steps=2), **G)
            else:
                ses.call("table", lambda: ht.V_eval_2(f, L, TC(T), n, TC(x0), TC(xf), 2), out, how=2, lib="tf", **E, **F)
                ses.call("table", lambda: ht.direct_shooting_block_V(f, L, TC(T / blocks), n, TC(x0[:2]), 2), out, how=2, lib="tf", **E, **G)
            tf.config.run_functions_eagerly(False)


def build(tr):
    k = 4 if THOROUGH else 1
    plan = [("table", tables, 6 if not THOROUGH else 12), ("combine", combos, 20 * k), ("scan", scans, 16 * k), ("blocks", block_pass, 28 * k), ("upwind", upwind_blocks, 3), ("fd", finite, 20 * k),
            ("shoot", shooting, 12 * k)]
    j = 0
    for name, fn, cnt in plan:
        for i in range(cnt):
            if mine(j):
                fn(tr.session("%s%d" % (name, i)), rng("C18", name, i), i)
            j += 1


main(build)
