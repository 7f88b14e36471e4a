from vlib import *
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import tensorflow as tf
from parallel_control import sqp_np, sqp_tf


def enc_poly(ts):
    return [dict(c=num(c), e=[int(k) for k in e]) for c, e in ts]


def coefs(polys, n):
    """Coefficient arrays of monomials of degree 0..4 (few operations per evaluation)."""
    C = [np.zeros((len(polys), n ** d)) for d in range(5)]
    for k, ts in enumerate(polys):
        for c, e in ts:
            js = [j for j, q in enumerate(e) for _ in range(q)]
            i = 0
            for j in js:
                i = i * n + j
            C[len(js)][k, i] += c
    top = max([d for d in range(5) if np.any(C[d])] + [2])
    return C[:top + 1]


def powers(x, outer, top):
    ms = [x]
    for d in range(2, top + 1):
        ms.append(outer(ms[-1], x))
    return ms


def unit(n, *js):
    e = [0] * n
    for j in js:
        e[j] += 1
    return e


def spd(g, n):
    A = g.normal(size=(n, n))
    return A @ A.T + np.eye(n) * g.uniform(0.3, 1.5)


def problem(g, n, m, kind):
    """kind "qp": quadratic objective, linear constraints; "mild": small higher-order terms; "hard": larger ones."""
    G, c = spd(g, n), g.normal(size=n)
    A, b = g.normal(size=(m, n)), g.normal(size=m)
    f = [(G[i, j] * (0.5 if i == j else 1.0), unit(n, i, j)) for i in range(n) for j in range(i, n)]
    f += [(c[i], unit(n, i)) for i in range(n)] + [(float(g.normal()), unit(n))]
    cs = [[(A[k, i], unit(n, i)) for i in range(n)] + [(-b[k], unit(n))] for k in range(m)]
    if kind != "qp":
        q = 0.08 if kind == "mild" else 0.4
        for _ in range(2):
            i, j, k = g.integers(n, size=3)
            f.append((q * float(g.normal()), unit(n, i, j, k)))
        i = int(g.integers(n))
        f.append((q, unit(n, i, i, i, i)))
        for k in range(m):
            i, j = g.integers(n, size=2)
            cs[k].append((q * float(g.normal()), unit(n, i, j)))
    return f, cs


def define(ses, n, m, f, cs):
    ses.add("problem", Q=dict(n=n, m=m, f=enc_poly(f), c=[enc_poly(t) for t in cs]))


def jax_funs(f, cs, n):
    def make(polys):
        C = [jnp.array(c) for c in coefs(polys, n)]
        return lambda x: C[0][:, 0] + sum(c @ m for c, m in zip(C[1:], powers(x, lambda a, b: jnp.outer(a, b).reshape(-1), len(C) - 1)))
    pf, pc = make([f]), make(cs)
    return (lambda x: pf(x)[0]), pc


def tf_funs(f, cs, n):
    # the parameter scales every coefficient; it is handed over as 1 (and checks that par is passed on)
    def make(polys):
        C = [tf.constant(c) for c in coefs(polys, n)]
        outer = lambda a, b: tf.reshape(a[..., :, None] * b[..., None, :], tf.concat([tf.shape(a)[:-1], [a.shape[-1] * b.shape[-1]]], 0))
        def h(x, par):
            r = C[0][:, 0]
            for c, m in zip(C[1:], powers(x, outer, len(C) - 1)):
                r = r + tf.linalg.matvec(c, m)
            return par * r
        return h
    pf, pc = make([f]), make(cs)
    return (lambda x, par: pf(x, par)[..., 0]), pc


def qps(ses, g, i):
    n = int(g.integers(1, 6)); m = int(g.integers(1, n + 1)); nb = int(g.integers(1, 5))
    L = []
    for _ in range(nb):
        A = g.normal(size=(m, n))
        if i % 3 == 1:      # only positive definite along the constraint
            G = spd(g, n) - 0.2 * np.eye(n) if m == n else spd(g, n) + float(g.uniform(0, 2)) * A.T @ A
            G = G - (float(g.uniform(0.5, 3)) * A.T @ A if i % 2 else 0)
        else:
            G = spd(g, n)
        s = 10.0 ** g.uniform(-3, 3) if i % 4 == 3 else 1.0
        L.append((s * G, s * g.normal(size=n), A, g.normal(size=m)))
    E = lambda ls: [dict(G=enc(G), c=enc(c), A=enc(A), b=enc(b)) for G, c, A, b in ls]
    for q in L:
        ses.call("qp", lambda: sqp_np.lqe_solve(*[jnp.array(v) for v in q]), lambda r: dict(x=[enc(np.array(r[0]))], lam=[enc(np.array(r[1]))]), qp=E([q]), how="np")
        ses.call("qp", lambda: sqp_tf.lqe_solve(*[tf.constant(v) for v in q]), lambda r: dict(x=[enc(r[0].numpy())], lam=[enc(r[1].numpy())]), qp=E([q]), how="tf")
    st = [tf.constant(np.stack([q[k] for q in L])) for k in range(4)]
    ses.call("qp", lambda: sqp_tf.lqe_solve(*st), lambda r: dict(x=enc(r[0].numpy()), lam=enc(r[1].numpy())), qp=E(L), how="tf batch")
    if nb == 4:   # two batch dimensions
        st2 = [tf.reshape(v, (2, 2) + v.shape[1:]) for v in st]
        ses.call("qp", lambda: sqp_tf.lqe_solve(*st2), lambda r: dict(x=enc(r[0].numpy().reshape(4, -1)), lam=enc(r[1].numpy().reshape(4, -1))), qp=E(L), how="tf batch2")


def updates(ses, g, i):
    n = int(g.integers(1, 6))
    B = spd(g, n) if i % 2 else np.eye(n)
    Bd = B.copy()
    for k in range(6):
        s = g.normal(size=n) * 10.0 ** g.uniform(-2, 1)
        y = [spd(g, n) @ s, g.normal(size=n), -s * g.uniform(0.1, 2), s * 0.05, np.zeros(n)][int(g.integers(5))]
        N = ses.call("bfgs", lambda: sqp_np.bfgs_basic_update(jnp.array(B), jnp.array(s), jnp.array(y), True), lambda r: dict(N=enc(np.array(r))), how="basic", B=enc(B), s=enc(s), y=enc(y))
        D = ses.call("bfgs", lambda: sqp_np.bfgs_damped_update(jnp.array(Bd), jnp.array(s), jnp.array(y), True), lambda r: dict(N=enc(np.array(r))), how="damped", B=enc(Bd), s=enc(s), y=enc(y))
        for X, name in ((N, "B"), (D, "Bd")):
            ok = X is not None and np.all(np.isfinite(X)) and np.linalg.cond(X) < 1e5 and np.min(np.linalg.eigvalsh(X)) > 0
            if name == "B" and ok: B = np.array(X)
            if name == "Bd" and ok: Bd = np.array(X)


def solver(ses, g, i, kind):
    n = int(g.integers(1, 5)); m = int(g.integers(1, n + 1)) if i % 4 else 1
    if kind != "qp" and m == n and n > 1:
        m -= 1
    f, cs = problem(g, n, m, kind)
    define(ses, n, m, f, cs)
    fun, con = jax_funs(f, cs, n)
    x0 = g.normal(size=n) * 0.7
    # derivatives
    tfun, tcon = tf_funs(f, cs, n)
    one = tf.constant(1.0, tf.float64)
    for nb in (0, 1, 3):
        X = g.normal(size=(max(nb, 1), n)); La = g.normal(size=(max(nb, 1), m))
        tx, tl = (tf.constant(X), tf.constant(La)) if nb else (tf.constant(X[0]), tf.constant(La[0]))
        sq = (lambda v: enc(v.numpy())) if nb else (lambda v: [enc(v.numpy())])
        ses.call("derivs", lambda: sqp_tf.fun_value_grad(tfun, tx, one, nb > 0), lambda r: dict(val=sq(r[0]), d1=sq(r[1])), what="fun", x=enc(X), batch=nb)
        ses.call("derivs", lambda: sqp_tf.con_value_jac(tcon, tx, one, nb > 0), lambda r: dict(val=sq(r[0]), d1=sq(r[1])), what="con", x=enc(X), batch=nb)
        ses.call("derivs", lambda: sqp_tf.lag_value_grad_hess(tfun, tcon, tx, tl, one, nb > 0), lambda r: dict(val=sq(r[0]), d1=sq(r[1]), d2=sq(r[2])), what="lag", x=enc(X), lam=enc(La), batch=nb)
        if i % 2 or nb != 1:
            K = int(g.integers(1, 5))
            x0s = 0.7 * X
            ses.call("newton_steps", lambda: sqp_tf.local_eq_fast(tfun, tcon, tf.constant(x0s if nb else x0s[0]), one, K, nb > 0),
                     lambda r: dict(xs=[sq(v) for v in r[0]], lams=[sq(v) for v in r[1]], crits=enc(r[2].numpy())), x0=enc(x0s), k=K, batch=nb)
    for k in (1, 2, 3)[:3 if kind == "mild" else 1]:
        ses.call("newton", lambda: sqp_np.local_eq(fun, con, jnp.array(x0), max_iter=k, tol=0.0, quiet=True), lambda r: dict(x=enc(np.array(r[0])), iter=int(r[1]), crit=enc(float(r[2]))), x0=enc(x0), k=k, fixed=False)
        ses.call("newton", lambda: sqp_np.local_eq_fast(fun, con, jnp.array(x0), k), lambda r: dict(x=enc(np.array(r[0])), iter=int(r[1]), crit=enc(float(r[2]))), x0=enc(x0), k=k, fixed=True)
    for k, tol, back, damped in ((2, 0.0, 10, True), (3, 0.0, 10, False), (4, 0.0, 3, True), (2, 0.0, 3, False)):
        if kind == "hard" and k > 2:
            continue
        ses.call("bfgs_run", lambda: sqp_np.bfgs_eq_bt(fun, con, jnp.array(x0), k, tol, back, damped, True), lambda r: dict(x=enc(np.array(r[0])), crit=enc(float(r[2]))), x0=enc(x0), k=k, damped=damped, back=back)
    F = lambda r: dict(x=enc(np.array(r[0])), iter=int(r[1]), crit=enc(float(r[2])))
    for tol in (1e-7, 1e-3, 0.3, 0.9)[i % 2::2]:
        mi = int(g.integers(3, 14))
        for newton, fn in ((True, lambda: sqp_np.local_eq(fun, con, jnp.array(x0), mi, tol, True)),
                           (False, lambda: sqp_np.bfgs_eq_bt(fun, con, jnp.array(x0), mi, tol, 10, i % 2 == 0, True))):
            ses.call("stopped", fn, F, x0=enc(x0), tol=enc(tol), max_iter=mi, newton=newton, exact=kind == "qp")


def special(ses, g, k):
    """Starts at which one of the two first-order conditions already holds."""
    n = 2
    if k == 0:      # full step of a parabola: constraint violated where the gradient vanishes
        f = [(1.0, [2, 0]), (1.0, [0, 2])]; cs = [[(1.0, [1, 0]), (1.0, [2, 0]), (-1.0, [0, 0])]]; x0 = np.zeros(2)
    elif k == 1:    # starts at the unconstrained minimum
        f = [(1.0, [2, 0]), (2.0, [0, 2])]; cs = [[(1.0, [1, 0]), (1.0, [0, 1]), (-2.0, [0, 0])]]; x0 = np.zeros(2)
    elif k == 2:    # starts feasible
        f = [(1.0, [2, 0]), (2.0, [0, 2]), (1.0, [1, 0])]; cs = [[(1.0, [1, 0]), (1.0, [0, 1]), (-2.0, [0, 0])]]; x0 = np.array([1.0, 1.0])
    else:           # starts at the solution
        f = [(1.0, [2, 0]), (1.0, [0, 2])]; cs = [[(1.0, [1, 0]), (1.0, [0, 1]), (-2.0, [0, 0])]]; x0 = np.array([1.0, 1.0])
    define(ses, n, 1, f, cs)
    fun, con = jax_funs(f, cs, n)
    F = lambda r: dict(x=enc(np.array(r[0])), iter=int(r[1]), crit=enc(float(r[2])))
    for tol in (1e-8, 0.1):
        for mi in (1, 2, 10):
            ses.call("stopped", lambda: sqp_np.local_eq(fun, con, jnp.array(x0), mi, tol, True), F, x0=enc(x0), tol=enc(tol), max_iter=mi, newton=False, exact=k > 0)
            if k < 3:
                for d in (True, False):
                    ses.call("stopped", lambda: sqp_np.bfgs_eq_bt(fun, con, jnp.array(x0), mi, tol, 10, d, True), F, x0=enc(x0), tol=enc(tol), max_iter=mi, newton=False, exact=k > 0)


def build(tr):
    n = 16 if not THOROUGH else 220
    for i in range(n):
        if not mine(i):
            continue
        g = rng("C13", i)
        ses = tr.session("qp #%d" % i)
        qps(ses, g, i)
        updates(ses, g, i)
        kind = ["qp", "mild", "mild", "hard"][i % 4]
        ses = tr.session("%s #%d" % (kind, i))
        solver(ses, g, i, kind)
    for k in range(4):
        if mine(k):
            special(tr.session("special %d" % k), rng("C13s", k), k)


main(build)
