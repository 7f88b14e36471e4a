from vlib import *
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import tensorflow as tf
from parallel_control import diffeq_np, diffeq_tf, disc


def terms_of(g, n, npar, kind, uset, usep):
    """Per component a list of (coefficient, exponents over (x, t, p))."""
    nz = n + 1 + npar
    out = []
    for i in range(n):
        ts = []
        for _ in range(int(g.integers(1, 5))):
            e = [0] * nz
            if kind == "time":
                e[n] = int(g.integers(0, 4))
            elif kind == "linear":
                e[int(g.integers(n))] = 1
            else:
                for _ in range(int(g.integers(0, 3))):
                    e[int(g.integers(n))] += 1
                if uset:
                    e[n] = int(g.integers(0, 4))
            if usep and npar:
                e[n + 1 + int(g.integers(npar))] += int(g.integers(0, 3))
            if not uset:
                e[n] = 0
            ts.append((float(g.normal()), e))
        out.append(ts)
    return out


def enc_terms(terms):
    return [[dict(c=num(c), e=[int(k) for k in e]) for c, e in ts] for ts in terms]


def field(terms, n, lib):
    """Evaluate on the last axis; t a scalar, p a vector (or scalar)."""
    def f(x, t, p):
        cols = []
        for ts in terms:
            v = 0.0 * x[..., 0]
            for c, e in ts:
                m = c
                for j in range(n):
                    for _ in range(e[j]):
                        m = m * x[..., j]
                for _ in range(e[n]):
                    m = m * t
                for j in range(n + 1, len(e)):
                    for _ in range(e[j]):
                        m = m * p[j - n - 1]
                v = v + m
            cols.append(v)
        return lib.stack(cols, axis=-1)
    return f


def rk(ses, g, i):
    n = int(g.integers(1, 5)); npar = int(g.integers(1, 3))
    shapes = [(n,)] + ([(2, 2)] if n == 4 else []) + ([()] if n == 1 else [])
    shape = shapes[int(g.integers(len(shapes)))]
    for form in ("x", "xp", "xt", "xtp"):
        for kind in ("time", "linear", "poly"):
            uset, usep = "t" in form, "p" in form
            if kind == "time" and not uset:
                continue
            terms = terms_of(g, n, npar, kind, uset, usep)
            zero = g.integers(4)
            p = np.zeros(npar) if zero == 0 else g.normal(size=npar)
            if usep and npar == 1 and g.random() < 0.5:
                p = np.array([0.0 if zero == 0 else float(g.normal())]); scal = True
            else:
                scal = False
            t = 0.0 if zero == 1 else float(g.uniform(-2, 3))
            t = int(t) if zero == 2 else t
            dt = float(g.choice([0.3, -0.4, 1.0, 0.05, -1.0]))
            x = g.normal(size=n).reshape(shape)
            F = dict(terms=enc_terms(terms), dt=num(dt), t=num(t if uset else 0), p=enc(p if usep else np.zeros(npar)), rtol="1e-11")
            for lib, name in ((np, "np"), (jnp, "jax")):
                if name == "jax" and (i + len(form)) % 3:
                    continue
                f0 = field(terms, n, lib)
                h = lambda x, t, q: lib.reshape(f0(lib.reshape(x, (n,)), t, [q] if scal else q), shape)
                pp = float(p[0]) if scal else p
                xx = lib.asarray(x) if name == "jax" else (x if shape else float(x))
                call = dict(x=lambda: diffeq_np.rk4(lambda x: h(x, 0.0, pp), dt, xx),
                            xp=lambda: diffeq_np.rk4(lambda x, q: h(x, 0.0, q), dt, xx, param=pp),
                            xt=lambda: diffeq_np.rk4(lambda x, t: h(x, t, pp), dt, xx, t),
                            xtp=lambda: diffeq_np.rk4(h, dt, xx, t, pp))[form]
                ses.call("rk4", call, lambda r: dict(y=[enc(np.reshape(np.array(r), -1))]), x=[enc(np.reshape(x, -1))], how=name + " " + form, **F)
            # several steps in a row, as the solvers do it
            if kind == "poly" and form == "xt":
                f0 = field(terms, n, np)
                y = 0.3 * np.reshape(x, -1)
                for k in range(3):
                    y0 = y
                    y = ses.call("rk4", lambda: diffeq_np.rk4(lambda x, t: f0(x, t, p), 0.1, y0, t + 0.1 * k), lambda r: dict(y=[enc(r)]), x=[enc(y0)], how="chain",
                                 **dict(F, dt=num(0.1), t=num(t + 0.1 * k), p=enc(np.zeros(npar))))
                    if y is None:
                        break
    # TensorFlow: one form, states of any rank with batch axes in front
    c = lambda v: tf.constant(v, tf.float64)
    for kind in ("time", "linear", "poly")[:3 if i % 2 else 2]:
        for how in ("t p", "t", "none", "batch"):
            terms = terms_of(g, n, npar, kind, how != "none", how in ("t p", "batch"))
            f0 = field(terms, n, tf)
            t = float(g.uniform(-2, 3)) if how != "none" else 0.0
            p = g.normal(size=npar) if how in ("t p", "batch") else np.zeros(npar)
            dt = float(g.choice([0.3, -0.4, 1.0, 0.05]))
            X = g.normal(size=(3, n)) if how == "batch" else g.normal(size=(1, n))
            x = c(X) if how == "batch" else c(X[0])
            h = (lambda x, t, q: f0(x, t, q)) if how in ("t p", "batch") else (lambda x, t, q: f0(x, t, [q] * npar))
            call = dict([("t p", lambda: diffeq_tf.rk4(h, c(dt), x, c(t), c(p))), ("batch", lambda: diffeq_tf.rk4(h, dt, x, c(t), c(p))),
                         ("t", lambda: diffeq_tf.rk4(h, c(dt), x, c(t))), ("none", lambda: diffeq_tf.rk4(h, c(dt), x))])[how]
            ses.call("rk4", call, lambda r: dict(y=enc(r.numpy() if how == "batch" else r.numpy()[None])), x=enc(X), how="tf " + how,
                     terms=enc_terms(terms), dt=num(dt), t=num(t), p=enc(p), rtol="1e-11")


def lti(ses, g, i):
    n = int(g.integers(1, 5)); s = int(g.integers(1, 4)); m = int(g.integers(1, 4))
    for j in range(8):
        F = g.normal(size=(n, n)) * g.choice([0.3, 1.0])
        if j == 1:
            F = np.triu(F, 1)                               # integrators
        if j == 2:
            F = g.integers(-2, 3, size=(n, n))              # integer system matrix
            F = F // 2 if n > 2 else F
        if j == 6:                                          # singular, up to rounding
            F = np.outer(g.normal(size=n), g.normal(size=n))
        if j == 7:
            F = F * 1e-4
        if j == 3:
            F = np.zeros((n, n))
        L, G = g.normal(size=(n, s)), g.normal(size=(n, m))
        if j == 5:
            L, G = g.integers(-2, 3, size=(n, s)), g.integers(-2, 3, size=(n, m))
        Qc = spd(g, s)
        qform = ["matrix", "scalar", "none"][(i + j) % 3]
        if qform == "scalar":
            L, q = L[:, :1], float(g.uniform(0.1, 2)); Qc = np.array([[q]])
        arg = dict(matrix=Qc, scalar=None if qform != "scalar" else q, none=None)[qform]
        if qform == "none":
            Qc = np.eye(L.shape[1])
        dt = float(g.choice([0.1, 0.5, 1.0])) if (i + j) % 4 else 1.0
        kw = {} if dt == 1.0 and j % 2 else dict(dt=dt)
        f = dict(F=enc(F), L=enc(L), Qc=enc(Qc), dt=num(dt), q=qform)
        ses.call("disc", lambda: disc.lti_disc(F, L, arg, **kw), lambda r: dict(A=enc(r[0]), Q=enc(r[1])), G=enc(np.eye(n)), **f)
        g0 = None if j == 4 else G
        ses.call("disc", lambda: disc.lti_disc_u(F, L, g0, arg, **kw), lambda r: dict(A=enc(r[0]), B=enc(r[1]), Q=enc(r[2])), G=enc(np.eye(n) if g0 is None else G), **f)


def spd(g, n):
    A = g.normal(size=(n, n))
    return A @ A.T + 0.2 * np.eye(n)


def build(tr):
    for i in range(10 if not THOROUGH else 150):
        if not mine(i):
            continue
        g = rng("C14", i)
        rk(tr.session("rk4 #%d" % i), g, i)
        lti(tr.session("lti #%d" % i), g, i)


main(build)
