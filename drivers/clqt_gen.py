from vlib import *


def spd(g, n, lo=0.3):
    A = g.normal(size=(n, n)) * 0.7
    return A @ A.T + lo * np.eye(n)


def psd(g, n, a=0.6):
    A = g.normal(size=(n, max(1, n - 1))) * a
    return A @ A.T


class Poly:
    """A matrix (or vector) valued polynomial in time; lib is NumPy or TensorFlow."""

    def __init__(self, cs):
        self.cs = [np.asarray(c) for c in cs]

    def __call__(self, t):
        v = self.cs[-1]
        for c in self.cs[-2::-1]:
            v = c + t * v
        return np.array(v)

    def tf(self, tf):
        cs = [tf.constant(np.asarray(c, float), tf.float64) for c in self.cs]
        def f(t):
            v = cs[-1]
            for c in cs[-2::-1]:
                v = c + t * v
            return v
        return f

    def enc(self):
        return enc([c if c.ndim == 2 else c[:, None] for c in self.cs])


def tracker(g, n, m, p, deg):
    """A tracking problem with polynomial parameters; deg 0 is time-invariant."""
    N = lambda *s: g.normal(size=s)
    k = range(deg)
    q = dict(n=n, m=m, T=float(g.choice([0.25, 0.4, 0.5])),
             F=Poly([0.6 * N(n, n)] + [0.4 * N(n, n) for _ in k]), L=Poly([0.7 * N(n, m)] + [0.4 * N(n, m) for _ in k]),
             X=Poly([psd(g, p)] + ([np.zeros((p, p)), 0.5 * psd(g, p)] if deg else [])), U=Poly([spd(g, m)] + ([np.zeros((m, m)), 0.5 * psd(g, m)] if deg else [])),
             c=Poly([N(n)] + [0.5 * N(n) for _ in k]), H=Poly([0.7 * N(p, n)] + [0.3 * N(p, n) for _ in k]), r=Poly([N(p)] + [N(p) for _ in k]))
    pt = int(g.integers(1, n + 1))
    q.update(XT=spd(g, pt, 0.1), HT=0.7 * N(pt, n), rT=N(pt))
    return q


def regulator(g, n, m, kind=""):
    F = 0.8 * g.normal(size=(n, n)); L = 0.7 * g.normal(size=(n, m)); X = psd(g, n); U = spd(g, m); XT = psd(g, n)
    if kind == "int":
        F = g.integers(-1, 2, size=(n, n)); L = g.integers(-1, 3, size=(n, m)); X = np.diag(g.integers(0, 3, size=n)); U = np.diag(g.integers(1, 4, size=m)); XT = np.diag(g.integers(0, 3, size=n))
    if kind == "noterm":
        XT = np.zeros((n, n))
    return dict(n=n, m=m, T=float(g.choice([0.25, 0.4, 0.5])), F=F, L=L, X=X, U=U, XT=XT)


def enc_tracker(q):
    d = {k: q[k].enc() for k in ("F", "L", "X", "U", "c", "H", "r")}
    d.update(n=q["n"], m=q["m"], ST=enc(q["HT"].T @ q["XT"] @ q["HT"]), vT=enc((q["HT"].T @ q["XT"] @ q["rT"])[:, None]))
    return d


def enc_regulator(q):
    n = q["n"]
    d = {k: [enc(q[k])] for k in ("F", "L", "X", "U")}
    d.update(c=[enc(np.zeros((n, 1)))], H=[enc(np.eye(n))], r=[enc(np.zeros((n, 1)))])
    d.update(n=n, m=q["m"], ST=enc(q["XT"]), vT=enc(np.zeros((n, 1))))
    return d


def elem(e):
    A, b, C, eta, J = e
    return dict(A=enc(A), b=enc(b), C=enc(C), eta=enc(eta), J=enc(J))
