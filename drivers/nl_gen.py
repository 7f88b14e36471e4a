"""Polynomial dynamics, in NumPy and TensorFlow, from one list of terms."""
import numpy as np
from vlib import *


def poly_terms(g, n, m, kind):
    """terms[i] = list of (coefficient, exponents over (x, u))."""
    out = []
    for i in range(n):
        ts = []
        for j in range(n + m):
            if g.random() < 0.8 or j == i or j == n + i % m:
                e = [0] * (n + m); e[j] = 1
                ts.append((float(g.uniform(-0.8, 0.8)) + (0.5 if j == i else 0), e))
        if g.random() < 0.7:
            ts.append((float(g.normal()), [0] * (n + m)))
        if kind == "poly":
            for _ in range(int(g.integers(1, 3))):
                e = [0] * (n + m)
                for _ in range(int(g.integers(2, 4))):
                    e[int(g.integers(n + m))] += 1
                ts.append((float(0.15 * g.normal()), e))
        out.append(ts)
    return out


def enc_mod(terms):
    return dict(kind="poly", terms=[[dict(c=num(c), e=list(e)) for c, e in ts] for ts in terms])


class PolyModel:
    def __init__(self, terms, n, m):
        self.terms, self.n, self.m = terms, n, m

    def f(self, x, u):
        z = np.concatenate([x, u])
        return np.array([sum(c * np.prod([z[j] ** e[j] for j in range(len(z))]) for c, e in ts) for ts in self.terms])

    def d(self, x, u):
        z = np.concatenate([x, u])
        J = np.zeros((self.n, len(z)))
        for i, ts in enumerate(self.terms):
            for c, e in ts:
                for j in range(len(z)):
                    if e[j]:
                        J[i, j] += c * e[j] * np.prod([z[k] ** (e[k] - (k == j)) for k in range(len(z))])
        return J

    def Fx(self, x, u):
        return self.d(x, u)[:, :self.n]

    def Fu(self, x, u):
        return self.d(x, u)[:, self.n:]

    # batched TensorFlow versions
    def tf(self):
        import tensorflow as tf

        def mono(z, e):
            r = tf.ones_like(z[:, 0])
            for j, k in enumerate(e):
                for _ in range(k):
                    r = r * z[:, j]
            return r

        def f(xs, us):
            z = tf.concat([xs, us], 1)
            return tf.stack([sum(c * mono(z, e) for c, e in ts) for ts in self.terms], 1)

        def d(xs, us, js):
            z = tf.concat([xs, us], 1)
            rows = []
            for ts in self.terms:
                cols = []
                for j in js:
                    v = tf.zeros_like(z[:, 0])
                    for c, e in ts:
                        if e[j]:
                            e2 = list(e); e2[j] -= 1
                            v = v + c * e[j] * mono(z, e2)
                    cols.append(v)
                rows.append(tf.stack(cols, 1))
            return tf.stack(rows, 1)
        return f, lambda x, u: d(x, u, range(self.n)), lambda x, u: d(x, u, range(self.n, self.n + self.m))
