from vlib import *
from parallel_control import fsc_np, lqt_np


def item(a):
    a = np.asarray(a)
    return dict(sh=[int(d) for d in a.shape], v=[num(x) for x in a.reshape(-1)])


def arg(a):
    if a is None:
        return dict(kind="none", it=[])
    if isinstance(a, list):
        return dict(kind="many", it=[item(x) for x in a])
    return dict(kind="one", it=[item(a)])


def attempt(ses, op, cls, names, A, T, out):
    kw = {n: A[n] for n in names if A[n] is not None}
    if T is not None:
        kw["T"] = T
    E = dict(args=dict({n: arg(A[n]) for n in names}, steps=T or 0))
    try:
        p = cls.checkAndExpand(**kw)
    except Exception as ex:
        ses.add(op, made="no", why="%s" % type(ex).__name__, **E)
        return
    try:
        ses.add(op, made="yes", out={n: [item(x) for x in (getattr(p, n) if n not in out else [getattr(p, n)])] for n in names}, **E)
    except Exception as ex:
        ses.add(op, error="%s: %s" % (type(ex).__name__, ex), **E)


# ---------------------------------------------------------------- finite-state control
FN = ["f", "L", "LT"]


def fsc_valid(g, mask):
    T, nx, nu = [int(v) for v in g.integers(1, 5, size=3)]
    f = lambda: g.integers(0, nx, size=(nx, nu))
    L = lambda: g.integers(0, 9, size=(nx, nu)) if mask & 8 else g.normal(size=(nx, nu))
    A = dict(f=[f() for _ in range(T)] if mask & 1 else f(), L=[L() for _ in range(T)] if mask & 2 else L(), LT=g.normal(size=nx) if mask & 4 else None)
    return A, T, not mask & 3


def reshape(g, a, how):
    """Another shape for one item."""
    a = np.asarray(a)
    if how < 2 * a.ndim:        # one axis longer or shorter
        ax, up = how // 2, how % 2
        if up or a.shape[ax] == 1:
            return np.concatenate([a, np.take(a, [0], axis=ax)], axis=ax)
        return np.take(a, range(a.shape[ax] - 1), axis=ax)
    if how == 2 * a.ndim:       # one dimension more
        return a[..., None]
    if how == 2 * a.ndim + 1:
        return np.concatenate([a[..., None], a[..., None]], axis=-1)
    if how == 2 * a.ndim + 2:
        return a[None]
    if a.ndim == 2 and a.shape[0] != a.shape[1]:
        return a.T.copy()
    return a.reshape(-1)[:1].reshape(()) if how % 2 else a[..., 0]


def spoil(g, A, names, finals, n, T, how, where):
    """One argument made to mismatch: its length, or the shape of one of its items."""
    A = dict(A)
    a = A[n]
    if a is None:
        return None
    if isinstance(a, list):
        if how == 0:
            A[n] = a + a[:1]
        elif how == 1:
            A[n] = a[:-1]
        else:
            k = {0: 0, 1: len(a) - 1, 2: len(a) // 2}[where]
            A[n] = a[:k] + [reshape(g, a[k], how - 2)] + a[k + 1:]
    else:
        A[n] = reshape(g, a, how)
    return A


def fscs(tr):
    for mask in range(16):
        if not mine(mask):
            continue
        ses = tr.session("fsc%d" % mask)
        for rep in range(3 if not THOROUGH else 10):
            g = rng("C19f", mask, rep)
            A, T, need = fsc_valid(g, mask)
            attempt(ses, "fsc", fsc_np.FSC, FN, A, T if need else None, ["LT"])
            if not need:
                attempt(ses, "fsc", fsc_np.FSC, FN, A, T, ["LT"])       # horizon handed over as well
            if need:
                attempt(ses, "fsc", fsc_np.FSC, FN, A, None, ["LT"])    # horizon missing
            for n in FN:
                for how in range(9):
                    for where in range(3 if isinstance(A[n], list) and how >= 2 else 1):
                        B = spoil(g, A, FN, ["LT"], n, T, how, where)
                        if B is not None:
                            attempt(ses, "fsc", fsc_np.FSC, FN, B, T if need else None, ["LT"])
            for _ in range(12):     # two at once (which may fit together)
                B = A
                for n in g.choice(FN, size=2, replace=False):
                    B = spoil(g, B, FN, ["LT"], str(n), T, int(g.integers(0, 7)), int(g.integers(0, 3))) or B
                attempt(ses, "fsc", fsc_np.FSC, FN, B, T if need else None, ["LT"])


# ---------------------------------------------------------------- tracking
STAGE = ["F", "L", "X", "U", "c", "H", "r", "Z", "s", "M"]
FINAL = ["XT", "HT", "rT"]
LN = ["F", "L", "X", "U", "XT", "c", "H", "r", "HT", "rT", "Z", "s", "M"]
MUST = ["F", "L", "X", "U"]


def shape(n, nx, nu, nr):
    return dict(F=(nx, nx), L=(nx, nu), X=(nr, nr), U=(nu, nu), XT=(nr, nr), c=(nx,), H=(nr, nx), r=(nr,), HT=(nr, nx), rT=(nr,), Z=(nu, nu), s=(nu,), M=(nr, nu))[n]


def lqt_valid(g, i):
    """A valid mix; sometimes with outputs whose number changes from stage to stage."""
    T = int(g.integers(1, 5)); nx, nu, nr = [int(v) for v in g.integers(1, 4, size=3)]
    varying = i % 3 == 2
    dims = [int(v) for v in g.integers(1, 4, size=T)] if varying else [nr] * T
    nT = int(g.integers(1, 4)) if i % 4 == 3 else dims[0]
    A = {}
    for n in STAGE:
        tied = varying and n in ("X", "H", "r", "M")
        p = g.random()
        val = lambda k: g.integers(-3, 4, size=shape(n, nx, nu, dims[k])) if i % 5 == 0 else g.normal(size=shape(n, nx, nu, dims[k]))
        if tied or p < 0.4:
            A[n] = [val(k) for k in range(T)]
        elif p < 0.75 or n in MUST:
            A[n] = val(0)
        else:
            A[n] = None
    for n in FINAL:
        A[n] = g.normal(size=shape(n, nx, nu, nT)) if g.random() < 0.6 or nT != dims[0] else None
    if i % 6 == 0:      # everything constant or omitted
        for n in STAGE:
            if isinstance(A[n], list):
                A[n] = A[n][0]
    need = not any(isinstance(A[n], list) for n in MUST)
    return A, T, need


def lqts(tr):
    for i in range(16 if not THOROUGH else 64):
        if not mine(i):
            continue
        ses = tr.session("lqt%d" % i)
        g = rng("C19l", i)
        A, T, need = lqt_valid(g, i)
        t = T if need else None
        new = lambda A, t: attempt(ses, "lqt", lqt_np.LQT, LN, A, t, FINAL)
        new(A, t)
        if not need:
            new(A, T)
        else:
            new(A, None)
        # with each optional argument omitted, or each constant given per stage
        for n in LN:
            if n not in MUST and A[n] is not None:
                new(dict(A, **{n: None}), t)
            if n in STAGE and A[n] is not None and not isinstance(A[n], list):
                new(dict(A, **{n: [A[n] + 0 for _ in range(T)]}), t)
        for n in LN:
            top = 6 if np.asarray(A[n][0] if isinstance(A[n], list) else A[n] if A[n] is not None else 0).ndim == 1 else 8
            for how in range(top + (2 if isinstance(A[n], list) else 0)):
                for where in range(3 if isinstance(A[n], list) and how >= 2 and T > 1 else 1):
                    B = spoil(g, A, LN, FINAL, n, T, how, where)
                    if B is not None:
                        new(B, t)
        for _ in range(40):
            B = A
            for n in g.choice(LN, size=int(g.integers(2, 4)), replace=False):
                B = spoil(g, B, LN, FINAL, str(n), T, int(g.integers(0, 9)), int(g.integers(0, 3))) or B
            new(B, t)


def build(tr):
    fscs(tr)
    lqts(tr)


main(build)
