"""Histories of calls on shared problem objects: nothing the caller holds changes, equal calls give equal results."""
from vlib import *
os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
import contextlib, hashlib, io, types
import lqt_gen, clqt_gen, nl_gen
from parallel_control import (fsc_np, viterbi_np, lqt_np, clqt_np, parareal_clqt_np, condensing_np, nlqt_np, my_assoc_scan, disc, diffeq_np,
                              finite_model_np, linear_model_np, nonlinear_model_np, mass_model_np, ge_model_np)

ATTRS = {}
FUNS = (types.FunctionType, types.BuiltinFunctionType, type)


def view(x, skip=()):
    """The value of x: bytes, types and shapes all the way down.  Private attributes and ones added later are the library's own."""
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [view(v, skip) for v in x]
    if isinstance(x, dict):
        return {k: view(v, skip) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (int, float, complex, str, bool, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    if isinstance(x, types.MethodType):
        return ("method", id(x.__func__), view(x.__self__, skip))
    if isinstance(x, FUNS) or not hasattr(x, "__dict__"):
        return ("fn", id(x))
    if hasattr(x, "__array__"):
        return view(np.asarray(x))
    if isinstance(x, np.random.Generator):
        return ("rng",)
    keys = ATTRS.setdefault(type(x), sorted(k for k in vars(x) if not k.startswith("_")))
    return (type(x).__name__, {k: view(getattr(x, k, None), skip) for k in keys if (type(x).__name__, k) not in skip})


def digest(x, skip=()):
    return hashlib.sha1(repr(view(x, skip)).encode()).hexdigest()[:16]


def flat(x, out):
    if isinstance(x, (list, tuple)):
        for v in x:
            flat(v, out)
    elif isinstance(x, (np.ndarray, np.generic, int, float)) or hasattr(x, "__array__"):
        out.extend(np.asarray(x).reshape(-1).tolist())
    elif hasattr(x, "__dict__") and not callable(x):
        for k in sorted(vars(x)):
            if not k.startswith("_"):
                flat(vars(x)[k], out)
    return out


class World:
    """What the caller holds, with the tag of the role each value plays."""

    def __init__(self, ses, g, skip=()):
        self.ses, self.g, self.skip = ses, g, skip
        self.vals, self.tags, self.digs = [], [], []
        self.own, self.renew = [], None      # arrays the caller may edit; the operation that builds the problem from them

    def _dig(self, x):
        return digest(x, self.skip)

    def give(self, tag, x):
        self.vals.append(x); self.tags.append(tag); self.digs.append(self._dig(x))
        self.ses.add("give", new=self.digs[-1], what=tag)
        return len(self.vals) - 1

    def twin(self, h):
        try:
            y = copy.deepcopy(self.vals[h])
        except Exception:
            return h
        if self._dig(y) != self.digs[h]:
            return h
        return self.give(self.tags[h], y)

    def has(self, tag):
        return [h for h, t in enumerate(self.tags) if t == tag]

    def call(self, name, fn, hs, tag, tol=1e-9):
        e = dict(name=name, args=[h + 1 for h in hs], tol=num(tol))
        r, bad = None, False
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = fn(*[self.vals[h] for h in hs])
            v = flat(r, [])
            if len(v) > 300:
                v = v[:200] + v[200::max(1, (len(v) - 200) // 100)]
            e["res"] = [num(x) if not isinstance(x, complex) else "complex" for x in v]
        except Exception as ex:
            e["error"] = "%s: %s" % (type(ex).__name__, str(ex)[:200].replace("\n", " ")); bad = True
        after = [self._dig(x) for x in self.vals]
        self.digs = list(after)
        e["after"] = after
        if not bad:
            self.vals.append(r); self.tags.append(tag); self.digs.append(self._dig(r))
            e["new"] = self.digs[-1]
        self.ses.add("call", **e)

    def edit(self):
        """The caller writes into an array of its own."""
        a = self.own[int(self.g.integers(len(self.own)))]
        a += self.g.normal(size=a.shape) if a.dtype.kind == "f" else 1
        self.digs = [self._dig(x) for x in self.vals]
        self.ses.add("edit", after=list(self.digs))

    def edited(self, past):
        """The problem at hand and one made anew from the edited data are the same problem."""
        self.edit()
        tag = self.renew[3]
        old = self.has(tag)[0]
        new = [int(self.has(t)[0]) for t in self.renew[1]]
        self.call(self.renew[0], self.renew[2], new, tag)
        fresh = self.has(tag)[-1]
        for j in self.g.permutation(len(past))[:2]:
            name, fn, hs, out = past[int(j)]
            for h in (old, fresh):
                if any(self.tags[k] == tag for k in hs):
                    self.call(name, fn, [h if self.tags[k] == tag else k for k in hs], out)

    def history(self, ops, n):
        """A random history of n calls; every operation is repeated with the same or equal arguments."""
        g, past = self.g, []
        todo = []
        for k in range(n):
            if self.own and len(past) > 3 and k % 9 == 8:
                self.edited(past)
            if not todo:
                todo = [ops[i] for i in g.permutation(len(ops))]
            ready = [o for o in todo if all(self.has(t) for t in o[1])]
            if past and (g.random() < 0.4 or not ready):
                name, fn, hs, tag = past[int(g.integers(len(past)))]
                if g.random() < 0.4:
                    hs = [self.twin(h) if g.random() < 0.6 else h for h in hs]
                self.call(name, fn, hs, tag)
                if not ready:
                    todo = []
                continue
            o = ready[0]
            todo = [t for t in todo if t is not o]
            hs = [int(g.choice(self.has(t))) for t in o[1]]
            self.call(o[0], o[2], hs, o[3])
            past.append((o[0], o[2], hs, o[3]))
        for name, fn, hs, tag in past[-4:]:
            self.call(name, fn, hs, tag)


# ---------------------------------------------------------------- families
def fsc(w, g):
    T, nx, nu = int(g.integers(1, 7)), int(g.integers(2, 5)), int(g.integers(2, 4))
    f = [g.integers(0, nx, size=(nx, nu)) for _ in range(T)]
    L = [g.normal(size=(nx, nu)) for _ in range(T)]
    LT = g.normal(size=nx)
    w.give("f", f); w.give("L", L); w.give("LT", LT)
    P = fsc_np.FSC.checkAndExpand(f, L, LT)
    w.give("P", P)
    w.give("x0", int(g.integers(nx))); w.give("x0", int(g.integers(nx)))
    w.give("us", [int(u) for u in g.integers(0, nu, size=T)])
    w.own = L + [LT]
    w.renew = ("new", ["f", "L", "LT"], lambda f, L, LT: fsc_np.FSC.checkAndExpand(f, L, LT), "P")
    return [
        ("new", ["f", "L", "LT"], lambda f, L, LT: fsc_np.FSC.checkAndExpand(f, L, LT), "P"),
        ("new-const", ["f", "L"], lambda f, L: fsc_np.FSC.checkAndExpand(f[0], L[0], T=3), "Q"),
        ("seqBackward", ["P"], lambda P: P.seqBackwardPass(), "uV"), ("parBackward", ["P"], lambda P: P.parBackwardPass(), "uV"),
        ("seqForward", ["P", "x0", "uV"], lambda P, x, r: P.seqForwardPass(x, r[0]), "tr"), ("parForward", ["P", "x0", "uV"], lambda P, x, r: P.parForwardPass(x, r[0]), "tr"),
        ("fwdbwd", ["P", "x0", "uV"], lambda P, x, r: P.parFwdBwdPass(x, r[0], r[1]), "tr"), ("fwdbwd2", ["P", "x0", "uV"], lambda P, x, r: P.parFwdBwdPass2(x, r[0], r[1]), "tr"),
        ("simulate", ["P", "x0", "us"], lambda P, x, u: P.seqSimulation(x, u), "xs"), ("cost", ["P", "xs", "us"], lambda P, x, u: P.cost(x, u), "c"),
        ("batch", ["P", "x0"], lambda P, x: P.batch_solution(x), "bt"),
    ]


def viterbi(w, g):
    nx, ny, T = int(g.integers(2, 5)), int(g.integers(2, 4)), int(g.integers(1, 7))
    row = lambda a: a / a.sum(axis=-1, keepdims=True)
    pr, Pi, Po = row(g.uniform(.1, 1, size=nx)), row(g.uniform(.1, 1, size=(nx, nx))), row(g.uniform(.1, 1, size=(nx, ny)))
    w.give("pr", pr); w.give("Pi", Pi); w.give("Po", Po)
    w.give("V", viterbi_np.Viterbi_np(pr, Pi, Po))
    w.give("ys", g.integers(0, ny, size=T)); w.give("ys", g.integers(0, ny, size=T + 1))
    ops = [("new", ["pr", "Pi", "Po"], viterbi_np.Viterbi_np, "V")]
    for m in ("ref_viterbi", "ref_viterbi_log", "ref_viterbi_log_v2", "seqViterbi", "parBwdFwdViterbi", "parBwdFwdBwdViterbi", "getFSC"):
        ops.append((m, ["V", "ys"], lambda V, y, m=m: getattr(V, m)(y), m))
    return ops


def lqt(w, g):
    T, n, m, p = int(g.integers(1, 6)), int(g.integers(1, 4)), int(g.integers(1, 3)), int(g.integers(1, 3))
    gen = bool(g.integers(2))
    d = lqt_gen.problem(g, T, n, m, p, cross=gen, Z=gen, s=gen)
    names = [k for k in ("F", "L", "X", "U", "c", "H", "r", "Z", "s", "M")]
    D = {k: d[k] for k in names + ["XT", "HT", "rT"]}
    w.give("D", D)
    new = lambda D: lqt_np.LQT.checkAndExpand(**D)
    w.give("P", new(D))
    w.give("x0", g.normal(size=n)); w.give("x0", g.normal(size=n))
    w.give("us", [g.normal(size=m) for _ in range(T)])
    w.own = d["r"] + d["c"] + [d["rT"]]
    w.renew = ("new", ["D"], new, "P")
    ops = [
        ("new", ["D"], new, "P"),
        ("seqBackward", ["P"], lambda P: P.seqBackwardPass(), "r"), ("parBackward", ["P"], lambda P: P.parBackwardPass(), "r"),
        ("seqForward", ["P", "x0", "r"], lambda P, x, r: P.seqForwardPass(x, r[0], r[1]), "tr"), ("parForward", ["P", "x0", "r"], lambda P, x, r: P.parForwardPass(x, r[0], r[1]), "tr"),
        ("fwdbwd", ["P", "x0", "r"], lambda P, x, r: P.parFwdBwdPass(x, *r), "tr"), ("fwdbwd2", ["P", "x0", "r"], lambda P, x, r: P.parFwdBwdPass2(x, *r), "tr"),
        ("simulate", ["P", "x0", "us"], lambda P, x, u: P.seqSimulation(x, u), "xs"), ("cost", ["P", "us", "xs"], lambda P, u, x: P.cost(u, x), "J"), ("cost-opt", ["P", "tr"], lambda P, t: P.cost(t[0], t[1]), "J"),
        ("batch", ["P", "x0"], lambda P, x: P.batchSolution(x), "bt"),
    ]
    if not gen:
        ops.append(("transformed", ["P"], lambda P: P.seqTransformedBackwardPass(), "kd"))
        # the condenser keeps the last problem it condensed; a caller may use one for many
        shared = condensing_np.LQTCondenser()
        for Nc in (1, 2, T):
            def cond(P, x, Nc=Nc, own=False):
                c = condensing_np.LQTCondenser() if own else shared
                q = c.condense(P, Nc)
                K, dd, _, _ = q.seqBackwardPass()
                u, x = q.seqForwardPass(x, K, dd)
                return (c.convertUX(u, x), u, x)
            ops.append(("condense-%d" % Nc, ["P", "x0"], cond, "cs"))
            ops.append(("condense-%d" % Nc, ["P", "x0"], lambda P, x, cond=cond: cond(P, x, own=True), "cs"))
    return ops


def lqr(w, g):
    n, m = int(g.integers(1, 4)), int(g.integers(1, 3))
    a = (0.6 * g.normal(size=(n, n)), g.normal(size=(n, m)), lqt_gen.spd(g, n), lqt_gen.spd(g, m), lqt_gen.spd(g, n))
    w.give("a", list(a))
    w.give("P", lqt_np.LQR(*a))
    w.give("x0", g.normal(size=n)); w.give("x0", g.normal(size=n))
    ops = [("new", ["a"], lambda a: lqt_np.LQR(*a), "P"), ("dare", ["P"], lambda P: P.lqrDare(), "ss")]
    for T in (1, 2, 5):
        ops += [("seqBackward-%d" % T, ["P"], lambda P, T=T: P.seqBackwardPass(T), "r"), ("parBackward-%d" % T, ["P"], lambda P, T=T: P.parBackwardPass(T), "r"),
                ("iter-%d" % T, ["P"], lambda P, T=T: P.lqrIter(T), "ss"), ("double-%d" % T, ["P"], lambda P, T=T: P.lqrDouble(T - 1), "ss")]
    ops += [("seqForward", ["P", "x0", "r"], lambda P, x, r: P.seqForwardPass(x, r[0]), "tr"), ("parForward", ["P", "x0", "r"], lambda P, x, r: P.parForwardPass(x, r[0]), "tr")]
    return ops


def clqr(w, g):
    n, m = int(g.integers(1, 4)), int(g.integers(1, 3))
    a = (0.6 * g.normal(size=(n, n)), g.normal(size=(n, m)), clqt_gen.spd(g, n), clqt_gen.spd(g, m), clqt_gen.spd(g, n))
    w.give("a", list(a))
    new = lambda a: clqt_np.CLQR(*a, 0.4)
    w.give("P", new(a)); w.give("x0", g.normal(size=n)); w.give("x0", g.normal(size=n)); w.give("S", clqt_gen.spd(g, n))
    ops = [("new", ["a"], new, "P")]
    for b, s in ((2, 2), (4, 1)):
        N, t = b * s, "%d.%d" % (b, s)
        for me in ("rk4", "exact"):
            ops += [("seqBackward-%d%s" % (N, me), ["P", "S"], lambda P, S, me=me, N=N: P.seqBackwardPass(N, S=S, method=me), "KS"),
                    ("seqForward-%d%s" % (N, me), ["P", "x0", "KS"], lambda P, x, r, me=me: P.seqForwardPass(x, r[0], method=me), "tr")]
        ops += [("parBackward" + t, ["P"], lambda P, b=b, s=s: P.parBackwardPass(b, s), "KS"), ("parBackward-ex" + t, ["P"], lambda P, b=b, s=s: P.parBackwardPass(b, s, extract_method="exact"), "KS"),
                ("parForward" + t, ["P", "x0", "KS"], lambda P, x, r, b=b, s=s: P.parForwardPass(x, r[0], b, s), "tr"), ("fwdbwd" + t, ["P", "x0", "KS"], lambda P, x, r, b=b, s=s: P.parFwdBwdPass(x, r[0], r[1], b, s), "tr"),
                ("seqFwdBwd%d" % N, ["P", "x0"], lambda P, x, N=N: P.seqFwdBwdPass(x, N), "w"), ("combine", ["P", "KS", "w"], lambda P, r, v: P.combineForwardBackward(r[0], r[1], *v), "tr")]
    return ops


def tracker_of(q):
    return clqt_np.CLQT(q["F"], q["L"], q["X"], q["U"], q["XT"], q["c"], q["H"], q["r"], q["HT"], q["rT"], q["T"])


def clqt(w, g):
    n, m = int(g.integers(1, 4)), int(g.integers(1, 3))
    q = clqt_gen.tracker(g, n, m, int(g.integers(1, 3)), int(g.integers(0, 3)))
    # a caller's parameter function may hand out the same array every time: it is the caller's
    kept = [("F", q["F"]), ("c", q["c"])][int(g.integers(2))]
    base = np.array(kept[1](0.0))
    w.give("kept", base)
    q[kept[0]] = lambda t: base
    w.give("P", tracker_of(q)); w.give("x0", g.normal(size=n)); w.give("x0", g.normal(size=n)); w.give("S", clqt_gen.spd(g, n)); w.give("v", g.normal(size=n))
    ops = []
    for b, s in ((2, 2), (4, 1)):
        N, t = b * s, "%d.%d" % (b, s)
        ops += [("seqBackward-%d" % N, ["P"], lambda P, N=N: P.seqBackwardPass(N), "r"), ("seqBackward-Sv%d" % N, ["P", "S", "v"], lambda P, S, v, N=N: P.seqBackwardPass(N, S=S, v=v), "r"),
                ("seqForward-%d" % N, ["P", "x0", "r"], lambda P, x, r: P.seqForwardPass(x, r[0], r[1]), "tr"), ("seqFwdBwd%d" % N, ["P", "x0"], lambda P, x, N=N: P.seqFwdBwdPass(x, N), "w"),
                ("combine", ["P", "r", "w"], lambda P, r, v: P.combineForwardBackward(*r, *v), "tr"), ("seqFwdBwd-S%d" % N, ["P", "x0", "S"], lambda P, x, S, N=N: P.seqFwdBwdPass(x, N, A=S, b=x, C=S), "w")]
        for f in (False, True):
            ops += [("parBackward%s%d" % (t, f), ["P"], lambda P, b=b, s=s, f=f: P.parBackwardPass(b, s, forward=f), "r"),
                    ("parForward%s%d" % (t, f), ["P", "x0", "r"], lambda P, x, r, b=b, s=s, f=f: P.parForwardPass(x, r[0], r[1], b, s, forward=f), "tr"),
                    ("fwdbwd%s%d" % (t, f), ["P", "x0", "r"], lambda P, x, r, b=b, s=s, f=f: P.parFwdBwdPass(x, *r, b, s, forward=f), "tr")]
    return ops


def parareal(w, g):
    n, m = int(g.integers(1, 4)), int(g.integers(1, 3))
    q = clqt_gen.tracker(g, n, m, int(g.integers(1, 3)), int(g.integers(0, 3)))
    C = tracker_of(q)
    w.give("C", C); w.give("P", parareal_clqt_np.Parareal_CLQT_np(C)); w.give("x0", g.normal(size=n)); w.give("x0", g.normal(size=n))
    ops = [("new", ["C"], parareal_clqt_np.Parareal_CLQT_np, "P"), ("seqBackward", ["C"], lambda C: C.seqBackwardPass(6), "r")]
    for b, s in ((2, 3), (3, 2)):
        for k in (None, 1, b):
            t = "%d.%d.%s" % (b, s, k)
            ops += [("backward" + t, ["P"], lambda P, b=b, s=s, k=k: P.backwardPass(b, s, niter=k), "r"), ("forward" + t, ["P", "x0", "r"], lambda P, x, r, b=b, s=s, k=k: P.forwardPass(b, s, x, r[0], r[1], niter=k), "tr"),
                    ("fwdbwd" + t, ["P", "x0"], lambda P, x, b=b, s=s, k=k: P.fwdBwdPass(b, s, x, niter=k), "w")]
    return ops


def nlqt(w, g):
    """linearize writes the linear model of the problem object it was given (F, L, c): its workspace, not data.  The lists the caller built the problem from are data."""
    T, n, m, p = int(g.integers(1, 6)), int(g.integers(1, 4)), int(g.integers(1, 3)), int(g.integers(1, 3))
    d = lqt_gen.problem(g, T, n, m, p, cross=False, Z=False, s=False)
    D = {k: d[k] for k in ("F", "L", "X", "U", "c", "H", "r", "XT", "HT", "rT")}
    w.give("D", D)
    model = nl_gen.PolyModel(nl_gen.poly_terms(g, n, m, "poly"), n, m)
    new = lambda D: nlqt_np.NLQT(lqt_np.LQT.checkAndExpand(**D), model)
    w.give("P", new(D)); w.give("x0", 0.5 * g.normal(size=n)); w.give("us", [0.5 * g.normal(size=m) for _ in range(T)]); w.give("us", [0.5 * g.normal(size=m) for _ in range(T)])
    ops = [("new", ["D"], new, "P"), ("simulate", ["P", "x0", "us"], lambda P, x, u: P.simulate(x, u), "xs"), ("cost", ["P", "x0", "us"], lambda P, x, u: P.cost(x, u), "J"),
           ("linearize", ["P", "us", "xs"], lambda P, u, x: (P.linearize(u, x), list(P.lqt.F), list(P.lqt.L), list(P.lqt.c))[1:], "lin")]
    for k in (0, 1, 2):
        ops.append(("iterate%d" % k, ["P", "us", "xs"], lambda P, u, x, k=k: P.iterate(u, x, lqt_method=k), "tr"))
        ops.append(("again%d" % k, ["P", "tr"], lambda P, t, k=k: P.iterate(t[0], t[1], lqt_method=k), "tr2"))
    return ops


def scans(w, g):
    def cat(a, b):
        return a + b
    def mat(a, b):
        return [a[0] @ b[0], a[1] @ b[0] + b[1]]
    w.give("l", [[int(v)] for v in g.integers(0, 9, size=int(g.integers(1, 8)))]); w.give("l", [[int(v)] for v in g.integers(0, 9, size=int(g.integers(2, 11)))])
    w.give("m", [[0.5 * g.normal(size=(2, 2)), g.normal(size=2)] for _ in range(int(g.integers(1, 8)))])
    n, q, m = int(g.integers(1, 4)), int(g.integers(1, 3)), int(g.integers(1, 3))
    w.give("F", g.normal(size=(n, n))); w.give("L", g.normal(size=(n, q))); w.give("G", g.normal(size=(n, m))); w.give("Q", lqt_gen.spd(g, q))
    w.give("x", g.normal(size=n)); w.give("A", 0.5 * g.normal(size=(n, n)))
    S = my_assoc_scan.my_assoc_scan
    return [("scan", ["l"], lambda l: S(cat, l), "l2"), ("scan-rev", ["l"], lambda l: S(cat, l, reverse=True), "l2"), ("scan-m", ["m"], lambda l: S(mat, l), "m2"), ("scan-m-rev", ["m"], lambda l: S(mat, l, True), "m2"),
            ("scan-scan", ["l2"], lambda l: S(cat, l), "l3"),
            ("lti", ["F", "L", "Q"], lambda F, L, Q: disc.lti_disc(F, L, Q, 0.3), "d"), ("lti-u", ["F", "L", "G", "Q"], lambda F, L, G, Q: disc.lti_disc_u(F, L, G, Q, 0.3), "d"), ("lti-none", ["F", "L"], lambda F, L: disc.lti_disc(F, L, dt=0.2), "d"),
            ("rk4", ["x", "A"], lambda x, A: diffeq_np.rk4(lambda z: A @ z, 0.1, x), "x"), ("rk4-t", ["x", "A"], lambda x, A: diffeq_np.rk4(lambda z, t: A @ z + t, 0.1, x, 0.5), "x"),
            ("rk4-p", ["x", "A"], lambda x, A: diffeq_np.rk4(lambda z, t, p: p @ z + t, 0.1, x, 0.5, A), "x"), ("rk4-alias", ["x"], lambda x: diffeq_np.rk4(lambda z: z, 0.1, x), "x")]


def models(w, g):
    F, Lm, N = finite_model_np.FiniteModel(int(g.integers(9))), linear_model_np.LinearModel(int(g.integers(9))), nonlinear_model_np.NonlinearModel(seed=int(g.integers(9)))
    w.give("F", F); w.give("L", Lm); w.give("N", N); w.give("M", mass_model_np.MassModel(2)); w.give("G", ge_model_np.GEModel(int(g.integers(9))))
    w.give("x", g.normal(size=4)); w.give("u", g.normal(size=2))
    return [("finite", ["F"], lambda F: F.genData(6, 5), "track"), ("fsc", ["F", "track"], lambda F, t: F.getFSC(t[0]), "fscp"),
            ("linear", ["L"], lambda L: L.genData(4), "xy"), ("lqt", ["L", "xy"], lambda L, d: L.getLQT(d, 5), "lqtp"), ("lqt-solve", ["lqtp"], lambda r: (r[0] if isinstance(r, tuple) else r).seqBackwardPass(), "sol"),
            ("clqt", ["L"], lambda L: L.getCLQT(), "clqtp"),
            ("nonlinear", ["N"], lambda N: N.genData(4, 3), "nxy"), ("f", ["N", "x", "u"], lambda N, x, u: N.f(x, u), "x"), ("Fx", ["N", "x", "u"], lambda N, x, u: N.Fx(x, u), "J"), ("Fu", ["N", "x", "u"], lambda N, x, u: N.Fu(x, u), "J"),
            ("mass", ["M"], lambda M: M.getLQT(0.1, 0.3), "mp"), ("ge", ["G"], lambda G: G.genData(8), "ge")]


def setup_jax():
    import jax
    jax.config.update("jax_enable_x64", True)
    return jax.numpy


def sqp(w, g):
    jnp = setup_jax()
    from parallel_control import sqp_np
    n = int(g.integers(2, 4)); m = 1
    A = g.normal(size=(n, n))
    for k, v in dict(G=A @ A.T + np.eye(n), c=g.normal(size=n), A=g.normal(size=(m, n)), b=g.normal(size=m), s=g.normal(size=n)).items():
        w.give(k, jnp.array(v) if k in "GcAb" else v)
    s = w.vals[w.has("s")[0]]
    w.give("B", A @ A.T + np.eye(n)); w.give("y", s + 0.1 * g.normal(size=n)); w.give("x", jnp.array(0.3 * g.normal(size=n)))
    a = jnp.array(g.normal(size=n))
    fun = lambda x: jnp.sum((x - a) ** 2) + 0.1 * jnp.sum(x ** 4)
    con = lambda x: jnp.array([jnp.sum(x) - 1.0])
    q = dict(quiet=True)
    return [("qp", ["G", "c", "A", "b"], lambda *z: sqp_np.lqe_solve(*z), "sol"), ("bfgs", ["B", "s", "y"], lambda B, s, y: sqp_np.bfgs_basic_update(B, s, y, True), "B2"), ("bfgs-d", ["B", "s", "y"], lambda B, s, y: sqp_np.bfgs_damped_update(B, s, y, True), "B2"),
            ("eq", ["x"], lambda x: sqp_np.local_eq(fun, con, x, **q), "r"), ("fast", ["x"], lambda x: sqp_np.local_eq_fast(fun, con, x, num_iter=3), "r"), ("bt", ["x"], lambda x: sqp_np.bfgs_eq_bt(fun, con, x, **q), "r")]


def hjb(w, g):
    jnp = setup_jax()
    from parallel_control import hjb_grid_1d_np as hn
    n = int(g.integers(3, 6))
    xs = jnp.linspace(-1.0, 1.0, n); us = jnp.linspace(-1.0, 1.0, 3)
    f = lambda x, u: 0.5 * x + u
    L = lambda x, u: x * x + 0.5 * u * u
    LT = lambda x: 0.5 * x * x
    w.give("A", g.normal(size=(n, n))); w.give("A", g.integers(0, 3, size=(n, n)).astype(float)); w.give("us", np.array(us)); w.give("bV", jnp.array((np.array(xs)[:, None] - np.array(xs)[None]) ** 2))
    w.give("P", hn.HJB_Grid_1d(f, L, LT, 0.4, 3, 2, xs))
    return [("combine", ["A", "A"], lambda a, b: hn.combine_V(jnp.array(a), jnp.array(b)), "C"), ("interp", ["A", "A"], lambda a, b: hn.combine_V_interp(jnp.array(a), jnp.array(b)), "C"), ("interp2", ["A", "A"], hn.combine_V_interp2, "C"),
            ("symfd", ["P", "us"], lambda P, u: P.seqBackwardPass_symfd(jnp.array(u)), "V"), ("upwind", ["P", "us"], lambda P, u: P.seqBackwardPass_upwind(jnp.array(u)), "V"),
            ("assoc", ["P", "bV"], lambda P, b: P.seqBackwardPass_assoc(b), "V"), ("par", ["P", "bV"], lambda P, b: P.parBackwardPass(b), "V")]


def tensors(w, g):
    import tensorflow as tf
    tf.config.run_functions_eagerly(True)
    from parallel_control import fsc_tf, lqt_tf, viterbi_tf, condensing_tf, diffeq_tf
    T, n, m, p = int(g.integers(2, 5)), int(g.integers(1, 4)), int(g.integers(1, 3)), int(g.integers(1, 3))
    d = lqt_gen.problem(g, T, n, m, p, cross=False, Z=False, s=False)
    P = lqt_gen.make(d)
    w.give("P", P); w.give("x0", g.normal(size=n))
    nx = 3
    fp = fsc_np.FSC.checkAndExpand([g.integers(0, nx, size=(nx, 2)) for _ in range(T)], [g.normal(size=(nx, 2)) for _ in range(T)], g.normal(size=nx))
    w.give("Q", fp); w.give("k0", int(g.integers(nx)))
    ops = [("to_tf", ["P"], lqt_tf.lqt_np_to_tf, "t"), ("seqB", ["t"], lambda t: lqt_tf.lqt_seq_backwardpass(*t), "r"), ("parB", ["t"], lambda t: lqt_tf.lqt_par_backwardpass(*t), "r"),
           ("seqF", ["t", "x0", "r"], lambda t, x, r: lqt_tf.lqt_seq_forwardpass(tf.constant(x), t[0], t[1], t[2], r[2], r[3]), "tr"), ("parF", ["t", "x0", "r"], lambda t, x, r: lqt_tf.lqt_par_forwardpass(tf.constant(x), t[0], t[1], t[2], r[2], r[3]), "tr"),
           ("cond", ["t"], lambda t: condensing_tf.condense(t[0], t[1], t[2], t[3], t[5], t[7], t[9], 2), "c"),
           ("fsc_to_tf", ["Q"], fsc_tf.fsc_np_to_tf, "q"), ("fseqB", ["q"], lambda q: fsc_tf.fsc_seq_backwardpass(*q), "uV"), ("fparB", ["q"], lambda q: fsc_tf.fsc_par_backwardpass(*q), "uV"),
           ("fseqF", ["q", "k0", "uV"], lambda q, x, r: fsc_tf.fsc_seq_forwardpass(tf.constant(x), q[0], r[0]), "ftr"), ("rk4", ["x0"], lambda x: diffeq_tf.rk4(lambda x, t, p: -x, tf.constant(0.1, tf.float64), tf.constant(x), tf.constant(0.0, tf.float64), tf.constant(0.0, tf.float64)), "y")]
    return ops


FAMILIES = [(fsc, 34, 6), (viterbi, 24, 5), (lqt, 40, 8), (lqr, 36, 6), (clqr, 36, 4), (clqt, 40, 4), (parareal, 30, 4), (nlqt, 34, 6), (scans, 36, 5), (models, 30, 3), (sqp, 16, 2), (hjb, 22, 3), (tensors, 26, 3)]


def build(tr):
    j = 0
    for fam, n, times in FAMILIES:
        for i in range(times * (5 if THOROUGH else 1)):
            if mine(j):
                g = rng("C20", fam.__name__, i)
                ATTRS.clear()
                ses = tr.session("%s #%d" % (fam.__name__, i))
                w = World(ses, g, skip={("LQT", "F"), ("LQT", "L"), ("LQT", "c")} if fam is nlqt else ())
                ops = fam(w, g)
                w.history(ops, n * (2 if THOROUGH else 1))
            j += 1


main(build)
