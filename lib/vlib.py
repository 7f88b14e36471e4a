"""Driver-side helpers: recording real executions as traces for TLC."""
import copy, json, math, os, random, sys, traceback, numbers
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


def num(x):
    """One number as the specifications read it (exact)."""
    if isinstance(x, (bool, np.bool_)):
        return "1" if x else "0"
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return x.hex()


def enc(a):
    """Scalars, arrays, tensors and nested lists of them -> nested lists of exact numbers."""
    if a is None:
        return "none"
    if isinstance(a, str):
        return a
    if isinstance(a, (list, tuple)):
        return [enc(x) for x in a]
    if isinstance(a, (numbers.Number, np.generic)):
        if isinstance(a, (complex, np.complexfloating)):
            return "complex"
        return num(a)
    a = np.asarray(a)
    if a.ndim == 0:
        return enc(a[()])
    return [enc(x) for x in a]


def idx(a):
    """Integer-valued result (states, controls): nested lists of small ints; -999 marks a non-integer."""
    if isinstance(a, (list, tuple)):
        return [idx(x) for x in a]
    a = np.asarray(a)
    if a.ndim == 0:
        try:
            v = a[()]
            i = int(v)
            return i if i == v and abs(i) < 2**30 else -999
        except Exception:
            return -999
    return [idx(x) for x in a]


def rng(*salt):
    return np.random.default_rng([SEED] + [int(s) if isinstance(s, int) else sum(ord(c) * 257 ** (i % 3) for i, c in enumerate(s)) for s in salt])


def snap(x):
    """Deep value snapshot of arguments, for purity checks."""
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snap(v) for v in x]
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return repr(x)
    if callable(x) and not hasattr(x, "__dict__"):
        return id(x)
    if hasattr(x, "numpy"):
        try:
            return snap(np.asarray(x))
        except Exception:
            return id(x)
    if hasattr(x, "__array__"):
        return snap(np.asarray(x))
    if callable(x):
        return id(x)
    if hasattr(x, "__dict__"):
        return {k: snap(v) for k, v in vars(x).items()}
    return id(x)


class Session:
    """One behaviour: a problem and the calls made on it."""

    def __init__(self, sessions, label):
        self.ev = []
        self.label = label
        sessions.append(self)

    def add(self, op, **f):
        f["op"] = op
        self.ev.append(f)
        return f

    def call(self, op, fn, out=None, **fields):
        """Run fn(); `out` maps its result to event fields. An exception is recorded, not raised."""
        e = dict(fields, op=op)
        try:
            r = fn()
            if out is not None:
                e.update(out(r))
        except Exception as ex:  # the code under test raised, or returned something unusable
            e["error"] = "%s: %s" % (type(ex).__name__, str(ex)[:200].replace("\n", " "))
            r = None
        self.ev.append(e)
        return r


class Trace:
    def __init__(self):
        self.sessions = []
        self.meta = {}

    def session(self, label):
        return Session(self.sessions, label)

    def write(self, path):
        data = [dict(label=s.label, ev=s.ev) for s in self.sessions if s.ev]
        with open(path, "w") as f:
            json.dump(data, f)
        with open(path + ".meta", "w") as f:
            json.dump(self.meta, f)


def main(build):
    """build(trace) fills the trace; argv[1] is the output file, argv[2] an optional plan."""
    tr = Trace()
    build(tr)
    tr.write(sys.argv[1])


# A driver may be split over several processes: argv = out, part, parts.
PART = int(sys.argv[2]) if len(sys.argv) > 3 and sys.argv[2].isdigit() else 0
PARTS = int(sys.argv[3]) if len(sys.argv) > 3 and sys.argv[2].isdigit() else 1


def mine(i):
    return i % PARTS == PART
