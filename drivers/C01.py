from vlib import *
from parallel_control.my_assoc_scan import my_assoc_scan


def build(tr):
    g = rng("C01")
    nmax = 70 if not THOROUGH else 300
    # free monoid: every length, both directions, with the operator calls
    for n in range(1, nmax + 1):
        ses = tr.session("n=%d" % n)
        for rev in (False, True):
            a = [(k,) for k in range(1, n + 1)]
            calls = []

            def op(x, y):
                calls.append([list(x), list(y)])
                return tuple(x) + tuple(y)
            ses.call("scan", lambda: my_assoc_scan(op, a, reverse=rev) if rev or n % 2 else my_assoc_scan(op, a),
                     lambda r: dict(out=[list(x) for x in r]), n=n, reverse=rev)
            ses.ev[-1].update(calls=calls, after=[list(x) for x in a])
    # finite monoids of maps of {0..p-1}: elements are small ints, 0 included
    for j in range(60 if not THOROUGH else 600):
        p = 2
        maps = [(x, y) for x in range(p) for y in range(p)]
        order = [int(v) for v in g.permutation(len(maps))]
        maps = [maps[o] for o in order]
        tab = [[maps.index(tuple(b[a[i]] for i in range(p))) for b in maps] for a in maps]
        n = int(g.integers(1, 24))
        a = [int(v) for v in g.integers(0, len(maps), size=n)]
        before = list(a)
        rev = bool(j % 2)
        ses = tr.session("table %d n=%d" % (j, n))
        ses.call("scan_table", lambda: my_assoc_scan(lambda x, y: tab[x][y], a, reverse=rev), lambda r: dict(out=idx(r)),
                 tab=tab, a=before, reverse=rev)
        ses.ev[-1]["after"] = idx(a)
    # matrix products
    for j in range(30 if not THOROUGH else 300):
        n, m = int(g.integers(1, 14)), int(g.integers(1, 4))
        a = [g.integers(-2, 3, size=(m, m)) / 2.0 + (g.uniform(-1, 1, size=(m, m)) if j % 2 else 0) for _ in range(n)]
        before = enc(a)
        rev = bool((j // 2) % 2)
        ses = tr.session("matrices %d n=%d" % (j, n))
        ses.call("scan_mat", lambda: my_assoc_scan(lambda x, y: x @ y, a, reverse=rev), lambda r: dict(out=enc(r)), a=before, reverse=rev)
        ses.ev[-1]["after"] = enc(a)


main(build)
