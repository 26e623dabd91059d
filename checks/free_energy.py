"""C27 binned free energy of one-dimensional data (compute_1d_fe)"""
from fractions import Fraction

import numpy as np
from vsym.runner import case


def frames(h, xs, vfix=False):
    """one frame per trajectory, velocities and accelerations symbolic"""
    out = []
    for i, x in enumerate(xs):
        n = len(x)
        t = h.time(n, 0.5, 0.0)
        v, a = h.real("v%d" % i, (n, 1), box=(-2, 2)), h.real("a%d" % i, (n, 1), box=(-2, 2))
        if vfix:
            v = h.cst([[(3 * k * k + 5 * k + i) % 7 / 4 - 0.75] for k in range(n)])
        out.append((np.array(x, dtype=object if h.sym else float).reshape(-1, 1), v, a, t))
    return out, [h.vb.xframe(x, t, v=v, a=a) for x, v, a, t in out]


def cells(h, xs, edges):
    """cell of each point; the points are assumed apart from the inner edges"""
    out = []
    for x in xs:
        k = 0
        for e in edges[1:-1]:
            h.assume((x < e - 1e-3) | (x > e + 1e-3) if not isinstance(x, float) or not isinstance(e, float) else abs(x - e) > 1e-3)
            if x > e:
                k += 1
        out.append(k)
    return out


def spline(h, x, f):
    """slopes at the nodes of the cubic spline through (x, f), not-a-knot at both ends"""
    num = Fraction if h.sym else float
    x = [num(v) for v in x]
    n = len(x)
    B = [[u**k for k in range(4)] + [max(u - c, num(0)) ** 3 for c in x[2:-2]] for u in x]
    dB = [[k * u ** (k - 1) if k else num(0) for k in range(4)] + [3 * max(u - c, num(0)) ** 2 for c in x[2:-2]] for u in x]
    A = [row + [num(i == j) for j in range(n)] for i, row in enumerate(B)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(A[r][i]))
        A[i], A[p] = A[p], A[i]
        A[i] = [v / A[i][i] for v in A[i]]
        for r in range(n):
            if r != i:
                A[r] = [v - A[r][i] * w for v, w in zip(A[r], A[i])]
    D = [[sum(dB[i][k] * A[k][n + j] for k in range(n)) for j in range(n)] for i in range(n)]
    return [sum(D[i][j] * f[j] for j in range(n)) for i in range(n)]


def _fe(fixed, bins, vfix=False):
    """fixed: positions of each trajectory (None: a symbolic one)"""
    def f(h):
        lo = min(x for tr in fixed for x in tr if x is not None)
        hi = max(x for tr in fixed for x in tr if x is not None)
        m = sum(x is None for tr in fixed for x in tr)
        s = iter(h.real("s", m, lo=lo + 0.01, hi=hi - 0.01) if m else [])
        xs = [[next(s) if x is None else x for x in tr] for tr in fixed]
        raw, fr = frames(h, xs, vfix)
        keep = [np.array(x, copy=True) for x in xs]
        edges = [lo + (hi - lo) * i / bins for i in range(bins + 1)]
        flat = [x for tr in xs for x in tr]
        c = cells(h, flat, edges)
        N = len(flat)
        cnt = [c.count(k) for k in range(bins)]
        cen = [(edges[k] + edges[k + 1]) / 2 for k in range(bins)]
        xf, pf = h.vb.compute_1d_fe(fr, bins=bins, hist=True)
        h.shape("number of cells", xf, (bins,))
        h.eq("centres of the cells", xf, np.array(cen))
        h.eq("histogram", pf, np.array([k / N for k in cnt]))
        occ = [k for k in range(bins) if cnt[k]]
        v = [x for r in raw for x in r[1].ravel()]
        a = [x for r in raw for x in r[2].ravel()]
        kT = 2.494
        res = h.vb.compute_1d_fe(fr, bins=bins)
        h.same("number of outputs", len(res), 6)
        xf, fe, force, acc, ftot, mass = res
        h.shape("only the occupied cells", xf, (len(occ),))
        h.eq("centres of the occupied cells", xf, np.array([cen[k] for k in occ]))
        big = max(cnt)
        want = [float(np.log(big / cnt[k])) for k in occ]
        h.eq("free energy", fe, np.array(want), tol=1e-6)
        wv = [sum(v[i] * v[i] for i in range(N) if c[i] == k) / cnt[k] for k in occ]
        h.eq("mean square velocity of the cells", mass, np.array(wv), tol=1e-6)
        h.eq("mean acceleration of the cells", acc, np.array([sum(a[i] for i in range(N) if c[i] == k) / cnt[k] for k in occ]), tol=1e-6)
        p = [cnt[k] / N for k in occ]
        xo = [cen[k] for k in occ]
        h.eq("total force", ftot, np.array([d / q for d, q in zip(spline(h, xo, [m * q for m, q in zip(wv, p)]), p)]), tol=1e-5)
        if vfix:
            slope = spline(h, xo, want)
            for i in range(len(occ)):
                for j in range(i):
                    h.eq("force is proportional to the slope of the free energy (%d,%d)" % (i, j), force[i] * slope[j], force[j] * slope[i], tol=1e-5)
                h.le("force pushes down the free energy (%d)" % i, force[i] * slope[i], 0)
            r2 = h.vb.compute_1d_fe(fr, bins=bins, kT=2 * kT)
            h.eq("force is proportional to the temperature", r2[2], 2 * force, tol=1e-5)
            h.eq("free energy in units of the temperature", r2[1], fe, tol=1e-6)
        if len(fr) > 1:
            r3 = h.vb.compute_1d_fe(fr[::-1], bins=bins)
            for k, (x, y) in enumerate(zip(r3, res)):
                h.eq("order of the trajectories, output %d" % k, x, y, tol=1e-5)
        for i, fr1 in enumerate(fr):
            h.same("variables untouched", sorted(fr1.data_vars), ["a", "v", "x"])
            h.eq("positions untouched", fr1["x"].data[:, 0], keep[i])
            h.eq("velocities untouched", fr1["v"].data, raw[i][1])
    return f


ONE = [[1.5, 0.0, 4.0, 2.5, 3.5, 0.25, None]], 4
TWO = [[3.5, 0.0, 1.25, 4.75, None], [2.5, 5.0, 0.5]], 5
EMPTY = [[0.0, 1.5, 3.5, None], [6.0, 3.25, 3.75, 1.25]], 6
for name, (fixed, bins), txt in (("one trajectory", ONE, "one trajectory of 7 points in 4 cells"), ("two trajectories", TWO, "two trajectories of 5 and 3 points in 5 cells"), ("empty cell", EMPTY, "two trajectories of 4 points in 6 cells, of which one or two are empty")):
    case("C27", "fe " + name, bounds=txt + ", one position symbolic, all velocities and accelerations symbolic")(_fe(fixed, bins))
    case("C27", "fe " + name + ", force", bounds=txt + ", one position and all accelerations symbolic, given velocities")(_fe(fixed, bins, True))


def _auto(h, rule="auto"):
    """edges chosen by numpy; anything else than a number or a name is refused"""
    xs = [[0.3, 0.0, 1.25, 4.75, 2.0, 3.3], [2.6, 5.0, 0.5, 3.1, 1.6]]
    raw, fr = frames(h, xs)
    flat = [x for tr in xs for x in tr]
    edges = [float(e) for e in np.histogram_bin_edges(np.array(flat), bins=rule)]
    c = [max(k for k in range(len(edges) - 1) if k == 0 or x > edges[k]) for x in flat]
    n = len(edges) - 1
    xf, pf = h.vb.compute_1d_fe(fr, bins=rule, hist=True)
    h.eq("centres of the cells", xf, np.array([(edges[k] + edges[k + 1]) / 2 for k in range(n)]))
    h.eq("histogram", pf, np.array([c.count(k) / len(flat) for k in range(n)]))
    res = h.vb.compute_1d_fe(fr, bins=rule)
    v = [x for r in raw for x in r[1].ravel()]
    a = [x for r in raw for x in r[2].ravel()]
    occ = [k for k in range(n) if c.count(k)]
    h.eq("mean acceleration of the cells", res[3], np.array([sum(a[i] for i in range(len(flat)) if c[i] == k) / c.count(k) for k in occ]))
    h.eq("mean square velocity of the cells", res[5], np.array([sum(v[i] * v[i] for i in range(len(flat)) if c[i] == k) / c.count(k) for k in occ]))
    for bins in (2.5, None, [0.0, 2.0, 5.0]):
        h.raises("bins %r refused" % (bins,), lambda: h.vb.compute_1d_fe(fr, bins=bins), ValueError)


case("C27", "automatic bins", bounds="two trajectories of 6 and 5 given positions, all velocities and accelerations symbolic")(_auto)
for rule in ("sqrt", "sturges", "rice"):
    case("C27", "bins by the rule %s" % rule, bounds="two trajectories of 6 and 5 given positions, all velocities and accelerations symbolic")(lambda h, rule=rule: _auto(h, rule))


def _hist(ns, bins):
    def f(h):
        xs = [list(h.real("x%d" % i, n, box=(0, 1))) for i, n in enumerate(ns)]
        raw, fr = frames(h, xs)
        flat = [x for tr in xs for x in tr]
        lo, hi = flat[0], flat[0]
        for x in flat[1:]:
            if x < lo:
                lo = x
            if x > hi:
                hi = x
        h.assume(hi - lo > 0.05)
        edges = [lo + (hi - lo) * i / bins for i in range(bins + 1)]
        c = cells(h, flat, edges)
        xf, pf = h.vb.compute_1d_fe(fr, bins=bins, hist=True)
        h.shape("number of cells", xf, (bins,))
        h.eq("centres of the cells", xf, np.array([(edges[k] + edges[k + 1]) / 2 for k in range(bins)]))
        h.eq("histogram", pf, np.array([c.count(k) / len(flat) for k in range(bins)]))
    return f


case("C27", "hist 3 points", bounds="one trajectory of 3 points, 2 cells; all positions symbolic", max_paths=2000)(_hist([3], 2))
case("C27", "hist 2+2 points", bounds="two trajectories of 2 points, 2 cells; all positions symbolic", max_paths=4000)(_hist([2, 2], 2))
case("C27", "hist 3 points, 3 cells", bounds="one trajectory of 3 points, 3 cells; all positions symbolic", max_paths=4000)(_hist([3], 3))
