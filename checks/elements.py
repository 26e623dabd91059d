"""C22 finite element basis and mesh helpers"""
from fractions import Fraction

import numpy as np
from vsym.runner import case


def meshes():
    import skfem

    p = np.array([[0.0, 3.0, 1.0, 2.5, 2.0]])
    return {
        "line": lambda: skfem.MeshLine(np.array([0.0, 1.0, 2.5, 3.0])),
        "refined line": lambda: skfem.MeshLine(np.array([0.0, 1.0, 2.0, 4.0])).refined([1, 2]),
        "line in any order": lambda: skfem.MeshLine1(p, np.array([[0, 2, 4, 3], [2, 4, 3, 1]])),
        "one cell": lambda: skfem.MeshLine(np.array([-1.0, 2.0])),
        "two triangles": lambda: skfem.MeshTri(),
        "four triangles": lambda: skfem.MeshTri(np.array([[0.0, 2, 2, 0, 1], [0, 0, 1, 1, 0.25]]), np.array([[0, 1, 2, 0], [1, 2, 3, 3], [4, 4, 4, 4]])),
        "eight triangles": lambda: skfem.MeshTri.init_tensor(np.array([0.0, 1, 3]), np.array([0.0, 0.5, 1])),
        # the element of interest is long: its centre is far from most of its points
        "needle": lambda: skfem.MeshTri(np.array([[0.0, 16, 8, 0, 1, 2, 3, 4, 5, 6, 16], [0, 0, 1, -1, -1, -1, -1, -1, -1, -1, -1]]), np.array([[0, 0, 0, 0, 0, 0, 0, 0], [1, 3, 4, 5, 6, 7, 8, 9], [2, 4, 5, 6, 7, 8, 9, 10]])),
        "cube": lambda: skfem.MeshTet(),
        # a flat cell between others: their centres are nearer to most of its points, on every side
        "flat tetrahedron": lambda: skfem.MeshTet(np.array([[0.0, 8, 0, 3, 3, 3, -2, 6], [0, 0, 8, 3, 2, 2, 4, 6], [0, 0, 0, 1, 4, -3, 2, 2]]), np.array([[0, 0, 0, 0, 1], [1, 1, 1, 2, 2], [2, 2, 3, 3, 3], [3, 5, 4, 6, 7]])),
        "flat and two": lambda: skfem.MeshTet(np.array([[0.0, 8, 0, 3, 3, 3], [0, 0, 8, 3, 2, 2], [0, 0, 0, 1, 4, -3]]), np.array([[0, 0, 0], [1, 1, 1], [2, 2, 3], [3, 5, 4]])),
        "flat and two others": lambda: skfem.MeshTet(np.array([[0.0, 8, 0, 3, -2, 6], [0, 0, 8, 3, 4, 6], [0, 0, 0, 1, 2, 2]]), np.array([[0, 0, 1], [1, 2, 2], [2, 3, 3], [3, 4, 5]])),
        "tetrahedra": lambda: skfem.MeshTet(np.array([[0.0, 1, 0, 0, 1], [0, 0, 1, 0, 1], [0, 0, 0, 1, 1]]), np.array([[0, 1], [1, 2], [2, 3], [3, 4]])),
    }


def elements():
    import skfem

    return {"P1": (skfem.ElementLineP1, skfem.ElementTriP1, skfem.ElementTetP1), "P2": (skfem.ElementLineP2, skfem.ElementTriP2, skfem.ElementTetP2)}


def _fem(mname, ename, cell, npts=1, closed=False):
    def f(h):
        import skfem

        mesh = meshes()[mname]()
        dim = mesh.dim()
        fem = skfem.CellBasis(mesh, elements()[ename][dim - 1]())
        b = h.basis.FEMScalarFeatures(fem).fit(h.basis.describe_from_dim(dim))
        V = mesh.p[:, mesh.t[:, cell]]  # vertices of the cell
        A = np.array([[float(Fraction(a).limit_denominator(1000)) for a in r] for r in np.linalg.inv(np.vstack([V, np.ones(dim + 1)])).tolist()])
        mid = V.mean(axis=1)
        rad = [0.1 * np.ptp(V[j]) for j in range(dim)]
        X = np.empty((npts, dim), dtype=object if h.sym else float)
        lam = []
        for n in range(npts):
            for j in range(dim):
                X[n, j] = h.real("x_%d_%d" % (n, j), box=(mid[j] - rad[j], mid[j] + rad[j]))
            L = [sum(A[i, j] * X[n, j] for j in range(dim)) + A[i, dim] for i in range(dim + 1)]
            for l in L:
                h.assume(0 <= l if closed else Fraction(1, 10**6) < l if h.sym else 1e-6 < l)
            lam.append(L)
        X0 = X.copy()
        B = b.basis(X)
        D = None if closed else b.deriv(X)
        h.same("number of functions", int(b.n_output_features_), fem.N)
        h.shape("shape of the basis", B, (npts, fem.N))
        if not closed:
            h.shape("shape of the gradient", D, (npts, fem.N, dim))
        h.eq("points untouched", X, X0)
        for n in range(npts):
            L = lam[n]
            want, grad = {}, {}
            for i in range(dim + 1):
                k = int(fem.nodal_dofs[0, mesh.t[i, cell]])
                want[k] = L[i] if ename == "P1" else L[i] * (2 * L[i] - 1)
                grad[k] = [A[i, d] if ename == "P1" else (4 * L[i] - 1) * A[i, d] for d in range(dim)]
            if ename == "P2":
                if dim == 1:
                    k = int(fem.interior_dofs[0, cell])
                    want[k], grad[k] = 4 * L[0] * L[1], [4 * (L[0] * A[1, 0] + L[1] * A[0, 0])]
                else:
                    ed = mesh.facets if dim == 2 else mesh.edges
                    t2 = mesh.t2f if dim == 2 else mesh.t2e
                    dof = fem.facet_dofs if dim == 2 else fem.edge_dofs
                    for e in t2[:, cell]:
                        i, j = [list(mesh.t[:, cell]).index(v) for v in ed[:, e]]
                        k = int(dof[0, e])
                        want[k], grad[k] = 4 * L[i] * L[j], [4 * (L[i] * A[j, d] + L[j] * A[i, d]) for d in range(dim)]
            for k in range(fem.N):
                h.eq("value of the functions of the cell" if k in want else "functions of other cells vanish", B[n, k], want.get(k, 0))
                if not closed:
                    for d in range(dim):
                        h.eq("gradient of the functions" if k in grad else "gradient of functions of other cells vanishes", D[n, k, d], grad[k][d] if k in grad else 0)
            h.eq("functions sum to one", B[n].sum(), 1)
    return f


for mname, cells in (("line", (0, 1, 2)), ("refined line", (0, 2, 4)), ("line in any order", (0, 1, 2, 3)), ("one cell", (0,)), ("two triangles", (0, 1)), ("four triangles", (0, 3)), ("tetrahedra", (0, 1))):
    for ename in ("P1", "P2"):
        for c in cells:
            slow = ename == "P2" and mname in ("four triangles", "tetrahedra") and c > 0
            case("C22", "%s %s cell %d" % (mname, ename, c), tier="thorough" if slow else "quick", bounds="every point inside the cell (barycentric coordinates above 1e-6) of a fixed mesh", points=2)(_fem(mname, ename, c))
            if ename == "P1" and (mname != "line in any order" or c < 2):
                case("C22", "%s %s cell %d with its boundary" % (mname, ename, c), bounds="every point of the closed cell of a fixed mesh", points=2)(_fem(mname, ename, c, closed=True))
for c in (0, 3, 6):
    case("C22", "eight triangles P1 cell %d" % c, tier="thorough" if c == 3 else "quick", bounds="every point inside the cell (barycentric coordinates above 1e-6) of a fixed mesh", max_paths=200, points=2, limit=300)(_fem("eight triangles", "P1", c))
for mname, cells in (("cube", (0, 1, 2, 3, 4)), ("flat and two", (0, 1, 2)), ("flat and two others", (0, 1, 2)), ("flat tetrahedron", (0, 1, 2, 3, 4))):
    for c in cells:
        slow = mname == "flat tetrahedron" or mname == "cube" and c != 1
        case("C22", "%s P1 cell %d" % (mname, c), tier="thorough" if slow else "quick", bounds="every point inside the cell (barycentric coordinates above 1e-6) of a fixed mesh", max_paths=200, points=2, limit=300)(_fem(mname, "P1", c))
case("C22", "needle P1", bounds="every point inside the long cell (barycentric coordinates above 1e-6) of a fixed mesh", max_paths=200, points=2, limit=300)(_fem("needle", "P1", 0))
case("C22", "line P1 two points", bounds="every pair of points inside the cell")(_fem("line", "P1", 1, 2))


# ---- mesh helpers ------------------------------------------------------------------------------
def _mesh_uniform(n):
    def f(h):
        a, b = h.real("a"), h.real("b")
        x = h.basis.uniform_line(a, b, n)
        h.shape("one point more than cells", x, (n + 1,))
        for i in range(n + 1):
            h.eq("equally spaced from start to end", x[i], a + (b - a) * i / n)
    return f


def _mesh_ratio(n, big):
    def f(h):
        a, b = h.real("a"), h.real("b")
        r = h.real("r", box=(1.25, 2.0) if big else (0.25, 0.75))
        h.assume(0 < r)
        h.assume(9 < r * 8 if big else r * 8 < 7)
        x = h.basis.non_uniform_line(a, b, n, r)
        h.shape("one point more than cells", x, (n + 1,))
        h.eq("starts at the start", x[0], a)
        h.eq("ends at the end", x[n], b)
        for i in range(n - 1):
            h.eq("lengths of consecutive cells are in the given ratio", x[i + 2] - x[i + 1], r * (x[i + 1] - x[i]))
    return f


for n in (1, 2, 5):
    case("C22", "uniform line %d cells" % n, bounds="every end point")(_mesh_uniform(n))
for n in (1, 2, 4):
    case("C22", "geometric line %d cells" % n, bounds="every end point and ratio above 9/8")(_mesh_ratio(n, True))
    case("C22", "geometric line %d cells decreasing" % n, bounds="every end point and ratio between 0 and 7/8")(_mesh_ratio(n, False))


def _mesh_data(n, bins, given):
    def f(h):
        x = h.real("x", (n,))
        kw = {}
        lo, hi = h.cst(0), h.cst(0)
        if given[0]:
            kw["x_start"] = lo = h.real("start", box=(-4.0, -2.0))
            h.assume(lo < -2)
        if given[1]:
            kw["x_end"] = hi = h.real("end", box=(2.0, 4.0))
            h.assume(hi > 2)
        h.assume(x[0] < x[1])  # not all the same
        for v in x:
            h.assume(-2 <= v)
            h.assume(v <= 2)
        x0 = x.copy()
        e = h.basis.data_driven_line(x, bins=bins, **kw)
        h.eq("data untouched", x, x0)
        h.shape("one point more than cells", e, (bins + 1,))
        for i in range(bins - 1):
            h.eq("equally spaced", e[i + 2] - e[i + 1], e[i + 1] - e[i])
        for v in x:
            if not given[0]:
                h.le("starts at the smallest value", e[0], v)
            if not given[1]:
                h.le("ends at the largest value", v, e[bins])
        if given[0]:
            h.eq("starts at the given value", e[0], lo)
        else:
            p = h.cst(1)
            for v in x:
                p = p * (e[0] - v)
            h.eq("first point is one of the data", p, 0)
        if given[1]:
            h.eq("ends at the given value", e[bins], hi)
        else:
            p = h.cst(1)
            for v in x:
                p = p * (e[bins] - v)
            h.eq("last point is one of the data", p, 0)
    return f


for g in ((0, 0), (1, 0), (0, 1), (1, 1)):
    case("C22", "data driven line given %d%d" % g, bounds="every set of 3 data in the range, not all the same")(_mesh_data(3, 3, g))


@case("C22", "intersection of two lines", bounds="every pair of non parallel lines")
def _inter(h):
    a1, a2, b1, b2 = (h.real(n, (2,)) for n in ("a1", "a2", "b1", "b2"))
    d = (a2[0] - a1[0]) * (b2[1] - b1[1]) - (a2[1] - a1[1]) * (b2[0] - b1[0])
    h.assume(d * d > 1)
    x, y = h.basis.get_intersect(a1, a2, b1, b2)
    h.eq("on the first line", (x - a1[0]) * (a2[1] - a1[1]), (y - a1[1]) * (a2[0] - a1[0]))
    h.eq("on the second line", (x - b1[0]) * (b2[1] - b1[1]), (y - b1[1]) * (b2[0] - b1[0]))


def _hull(n, small):
    def f(h):
        V = np.array([[0.0, 0], [2, 0], [3, 1], [3, 3], [0, 2]])[:n]
        V = np.roll(V, small - 1, axis=0)
        P = np.empty((n, 2), dtype=object if h.sym else float)
        for i in range(n):
            for j in range(2):
                P[i, j] = h.real("p_%d_%d" % (i, j), box=(V[i, j] - 0.0625, V[i, j] + 0.0625))
                h.assume((P[i, j] - V[i, j]) * (P[i, j] - V[i, j]) < 0.01)
        P0 = P.copy()
        L = [sum((P0[i + 1, j] - P0[i, j]) ** 2 for j in range(2)) for i in range(n - 1)]
        for i in range(n - 1):
            if i != small:
                h.assume(L[small] < L[i])
        tot = sum(L)
        lim = h.real("limit", box=(0.01, 0.99))
        Q, more = h.basis.remove_one_point(P, ratio_limit=lim)
        if more:
            h.le("only short edges are removed", L[small], lim * tot)
            h.shape("one vertex less", Q, (n - 1, 2))
            e = (small + 1) % n
            keep = [k for k in range(n) if k != e]
            for q, k in zip(Q, keep):
                if k != small:
                    h.eq("other vertices are kept in order", q, P0[k])
                else:
                    for a, b in ((P0[small - 1], P0[small]), (P0[e], P0[(e + 1) % n])):
                        h.eq("new vertex on the edges next to the removed one", (q[0] - a[0]) * (b[1] - a[1]), (q[1] - a[1]) * (b[0] - a[0]), tol=1e-6)
        else:
            h.le("long edges are kept", lim * tot, L[small])
            h.eq("nothing changed", Q, P0)
    return f


for n, small in ((4, 0), (4, 1), (4, 2), (5, 3)):
    case("C22", "hull of %d vertices loses edge %d" % (n, small), tier="quick" if small != 1 else "thorough", bounds="every polygon near a fixed one, every limit ratio", limit=300)(_hull(n, small))
