"""C03 derivatives, C04 antiderivatives, C05 smooth indicators, C06 composite bases"""
import numpy as np
from vsym.runner import case

P = np.polynomial
POLY = {"power": P.Polynomial, "chebyshev": P.Chebyshev, "legendre": P.Legendre, "hermite": P.Hermite, "laguerre": P.Laguerre, "hermite_e": P.HermiteE}


def pts(h, n, dim, box=(-2.0, 2.0), **k):
    return h.real("X", (n, dim), box=box, **k)


def data(dim, n=7):
    """concrete data used only to fit (knots, means)"""
    r = np.array([[((i * 5 + 3 * d) % 7) / 2.0 - 1.0 + d for d in range(dim)] for i in range(n)])
    return r


def check_deriv(h, b, X, keep=None, hess=True, values=True):
    """gradient and hessian are the derivatives of the basis functions that are kept"""
    n, dim = X.shape
    B = b.basis(X)
    h.shape("basis shape", B, (n, b.n_output_features_))
    cols = list(range(B.shape[1])) if keep is None else keep(B.shape[1])
    G = b.deriv(X)
    h.shape("gradient shape", G, (n, len(cols), dim))
    h.deq("gradient", G, h.jac(lambda Y: b.basis(Y)[:, cols], X))
    h.eq("gradient default order", b.deriv(X, deriv_order=1), G)
    if hess:
        Hs = b.hessian(X)
        h.shape("hessian shape", Hs, (n, len(cols), dim, dim))
        J2 = h.jac(lambda Y: b.deriv(Y), X) if not h.sym else _jac2(h, G, X)
        h.deq("hessian", Hs, J2)
        h.eq("second derivative is the hessian", b.deriv(X, deriv_order=2), Hs)


def _jac2(h, G, X):
    from vsym import core
    out = np.empty(G.shape + (X.shape[1],), dtype=object)
    for i in np.ndindex(*G.shape):
        for d in range(X.shape[1]):
            out[i + (d,)] = core.diff(core.lift(G[i]), X[i[0], d])
    return out


# ----------------------------------------------------------------- linear
def _linear(dim, centered):
    def f(h):
        X = pts(h, 2, dim)
        D = h.real("D", (3, dim))
        b = h.basis.LinearFeatures(to_center=centered).fit(D)
        m = D.sum(axis=0) / 3 if centered else 0 * D[0]
        h.eq("linear basis", b.basis(X), X - m)
        check_deriv(h, b, X)
    return f


for dim in (1, 2, 3):
    for c in (False, True):
        case("C03", "linear dim=%d centered=%s" % (dim, c), bounds="2 points, %d dimensions, 3 data points" % dim)(_linear(dim, c))


# ----------------------------------------------------------------- polynomial
def drop_first(dim):
    return lambda n: list(range(dim, n))


def drop_last(dim):
    return lambda n: list(range(0, n - dim))


def _poly(kind, deg, dim, rc, values=True):
    def f(h):
        X = pts(h, 2 if dim == 1 else 1, dim)
        b = h.basis.PolynomialFeatures(deg=deg, polynom=POLY[kind], remove_const=rc)
        b.fit(h.basis.describe_from_dim(dim))
        h.same("number of functions", b.n_output_features_, dim * (deg + 1))
        check_deriv(h, b, X, keep=drop_first(dim) if rc else None)
        B = b.basis(X)
        # values: three term recurrences of the family, in coordinate order
        rec = {
            "power": lambda n, x, p1, p0: x * p1,
            "chebyshev": lambda n, x, p1, p0: 2 * x * p1 - p0 if n > 1 else x,
            "legendre": lambda n, x, p1, p0: ((2 * n - 1) * x * p1 - (n - 1) * p0) / n,
            "hermite": lambda n, x, p1, p0: 2 * x * p1 - 2 * (n - 1) * p0,
            "hermite_e": lambda n, x, p1, p0: x * p1 - (n - 1) * p0,
            "laguerre": lambda n, x, p1, p0: ((2 * n - 1 - x) * p1 - (n - 1) * p0) / n,
        }[kind]
        p0, p1 = 0 * X, 0 * X + 1
        h.eq("degree 0", B[:, :dim], p1)
        for n in range(1, deg + 1):
            p0, p1 = p1, rec(n, X, p1, p0)
            h.eq("degree %d" % n, B[:, n * dim : (n + 1) * dim], p1)
    return f


for kind in POLY:
    case("C03", "polynomial %s deg=4 dim=1" % kind, bounds="degree 4, 2 points")(_poly(kind, 4, 1, True))
    case("C03", "polynomial %s deg=3 dim=2 with constant" % kind, bounds="degree 3, 1 point, 2 dimensions")(_poly(kind, 3, 2, False))
    case("C03", "polynomial %s deg=7 dim=3" % kind, tier="thorough", bounds="degree 7, 3 dimensions")(_poly(kind, 7, 3, True))
case("C03", "polynomial power deg=2 dim=3", bounds="degree 2, 3 dimensions")(_poly("power", 2, 3, True))
case("C03", "polynomial power deg=1 dim=2 with constant", bounds="degree 1, 2 dimensions")(_poly("power", 1, 2, False))
case("C03", "polynomial power deg=1 dim=2", bounds="degree 1, 2 dimensions")(_poly("power", 1, 2, True))


# ----------------------------------------------------------------- fourier
def _fourier(order, dim, rc, freq=True):
    def f(h):
        X = pts(h, 2 if dim == 1 else 1, dim)
        w = h.real("w", pos=True) if freq else 1.0
        b = h.basis.FourierFeatures(order=order, freq=w, remove_const=rc).fit(h.basis.describe_from_dim(dim))
        check_deriv(h, b, X, keep=drop_first(dim) if rc else None)
        B = b.basis(X)
        s = h.np.sqrt(h.pi)
        h.same("number of functions", b.n_output_features_, dim * (2 * order + 1))
        h.eq("constant", B[:, :dim], (0 * X + 1) / h.np.sqrt(2 * h.pi))
        for n in range(1, order + 1):
            h.eq("sine %d" % n, B[:, (2 * n - 1) * dim : 2 * n * dim], h.np.sin(n * w * X) / s)
            h.eq("cosine %d" % n, B[:, 2 * n * dim : (2 * n + 1) * dim], h.np.cos(n * w * X) / s)
    return f


for order, dim in ((1, 1), (3, 1), (2, 2), (1, 3)):
    for rc in (True, False):
        case("C03", "fourier order=%d dim=%d remove_const=%s" % (order, dim, rc), bounds="order %d, frequency symbolic" % order)(_fourier(order, dim, rc))
case("C03", "fourier default frequency", bounds="order 2")(_fourier(2, 1, True, False))
case("C03", "fourier order=6 dim=3", tier="thorough", bounds="order 6")(_fourier(6, 3, True))


# ----------------------------------------------------------------- splines
def _bspline(n_knots, k, dim, periodic, rc, given=False):
    def f(h):
        X = pts(h, 1, dim, lo=-0.9, hi=1.9, box=(-0.9, 1.9))
        b = h.basis.BSplineFeatures(n_knots=n_knots, k=k, periodic=periodic, remove_const=rc)
        if given:
            b.fit(np.array([[-1.0], [2.0]]), knots=np.array([-1.0, -0.25, 0.5, 0.75, 2.0]))
        elif dim == 1:
            b.fit(np.array([[-1.0], [0.3], [2.0]]))
        else:
            # all coordinates must share one range for the spline fit
            b.fit(h.basis.DescribeResult(5, (-1.0, 2.0), np.zeros(dim), np.ones(dim), np.zeros(dim), np.zeros(dim)))
        check_deriv(h, b, X, keep=drop_last(dim) if rc else None, hess=True)
        if dim == 1 and not periodic:
            h.eq("splines sum to one", b.basis(X).sum(axis=1), 0 * X[:, 0] + 1)
            h.le("splines are non negative", 0 * X[0, 0], b.basis(X))
    return f


for k in (1, 2, 3, 4):
    case("C03", "bspline k=%d" % k, bounds="5 knots, evaluation inside the data range", max_paths=30)(_bspline(5 if k < 4 else 6, k, 1, False, True))
    case("C03", "bspline k=%d with constant" % k, bounds="6 knots, evaluation inside the data range", max_paths=30)(_bspline(6, k, 1, False, False))
case("C03", "bspline periodic k=3", bounds="6 knots", max_paths=30)(_bspline(6, 3, 1, True, True))
case("C03", "bspline given knots", bounds="5 given knots", max_paths=30)(_bspline(5, 3, 1, False, True, True))
case("C03", "bspline dim=2", bounds="4 knots, 2 dimensions", max_paths=40)(_bspline(4, 3, 2, False, True))
case("C03", "bspline dim=2 with constant", bounds="5 knots, 2 dimensions", max_paths=40)(_bspline(5, 2, 2, False, False))
case("C03", "bspline dim=3", tier="thorough", bounds="5 knots, 3 dimensions", max_paths=200)(_bspline(5, 3, 3, False, True))

KN = np.array([0.0, 0.0, 0.0, 0.0, 1.0, 2.0, 2.5, 2.5, 2.5, 2.5])


def _splinefct(dim, k):
    def f(h):
        t = KN if k == 3 else np.array([0.0, 0.0, 0.0, 0.75, 2.0, 2.5, 2.5, 2.5])
        c = h.real("c", len(t) - k - 1)
        X = pts(h, 1, dim, lo=0.05, hi=2.45, box=(0.05, 2.45))
        b = h.basis.SplineFctFeatures(t, c, k=k).fit(h.basis.describe_from_dim(dim))
        check_deriv(h, b, X)
    return f


for dim in (1, 2):
    for k in (2, 3):
        case("C03", "spline function dim=%d k=%d" % (dim, k), bounds="%d dimensions, coefficients symbolic" % dim, max_paths=40)(_splinefct(dim, k))


# ----------------------------------------------------------------- smooth indicators
def bounds_of(h, n, order=(0, 1)):
    """n ordered transition zones, a_0 < b_0 <= a_1 < b_1 ..."""
    q = h.real("q", 2 * n, box=(-2.0, 2.0)) if h.sym else None
    gaps = h.real("gap", 2 * n, pos=True, box=(0.3, 1.0))
    s = h.real("s", box=(-2.0, -1.0))
    z = []
    cur = s
    for i in range(2 * n):
        z.append(cur)
        cur = cur + gaps[i]
    return [[z[2 * i + order[0]], z[2 * i + order[1]]] for i in range(n)]


CST = [[-1.5, -1.0], [-0.25, 0.5], [0.5, 1.75]]


def _indic(kind, n, periodic, sym_bounds, what, order=(0, 1)):
    def f(h):
        bd = bounds_of(h, n, order) if sym_bounds else [list(z) for z in CST[:n]]
        X = pts(h, 1, 1, box=(-2.5, 2.5))
        b = h.basis.SmoothIndicatorFeatures(bd, boundary_type=kind, periodic=periodic).fit(h.basis.describe_from_dim(1))
        F = b.basis(X)
        if what == "deriv":
            check_deriv(h, b, X)
            return
        h.shape("number of states", F, (1, n + (0 if periodic else 1)))
        h.eq("indicators sum to one", F.sum(axis=1), 0 * X[:, 0] + 1)
        h.le("indicators are at least zero", 0.0, F)
        h.le("indicators are at most one", F, 1.0)
        x = X[0, 0]
        zone = None
        for i in range(n):
            lo, hi = min(bd[i]), max(bd[i])
            prev = max(bd[i - 1]) if i else None
            if (x <= lo) and (prev is None or x >= prev):
                h.eq("plateau", F[0, i], 1.0)
                zone = i
        if x >= max(bd[-1]):
            h.eq("last plateau", F[0, 0 if periodic else n], 1.0)
        # only the two neighbours overlap
        for i in range(n):
            lo, hi = min(bd[i]), max(bd[i])
            if (x > lo) and (x < hi):
                nxt = (i + 1) if (i + 1 < n or not periodic) else 0
                h.eq("two neighbours share the transition", F[0, i] + F[0, nxt], 1.0)
                h.eq("the transition is the function asked for", F[0, i], SHAPES[kind]((x - lo) / (hi - lo)))
    return f


SHAPES = {"tricube": lambda u: (1 - u**3) ** 3, "triweight": lambda u: (1 - u**2) ** 3, "quartic": lambda u: (1 - u**2) ** 2}


for kind in ("tricube", "triweight", "quartic"):
    for per in (False, True):
        case("C03", "indicator %s 2 zones periodic=%s" % (kind, per), bounds="2 symbolic transition zones, one point anywhere", max_paths=40)(_indic(kind, 2, per, True, "deriv"))
        case("C05", "indicator %s 2 symbolic zones periodic=%s" % (kind, per), bounds="2 symbolic transition zones, one point anywhere", max_paths=60)(_indic(kind, 2, per, True, "unity"))
        case("C05", "indicator %s 3 fixed zones periodic=%s" % (kind, per), bounds="3 transition zones (two touching), one point anywhere", max_paths=60)(_indic(kind, 3, per, False, "unity"))
    case("C05", "indicator %s 1 zone" % kind, bounds="1 symbolic zone")(_indic(kind, 1, False, True, "unity"))
    case("C05", "indicator %s reversed bounds" % kind, bounds="2 symbolic zones given as (high, low)", max_paths=60)(_indic(kind, 2, False, True, "unity", order=(1, 0)))
    case("C03", "indicator %s reversed bounds" % kind, bounds="2 symbolic zones given as (high, low)", max_paths=60)(_indic(kind, 2, False, True, "deriv", order=(1, 0)))
    case("C03", "indicator %s 1 zone" % kind, bounds="1 symbolic zone")(_indic(kind, 1, False, True, "deriv"))
    case("C05", "indicator %s 3 symbolic zones" % kind, tier="thorough", bounds="3 symbolic zones", max_paths=100)(_indic(kind, 3, False, True, "unity"))
    case("C03", "indicator %s 3 zones" % kind, tier="thorough", bounds="3 symbolic zones", max_paths=100)(_indic(kind, 3, True, True, "deriv"))


def _custom(h):
    """user supplied boundary function"""
    def bnd(u, der=0):
        return (1 - u) if der == 0 else (0 * u - 1 if der == 1 else 0 * u)
    bd = bounds_of(h, 2)
    X = pts(h, 1, 1, box=(-2.5, 2.5))
    b = h.basis.SmoothIndicatorFeatures(bd, boundary_type=bnd).fit(h.basis.describe_from_dim(1))
    F = b.basis(X)
    h.eq("indicators sum to one", F.sum(axis=1), 0 * X[:, 0] + 1)
    x = X[0, 0]
    for i in range(2):
        lo, hi = min(bd[i]), max(bd[i])
        if (x > lo) and (x < hi):
            h.eq("the transition is the function given", F[0, i], (hi - x) / (hi - lo))
    check_deriv(h, b, X)


case("C05", "indicator user supplied boundary", bounds="2 symbolic zones, linear boundary", max_paths=60)(_custom)


def _multi(h):
    """each row depends on its own point only"""
    X = pts(h, 3, 1, box=(-2.5, 2.5))
    b = h.basis.SmoothIndicatorFeatures([[-1.0, 0.0], [0.5, 1.0]]).fit(h.basis.describe_from_dim(1))
    F, G = b.basis(X), b.deriv(X)
    for i in range(3):
        h.eq("row of basis", F[i : i + 1], b.basis(X[i : i + 1]))
        h.eq("row of gradient", G[i : i + 1], b.deriv(X[i : i + 1]))


def _unknown_boundary(h):
    h.raises("unknown boundary", lambda: h.basis.SmoothIndicatorFeatures([[0.0, 1.0]], boundary_type="nothing"))


case("C05", "indicator unknown boundary", bounds="one")(_unknown_boundary)
case("C05", "indicator rows are independent", bounds="3 points", max_paths=130)(_multi)


# ----------------------------------------------------------------- C04 antiderivative
def check_anti(h, b, X, order=1):
    n, dim = X.shape
    B = b.basis(X)
    A = b.antiderivative(X) if order == 1 else b.antiderivative(X, order=order)
    h.shape("antiderivative shape", A, B.shape)
    if order == 1:
        J = h.jac(lambda Y: b.antiderivative(Y), X)
        want = np.zeros(J.shape, dtype=J.dtype)
        for k in range(B.shape[1]):
            want[:, k, k % dim] = B[:, k]
        h.deq("derivative of the antiderivative", J, want) if h.sym else h.deq("derivative of the antiderivative", J, want)
    else:
        from vsym import core
        if h.sym:
            for k in range(B.shape[1]):
                for i in range(n):
                    e = core.lift(A[i, k])
                    for _ in range(order):
                        e = core.diff(e, X[i, k % dim])
                    h.eq("order %d antiderivative" % order, e, B[i, k])
        else:
            A1 = b.antiderivative(X, order=1)
            J = h.jac(lambda Y: b.antiderivative(Y, order=2), X)
            for k in range(B.shape[1]):
                for i in range(n):
                    h.eq("order %d antiderivative" % order, J[i, k, k % dim] - A1[i, k] + B[i, k] if order == 2 else B[i, k], B[i, k], tol=1e-5)


def _anti(mk, dim, order=1, lo=None, hi=None):
    def f(h):
        X = pts(h, 2 if dim == 1 and lo is None else 1, dim, lo=lo, hi=hi, box=(-2.0 if lo is None else lo, 2.0 if hi is None else hi))
        b = mk(h, dim)
        check_anti(h, b, X, order)
    return f


def _mklin(c):
    return lambda h, dim: h.basis.LinearFeatures(to_center=c).fit(h.real("D", (3, dim)))


def _mkpoly(kind, deg):
    return lambda h, dim: h.basis.PolynomialFeatures(deg=deg, polynom=POLY[kind]).fit(h.basis.describe_from_dim(dim))


def _mkfour(o):
    return lambda h, dim: h.basis.FourierFeatures(order=o, freq=h.real("w", pos=True)).fit(h.basis.describe_from_dim(dim))


def _mkbs(nk, k):
    def mk(h, dim):
        b = h.basis.BSplineFeatures(n_knots=nk, k=k)
        if dim == 1:
            return b.fit(np.array([[-1.0], [0.3], [2.0]]))
        return b.fit(h.basis.DescribeResult(5, (-1.0, 2.0), np.zeros(dim), np.ones(dim), np.zeros(dim), np.zeros(dim)))
    return mk


def _mksf(k):
    def mk(h, dim):
        t = KN if k == 3 else np.array([0.0, 0.0, 0.0, 0.75, 2.0, 2.5, 2.5, 2.5])
        return h.basis.SplineFctFeatures(t, h.real("c", len(t) - k - 1), k=k).fit(h.basis.describe_from_dim(dim))
    return mk


for dim in (1, 2):
    for c in (False, True):
        case("C04", "linear antiderivative dim=%d centered=%s" % (dim, c), bounds="%d dimensions" % dim)(_anti(_mklin(c), dim))
    for o in (1, 3):
        case("C04", "fourier antiderivative order=%d dim=%d" % (o, dim), bounds="order %d" % o)(_anti(_mkfour(o), dim))
    case("C04", "bspline antiderivative k=3 dim=%d" % dim, bounds="5 knots", max_paths=60)(_anti(_mkbs(5, 3), dim, lo=-0.9, hi=1.9))
    case("C04", "spline function antiderivative k=3 dim=%d" % dim, bounds="coefficients symbolic", max_paths=60)(_anti(_mksf(3), dim, lo=0.05, hi=2.45))
case("C04", "bspline antiderivative k=1", bounds="6 knots", max_paths=60)(_anti(_mkbs(6, 1), 1, lo=-0.9, hi=1.9))
case("C04", "bspline antiderivative k=2", bounds="6 knots", max_paths=60)(_anti(_mkbs(6, 2), 1, lo=-0.9, hi=1.9))
for kind in POLY:
    case("C04", "polynomial %s antiderivative" % kind, bounds="degree 3, 2 dimensions")(_anti(_mkpoly(kind, 3), 2))
    case("C04", "polynomial %s antiderivative dim=1" % kind, bounds="degree 4")(_anti(_mkpoly(kind, 4), 1))
    case("C04", "polynomial %s second antiderivative" % kind, bounds="degree 2")(_anti(_mkpoly(kind, 2), 1, order=2))


# ----------------------------------------------------------------- C06 composite bases
def _members(h, dim, which):
    B = h.basis
    mk = {
        "poly": lambda: B.PolynomialFeatures(deg=2),
        "polyc": lambda: B.PolynomialFeatures(deg=2, remove_const=False),
        "lin": lambda: B.LinearFeatures(to_center=True),
        "four": lambda: B.FourierFeatures(order=1, freq=h.real("w", pos=True)),
        "fourc": lambda: B.FourierFeatures(order=1, freq=h.real("w", pos=True), remove_const=False),
        "sfct": lambda: B.SplineFctFeatures(KN, h.real("c", 6), k=3),
        "ind": lambda: B.SmoothIndicatorFeatures([[0.25, 0.75], [1.0, 2.0]]),
    }
    return [mk[w]() for w in which]


def _combine(which, dim):
    def f(h):
        spl = "sfct" in which
        X = h.real("X", (1, dim), **(dict(lo=0.05, hi=2.45, box=(0.05, 2.45)) if spl else {}))
        D = h.real("D", (3, dim))
        parts = _members(h, dim, which)
        ref = _members(h, dim, which)
        c = h.basis.FeaturesCombiner(*parts)
        ds = h.basis.minimal_describe(D)
        c.fit(ds)
        for b in ref:
            b.fit(ds)
        h.same("size of the combination", int(c.n_output_features_), int(sum(b.n_output_features_ for b in ref)))
        h.eq("combined basis", c.basis(X), np.concatenate([b.basis(X) for b in ref], axis=1))
        h.eq("combined gradient", c.deriv(X), np.concatenate([b.deriv(X) for b in ref], axis=1))
        h.eq("combined hessian", c.hessian(X), np.concatenate([b.hessian(X) for b in ref], axis=1))
        h.eq("combined second derivative", c.deriv(X, deriv_order=2), np.concatenate([b.deriv(X, deriv_order=2) for b in ref], axis=1))
        h.same("constant removal is reported", bool(c.const_removed), any(bool(b.const_removed) for b in ref))
    return f


for which, dim in ((("lin", "four"), 1), (("polyc", "fourc"), 2), (("poly", "lin", "four"), 1), (("lin", "polyc", "fourc", "lin"), 2), (("sfct", "lin", "poly"), 1), (("poly",), 2), (("ind", "lin", "polyc"), 1)):
    case("C06", "combination %s dim=%d" % ("+".join(which), dim), bounds="%d member bases, %d dimensions, 1 point, 3 data points" % (len(which), dim), max_paths=60)(_combine(which, dim))


def _tensor(w1, w2, shared=False):
    def f(h):
        lo = dict(lo=0.05, hi=2.45, box=(0.05, 2.45)) if "sfct" in (w1, w2) else {}
        X = h.real("X", (2, 2), **lo)
        D = h.real("D", (4, 2))
        mn, mx = h.np.min(D, axis=0), h.np.max(D, axis=0)
        mean = D.sum(axis=0) / 4
        ds = h.basis.DescribeResult(4, (mn, mx), mean, mean * 0, mean * 0, mean * 0)
        b1 = _members(h, 1, [w1])[0]
        b2 = _members(h, 1, [w2])[0] if w2 else None
        r1 = _members(h, 1, [w1])[0]
        r2 = _members(h, 1, [w2 or w1])[0]
        r1.const_removed = r2.const_removed = False
        if shared:  # the same object for both factors
            b2 = b1
        t = h.basis.TensorialBasis2D(b1, b2) if b2 is not None else h.basis.TensorialBasis2D(b1)
        t.fit(ds)
        r1.fit(h.basis.DescribeResult(4, (mn[:1], mx[:1]), mean[:1], 0 * mean[:1], 0 * mean[:1], 0 * mean[:1]))
        r2.fit(h.basis.DescribeResult(4, (mn[1:], mx[1:]), mean[1:], 0 * mean[1:], 0 * mean[1:], 0 * mean[1:]))
        n1, n2 = int(r1.n_output_features_), int(r2.n_output_features_)
        h.same("size of the product", int(t.n_output_features_), n1 * n2)
        F1, F2 = r1.basis(X[:, :1]), r2.basis(X[:, 1:])
        G1, G2 = r1.deriv(X[:, :1]), r2.deriv(X[:, 1:])
        H1, H2 = r1.hessian(X[:, :1]), r2.hessian(X[:, 1:])
        B, G, Hs = t.basis(X), t.deriv(X), t.hessian(X)
        h.shape("product basis shape", B, (2, n1 * n2))
        h.shape("product gradient shape", G, (2, n1 * n2, 2))
        h.shape("product hessian shape", Hs, (2, n1 * n2, 2, 2))
        for i in range(n1):
            for j in range(n2):
                k = int(t.comb_indices(i, j))
                h.same("flat index", k, i * n2 + j)
                h.same("index round trip", tuple(int(q) for q in t.split_index(k)), (i, j))
                h.eq("product basis", B[:, k], F1[:, i] * F2[:, j])
                h.eq("product gradient 0", G[:, k, 0], G1[:, i, 0] * F2[:, j])
                h.eq("product gradient 1", G[:, k, 1], F1[:, i] * G2[:, j, 0])
                h.eq("product hessian 00", Hs[:, k, 0, 0], H1[:, i, 0, 0] * F2[:, j])
                h.eq("product hessian 11", Hs[:, k, 1, 1], F1[:, i] * H2[:, j, 0, 0])
                h.eq("product hessian 01", Hs[:, k, 0, 1], G1[:, i, 0] * G2[:, j, 0])
                h.eq("product hessian 10", Hs[:, k, 1, 0], G1[:, i, 0] * G2[:, j, 0])
        h.eq("second derivative is the hessian", t.deriv(X, deriv_order=2), Hs)
    return f


for w1, w2 in (("polyc", "fourc"), ("lin", "polyc"), ("lin", None), ("poly", "four"), ("four", None), ("fourc", "lin"), ("ind", "polyc"), ("poly", "ind")):
    case("C06", "product %s x %s" % (w1, w2 or "same"), bounds="2 points in 2 dimensions, 4 data points", max_paths=90)(_tensor(w1, w2))


for w in ("poly", "polyc", "four"):
    case("C06", "product of %s with the same object" % w, bounds="2 points in 2 dimensions, 4 data points", max_paths=90)(_tensor(w, None, shared=True))


def _tensor_bs(same):
    """the two factors are fitted on their own coordinate"""
    def f(h):
        X = h.real("X", (1, 2), lo=0.1, hi=0.9, box=(0.1, 0.9))
        ds = h.basis.DescribeResult(5, (np.array([-1.0, 0.0]), np.array([2.0, 1.0])), np.array([0.5, 0.25]), np.ones(2), np.zeros(2), np.zeros(2))
        t = h.basis.TensorialBasis2D(h.basis.BSplineFeatures(4)) if same else h.basis.TensorialBasis2D(h.basis.BSplineFeatures(4), h.basis.BSplineFeatures(5, k=2))
        t.fit(ds)
        r1 = h.basis.BSplineFeatures(4, remove_const=False).fit(h.basis.DescribeResult(5, (np.array([-1.0]), np.array([2.0])), np.array([0.5]), np.ones(1), np.zeros(1), np.zeros(1)))
        r2 = h.basis.BSplineFeatures(4 if same else 5, k=3 if same else 2, remove_const=False).fit(h.basis.DescribeResult(5, (np.array([0.0]), np.array([1.0])), np.array([0.25]), np.ones(1), np.zeros(1), np.zeros(1)))
        F1, F2 = r1.basis(X[:, :1]), r2.basis(X[:, 1:])
        B = t.basis(X)
        h.eq("product of splines", B, np.array([[F1[0, i] * F2[0, j] for i in range(F1.shape[1]) for j in range(F2.shape[1])]]))
        G = t.deriv(X)
        G1, G2 = r1.deriv(X[:, :1]), r2.deriv(X[:, 1:])
        h.eq("gradient of product of splines", G[0], np.array([[G1[0, i, 0] * F2[0, j], F1[0, i] * G2[0, j, 0]] for i in range(F1.shape[1]) for j in range(F2.shape[1])]))
    return f


case("C06", "product of two spline bases", bounds="4 x 5 knots, 1 point", max_paths=60)(_tensor_bs(False))
case("C06", "product of a spline basis with itself", bounds="4 x 4 knots, 1 point, different ranges", max_paths=60)(_tensor_bs(True))


def _nested(h):
    """a product inside the derivative machinery: gradient is the derivative of the product basis"""
    X = h.real("X", (1, 2))
    t = h.basis.TensorialBasis2D(h.basis.PolynomialFeatures(deg=2), h.basis.FourierFeatures(order=1)).fit(h.basis.describe_from_dim(2))
    check_deriv(h, t, X)
    c = h.basis.FeaturesCombiner(h.basis.LinearFeatures(), h.basis.TensorialBasis2D(h.basis.PolynomialFeatures(deg=1), h.basis.PolynomialFeatures(deg=2)))
    c.fit(h.basis.describe_from_dim(2))
    check_deriv(h, c, X)


case("C06", "derivatives of nested composites", bounds="1 point in 2 dimensions")(_nested)
