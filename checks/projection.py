"""C25 projection on the range of a deficient basis"""
from fractions import Fraction
import numpy as np
import xarray as xr
from vsym.runner import case
from checks._common import tr, frames, estimator
from checks.models import VEL, make, frame


def _pair(model, deg, dim, r, nk=3):
    """a model with a projected kernel and the same kernel written on the whole basis"""
    def mk(h, proj):
        m = make(h, model, h.basis.PolynomialFeatures(deg=deg, remove_const=False), dim)
        n = int(m.N_basis_elt_kernel)
        P, K = h.real("p", (r, n)), h.real("k", (nk, r, dim))
        m.force_coeff = xr.DataArray(h.real("f", (int(m.N_basis_elt_force), dim)), dims=("dim_basis", "dim_x"))
        if proj:
            m.rank_projection = True
            m.P_range = xr.DataArray(P, dims=("dim_basis", "dim_basis_old"))
        else:
            m.rank_projection = False
            K = np.einsum("rk,ird->ikd", P, K) if not h.sym else np.array([[[sum(P[q, k] * K[i, q, d] for q in range(r)) for d in range(dim)] for k in range(n)] for i in range(nk)], dtype=object)
        m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(nk, m.dt)})
        return m
    return mk


def _use(model, deg, dim, r, method, T=4):
    def f(h):
        mk = _pair(model, deg, dim, r)
        a, b = mk(h, True), mk(h, False)
        a.method = b.method = method
        P0 = a.P_range.to_numpy().copy()
        x, v, ac = h.real("x", (T, dim)), h.real("v", (T, dim)), h.real("a", (T, dim))
        ka, kb = a.kernel_eval(x), b.kernel_eval(x)
        h.eq("kernel", tr(ka, *kb.dims), kb.to_numpy())
        na, nb = a.compute_noise(frame(h, x, v, ac)), b.compute_noise(frame(h, x, v, ac))
        for i, w in ((1, "noise"), (3, "force"), (4, "memory")):
            h.eq(w, tr(na[i], "time", "dim_x"), tr(nb[i], "time", "dim_x"))
        h.eq("truncated memory", tr(a.compute_noise(frame(h, x, v, ac), trunc_kernel=2)[4], "time", "dim_x"), tr(b.compute_noise(frame(h, x, v, ac), trunc_kernel=2)[4], "time", "dim_x"))
        ca, cb = a.compute_corrs_w_noise(frame(h, x, v, ac), left_op="v"), b.compute_corrs_w_noise(frame(h, x, v, ac), left_op="v")
        ca, cb = [tuple(q) if isinstance(q, (tuple, list)) else (q,) for q in (ca, cb)]
        h.same("number of results", len(ca), len(cb))
        for p, q in zip(ca, cb):
            h.eq("correlation with the noise", tr(p, *q.dims) if hasattr(q, "dims") else p, q.to_numpy() if hasattr(q, "dims") else q)
        h.eq("projection untouched", a.P_range.to_numpy(), P0)
    return f


for model in VEL:
    for deg, dim, r, method in ((1, 1, 1, "rect"), (2, 1, 2, "rect"), (2, 1, 2, "trapz"), (2, 1, 1, "second_kind_trapz"), (2, 1, 3, "trapz"), (1, 2, 2, "rect"), (1, 2, 3, "trapz")):
        case("C25", "%s deg=%d dim=%d rank=%d %s" % (model, deg, dim, r, method), bounds="%d functions, rank %d, 4 points, 3 kernel values, any projection" % ((deg + 1) * dim, r))(_use(model, deg, dim, r, method))


# ---- choice of the projection ------------------------------------------------------------------
def _raw(h, data, model, basis, trunc, c):
    """correlations before the projection"""
    e = estimator(h, data, model, basis, trunc)
    e.model.force_coeff = xr.DataArray(c, dims=("dim_basis", "dim_x"))
    e.model.rank_projection = False
    e.compute_corrs()
    return e


def _choose(model, mkb, rank, T, nt, dim=1, tol=None, cond=None, gram=False):
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, (T,), dim, dt)
        e0 = estimator(h, data, model, mkb(h), (nt - 0.5) * dt)
        c = h.real("c", (int(e0.model.N_basis_elt_force), dim))
        ref = _raw(h, data, model, mkb(h), (nt - 0.5) * dt, c)
        C = {k: getattr(ref, k) for k in ("bkbkcorrw", "bkdxcorrw", "dotbkbkcorrw", "dotbkdxcorrw")}
        two = lambda k, n: tr(C[k], "dim_basis'", "dim_basis", "time_trunc")[:, :, n]
        one = lambda k, n: tr(C[k], "dim_basis", "dim_x", "time_trunc")[:, :, n]
        B0 = two("bkbkcorrw", 0)
        kw = {}
        if cond is not None:
            kw = cond(h, B0) or {}
        est = estimator(h, data, model, mkb(h), (nt - 0.5) * dt)
        est.model.force_coeff = xr.DataArray(c, dims=("dim_basis", "dim_x"))
        est.compute_corrs(**kw)
        h.true("projection is on", bool(est.model.rank_projection))
        P = tr(est.model.P_range, "dim_basis", "dim_basis_old")
        n = B0.shape[0]
        h.shape("projection", P, (rank, n))
        if tuple(P.shape) != (rank, n):
            return
        for i in range(rank):
            for j in range(i, rank):
                h.eq("rows of the projection are orthonormal", sum(P[i, k] * P[j, k] for k in range(n)), 1 if i == j else 0)
        C0 = [[h.cut(B0[i, j]) for j in range(n)] for i in range(n)]
        if not kw:
            for i in range(n):
                for j in range(n):
                    h.eq("the range is kept", sum(P[q, i] * P[q, k] * C0[k][j] for q in range(rank) for k in range(n)), C0[i][j])
        else:
            h.le("what is lost is below the tolerance", sum(C0[i][j] * C0[i][j] for i in range(n) for j in range(n)) - sum(sum(P[q, i] * C0[i][j] for i in range(n)) ** 2 for q in range(rank) for j in range(n)), kw["rank_tol"] ** 2)
        for t in range(nt):
            for k in ("bkbkcorrw", "dotbkbkcorrw"):
                h.eq("%s at lag %d" % (k, t), tr(getattr(est, k), "dim_basis'", "dim_basis", "time_trunc")[:, :, t], P.dot(two(k, t)).dot(P.T))
            for k in ("bkdxcorrw", "dotbkdxcorrw"):
                h.eq("%s at lag %d" % (k, t), tr(getattr(est, k), "dim_basis", "dim_x", "time_trunc")[:, :, t], P.dot(one(k, t)))
        for k in ("bkbkcorrw", "dotbkbkcorrw"):
            h.same("axes of %s" % k, tuple(getattr(est, k).dims), tuple(C[k].dims))
        for k in ("bkdxcorrw", "dotbkdxcorrw"):
            h.same("axes of %s" % k, tuple(getattr(est, k).dims), tuple(C[k].dims))
        if gram:
            g = tr(est.compute_gram_kernel().gram_kernel, "dim_basis", "dim_basis'")
            h.shape("gram matrix of the kernel", g, (rank, rank))
            ref.compute_gram_kernel()
            h.eq("gram matrix of the kernel", g, P.dot(tr(ref.model.gram_kernel, "dim_basis", "dim_basis'")).dot(P.T))
        # first order only: the same projection
        e1 = estimator(h, data, model, mkb(h), (nt - 0.5) * dt)
        e1.model.force_coeff = xr.DataArray(c, dims=("dim_basis", "dim_x"))
        e1.compute_corrs(second_order_method=False, **kw)
        h.eq("derivative and observable at time zero only", tr(e1.dotbkdxcorrw, "dim_basis", "dim_x", "time_trunc")[:, :, 0], tr(est.dotbkdxcorrw, "dim_basis", "dim_x", "time_trunc")[:, :, 0])
    return f


def pos(h, B):
    h.assume(sum(B[i, i] for i in range(len(B))) > 0.25)
    h.assume(sum(B[i, i] for i in range(len(B))) < 64)


def regular(h, B):
    """the part of the constant removed is regular"""
    q = B[1:, 1:] if len(B) == 3 else B
    q = [[h.cut(q[i, j]) for j in range(2)] for i in range(2)]
    h.assume(q[0][0] * q[1][1] - q[0][1] * q[1][0] > 0.125)
    h.assume(sum(x * x for l in q for x in l) < 1024)


P1 = lambda h: h.basis.PolynomialFeatures(deg=1, remove_const=False)
P2 = lambda h: h.basis.PolynomialFeatures(deg=2, remove_const=False)
LIN = lambda h: h.basis.LinearFeatures()
for model in VEL:
    case("C25", "%s affine basis" % model, bounds="3 points, 2 lags, basis 1, x", limit=300)(_choose(model, P1, 1, 3, 2, cond=pos, gram=model == "Pos_gle"))
    case("C25", "%s quadratic basis" % model, bounds="3 points, 2 lags, basis 1, x, x^2", limit=300, points=2)(_choose(model, P2, 2, 3, 2, cond=regular))
    case("C25", "%s regular basis" % model, bounds="3 points, 2 lags, 2 coordinates, linear basis", limit=300)(_choose(model, LIN, 2, 3, 2, dim=2, cond=regular))


def lossy(h, B):
    tol = h.real("tol", pos=True, box=(0.4, 0.8))
    # eigenvalues on both sides of the tolerance
    a, b, c = h.cut(B[0, 0]), h.cut(B[0, 1]), h.cut(B[1, 1])
    h.assume((a - tol) * (c - tol) - b * b < -0.01)
    h.assume(a * c - b * b > 0.001)
    h.assume(a > 0)
    return {"rank_tol": tol}


case("C25", "tolerance of the rank", bounds="3 points, 1 lag, 2 coordinates, linear basis, any tolerance between the eigenvalues", limit=300)(_choose("Pos_gle", LIN, 1, 3, 1, dim=2, cond=lossy))


def _unit(power):
    """the default tolerance is relative: the rank does not depend on the unit of the data"""
    def f(h):
        dt = h.real("dt", pos=True)
        dim, T = 2, 3
        raw = {k: h.real(k, (T, dim)) for k in "xva"}
        raw["v"] = raw["v"] * 2.0 ** power if not h.sym else raw["v"] * Fraction(2) ** power
        data = [h.vb.xframe(raw["x"], h.time(T, dt), v=raw["v"], a=raw["a"])]
        c = h.real("c", (2, dim))
        B0 = tr(_raw(h, data, "Pos_gle", h.basis.LinearFeatures(), 0.5 * dt, c).bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")[:, :, 0]
        u = (2.0 if not h.sym else Fraction(2)) ** (-2 * power)
        q = [[h.cut(B0[i, j]) * u for j in range(2)] for i in range(2)]
        h.assume(q[0][0] * q[1][1] - q[0][1] * q[1][0] > 0.125)
        h.assume(sum(x * x for l in q for x in l) < 1024)
        e = estimator(h, data, "Pos_gle", h.basis.LinearFeatures(), 0.5 * dt)
        e.model.force_coeff = xr.DataArray(c, dims=("dim_basis", "dim_x"))
        e.compute_corrs()
        h.shape("kept functions", e.bkbkcorrw.isel(time_trunc=0).to_numpy(), (2, 2))
    return f


for power in (30, -30):
    case("C25", "rank of data of size 2^%d" % power, bounds="3 points, 2 coordinates, linear basis, regular data", limit=200)(_unit(power))


def _axes(keep, again):
    """velocities along one axis at a time: the correlation of the linear basis is diagonal, and exactly
    the directions above the tolerance are kept"""
    def f(h):
        dt = h.real("dt", pos=True)
        p, q, tol = h.real("p", pos=True, box=(0.2, 1.5)), h.real("q", pos=True, box=(0.2, 1.5)), h.real("tol", pos=True, box=(0.05, 0.9))
        v = np.array([[p, 0 * p], [0 * q, q], [p, 0 * p]])
        data = h.vb.xframe(h.real("x", (3, 2)), h.time(3, dt), v=v, a=h.real("a", (3, 2)))
        c = h.real("c", (2, 2))
        size = {"first": 2 * p * p / 3, "second": q * q / 3}
        for k, s in size.items():
            h.assume(s > tol if keep in (k, "both") else s < tol)
        if keep == "both" and again:
            h.assume(size["first"] > 1.1 * size["second"])
        e = estimator(h, [data], "Pos_gle", h.basis.LinearFeatures(), 1.5 * dt)
        e.model.force_coeff = xr.DataArray(c, dims=("dim_basis", "dim_x"))
        if again:  # what was kept before does not matter
            e.compute_corrs(rank_tol=0.0 * tol if keep != "both" else (size["first"] + size["second"]) / 2)
        e.compute_corrs(rank_tol=tol)
        axes = [i for i, k in enumerate(("first", "second")) if keep in (k, "both")]
        P = tr(e.model.P_range, "dim_basis", "dim_basis_old")
        h.shape("projection", P, (len(axes), 2))
        if tuple(P.shape) != (len(axes), 2):
            return
        for i in (0, 1):
            for j in (0, 1):
                h.eq("projection on the directions above the tolerance", sum(P[k, i] * P[k, j] for k in range(len(axes))), 1 if i == j and i in axes else 0)
        if again:
            e.compute_corrs()
            h.shape("without tolerance the basis is regular", e.bkbkcorrw.isel(time_trunc=0).to_numpy(), (2, 2))
    return f


for keep in ("first", "second", "both"):
    for again in (False, True):
        case("C25", "tolerance along the axes keeping %s%s" % (keep, " again" if again else ""), bounds="3 points, 2 lags, 2 coordinates, velocities along the axes, any sizes and tolerance", max_paths=60)(_axes(keep, again))


def _tiny(zero):
    """a direction 2^30 times smaller than the other is lost in rounding by default, and kept when the tolerance is zero"""
    def f(h):
        dt = h.real("dt", pos=True)
        p = h.real("p", pos=True, box=(0.5, 1.5))
        h.assume(p > 0.25)
        h.assume(p < 4)
        q = p * ((2.0 if not h.sym else Fraction(2)) ** -30)
        v = np.array([[p, 0 * p], [0 * q, q], [p, 0 * p]])
        data = h.vb.xframe(h.real("x", (3, 2)), h.time(3, dt), v=v, a=h.real("a", (3, 2)))
        e = estimator(h, [data], "Pos_gle", h.basis.LinearFeatures(), 0.5 * dt)
        e.model.force_coeff = xr.DataArray(h.real("c", (2, 2)), dims=("dim_basis", "dim_x"))
        e.compute_corrs(rank_tol=zero)
        h.shape("functions kept with a tolerance of zero", tr(e.model.P_range, "dim_basis", "dim_basis_old"), (2, 2))
        e.compute_corrs()
        h.shape("functions kept by default", tr(e.model.P_range, "dim_basis", "dim_basis_old"), (1, 2))
    return f


for zero in (0, 0.0):
    case("C25", "tolerance %r" % zero, bounds="3 points, 2 coordinates, velocities along the axes in a ratio of 2^30")(_tiny(zero))


def _asked(deg, dim):
    """overdamped model asked to project its basis"""
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, (3,), dim, dt, ("x", "v"))
        mk = lambda: h.basis.PolynomialFeatures(deg=deg, remove_const=False) if deg else h.basis.LinearFeatures()
        n = (deg + 1) * dim
        for asked in (True, False):
            m = h.vb.Pos_gle_overdamped(mk(), dt, dim_x=dim, dim_obs=dim, trunc_ind=2, rank_projection=asked)
            h.same("projection as asked for", bool(m.rank_projection), asked)
            r = n - 1 if n > 1 else 1
            P, K, x = h.real("p", (r, n)), h.real("k", (2, r, dim)), h.real("x0", (2, dim))
            full = np.array([[[sum(P[q, k] * K[i, q, d] for q in range(r)) for d in range(dim)] for k in range(n)] for i in range(2)])
            o = h.vb.Pos_gle_overdamped(mk(), dt, dim_x=dim, dim_obs=dim, trunc_ind=2)
            t = {"time_kernel": h.time(2, dt)}
            o.kernel = xr.DataArray(full, dims=("time_kernel", "dim_basis", "dim_x"), coords=t)
            if asked:
                m.P_range, m.kernel = xr.DataArray(P, dims=("dim_basis", "dim_basis_old")), xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords=t)
            else:
                m.kernel = o.kernel
            a, b = m.kernel_eval(x), o.kernel_eval(x)
            h.eq("kernel with the projection asked for" if asked else "kernel without projection", tr(a, *b.dims), b.to_numpy())
    return f


for deg, dim in ((0, 1), (1, 1), (2, 1), (0, 2), (1, 2)):
    case("C25", "overdamped projection asked for deg=%d dim=%d" % (deg, dim), bounds="%d functions, any projection, 2 kernel values, 2 points" % ((deg + 1) * dim))(_asked(deg, dim))
