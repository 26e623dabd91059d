"""C14 decomposition of the observable, C15 noise correlations, C16 evolution of the Volterra equation"""
import numpy as np
import xarray as xr
from vsym.runner import case
from checks._common import tr
from checks.volterra import vectors

METHODS = ("rectangular", "rect", "second_kind_rect", "trapz", "second_kind_trapz", None)


def setup(h, model, T, nk, deg, dim=1, method=None, trunc=None, every=1):
    dt = h.real("dt", pos=True)
    basis = h.basis.PolynomialFeatures(deg=deg, remove_const=True) if dim == 1 else h.basis.LinearFeatures()
    m = getattr(h.vb, model)(basis, dt, dim_x=dim, dim_obs=dim, trunc_ind=nk if trunc is None else trunc, L_obs="v" if model == "Pos_gle_overdamped" else "a")
    x, v, a = h.real("x", (T, dim)), h.real("v", (T, dim)), h.real("a", (T, dim))
    t0 = h.real("t0")
    if every > 1:  # points taken from a longer trajectory, whose attributes are those of the whole
        dt0 = dt / every
        xva = h.vb.xframe(np.repeat(x, every, axis=0), h.time(T * every, dt0, t0), v=np.repeat(v, every, axis=0), a=np.repeat(a, every, axis=0)).isel(time=slice(None, None, every))
    else:
        xva = h.vb.xframe(x, h.time(T, dt, t0), v=v, a=a)
    if dim == 1:
        Ef, E, dE = vectors(model, x, v, a, deg)
    else:
        Ef, E = x, x
    C = h.real("c", (Ef.shape[1], dim))
    K = h.real("k", (nk, E.shape[1], dim))
    m.force_coeff = xr.DataArray(C, dims=("dim_basis", "dim_x"))
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(nk, dt)})
    m.method = method
    obs = v if model == "Pos_gle_overdamped" else a
    return m, xva, dt, Ef, E, C, K, obs


def weights(method, i, L):
    """quadrature weights (in units of dt) of the kernel values 0..min(i,L) for the memory at step i"""
    n = min(i, L)
    if i == 0:
        return [0]
    if method in ("trapz", "second_kind_trapz"):
        return [0.5 if j in (0, n) else 1 for j in range(n + 1)] if n > 0 else [1]
    return [1] * (n + 1)


def _noise(model, T, nk, deg, method, dim=1, tk=None, start=0, end=None, trunc=None, every=1):
    def f(h):
        m, xva, dt, Ef, E, C, K, obs = setup(h, model, T, nk, deg, dim, method, trunc, every)
        kw = {}
        if tk is not None:
            kw["trunc_kernel"] = tk
        if start:
            kw["start_point"] = start
        if end is not None:
            kw["end_point"] = end
        time, noise, O, force, mem = m.compute_noise(xva, **kw)
        noise, O, force, mem = tr(noise, "time", "dim_x"), tr(O, "time", "dim_x"), tr(force, "time", "dim_x"), np.asarray(mem)
        sl = slice(start, end)
        Ef, E, obs = Ef[sl], E[sl], obs[sl]
        n = len(E)
        start0 = start if start >= 0 else max(T + start, 0)
        h.shape("length of the noise", noise, (n, dim))
        h.eq("times are counted from the start of the trajectory", time, np.array([(i + start0) * dt for i in range(n)]))
        h.eq("observable", O, obs)
        h.eq("force", force, Ef.dot(C))
        Kt = K[: (tk if tk is not None else (nk if trunc is None else trunc))]
        L = len(Kt) - 1
        for i in range(n):
            w = weights(method, i, L)
            h.eq("memory at step %d" % i, mem[i], -1 * dt * sum((w[j] * E[i - j].dot(Kt[j]) for j in range(len(w))), 0 * C[0]))
        h.eq("observable is force plus memory plus noise", force + mem + noise, obs)
        h.eq("trajectory untouched", xva["x"].data, xva["x"].data if n == 0 else h.real("x", (T, dim)))
        h.eq("kernel untouched", m.kernel.data, K)
    return f


for model in ("Pos_gle", "Pos_gle_overdamped", "Pos_gle_with_friction", "Pos_gle_no_vel_basis", "Pos_gle_const_kernel", "Pos_gle_hybrid"):
    for method in ("rectangular", "trapz"):
        case("C14", "%s %s" % (model, method), bounds="5 points, 3 kernel times, basis 1, x, x^2", fortran=True)(_noise(model, 5, 3, 2, method))
for method in METHODS:
    case("C14", "long kernel %s" % method, bounds="3 points, 5 kernel times", fortran=True)(_noise("Pos_gle", 3, 5, 1, method))
    case("C14", "short kernel %s" % method, bounds="6 points, 2 kernel times", fortran=True)(_noise("Pos_gle_overdamped", 6, 2, 1, method))
for method in ("rectangular", "trapz"):
    case("C14", "truncated kernel %s" % method, bounds="5 points, 4 kernel times of which 2 are used", fortran=True)(_noise("Pos_gle", 5, 4, 1, method, tk=2))
    case("C14", "default truncation %s" % method, bounds="5 points, 4 kernel times, truncation index 3", fortran=True)(_noise("Pos_gle", 5, 4, 1, method, trunc=3))
    case("C14", "part of the trajectory %s" % method, bounds="points 1 to 4 of 6, 2 kernel times", fortran=True)(_noise("Pos_gle", 6, 2, 1, method, start=1, end=5))
    case("C14", "last points of the trajectory %s" % method, bounds="last 4 of 6 points, 2 kernel times", fortran=True)(_noise("Pos_gle", 6, 2, 1, method, start=-4))
    case("C14", "all but the last points %s" % method, bounds="points 2 to 4 of 6, 2 kernel times", fortran=True)(_noise("Pos_gle", 6, 2, 1, method, start=2, end=-1))
    case("C14", "every other point %s" % method, bounds="every other of 8 points, 3 kernel times", fortran=True)(_noise("Pos_gle", 4, 3, 1, method, every=2))
    case("C14", "two coordinates %s" % method, bounds="4 points, 2 kernel times, 2 coordinates", fortran=True)(_noise("Pos_gle_overdamped", 4, 2, 1, method, dim=2))
    case("C14", "one kernel value %s" % method, bounds="3 points, 1 kernel time", fortran=True)(_noise("Pos_gle", 3, 1, 1, method))
    case("C14", "10 points %s" % method, tier="thorough", bounds="10 points, 5 kernel times", fortran=True)(_noise("Pos_gle", 10, 5, 2, method))


def _noise_err(h):
    m, xva, *_ = setup(h, "Pos_gle", 3, 2, 1, method="midpoint")
    h.raises("kernel of a method without reconstruction", m.compute_noise, xva)
    h.raises("correlations of a method without reconstruction", m.compute_corrs_w_noise, xva)


case("C14", "errors", bounds="midpoint kernel", fortran=True)(_noise_err)


# --------------------------------------------------------------- C15
def _projcorr(model, T, nk, deg, method, left, dim=1, every=1):
    """correlation of the projected noise with an observable, at every lag of the kernel"""
    def f(h):
        m, xva, dt, Ef, E, C, K, obs = setup(h, model, T, nk, deg, dim, method, every=every)
        R = obs - Ef.dot(C)
        if left is None:
            lop, A = None, R
        elif left == "name":
            lop, A = "v", xva["v"].data
        elif left == "own name":
            lop, A = m.L_obs, obs
        elif left == "function":
            lop, A = (lambda z: z["x"] * 2), xva["x"].data * 2
        else:
            A = h.real("l", (T, 2))
            lop = A if left == "array" else xr.DataArray(A, dims=("time", "dim_x"))
        t, c = m.compute_corrs_w_noise(xva, left_op=lop) if lop is not None else m.compute_corrs_w_noise(xva)
        trap = method in ("trapz", "second_kind_trapz")
        n = nk - 1 if trap else nk
        h.shape("correlation", c, (n, A.shape[1], dim))
        h.eq("lags", np.asarray(t), np.array([i * dt for i in range(n)] + [None], dtype=object)[:-1] if h.sym else np.array([i * dt for i in range(n)]))
        for lag in range(n):
            # noise propagated with the projected dynamics, lag steps after each start t
            def eta(s):
                r = 1 * R[s + lag]
                for j in range(lag):
                    if trap:
                        r = r + 0.5 * dt * E[s + lag - j].dot(K[j]) + 0.5 * dt * E[s + lag - j - 1].dot(K[j + 1])
                    else:
                        r = r + dt * E[s + lag - j].dot(K[j])
                return r
            N = T - lag
            h.eq("projected correlation at lag %d" % lag, c[lag], sum(np.outer(A[s], eta(s)) for s in range(N)) / N)
        h.eq("kernel untouched", m.kernel.data, K)
        h.eq("trajectory untouched", xva["x"].data, h.real("x", (T, dim)))
    return f


for method in METHODS:
    for left in (None, "name", "own name", "function", "array", "dataarray"):
        case("C15", "%s left operator %s" % (method, left), bounds="4 points, 3 kernel times", fortran=True)(_projcorr("Pos_gle", 4, 3, 1, method, left))
for model in ("Pos_gle_overdamped", "Pos_gle_with_friction", "Pos_gle_hybrid", "Pos_gle_const_kernel"):
    for method in ("rectangular", "trapz"):
        case("C15", "%s %s" % (model, method), bounds="5 points, 3 kernel times, basis 1, x, x^2", fortran=True)(_projcorr(model, 5, 3, 2, method, None))
for method in ("rectangular", "trapz"):
    case("C15", "every other point %s" % method, bounds="every other of 8 points, 3 kernel times", fortran=True)(_projcorr("Pos_gle", 4, 3, 1, method, None, every=2))
    case("C15", "two coordinates %s" % method, bounds="4 points, 3 kernel times, 2 coordinates", fortran=True)(_projcorr("Pos_gle_overdamped", 4, 3, 1, method, None, dim=2))
    case("C15", "8 points %s" % method, tier="thorough", bounds="8 points, 6 kernel times", fortran=True)(_projcorr("Pos_gle", 8, 6, 1, method, None))


def _pooled(h):
    """several trajectories: length weighted average"""
    from checks._common import frames, estimator
    dt = h.real("dt", pos=True)
    data, raw = frames(h, (4, 3), 1, dt)
    est = estimator(h, data, "Pos_gle", h.basis.PolynomialFeatures(deg=1), 1.5 * dt)
    C, K = h.real("c", (2, 1)), h.real("k", (2, 1, 1))
    est.model.force_coeff = xr.DataArray(C, dims=("dim_basis", "dim_x"))
    est.model.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(2, dt)})
    est.model.method = "rectangular"
    t, c = est.compute_projected_corrs()
    parts = [est.model.compute_corrs_w_noise(d)[1] for d in data]
    h.eq("pooled projected correlation", c, (4 * parts[0] + 3 * parts[1]) / 7)
    h.eq("lags", np.asarray(t), np.array([0 * dt, dt]))
    t, c = est.compute_projected_corrs(left_op="x")
    parts = [est.model.compute_corrs_w_noise(d, left_op="x")[1] for d in data]
    h.eq("pooled projected correlation with an observable", c, (4 * parts[0] + 3 * parts[1]) / 7)


case("C15", "pooled trajectories", bounds="trajectories of (4, 3) points, 2 kernel times", fortran=True)(_pooled)


# --------------------------------------------------------------- C16
def _evolve(method, nk, steps, b, rows, trunc=None):
    def f(h):
        dt = h.real("dt", pos=True, box=(0.2, 0.6))
        m = h.vb.Pos_gle_overdamped(h.basis.LinearFeatures(), dt, dim_x=b, dim_obs=b, trunc_ind=nk)
        F, K = h.real("f", (b, b)), h.real("k", (nk, b, b))
        # one row per basis function, at least
        G = h.real("g", (b, b), **({"lo": 0.25} if method == "trapz_stab" else {}))
        m.force_coeff = xr.DataArray(F, dims=("dim_basis", "dim_x"))
        m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(nk, dt)})
        t, E = m.evolve_volterra(G, steps, method=method, **({} if trunc is None else {"trunc_ind": trunc}))
        h.eq("times", t, np.array([i * dt for i in range(steps)]))
        h.shape("solution", E, (b, b, steps))
        h.eq("initial value", E[:, :, 0], G)
        Kt = K if trunc is None or trunc <= 0 else K[:trunc]
        L = len(Kt) - 1
        I = np.eye(b)
        for i in range(1, steps):
            n = min(i, L)
            prev = E[:, :, i - 1]
            if method == "rect":
                imp = I + dt**2 * Kt[0]
                S = sum((dt * E[:, :, i - j].dot(Kt[j]) for j in range(1, n)), 0 * G.dot(K[0]))
            else:
                imp = I + 0.5 * dt**2 * Kt[0]
                S = sum((dt * E[:, :, i - j].dot(Kt[j]) for j in range(1, n)), 0.5 * dt * E[:, :, i - n].dot(Kt[n]))
            rhs = prev + dt * prev.dot(F) - dt * S
            if method != "trapz_stab":
                h.eq("step %d of the integro differential equation" % i, E[:, :, i].dot(imp), rhs)
            else:
                h.eq("normalised at step %d" % i, E[:, :, i].sum(), 1)
                h.le("not negative at step %d" % i, 0, E[:, :, i])
        h.eq("initial value untouched", G, h.real("g", (b, b)))
        h.eq("kernel untouched", m.kernel.data, K)
    return f


for method in ("rect", "trapz"):
    for nk, steps, b, tr_ in ((3, 4, 1, None), (5, 4, 1, None), (3, 6, 1, None), (2, 4, 2, None), (4, 4, 1, 2), (4, 4, 1, 0), (2, 3, 2, None), (3, 3, 1, 1)):
        if method == "trapz" and tr_ == 1:
            continue  # a memory of one value has no trapezoid
        case("C16", "%s kernel=%d steps=%d basis=%d trunc=%s" % (method, nk, steps, b, tr_), bounds="%d kernel times, %d steps, %d basis functions" % (nk, steps, b), fortran=True, limit=200)(_evolve(method, nk, steps, b, b, tr_))
    case("C16", "%s kernel=4 steps=8" % method, tier="thorough", bounds="4 kernel times, 8 steps", fortran=True)(_evolve(method, 4, 8, 1, 1))


def _stab(h):
    """stabilised evolution: clipped to non negative values and normalised, otherwise the trapezoidal step"""
    dt = h.real("dt", pos=True, box=(0.05, 0.2))
    nk, steps = 3, 3
    m = h.vb.Pos_gle_overdamped(h.basis.LinearFeatures(), dt, dim_x=2, dim_obs=2, trunc_ind=nk)
    f, k, g = h.real("f", (2,), lo=-1, hi=1), h.real("k", (nk, 2), lo=-1, hi=1), h.real("g", (2, 2), lo=0.25, hi=1)
    z = 0 * f[0]
    dg = lambda a: np.array([[a[0], z], [z, a[1]]])
    h.assume(dt <= 0.2)
    m.force_coeff = xr.DataArray(dg(f), dims=("dim_basis", "dim_x"))
    m.kernel = xr.DataArray(np.array([dg(q) for q in k]), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(nk, dt)})
    t, E = m.evolve_volterra(g, steps, method="trapz_stab")
    t2, P = m.evolve_volterra(g, 2, method="trapz")
    pos = h.np.maximum(P[:, :, 1], 0)
    h.eq("first step is the normalised positive part of the plain step", E[:, :, 1] * pos.sum(), pos)
    h.eq("sum is one", E[:, :, 1].sum(), 1)
    h.le("not negative", 0, E[:, :, 1])
    h.eq("initial value", E[:, :, 0], g)


case("C16", "stabilised", bounds="2 steps, 2 basis functions, diagonal coefficients", fortran=True, limit=200)(_stab)


def _evolve_err(h):
    dt = h.real("dt", pos=True)
    m = h.vb.Pos_gle_overdamped(h.basis.LinearFeatures(), dt, dim_x=2, dim_obs=1, trunc_ind=2)
    m.force_coeff = xr.DataArray(h.real("f", (2, 1)), dims=("dim_basis", "dim_x"))
    m.kernel = xr.DataArray(h.real("k", (2, 2, 1)), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(2, dt)})
    h.raises("coefficients that are not square", m.evolve_volterra, h.real("g", (2, 2)), 3)
    m.force_coeff = xr.DataArray(h.real("f2", (2, 2)), dims=("dim_basis", "dim_x"))
    h.raises("kernel that is not square", m.evolve_volterra, h.real("g", (1, 2)), 3)
    m.force_coeff = xr.DataArray(h.real("f", (2, 1)), dims=("dim_basis", "dim_x"))
    m.kernel = xr.DataArray(h.real("k2", (2, 2, 2)), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(2, dt)})
    h.raises("force that is not square", m.evolve_volterra, h.real("g", (2, 2)), 3)
    m.force_coeff = xr.DataArray(h.real("f2", (2, 2)), dims=("dim_basis", "dim_x"))
    h.raises("initial value of another size", m.evolve_volterra, h.real("g3", (3, 2)), 3)


case("C16", "errors", bounds="rectangular coefficients", fortran=True)(_evolve_err)
