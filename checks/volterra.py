"""C11 correlation matrices, C12/C13 inversion of the Volterra equations, C24 diagnostics of the kernel"""
import numpy as np
import xarray as xr
from vsym.runner import case
from checks._common import frames, tr, estimator
from checks.correlations import corr


def poly(h, deg, rc=True):
    return h.basis.PolynomialFeatures(deg=deg, remove_const=rc)


# --------------------------------------------------------------- C11
def vectors(model, X, V, A, deg):
    """force basis, kernel basis and its derivative for a polynomial basis in one dimension"""
    B = np.concatenate([X**q if q else X * 0 + 1 for q in range(deg + 1)], axis=1)
    D = np.concatenate([q * X ** (q - 1) if q > 1 else X * 0 + q for q in range(deg + 1)], axis=1)
    H = np.concatenate([q * (q - 1) * X ** (q - 2) if q > 2 else X * 0 + q * (q - 1) for q in range(deg + 1)], axis=1)
    if model == "Pos_gle":
        return B, D[:, 1:] * V, D[:, 1:] * A + H[:, 1:] * V * V
    if model == "Pos_gle_with_friction":
        return np.concatenate([B, D[:, 1:] * V], axis=1), D[:, 1:] * V, D[:, 1:] * A + H[:, 1:] * V * V
    if model == "Pos_gle_const_kernel":
        return B, V, A
    if model == "Pos_gle_hybrid":
        return B, np.concatenate([V, B], axis=1), np.concatenate([A, D * V], axis=1)
    return B, B, D * V


def _corrs(model, T, nt, deg, method, vectorize, second=True):
    def f(h):
        dt = h.real("dt", pos=True)
        obs = ("x", "v") if model in ("Pos_gle_overdamped", "Pos_gle_no_vel_basis") else ("x", "v", "a")
        L = obs[-1]
        data, raw = frames(h, (T,), 1, dt, obs)
        est = estimator(h, data, model, poly(h, deg), (nt - 0.5) * dt)
        Ef, E, dE = vectors(model, raw[0]["x"], raw[0]["v"], raw[0].get("a"), deg)
        c = h.real("c", (Ef.shape[1], 1))
        est.model.force_coeff = xr.DataArray(c, dims=("dim_basis", "dim_x"))
        m = est.compute_corrs(method=method, vectorize=vectorize, **({} if second else {"second_order_method": False}))
        h.true("model is returned", m is est.model)
        R = raw[0][L] - Ef.dot(c)
        cc = lambda a, b, n=nt: np.array([[[corr(a[:, i], b[:, j], k) for k in range(n)] for j in range(b.shape[1])] for i in range(a.shape[1])])
        h.eq("basis and basis", tr(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), cc(E, E))
        h.eq("basis and fluctuating observable", tr(est.bkdxcorrw, "dim_basis", "dim_x", "time_trunc"), cc(E, R))
        if second:
            h.eq("derivative and basis", tr(est.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), cc(dE, E))
            h.eq("derivative and fluctuating observable", tr(est.dotbkdxcorrw, "dim_basis", "dim_x", "time_trunc"), cc(dE, R))
        else:
            h.eq("derivative and fluctuating observable at time zero", tr(est.dotbkdxcorrw, "dim_basis", "dim_x", "time_trunc"), cc(dE, R, 1))
        h.eq("trajectory untouched", data[0]["x"].data, raw[0]["x"])
        h.eq("observable untouched", data[0][L].data, raw[0][L])
        h.eq("force untouched", tr(est.model.force_coeff, "dim_basis", "dim_x"), c)
    return f


MODELS = ("Pos_gle", "Pos_gle_with_friction", "Pos_gle_no_vel_basis", "Pos_gle_overdamped", "Pos_gle_const_kernel", "Pos_gle_hybrid")
for model in MODELS:
    for method, vec in (("fft", False), ("direct", False), ("fft", True), ("direct", True)):
        case("C11", "%s %s%s" % (model, method, " vectorised" if vec else ""), bounds="one trajectory of 4 points, 3 lags, basis 1, x, x^2", limit=200)(_corrs(model, 4, 3, 2, method, vec))
    case("C11", "%s first order only" % model, bounds="one trajectory of 3 points, 2 lags", limit=200)(_corrs(model, 3, 2, 2, "fft", False, False))
case("C11", "Pos_gle all lags", bounds="one trajectory of 6 points, 6 lags", limit=250)(_corrs("Pos_gle", 6, 6, 1, "fft", False))
case("C11", "overdamped all lags direct", bounds="one trajectory of 7 points, 7 lags", limit=250)(_corrs("Pos_gle_overdamped", 7, 7, 1, "direct", False))
case("C11", "Pos_gle_overdamped 8 points", tier="thorough", bounds="one trajectory of 8 points, 5 lags, 3 functions")(_corrs("Pos_gle_overdamped", 8, 5, 2, "fft", False))


def _corrs_nd(method):
    """two coordinates: one row per basis function, one column per coordinate"""
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, (4,), 2, dt, ("x", "v"))
        est = estimator(h, data, "Pos_gle_overdamped", h.basis.LinearFeatures(), 2.5 * dt)
        c = h.real("c", (2, 2))
        est.model.force_coeff = xr.DataArray(c, dims=("dim_basis", "dim_x"))
        est.compute_corrs(method=method)
        X, V = raw[0]["x"], raw[0]["v"]
        R = V - X.dot(c)
        cc = lambda a, b: np.array([[[corr(a[:, i], b[:, j], k) for k in range(3)] for j in range(2)] for i in range(2)])
        h.eq("basis and basis", tr(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), cc(X, X))
        h.eq("basis and fluctuating observable", tr(est.bkdxcorrw, "dim_basis", "dim_x", "time_trunc"), cc(X, R))
        h.eq("derivative and basis", tr(est.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), cc(V, X))
        h.eq("derivative and fluctuating observable", tr(est.dotbkdxcorrw, "dim_basis", "dim_x", "time_trunc"), cc(V, R))
    return f


for method in ("fft", "direct"):
    case("C11", "two coordinates %s" % method, bounds="4 points, 3 lags, 2 coordinates")(_corrs_nd(method))


def _corr_err(h):
    dt = h.real("dt", pos=True)
    data, raw = frames(h, (3,), 1, dt)
    est = estimator(h, data, "Pos_gle", poly(h, 1), 1.5 * dt)
    h.raises("correlations before the mean force", est.compute_corrs)
    d2, _ = frames(h, (3,), 1, dt, ("x", "v"), pre="q")
    h.raises("missing acceleration", lambda: estimator(h, d2, "Pos_gle", poly(h, 1), 1.5 * dt))
    h.raises("missing observable", lambda: estimator(h, data, "Pos_gle", poly(h, 1), 1.5 * dt, L_obs="nothing"))
    h.raises("no time axis", lambda: estimator(h, [data[0].rename({"time": "when"})], "Pos_gle", poly(h, 1), 1.5 * dt))
    d3 = data[0].copy()
    d3.attrs = {}
    h.raises("no time step", lambda: estimator(h, [d3], "Pos_gle", poly(h, 1), 1.5 * dt))


case("C11", "errors", bounds="missing data")(_corr_err)


# --------------------------------------------------------------- C12, C13
def inject(h, N, b, d, second=True):
    """an estimator holding arbitrary correlation functions"""
    dt = h.cst(0.25)[()] if getattr(h, "given_B", False) else h.real("dt", pos=True, box=(0.5, 1.5))
    data, _ = frames(h, (N,), d, dt, ("x", "v"))
    est = estimator(h, data, "Pos_gle_overdamped", h.basis.LinearFeatures(), (N - 0.5) * dt)
    if getattr(h, "given_B", False):
        from checks.large import basis_correlations

        B, Bd = basis_correlations(h, N, b, 5), basis_correlations(h, N, b, 8)
    else:
        B, Bd = h.real("B", (b, b, N)), h.real("Bd", (b, b, N))
    D = h.real("D", (b, d, N))
    Dd = h.real("Dd", (b, d, N))
    est.bkbkcorrw = xr.DataArray(B, dims=("dim_basis'", "dim_basis", "time_trunc"))
    est.bkdxcorrw = xr.DataArray(D, dims=("dim_basis", "dim_x", "time_trunc"))
    est.dotbkbkcorrw = xr.DataArray(Bd, dims=("dim_basis'", "dim_basis", "time_trunc"))
    est.dotbkdxcorrw = xr.DataArray(Dd, dims=("dim_basis", "dim_x", "time_trunc"))
    return est, dt, B, D, Bd, Dd


def done(h, est, m, method, K, times):
    h.true("model is returned", m is est.model)
    h.same("method is recorded", str(m.method), method)
    h.same("axes of the kernel", tuple(m.kernel.dims), ("time_kernel", "dim_basis", "dim_x"))
    h.eq("times of the kernel", m.kernel["time_kernel"].data, np.array(times + [None], dtype=object)[:-1] if h.sym else np.array(times))


def _rect(N, b, d, method="rectangular"):
    def f(h):
        est, dt, B, D, Bd, Dd = inject(h, N, b, d)
        m = est.compute_kernel(method=method)
        K = tr(m.kernel, "time_kernel", "dim_basis", "dim_x")
        done(h, est, m, method, K, [i * dt for i in range(N)])
        h.shape("kernel", K, (N, b, d))
        for n in range(N - 1):
            h.eq("first kind equation, rectangle rule, step %d" % n, sum(dt * B[:, :, n + 1 - j].dot(K[j]) for j in range(n + 1)), -1 * D[:, :, n + 1])
        h.eq("correlations untouched", est.bkbkcorrw.data, B)
        h.eq("correlations with the observable untouched", est.bkdxcorrw.data, D)
    return f


for N, b, d in ((4, 1, 1), (3, 2, 1), (3, 2, 2), (3, 1, 2), (6, 1, 1)):
    case("C12", "rectangle N=%d basis=%d dim=%d" % (N, b, d), bounds="%d lags, %d basis functions, %d coordinates" % (N, b, d), fortran=True, limit=200)(_rect(N, b, d))
case("C12", "rectangle short name", bounds="3 lags", fortran=True)(_rect(3, 1, 1, "rect"))
case("C12", "rectangle N=9", tier="thorough", bounds="9 lags, 1 basis function", fortran=True)(_rect(9, 1, 1))
case("C12", "rectangle N=4 basis=2", tier="thorough", bounds="4 lags, 2 basis functions", fortran=True)(_rect(4, 2, 1))
case("C12", "rectangle N=3 basis=3", tier="thorough", bounds="3 lags, 3 basis functions", fortran=True)(_rect(3, 3, 1))


def _mid(N, b, d):
    def f(h):
        est, dt, B, D, Bd, Dd = inject(h, N, b, d)
        m = est.compute_kernel(method="midpoint")
        K = tr(m.kernel, "time_kernel", "dim_basis", "dim_x")
        n = N // 2
        done(h, est, m, "midpoint", K, [2 * i * dt for i in range(n)])
        h.shape("kernel", K, (n, b, d))
        for i in range(n):
            h.eq("first kind equation, midpoint rule, step %d" % i, dt * B[:, :, 2 * i + 1].dot(K[0]) + sum([2 * dt * B[:, :, 2 * (i - j) + 1].dot(K[j]) for j in range(1, i + 1)], 0 * B[:, :, 0].dot(K[0])), -1 * D[:, :, 2 * i + 1])
    return f


for N, b, d in ((2, 1, 1), (3, 1, 1), (4, 1, 1), (5, 1, 2), (6, 1, 1), (7, 1, 1), (4, 2, 1)):
    case("C12", "midpoint N=%d basis=%d dim=%d" % (N, b, d), bounds="%d lags, %d basis functions, %d coordinates" % (N, b, d), fortran=True, limit=200)(_mid(N, b, d))
case("C12", "midpoint N=6 basis=2", tier="thorough", bounds="6 lags, 2 basis functions", fortran=True)(_mid(6, 2, 1))


def _rich(N):
    def f(h):
        est, dt, B, D, Bd, Dd = inject(h, N, 1, 1)
        m = est.compute_kernel(method="midpoint_w_richardson")
        K = tr(m.kernel, "time_kernel", "dim_basis", "dim_x").copy()
        done(h, est, m, "midpoint_w_richardson", K, [6 * i * dt for i in range(len(K))])
        k1 = tr(est.compute_kernel(method="midpoint").kernel, "time_kernel", "dim_basis", "dim_x").copy()
        est.bkbkcorrw, est.bkdxcorrw = est.bkbkcorrw[:, :, ::3], est.bkdxcorrw[:, :, ::3]
        est.dt = 3 * dt
        est.model.trunc_ind = est.bkbkcorrw.shape[-1]
        k3 = tr(est.compute_kernel(method="midpoint").kernel, "time_kernel", "dim_basis", "dim_x")
        n = min(len(k3), len(k1[::3]))
        h.same("length", len(K), n)
        h.eq("extrapolation of the step to zero", 8 * K + k3[:n], 9 * k1[::3][:n])
    return f


for N in (5, 8, 9, 10, 12, 15):
    case("C12", "richardson N=%d" % N, bounds="%d lags, 1 basis function" % N, fortran=True, limit=200)(_rich(N))


def _trapz(N, b, d, given):
    def f(h):
        est, dt, B, D, Bd, Dd = inject(h, N, b, d)
        k0 = h.real("k0", (b, d)) if given else None
        m = est.compute_kernel(method="trapz", k0=k0)
        K = tr(m.kernel, "time_kernel", "dim_basis", "dim_x")
        done(h, est, m, "trapz", K, [i * dt for i in range(N - 1)])
        h.shape("kernel", K, (N - 1, b, d))
        if given:
            h.eq("initial value is the given one", K[0], k0)
        else:
            h.eq("initial value solves the second kind equation at time zero", B[:, :, 0].dot(K[0]), Dd[:, :, 0])
        # the unsmoothed solution, from the recurrence of the trapezoidal rule
        raw = h.fk.kernel_first_kind_trapz(K[0] if not given else k0, B, D, dt)
        for n in range(1, N):
            h.eq("first kind equation, trapezoidal rule, step %d" % n, sum(dt * (0.5 if j in (0, n) else 1) * B[:, :, n - j].dot(raw[j]) for j in range(n + 1)), -1 * D[:, :, n])
        for n in range(1, N - 1):
            h.eq("kernel is the smoothed solution %d" % n, 4 * K[n], raw[n - 1] + 2 * raw[n] + raw[n + 1])
    return f


for N, b, d, g in ((3, 1, 1, True), (4, 1, 1, False), (5, 1, 1, True), (3, 2, 1, True), (3, 1, 2, False), (3, 2, 1, False)):
    case("C12", "trapezoid N=%d basis=%d dim=%d%s" % (N, b, d, " k0 given" if g else ""), bounds="%d lags, %d basis functions, %d coordinates" % (N, b, d), fortran=True, limit=200)(_trapz(N, b, d, g))


def _simpson1(N):
    def f(h):
        dt = h.real("dt", pos=True, box=(0.5, 1.5))
        B, D, k0 = h.real("B", (1, 1, N)), h.real("D", (1, 1, N)), h.real("k0", (1, 1))
        if getattr(h, "given_B", False):
            from checks.large import basis_correlations

            B, dt = basis_correlations(h, N, 1, 5), 0.25
        K = h.fk.kernel_first_kind_simpson(k0, B, D, dt)
        h.eq("initial value", K[0], k0)
        for n in range(1, N):
            h.eq("first kind equation, simpson rule, step %d" % n, sum(dt * w * B[:, :, n - j].dot(K[j]) for j, w in enumerate(simpson_weights(h, n))), -1 * D[:, :, n])
    return f


def simpson_weights(h, n):
    """composite Simpson weights on n intervals, trapezoid on the first one when n is odd"""
    w = [h.cst(0)[()] * 1 for _ in range(n + 1)]
    third = h.cst(1)[()] / 3
    s = 0
    if n % 2:
        w[0] = w[0] + h.cst(1)[()] / 2
        w[1] = w[1] + h.cst(1)[()] / 2
        s = 1
    for j in range(s, n, 2):
        w[j], w[j + 1], w[j + 2] = w[j] + third, w[j + 1] + 4 * third, w[j + 2] + third
    return w


for N in (4, 5, 6):
    case("C12", "simpson N=%d" % N, bounds="%d lags, 1 basis function, inversion routine" % N, fortran=True, limit=200)(_simpson1(N))


def _poly_first(h):
    """a kernel that is constant in time is found back from the correlations it generates (rectangle rule)"""
    dt = h.real("dt", pos=True, box=(0.5, 1.5))
    N = 5
    est, dt, B, D, Bd, Dd = inject(h, N, 1, 1)
    K0 = [h.real("K_%d" % j) for j in range(N)]
    D = np.empty((1, 1, N), dtype=object if h.sym else float)
    D[0, 0, 0] = h.real("D0")
    for n in range(N - 1):
        D[0, 0, n + 1] = -1 * sum(dt * B[0, 0, n + 1 - j] * K0[j] for j in range(n + 1))
    est.bkdxcorrw = xr.DataArray(D, dims=("dim_basis", "dim_x", "time_trunc"))
    K = tr(est.compute_kernel(method="rectangular").kernel, "time_kernel", "dim_basis", "dim_x")
    h.eq("kernel is found back", K[:-1, 0, 0], np.array(K0[:-1]))


case("C12", "kernel found back from its correlations", bounds="5 lags, any kernel", fortran=True)(_poly_first)


def _unknown(h):
    est, dt, B, D, Bd, Dd = inject(h, 3, 1, 1)
    h.raises("unknown method", est.compute_kernel, method="nothing")
    est.bkbkcorrw = None
    h.raises("missing correlations", est.compute_kernel)


case("C12", "errors", bounds="unknown method, missing correlations", fortran=True)(_unknown)


def _second(kind, N, b, d, given):
    def f(h):
        est, dt, B, D, Bd, Dd = inject(h, N, b, d)
        k0 = h.real("k0", (b, d)) if given else None
        m = est.compute_kernel(method="second_kind_" + kind, k0=k0)
        K = tr(m.kernel, "time_kernel", "dim_basis", "dim_x")
        done(h, est, m, "second_kind_" + kind, K, [i * dt for i in range(N)])
        h.shape("kernel", K, (N, b, d))
        if given:
            h.eq("initial value is the given one", K[0], k0)
        else:
            h.eq("initial value solves the second kind equation at time zero", B[:, :, 0].dot(K[0]), Dd[:, :, 0])
        for n in range(1, N):
            if kind == "rect":
                I = sum(dt * Bd[:, :, n - j].dot(K[j]) for j in range(n))
            else:
                I = sum(dt * (0.5 if j in (0, n) else 1) * Bd[:, :, n - j].dot(K[j]) for j in range(n + 1))
            h.eq("second kind equation, %s rule, step %d" % (kind, n), B[:, :, 0].dot(K[n]), Dd[:, :, n] + I)
        h.eq("correlations untouched", est.dotbkbkcorrw.data, Bd)
        h.eq("correlations with the observable untouched", est.dotbkdxcorrw.data, Dd)
    return f


for kind in ("rect", "trapz"):
    for N, b, d, g in ((3, 1, 1, True), (5, 1, 1, False), (3, 2, 1, True), (3, 2, 2, False), (4, 1, 2, True), (2, 2, 1, False)):
        case("C13", "second kind %s N=%d basis=%d dim=%d%s" % (kind, N, b, d, " k0 given" if g else ""), bounds="%d lags, %d basis functions, %d coordinates" % (N, b, d), fortran=True, limit=200)(_second(kind, N, b, d, g))
    case("C13", "second kind %s N=7" % kind, tier="thorough", bounds="7 lags, 1 basis function", fortran=True)(_second(kind, 7, 1, 1, True))
    case("C13", "second kind %s N=4 basis=2" % kind, tier="thorough", bounds="4 lags, 2 basis functions", fortran=True)(_second(kind, 4, 2, 1, True))


def _second_simpson(N):
    def f(h):
        dt = h.real("dt", pos=True, box=(0.5, 1.5))
        B0, Bd, Dd, k0 = h.real("B0", (1, 1)), h.real("Bd", (1, 1, N)), h.real("Dd", (1, 1, N)), h.real("k0", (1, 1))
        if getattr(h, "given_B", False):
            from checks.large import basis_correlations

            B0, Bd, dt = basis_correlations(h, 2, 1, 5)[:, :, 0], basis_correlations(h, N, 1, 8), 0.25
        K = h.fk.kernel_second_kind_simpson(k0, B0, Bd, Dd, dt)
        h.eq("initial value", K[0], k0)
        for n in range(1, N):
            h.eq("second kind equation, simpson rule, step %d" % n, B0.dot(K[n]), Dd[:, :, n] + sum(dt * w * Bd[:, :, n - j].dot(K[j]) for j, w in enumerate(simpson_weights(h, n))))
    return f


for N in (4, 5, 6):
    case("C13", "second kind simpson N=%d" % N, bounds="%d lags, 1 basis function, inversion routine" % N, fortran=True, limit=200)(_second_simpson(N))


def _second_missing(h):
    est, dt, B, D, Bd, Dd = inject(h, 3, 1, 1)
    est.dotbkdxcorrw = None
    for mth in ("trapz", "second_kind_rect", "second_kind_trapz"):
        h.raises("missing derivative correlations for %s" % mth, est.compute_kernel, method=mth)


case("C13", "errors", bounds="missing derivative correlations", fortran=True)(_second_missing)


def _endtoend(model, T, method):
    """from trajectory to kernel: the kernel solves the equation of the correlations of the data"""
    def f(h):
        dt = h.real("dt", pos=True, box=(0.5, 1.5))
        obs = ("x", "v") if model == "Pos_gle_overdamped" else ("x", "v", "a")
        data, raw = frames(h, (T,), 1, dt, obs)
        ov = model == "Pos_gle_overdamped"
        est = estimator(h, data, model, h.basis.LinearFeatures() if ov else poly(h, 1), (T - 1.5) * dt)
        est.set_zero_force()
        c = h.real("c", (1, 1))
        est.model.force_coeff = est.model.force_coeff + (c if ov else np.array([[0 * c[0, 0]], [c[0, 0]]]))
        est.compute_corrs()
        m = est.compute_kernel(method=method)
        K = tr(m.kernel, "time_kernel", "dim_basis", "dim_x")[:, 0, 0]
        X, V = raw[0]["x"][:, 0], raw[0]["v"][:, 0]
        E = X if model == "Pos_gle_overdamped" else V
        dE = V if model == "Pos_gle_overdamped" else raw[0]["a"][:, 0]
        R = raw[0][obs[-1]][:, 0] - c[0, 0] * X
        N = T - 1
        if method == "rectangular":
            for n in range(N - 1):
                h.eq("first kind equation of the data", sum(dt * corr(E, E, n + 1 - j) * K[j] for j in range(n + 1)), -1 * corr(E, R, n + 1))
        else:
            for n in range(0, N):
                h.eq("second kind equation of the data", corr(E, E, 0) * K[n], corr(dE, R, n) + sum([dt * corr(dE, E, n - j) * K[j] for j in range(n)], 0 * dt))
    return f


for model in ("Pos_gle", "Pos_gle_overdamped"):
    case("C12", "trajectory to kernel %s" % model, bounds="one trajectory of 4 points, 3 lags, linear basis", fortran=True, limit=200)(_endtoend(model, 4, "rectangular"))
    case("C13", "trajectory to kernel %s" % model, bounds="one trajectory of 4 points, 3 lags, linear basis", fortran=True, limit=200)(_endtoend(model, 4, "second_kind_rect"))


# --------------------------------------------------------------- C24
def _checkinv(N, b, d):
    def f(h):
        est, dt, B, D, Bd, Dd = inject(h, N, b, d)
        K = h.real("K", (N, b, d))
        est.model.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(N, dt)})
        R = np.asarray(est.check_volterra_inversion())
        h.shape("integral", R, (b, d, N))
        for n in range(N):
            want = 0 * B[:, :, 0].dot(K[0]) if n == 0 else -1 * sum(dt * (0.5 if j in (0, n) else 1) * B[:, :, n - j].dot(K[j]) for j in range(n + 1))
            h.eq("integral of the first kind equation, step %d" % n, R[:, :, n], want)
        if b == d == 1:
            h.eq("difference is the distance to the correlation", np.asarray(est.check_volterra_inversion(return_diff=True)), abs(R - D))
        h.eq("kernel untouched", est.model.kernel.data, K)
    return f


for N, b, d in ((4, 1, 1), (3, 2, 1), (3, 2, 2), (5, 1, 2)):
    case("C24", "check of the inversion N=%d basis=%d dim=%d" % (N, b, d), bounds="%d lags, %d basis functions, %d coordinates" % (N, b, d))(_checkinv(N, b, d))


def _consistency(h):
    """the kernel of the (unsmoothed) trapezoidal inversion passes the check exactly"""
    N = 4
    est, dt, B, D, Bd, Dd = inject(h, N, 1, 1)
    k0 = h.real("k0", (1, 1))
    K = h.fk.kernel_first_kind_trapz(k0, B, D, dt)
    est.model.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(N, dt)})
    h.eq("trapezoidal inversion satisfies the check", np.asarray(est.check_volterra_inversion())[:, :, 1:], D[:, :, 1:])


case("C24", "check of the trapezoidal inversion", bounds="4 lags", fortran=True)(_consistency)


def _laplace(N, npts, given):
    def f(h):
        m = h.vb.Pos_gle_overdamped(h.basis.LinearFeatures(), h.real("dt", pos=True, box=(0.5, 1.5)), dim_x=1, dim_obs=1, trunc_ind=N if given else npts)
        K = h.real("K", (N, 1, 2))
        tau = h.real("tau", pos=True, box=(0.5, 2))  # Some methods return the kernel at multiples of the time step
        m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(N, tau)})
        if given in ("first", "last", "number"):
            lo, hi = h.real("lo") if given == "first" else 0, h.real("hi") if given == "last" else 1 / m.dt
            kw = {"first": {"s_start": lo}, "last": {"s_end": hi}, "number": {}}[given]
            s, L = m.laplace_transform_kernel(n_points=npts, **kw)
        elif given:
            lo, hi = h.real("lo"), h.real("hi")
            s, L = m.laplace_transform_kernel(s_start=lo, s_end=hi, n_points=npts)
        else:
            lo, hi = 0, 1 / m.dt
            s, L = m.laplace_transform_kernel()
        h.shape("transform", L, (npts, 1, 2))
        h.eq("frequencies", s, np.array([lo + (hi - lo) * i / (npts - 1) for i in range(npts)]))
        # composite Simpson rule, checked on an odd number of points
        w = [1.0 if j in (0, N - 1) else (4.0 if j % 2 else 2.0) for j in range(N)]
        for n in range(npts):
            e = [h.np.exp(np.array([-1 * s[n] * (j * tau)]))[0] for j in range(N)]
            h.eq("quadrature of the transform", 3 * L[n, 0], tau * sum(w[j] * e[j] * K[j, 0] for j in range(N)))
        h.eq("kernel untouched", m.kernel.data, K)
    return f


for N, p, g in ((3, 3, True), (5, 2, True), (3, 2, False), (3, 5, True), (3, 2, "first"), (3, 2, "last"), (3, 4, "number")):
    case("C24", "laplace N=%d points=%d%s" % (N, p, "" if g is True else " %s given" % g if g else " default range"), bounds="%d kernel times, %d frequencies" % (N, p))(_laplace(N, p, g))
