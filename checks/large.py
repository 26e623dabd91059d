"""Long trajectories, kernels and grids, three coordinates: one factor is given, the others are symbolic"""
import numpy as np
import xarray as xr
from vsym.runner import case
from checks._common import tr
from checks.dynamics import weights
from checks import volterra as V, fokker_planck as P


def given(h, shape, seed):
    """a fixed array of small fractions without any pattern"""
    n = int(np.prod(shape))
    v = [((k * k * 7 + 5 * k + 3 * seed) % 13 + (k * 11 + seed) % 7 - 9) / 8 for k in range(n)]
    return h.cst(np.array(v).reshape(shape))


def lin_model(h, dim, nk, method, dt, name="Pos_gle_overdamped"):
    return getattr(h.vb, name)(h.basis.LinearFeatures(), dt, dim_x=dim, dim_obs=dim, trunc_ind=nk, L_obs="v" if "over" in name else "a")


def put(m, C, K, dt, h):
    m.force_coeff = xr.DataArray(C, dims=("dim_basis", "dim_x"))
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(len(K), dt)})


# --------------------------------------------------------------- C14, C15
def _noise(T, nk, dim, method, start=0, end=None):
    def f(h):
        dt = 0.25
        m = lin_model(h, dim, nk, method, dt)
        x, v = given(h, (T, dim), 1), h.real("v", (T, dim))
        C, K = h.real("c", (dim, dim)), h.real("k", (nk, dim, dim))
        put(m, C, K, dt, h)
        m.method = method
        xva = h.vb.xframe(x, h.time(T, dt, h.real("t0")), v=v)
        time, noise, O, force, mem = m.compute_noise(xva, start_point=start, end_point=end)
        noise, O, force, mem = tr(noise, "time", "dim_x"), tr(O, "time", "dim_x"), tr(force, "time", "dim_x"), np.asarray(mem)
        X = x[start:end]
        h.eq("observable", O, v[start:end])
        h.eq("force", force, X.dot(C))
        n = len(X)
        h.eq("times are counted from the start of the trajectory", time, np.array([(i + start) * dt for i in range(n)]))
        want = []
        for i in range(n):
            w = weights(method, i, nk - 1)
            want.append(-1 * dt * sum((w[j] * X[i - j].dot(K[j]) for j in range(len(w))), 0 * C[0]))
        h.eq("memory", mem, np.array(want))
        h.eq("observable is force plus memory plus noise", force + mem + noise, v[start:end])
    return f


for method in ("rectangular", "trapz"):
    case("C14", "large %s" % method, bounds="90 given points, 40 kernel times, any kernel, force and observable", fortran=True, limit=250)(_noise(90, 40, 1, method))
    case("C14", "large window %s" % method, bounds="points 20 to 80 of 90, 30 kernel times", fortran=True, limit=250)(_noise(90, 30, 1, method, 20, 80))
    case("C14", "three coordinates %s" % method, bounds="12 given points, 5 kernel times, 3 coordinates", fortran=True, limit=250)(_noise(12, 5, 3, method))


def _projcorr(T, nk, dim, method):
    def f(h):
        dt = 0.25
        m = lin_model(h, dim, nk, method, dt)
        x, v = given(h, (T, dim), 1), h.real("v", (T, dim))
        C, K = given(h, (dim, dim), 2), h.real("k", (nk, dim, dim))
        put(m, C, K, dt, h)
        m.method = method
        A = given(h, (T, 2), 3)
        xva = h.vb.xframe(x, h.time(T, dt, h.real("t0")), v=v)
        t, c = m.compute_corrs_w_noise(xva, left_op=A)
        trap = method == "trapz"
        n = nk - 1 if trap else nk
        h.shape("correlation", c, (n, 2, dim))
        h.eq("lags", np.asarray(t), np.array([i * dt for i in range(n)]))
        R = v - x.dot(C)
        for lag in range(n):
            N = T - lag
            tot = 0 * np.outer(A[0], R[0])
            for s in range(N):
                tot = tot + np.outer(A[s], R[s + lag])
            for j in range(lag):
                if trap:
                    U = A[:N].T.dot(x[lag - j:lag - j + N]) * (0.5 * dt)
                    V = A[:N].T.dot(x[lag - j - 1:lag - j - 1 + N]) * (0.5 * dt)
                    tot = tot + U.dot(K[j]) + V.dot(K[j + 1])
                else:
                    tot = tot + (A[:N].T.dot(x[lag - j:lag - j + N]) * dt).dot(K[j])
            h.eq("projected correlation at lag %d" % lag, c[lag], tot / N)
    return f


for method in ("rectangular", "trapz"):
    case("C15", "large %s" % method, bounds="40 given points, 20 kernel times, any kernel and observable", fortran=True, limit=250)(_projcorr(40, 20, 1, method))
    case("C15", "three coordinates %s" % method, bounds="8 given points, 4 kernel times, 3 coordinates", fortran=True, limit=250)(_projcorr(8, 4, 3, method))


# --------------------------------------------------------------- C16
def _evolve(method, nk, steps, b):
    def f(h):
        dt = 0.25
        m = lin_model(h, b, nk, None, dt)
        F, K, G = given(h, (b, b), 4), given(h, (nk, b, b), 5), h.real("g", (b, b))
        K = K / 4
        put(m, F, K, dt, h)
        t, E = m.evolve_volterra(G, steps, method=method)
        h.eq("times", t, np.array([i * dt for i in range(steps)]))
        h.shape("solution", E, (b, b, steps))
        h.eq("initial value", E[:, :, 0], G)
        L = nk - 1
        I = np.eye(b)
        for i in range(1, steps):
            n = min(i, L)
            prev = E[:, :, i - 1]
            if method == "rect":
                imp = I + dt**2 * K[0]
                S = sum((dt * E[:, :, i - j].dot(K[j]) for j in range(1, n)), 0 * G.dot(K[0]))
            else:
                imp = I + 0.5 * dt**2 * K[0]
                S = sum((dt * E[:, :, i - j].dot(K[j]) for j in range(1, n)), 0.5 * dt * E[:, :, i - n].dot(K[n]))
            h.eq("step %d of the integro differential equation" % i, E[:, :, i].dot(imp), prev + dt * prev.dot(F) - dt * S)
    return f


for method in ("rect", "trapz"):
    case("C16", "large %s" % method, bounds="15 given kernel times, 40 steps, any initial value", fortran=True, limit=250)(_evolve(method, 15, 40, 1))
    case("C16", "three functions %s" % method, bounds="4 given kernel times, 9 steps, 3 functions, any initial value", fortran=True, limit=250)(_evolve(method, 4, 9, 3))


# --------------------------------------------------------------- C12, C13
def big(f):
    """the same case with given correlations of the basis, so that the kernel is linear in what is symbolic"""
    def g(h):
        h.given_B = True
        f(h)
    return g


def basis_correlations(h, N, b, seed):
    B = given(h, (b, b, N), seed) / 4
    s = 2 if seed % 2 else -2
    for i in range(b):
        for k in range(2):
            B[i, i, k] = B[i, i, k] + s
    return B


for N, b, d in ((70, 1, 1), (25, 1, 1), (12, 2, 2), (8, 3, 3)):
    t = "%d lags, %d basis functions, %d coordinates; correlations of the basis given" % (N, b, d)
    if N != 25:
        case("C12", "large rectangle N=%d basis=%d dim=%d" % (N, b, d), bounds=t, fortran=True, limit=250)(big(V._rect(N, b, d)))
        case("C12", "large midpoint N=%d basis=%d dim=%d" % (N, b, d), bounds=t, fortran=True, limit=250)(big(V._mid(N, b, d)))
    for g in (True, False):
        if N != 70:
            case("C12", "large trapezoid N=%d basis=%d dim=%d%s" % (N, b, d, " k0 given" if g else ""), bounds=t, fortran=True, limit=250)(big(V._trapz(N, b, d, g)))
        for kind in ("rect", "trapz"):
            if N != 25:
                case("C13", "large second kind %s N=%d basis=%d dim=%d%s" % (kind, N, b, d, " k0 given" if g else ""), bounds=t, fortran=True, limit=250)(big(V._second(kind, N, b, d, g)))
case("C12", "large richardson N=70", bounds="70 lags; correlations of the basis given", fortran=True, limit=250)(big(V._rich(70)))
for N in (12, 40):
    t = "%d lags, inversion routine, correlations of the basis given" % N
    if N == 12:  # the recurrence amplifies rounding
        case("C12", "large simpson N=%d" % N, bounds=t, fortran=True, limit=250)(big(V._simpson1(N)))
    case("C13", "large second kind simpson N=%d" % N, bounds=t, fortran=True, limit=250)(big(V._second_simpson(N)))


# --------------------------------------------------------------- C19
def _run(T, n, n0, dim, trunc=None, const=False):
    """a linear system: every step is linear in the history"""
    def f(h):
        from checks.integrate import reference

        dt = h.cst(0.25)[()] if h.sym else 0.25
        C = given(h, (dim, dim), 1) / 4
        K = given(h, (T, dim, dim), 2) / 8
        b = h.basis.LinearFeatures()
        m = (h.vb.Pos_gle_const_kernel if const else h.vb.Pos_gle)(b, dt, dim_x=dim, dim_obs=dim, trunc_ind=T)
        put(m, C, K, dt, h)
        if not const:
            m.P_range = xr.DataArray(h.cst(np.eye(dim)), dims=("dim_basis", "dim_basis_old"))
        kw = {} if trunc is None else {"trunc_kernel": trunc}
        intg = (h.vb.Integrator_gle_const_kernel if const else h.vb.Integrator_gle)(m, verbose=False, coeffs_noise_kernel=h.cst(np.zeros((dim, dim))), **kw)
        xs, vs = h.real("x", (n0, dim)), h.real("v", (n0, dim))
        if n0 > 3:  # the others are given
            sx, sv = xs, vs
            xs, vs = given(h, (n0, dim), 3), given(h, (n0, dim), 4)
            for k in (0, n0 - n // 3, n0 - 1):
                xs[k], vs[k] = sx[k], sv[k]
        x0 = xr.Dataset({"x": (["time", "dim_x"], xs), "v": (["time", "dim_x"], vs)}, coords={"time": h.time(n0, dt)}, attrs={"dt": dt})
        trj = intg.run(n, x0, set_noise_to_zero=True)
        one = lambda x, v=None: [x[l] for l in range(dim)]
        X, V = reference(one, lambda x, v: [v[l] for l in range(dim)], C, K[:trunc], dt, h.cst(np.zeros((n, dim))), xs, vs, n)
        h.shape("length of the trajectory", trj["x"], (n, dim))
        for i in range(n):
            h.eq("position at step %d" % i, trj["x"].data[i], np.array(X[i] + [None], dtype=object)[:-1] if h.sym else X[i])
            h.eq("velocity at step %d" % i, trj["v"].data[i], np.array(V[i] + [None], dtype=object)[:-1] if h.sym else V[i])
    return f


case("C19", "large run", bounds="20 given kernel values, 45 steps, any initial point", limit=250)(_run(20, 45, 1, 1))
case("C19", "large history", bounds="20 given kernel values, history of 30 points of which 3 are symbolic, 50 steps", limit=250)(_run(20, 50, 30, 1))
case("C19", "large truncated kernel", bounds="40 given kernel values of which 12 are used, 30 steps", limit=250)(_run(40, 30, 2, 1, 12))
case("C19", "large constant kernel", bounds="20 given kernel values, 30 steps, 2 initial points", limit=250)(_run(20, 30, 2, 1, None, True))
case("C19", "three coordinates", bounds="4 given kernel values, 8 steps, 3 coordinates", limit=250)(_run(4, 8, 2, 3))


# --------------------------------------------------------------- C07, C21, C24, C26
def _direct(T, d, e, trunc):
    def f(h):
        C = h.mod("correlation")
        a, b = given(h, (d, T), 1), h.real("b", (e, T))
        L = min(T, trunc)
        mean = lambda p, q, n: sum(p[t] * q[t + n] for t in range(T - n)) / (T - n)
        r = h.vb.correlation_direct(a[:, None, :], b, trunc=trunc)
        h.shape("direct cross correlation length", r, (d, e, L))
        h.eq("direct cross correlation", r, np.array([[[mean(a[i], b[j], n) for n in range(L)] for j in range(e)] for i in range(d)]))
        r = C.correlation_direct_1D(b[0], trunc=trunc)
        h.eq("direct 1D autocorrelation", r, np.array([mean(b[0], b[0], n) for n in range(L)]))
        r = C.correlation_direct_1D(b[0], a[0], trunc=trunc)
        h.eq("direct 1D cross correlation", r, np.array([mean(b[0], a[0], n) for n in range(L)]))
    return f


def _fft(T, trunc):
    def f(h):
        C = h.mod("correlation")
        a, b = given(h, (1, T), 1), given(h, (1, T), 2)
        s = h.real("s", 3)
        b = b + 0.0
        for k, i in enumerate((0, T // 2, T - 1)):
            b[0, i] = s[k]
        L = min(T, trunc)
        mean = lambda p, q, n: sum(p[t] * q[t + n] for t in range(T - n)) / (T - n)
        r = h.vb.correlation_fft(a[:, None, :], b[None], trunc=trunc)
        h.eq("fft cross correlation", r, np.array([[[mean(a[0], b[0], n) for n in range(L)]]]))
        r = C.correlation_1D(b[0], a[0], trunc=trunc)
        h.eq("fft 1D cross correlation", r, np.array([mean(b[0], a[0], n) for n in range(L)]))
    return f


case("C07", "large direct", bounds="90 time points, 2 x 2 components, 40 lags, one signal given", limit=250)(_direct(90, 2, 2, 40))
case("C07", "large direct all lags", bounds="60 time points, all lags, one signal given", limit=250)(_direct(60, 1, 1, 60))
case("C07", "large fft", bounds="20 time points, 15 lags, one signal given and 3 values of the other symbolic", limit=250)(_fft(20, 15))
for N, b, d in ((40, 2, 1), (8, 3, 3)):
    case("C24", "large check of the inversion N=%d" % N, bounds="%d lags, %d basis functions, %d coordinates" % (N, b, d), limit=250)(big(V._checkinv(N, b, d)))
for method in ("rect", "trapz", "simpson"):
    case("C26", "large flux %s" % method, bounds="40 kernel times, 60 steps", fortran=True, limit=250)(P._flux(method, 40, 60, 1))
    case("C26", "flux of three functions %s" % method, bounds="4 kernel times, 5 steps, 3 functions", fortran=True, limit=250)(P._flux(method, 4, 5, 3))
