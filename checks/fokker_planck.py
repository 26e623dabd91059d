"""C26 projection of the basis on itself: generalised Fokker-Planck equation, conservation, flux"""
import numpy as np
import xarray as xr
from vsym.runner import case
from checks._common import frames, tr, estimator
from checks.correlations import corr
from checks.volterra import poly

LIN_BND = lambda u, der=0: (1 - u) if der == 0 else (0 * u - 1 if der == 1 else 0 * u)


def states(h, x):
    """two states on [-1, 1], linear boundary: every point in the transition"""
    for q in x.ravel():
        h.assume(q > -1)
        h.assume(q < 1)
    return h.basis.SmoothIndicatorFeatures([[-1.0, 1.0]], boundary_type=LIN_BND)


def make(h, kind, lens, trunc=1.5, method=None, **kw):
    dt = h.real("dt", pos=True)
    dim = 2 if kind == "linear2" else 1
    x = [h.real("x%d" % i, (n, dim), box=(-0.9, 0.9)) for i, n in enumerate(lens)]
    v = [h.real("v%d" % i, (n, dim)) for i, n in enumerate(lens)]
    data = [h.vb.xframe(a, h.time(len(a), dt, h.real("t0_%d" % i)), v=b) for i, (a, b) in enumerate(zip(x, v))]
    if kind == "states":
        for a in x:
            b = states(h, a)
        E = [np.concatenate([(1 - a) / 2, (1 + a) / 2], axis=1) for a in x]
        dE = [np.concatenate([-1 * b / 2, b / 2], axis=1) for b in v]
    elif kind == "linear2":
        b, E, dE = h.basis.LinearFeatures(), x, v
    else:
        deg = int(kind[-1])
        b = poly(h, deg)
        E = [np.concatenate([a**n if n else 0 * a + 1 for n in range(deg + 1)], axis=1) for a in x]
        dE = [np.concatenate([n * a ** (n - 1) * w if n > 1 else n * w for n in range(deg + 1)], axis=1) for a, w in zip(x, v)]
    est = estimator(h, data if len(data) > 1 else data[0], "Pos_gle_overdamped", b, trunc * dt, **kw)
    return est, data, x, v, E, dE, dt


def _observable(kind, lens, name):
    def f(h):
        est, data, x, v, E, dE, dt = make(h, kind, lens)
        est.to_gfpe(**({} if name is None else {"new_obs_name": name}))
        k = name or "dE"
        N = E[0].shape[1]
        h.same("the observable is the new variable", est.model.L_obs, k)
        h.same("number of components", int(est.model.dim_obs), N)
        for d, z, a in zip(data, dE, x):
            h.same("axes of the new variable", tuple(sorted(d[k].dims)), ("dim_dE", "time"))
            h.eq("time derivative of every function", tr(d[k], "time", "dim_dE"), z)
            h.eq("positions untouched", d["x"].data, a)
    return f


for kind in ("poly2", "states", "linear2"):
    case("C26", "observable %s" % kind, bounds="trajectories of (2, 3) points", max_paths=60)(_observable(kind, (2, 3), None))
case("C26", "observable with another name", bounds="one trajectory of 3 points")(_observable("poly1", (3,), "flow"))


def _other(h):
    """the basis of another model as observable"""
    est, data, x, v, E, dE, dt = make(h, "poly1", (2, 3))
    o = h.vb.Pos_gle_overdamped(poly(h, 2), dt, dim_x=1, dim_obs=1, trunc_ind=2)
    est.to_gfpe(model=o)
    h.same("number of components", int(est.model.dim_obs), 3)
    for d, a, b in zip(data, x, v):
        h.eq("time derivative of every function of the model given", tr(d["dE"], "time", "dim_dE"), np.concatenate([0 * b, b, 2 * a * b], axis=1))
    c = h.real("c", (2, 3))
    est.model.force_coeff = xr.DataArray(c, dims=("dim_basis", "dim_dE"))
    y = h.real("y", (2, 1))
    h.eq("drift at any point", est.model.force_eval(y), np.concatenate([0 * y + 1, y], axis=1).dot(c))


case("C26", "observable of another model", bounds="trajectories of (2, 3) points, affine basis on a quadratic one")(_other)


def _drift(kind, lens):
    """the drift is the projection of the derivatives of the functions on the functions"""
    def f(h):
        est, data, x, v, E, dE, dt = make(h, kind, lens)
        est.to_gfpe()
        m = est.compute_mean_force()
        N = E[0].shape[1]
        Ea, dEa = np.concatenate(E), np.concatenate(dE)
        F = tr(m.force_coeff, "dim_basis", "dim_dE")
        h.shape("drift", F, (N, N))
        h.eq("residual is orthogonal to the functions", Ea.T.dot(dEa - Ea.dot(F)), np.zeros((N, N)))
        y = h.real("y", (2, x[0].shape[1]), box=(-0.9, 0.9))
        if kind == "states":
            h.eq("probability is conserved by the drift", F.sum(axis=1), np.zeros(N))
        else:
            B = y if kind == "linear2" else np.concatenate([y**n if n else 0 * y + 1 for n in range(N)], axis=1)
            h.eq("drift at any point", m.force_eval(y), B.dot(F))
        est.set_zero_force()
        h.eq("zero drift", est.model.force_coeff.data, np.zeros((N, N)))
        h.same("axes of the zero drift", est.model.force_coeff.dims, ("dim_basis", "dim_dE"))
    return f


for kind, lens in (("poly1", (2, 2)), ("states", (2, 2)), ("linear2", (2, 2)), ("poly1", (3,))):
    case("C26", "drift %s %s" % (kind, lens), bounds="trajectories of %s points" % (lens,), max_paths=60)(_drift(kind, lens))


def _corrs(kind, lens, nt, method, given=True):
    """correlations of the functions with the part of their derivative that the drift does not describe"""
    def f(h):
        est, data, x, v, E, dE, dt = make(h, kind, lens, trunc=nt - 0.5)
        est.to_gfpe()
        N = E[0].shape[1]
        c = h.real("c", (N, N))
        if kind == "states":
            c = np.concatenate([c[:, :1], -1 * c[:, :1]], axis=1)
        est.model.force_coeff = xr.DataArray(c, dims=("dim_basis", "dim_dE"))
        est.compute_corrs(method=method)
        tot = sum(lens)
        cc = lambda A, B: sum(np.array([[[corr(a[:, i], b[:, j], k) for k in range(nt)] for j in range(N)] for i in range(N)]) * len(a) / tot for a, b in zip(A, B))
        R = [z - e.dot(c) for z, e in zip(dE, E)]
        got = tr(est.bkdxcorrw, "dim_basis", "dim_dE", "time_trunc")
        h.eq("functions and functions", tr(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), cc(E, E))
        h.eq("functions and fluctuating derivatives", got, cc(E, R))
        h.eq("derivatives and functions", tr(est.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), cc(dE, E))
        h.eq("derivatives and fluctuating derivatives", tr(est.dotbkdxcorrw, "dim_basis", "dim_dE", "time_trunc"), cc(dE, R))
        if kind == "states":
            h.eq("fluctuations sum to zero", got.sum(axis=1), np.zeros((N, nt)))
            h.eq("states sum to one", tr(est.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")[:, :, 0].sum(), 1)
    return f


for method in ("fft", "direct"):
    case("C26", "correlations poly1 %s" % method, bounds="trajectories of (2, 3) points, 2 lags", limit=200)(_corrs("poly1", (2, 3), 2, method))
    case("C26", "correlations states %s" % method, bounds="one trajectory of 3 points, 2 lags", limit=200, max_paths=60)(_corrs("states", (3,), 2, method))
case("C26", "correlations linear two coordinates", bounds="trajectories of (3, 4) points, 3 lags", limit=200)(_corrs("linear2", (3, 4), 3, "direct"))


def _kernel(method, T, b):
    """matrix kernel; when the fluctuations sum to zero so does the kernel"""
    def f(h):
        dt = h.real("dt", pos=True, box=(0.2, 0.6))
        x = h.real("x", (T, b), box=(-0.9, 0.9))
        est = estimator(h, h.vb.xframe(x, h.time(T, dt), v=h.real("v", (T, b))), "Pos_gle_overdamped", h.basis.LinearFeatures(), (T - 0.5) * dt)
        est.to_gfpe()
        z = lambda n: np.concatenate([n, -1 * n.sum(axis=1, keepdims=True)], axis=1)
        B, Bd = h.real("B", (b, b, T)), h.real("Bd", (b, b, T), box=(-0.2, 0.2))
        D, Dd = z(h.real("D", (b, b - 1, T))), z(h.real("Dd", (b, b - 1, T)))
        for i in range(b):  # diagonally dominant: regular
            B[i, i, 0] = h.real("B0%d" % i, lo=2, box=(2.5, 3.5))
            for j in range(b):
                if i != j:
                    h.assume(B[i, j, 0] <= 1)
                    h.assume(B[i, j, 0] >= -1)
        put = lambda a, dims: xr.DataArray(a, dims=dims)
        est.bkbkcorrw, est.dotbkbkcorrw = put(B, ("dim_basis'", "dim_basis", "time_trunc")), put(Bd, ("dim_basis'", "dim_basis", "time_trunc"))
        est.bkdxcorrw, est.dotbkdxcorrw = put(D, ("dim_basis", "dim_dE", "time_trunc")), put(Dd, ("dim_basis", "dim_dE", "time_trunc"))
        K = est.compute_kernel(method=method).kernel
        h.same("axes of the kernel", K.dims, ("time_kernel", "dim_basis", "dim_dE"))
        h.shape("kernel", K, (len(K), b, b))
        h.eq("kernel conserves the total", K.data.sum(axis=2), np.zeros((len(K), b)))
        h.eq("time step of the kernel", K.coords["time_kernel"].data[:1], np.zeros(1))
    return f


for method in ("rectangular", "trapz", "second_kind_rect", "second_kind_trapz"):
    case("C26", "kernel %s" % method, bounds="3 lags, 2 functions, every correlation functions", fortran=True, limit=200)(_kernel(method, 3, 2))


def gfpe_model(h, nk, b, conserve):
    dt = h.real("dt", pos=True, box=(0.2, 0.6))
    m = h.vb.Pos_gle_overdamped(h.basis.LinearFeatures(), dt, dim_x=b, dim_obs=b, trunc_ind=nk, L_obs="dE")
    F, K = h.real("f", (b, b), box=(-0.3, 0.3)), h.real("k", (nk, b, b), box=(-0.3, 0.3))
    if conserve:
        F = np.concatenate([F[:, :-1], -1 * F[:, :-1].sum(axis=1, keepdims=True)], axis=1)
        K = np.concatenate([K[:, :, :-1], -1 * K[:, :, :-1].sum(axis=2, keepdims=True)], axis=2)
    m.force_coeff = xr.DataArray(F, dims=("dim_basis", "dim_dE"))
    m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_dE"), coords={"time_kernel": h.time(nk, dt)})
    return m, dt, F, K


def _conserve(method, nk, steps, b, trunc=None):
    """evolution of a conservative equation conserves the total at all times"""
    def f(h):
        m, dt, F, K = gfpe_model(h, nk, b, True)
        G = h.real("g", (b, b))
        t, E = m.evolve_volterra(G, steps, method=method, **({} if trunc is None else {"trunc_ind": trunc}))
        for i in range(steps):
            h.eq("total at step %d" % i, E[:, :, i].sum(axis=1), G.sum(axis=1))
    return f


for method in ("rect", "trapz"):
    for nk, steps, b, tk in ((3, 4, 2, None), (2, 4, 2, None), (4, 3, 2, 2)):
        case("C26", "conservation %s kernel=%d steps=%d trunc=%s" % (method, nk, steps, tk), bounds="%d kernel times, %d steps, %d functions" % (nk, steps, b), fortran=True, limit=250)(_conserve(method, nk, steps, b, tk))


def _weights(method, n):
    if method == "rect":
        return [1.0] * n + [0.0]
    if method == "trapz":
        return [0.5] + [1.0] * (n - 1) + [0.5]
    if n == 1:
        return [0.5, 0.5]
    w = [0] * (n + 1)
    s = 0
    if n % 2:
        w[0], w[1], s = 0.5, 0.5, 1
    from fractions import Fraction
    for j in range(s, n, 2):
        for o, q in ((0, 1), (1, 4), (2, 1)):
            w[j + o] = w[j + o] + Fraction(q, 3)
    return [float(z) if isinstance(z, Fraction) else z for z in w]


def _flux(method, nk, steps, b, rows=None, trunc=None, given=False, other=False):
    """the flux is the drift of the correlation and minus the memory integral over its past"""
    def f(h):
        m, dt, F, K = gfpe_model(h, nk, b, False)
        rows_ = rows or b
        G = h.real("G", (rows_, b, steps))
        G2 = h.real("G2", (rows_, b, steps)) if other else None
        kw = {"method": method}
        if trunc is not None:
            kw["trunc_ind"] = trunc
        Fu, Ku = F, K
        if given:
            Fu, Ku = h.real("f2", (b, b)), h.real("k2", (nk, b, b))
            kw.update(force_coeff=Fu, kernel=Ku)
        if other:
            kw["corrs_kernel"] = G2
        G0 = G.copy()
        force, mem = m.flux_from_volterra(G, **kw)
        Gm = G2 if other else G
        h.shape("drift", force, (rows_, b, steps))
        h.shape("memory", mem, (steps, rows_, b))
        L = len(Ku if trunc is None else Ku[:trunc]) - 1
        for i in range(steps):
            h.eq("drift of the correlation", force[:, :, i], G[:, :, i].dot(Fu))
            n = min(i, L)
            want = np.zeros((rows_, b)) if n == 0 else -1 * sum(w * dt * Gm[:, :, i - j].dot(Ku[j]) for j, w in enumerate(_weights(method, n)) if w != 0)
            h.eq("memory of the correlation", mem[i], want)
        h.eq("correlation untouched", G, G0)
        h.eq("kernel untouched", K, m.kernel.data)
    return f


for method in ("rect", "trapz", "simpson"):
    for nk, steps, b, k in ((3, 5, 1, {}), (6, 4, 1, {}), (3, 3, 2, {}), (4, 4, 1, {"trunc": 2}), (3, 3, 2, {"rows": 1}), (2, 3, 2, {"given": True}), (3, 4, 1, {"other": True})):
        case("C26", "flux %s kernel=%d steps=%d functions=%d %s" % (method, nk, steps, b, " ".join(k)), bounds="%d kernel times, %d steps, %d functions" % (nk, steps, b), fortran=True)(_flux(method, nk, steps, b, **k))
case("C26", "flux simpson kernel=8 steps=9", tier="quick", bounds="8 kernel times, 9 steps", fortran=True)(_flux("simpson", 8, 9, 1))


def _balance(method, nk, steps, b):
    """the increments of an evolved correlation are its flux"""
    def f(h):
        m, dt, F, K = gfpe_model(h, nk, b, False)
        G = h.real("g", (b, b))
        t, E = m.evolve_volterra(G, steps, method=method)
        force, mem = m.flux_from_volterra(E, method=method)
        for i in range(1, steps):
            h.eq("increment at step %d" % i, E[:, :, i] - E[:, :, i - 1], dt * (force[:, :, i - 1] + mem[i]))
    return f


for method in ("rect", "trapz"):
    case("C26", "balance %s" % method, bounds="3 kernel times, 4 steps, 1 function", fortran=True, limit=250)(_balance(method, 3, 4, 1))
    case("C26", "balance %s two functions" % method, bounds="2 kernel times, 3 steps, 2 functions", fortran=True, limit=250)(_balance(method, 2, 3, 2))
