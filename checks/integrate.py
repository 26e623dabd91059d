"""C19 numerical integration of the generalised Langevin equation, C20 coloured noise"""
import numpy as np
import xarray as xr
from vsym.runner import case
from checks._common import tr


def fixed(W):
    """a random source that returns the given numbers"""
    return lambda *a, size=None, **k: W[: (size if size is not None else a[-1])].copy()


def basis_of(h, kind, dim):
    if kind == "linear":
        b = h.basis.LinearFeatures()
        return b, (lambda x: [x[d] for d in range(dim)]), (lambda x, v: [v[d] for d in range(dim)])
    deg = int(kind[-1])
    b = h.basis.PolynomialFeatures(deg=deg, remove_const=True)
    return b, (lambda x: [x[d] ** n if n else x[d] * 0 + 1 for n in range(deg + 1) for d in range(dim)]), (lambda x, v: [n * x[d] ** (n - 1) * v[d] if n > 1 else v[d] for n in range(1, deg + 1) for d in range(dim)])


def reference(F, E, C, K, dt, noise, xs, vs, n):
    """fourth order Runge-Kutta with the memory integral (trapezoidal rule over the past) kept fixed at the two ends of the step"""
    T, nb, dim = K.shape
    X, V = [list(x) for x in xs], [list(v) for v in vs]
    Es = [E(x, v) for x, v in zip(X, V)]
    c = lambda e, Kj, l: sum(e[k] * Kj[k][l] for k in range(nb))

    def past(m, l):
        """trapezoidal rule over the past of time m, without the present"""
        L = min(m, T - 1)
        return sum((dt * (0.5 if j == L else 1) * c(Es[m - j], K[j], l) for j in range(1, L + 1)), 0 * dt)

    while len(X) < n:
        i = len(X)
        old = [past(i - 1, l) + 0.5 * dt * c(Es[i - 1], K[0], l) for l in range(dim)]
        new = [past(i, l) for l in range(dim)]

        def acc(x, v, alpha):
            f, e = F(x), E(x, v)
            return [sum(f[k] * C[k][l] for k in range(len(f))) + noise[i][l] - alpha * old[l] - (1 - alpha) * (new[l] + 0.5 * dt * c(e, K[0], l)) for l in range(dim)]

        x0, v0 = X[-1], V[-1]
        a1 = acc(x0, v0, 1)
        x1, v1 = [x0[l] + 0.5 * dt * v0[l] for l in range(dim)], [v0[l] + 0.5 * dt * a1[l] for l in range(dim)]
        a2 = acc(x1, v1, 0.5)
        x2, v2 = [x0[l] + 0.5 * dt * v1[l] for l in range(dim)], [v0[l] + 0.5 * dt * a2[l] for l in range(dim)]
        a3 = acc(x2, v2, 0.5)
        x3, v3 = [x0[l] + dt * v2[l] for l in range(dim)], [v0[l] + dt * a3[l] for l in range(dim)]
        a4 = acc(x3, v3, 0)
        V.append([v0[l] + dt * (a1[l] + 2 * a2[l] + 2 * a3[l] + a4[l]) / 6 for l in range(dim)])
        X.append([x0[l] + dt * (v0[l] + 2 * v1[l] + 2 * v2[l] + v3[l]) / 6 for l in range(dim)])
        Es.append(E(X[-1], V[-1]))
    return X, V


def _run(kind, T, n, n0=1, dim=1, const=False, nomodel=False, noise=False, trunc=None, zero=False, rank=None):
    def f(h):
        dt = h.real("dt", pos=True)
        b, F, E = basis_of(h, kind, dim)
        nF = len(F([1.0] * dim))
        if const:
            E = lambda x, v: [v[l] for l in range(dim)]
        nE = len(E([1.0] * dim, [1.0] * dim))
        P = None
        if kind == "linear" and not nomodel and not const:
            # the kernel lives on the range of the basis: any projection matrix
            P, E0 = h.real("p", (rank or nE, nE)), E
            nE = rank or nE
            E = lambda x, v: [sum(P[r, k] * e for k, e in enumerate(E0(x, v))) for r in range(nE)]
        C, K = h.real("c", (nF, dim)), h.real("k", (T, nE, dim))
        w = h.real("w", (n + 2 * T,)) if noise else np.zeros(n + 2 * T)
        cov = h.real("m", (nE, dim)) if noise else h.cst(np.zeros((nE, dim)))
        if noise:
            # the covariance of the noise is a correlation function: dominated by its value at zero
            for l in range(dim):
                z = lambda i: sum(cov[k, l] * K[i, k, l] for k in range(nE))
                s = 0
                for i in range(1, T):
                    u = h.real("u_%d_%d" % (l, i), lo=0)
                    h.assume(z(i) <= u)
                    h.assume(-u <= z(i))
                    s = s + 2 * u
                h.assume(s <= z(0))
        kw = dict(verbose=False, rng=fixed(w), coeffs_noise_kernel=cov)
        cls = h.vb.Integrator_gle_const_kernel if const else h.vb.Integrator_gle
        if nomodel:
            b = b.fit(h.basis.describe_from_dim(dim))
            if not const:
                b.const_removed = False
            intg = cls(None, basis=b, force_coeff=C, kernel=K, dt=dt, **kw)
        else:
            mcls = h.vb.Pos_gle_const_kernel if const else h.vb.Pos_gle
            m = mcls(b, dt, dim_x=dim, dim_obs=dim, trunc_ind=T)
            m.force_coeff = xr.DataArray(C, dims=("dim_basis", "dim_x"))
            m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(T, dt)})
            if P is not None:
                m.P_range = xr.DataArray(P, dims=("dim_basis", "dim_basis_old"))
            if trunc is not None:
                kw["trunc_kernel"] = trunc
            intg = cls(m, **kw)
        xs, vs = (h.real("x", (n0, dim)), h.real("v", (n0, dim))) if n0 else (h.cst(np.zeros((1, dim))), h.cst(np.zeros((1, dim))))
        x0 = None
        if n0:
            x0 = xr.Dataset({"x": (["time", "dim_x"], xs), "v": (["time", "dim_x"], vs)}, coords={"time": h.time(n0, dt)}, attrs={"dt": dt})
        xi = intg.noise_generator.generate(n) if noise else h.cst(np.zeros((n, dim)))
        trj = intg.run(n, x0, set_noise_to_zero=True) if zero or not noise else intg.run(n, x0)
        if zero:
            xi = h.cst(np.zeros((n, dim)))
        Kt = K if trunc is None else K[:trunc]
        X, V = reference(F, E, C, Kt, dt, xi, xs, vs, n)
        h.shape("length of the trajectory", trj["x"], (n, dim))
        for i in range(n):
            h.eq("position at step %d" % i, trj["x"].data[i], np.array(X[i] + [None], dtype=object)[:-1])
            h.eq("velocity at step %d" % i, trj["v"].data[i], np.array(V[i] + [None], dtype=object)[:-1])
        k = max(n0, 1) - 1
        h.eq("times", trj["time"].data, np.array([(k + i) * dt for i in range(n)] + [None], dtype=object)[:-1])
        h.eq("time step", trj.attrs["dt"], dt)
        h.eq("kernel untouched", K, h.real("k", (T, nE, dim)))
        if n0:
            h.eq("initial conditions untouched", x0["x"].data, h.real("x", (n0, dim)))
    return f


def _bounds(T, n, n0, **k):
    return "%d kernel values, %d steps, %s initial points" % (T, n, n0)


for kind in ("linear", "poly1", "poly2"):
    for T, n, n0 in ((2, 2, 1), (3, 3, 1)) if kind != "poly2" else ((2, 2, 1),):
        case("C19", "%s kernel=%d steps=%d" % (kind, T, n), bounds=_bounds(T, n, n0))(_run(kind, T, n, n0))
case("C19", "long run", bounds=_bounds(2, 5, 1))(_run("linear", 2, 5, 1))
case("C19", "kernel longer than the run", bounds=_bounds(5, 3, 1))(_run("linear", 5, 3, 1))
case("C19", "starting from rest", bounds=_bounds(3, 3, "no"))(_run("poly1", 3, 3, 0))
for n0 in (2, 3, 4):
    case("C19", "history of %d points" % n0, bounds=_bounds(3, n0 + 1, n0))(_run("poly1", 3, n0 + 1, n0))
case("C19", "quadratic basis with history", bounds=_bounds(3, 4, 3))(_run("poly2", 3, 4, 3))
case("C19", "truncated kernel", bounds="4 kernel values of which 2 are used, 4 steps")(_run("linear", 4, 4, 1, trunc=2))
case("C19", "two coordinates", bounds=_bounds(2, 3, 1) + ", 2 coordinates")(_run("linear", 2, 3, 1, dim=2))
case("C19", "deficient basis", bounds=_bounds(2, 3, 2) + ", 2 coordinates, kernel of rank 1")(_run("linear", 2, 3, 2, dim=2, rank=1))
case("C19", "two coordinates with history", bounds=_bounds(3, 4, 2) + ", 2 coordinates")(_run("poly1", 3, 4, 2, dim=2))
case("C19", "constant kernel", bounds=_bounds(3, 3, 1))(_run("poly2", 3, 3, 1, const=True))
case("C19", "constant kernel two coordinates", bounds=_bounds(2, 3, 2) + ", 2 coordinates")(_run("poly1", 2, 3, 2, const=True, dim=2))
case("C19", "without a model", bounds=_bounds(2, 3, 1))(_run("linear", 2, 3, 1, nomodel=True))
case("C19", "without a model two coordinates", bounds=_bounds(3, 3, 2) + ", 2 coordinates")(_run("linear", 3, 3, 2, nomodel=True, dim=2))
case("C19", "with noise", bounds=_bounds(2, 3, 1))(_run("linear", 2, 3, 1, noise=True))
case("C19", "with noise and history", bounds=_bounds(2, 4, 2))(_run("linear", 2, 4, 2, noise=True))
case("C19", "constant kernel with noise", bounds=_bounds(2, 3, 1))(_run("poly1", 2, 3, 1, const=True, noise=True))
case("C19", "noise set to zero", bounds=_bounds(2, 3, 1))(_run("linear", 2, 3, 1, noise=True, zero=True))
case("C19", "linear kernel=4 steps=6", tier="thorough", bounds=_bounds(4, 6, 1), limit=800)(_run("linear", 4, 6, 1))
case("C19", "poly1 history 5 steps 8", tier="thorough", bounds=_bounds(3, 8, 5), limit=800)(_run("poly1", 3, 8, 5))


def _init(lens, k, point, n_mem, dim=1, single=False):
    """initial conditions are a window of the data, whatever is drawn"""
    def f(h):
        dt = h.real("dt", pos=True)
        xs = [h.real("x%d" % i, (n, dim)) for i, n in enumerate(lens)]
        vs = [h.real("v%d" % i, (n, dim)) for i, n in enumerate(lens)]
        trs = [xr.Dataset({"x": (["time", "dim_x"], x.copy()), "v": (["time", "dim_x"], v.copy())}, coords={"time": h.time(len(x), dt, h.real("t0_%d" % i))}, attrs={"dt": dt}) for i, (x, v) in enumerate(zip(xs, vs))]
        b = h.basis.LinearFeatures().fit(h.basis.describe_from_dim(dim))
        cov = h.cst(np.zeros((dim, dim)))
        intg = h.vb.Integrator_gle(None, basis=b, force_coeff=h.real("c", (dim, dim)), kernel=h.real("k", (2, dim, dim)), dt=dt, verbose=False, coeffs_noise_kernel=cov)
        old, draws = np.random.randint, []

        def randint(lo, hi=None, *a, **kw):
            lo, hi = (0, lo) if hi is None else (lo, hi)
            draws.append((int(lo), int(hi)))
            return point if (lo, hi) == (n_mem, lens[k]) and (single or len(draws) > 1) else k

        np.random.randint = randint
        try:
            st = intg.initial_conditions(trs[0] if single else trs, n_mem)
        finally:
            np.random.randint = old
        h.same("ranges of the draws", draws, ([] if single else [(0, len(lens))]) + [(n_mem, lens[k])])
        h.eq("positions are those of the drawn window", st["x"].data, xs[k][point - n_mem : point + 1])
        h.eq("velocities are those of the drawn window", st["v"].data, vs[k][point - n_mem : point + 1])
        h.eq("times start at zero", st["time"].data, h.time(n_mem + 1, dt))
        for i, t in enumerate(trs):
            h.eq("data untouched", t["x"].data, xs[i])
            h.eq("times of the data untouched", t["time"].data, h.time(lens[i], dt, h.real("t0_%d" % i)))
    return f


for lens, k, point, n_mem, dim in (((4,), 0, 3, 0, 1), ((4,), 0, 2, 2, 1), ((3, 5), 1, 4, 1, 2), ((3, 5), 0, 1, 1, 1), ((3, 5), 1, 3, 3, 1)):
    case("C19", "initial conditions trajectory %d of %d point %d history %d" % (k, len(lens), point, n_mem), bounds="every data, this draw")(_init(lens, k, point, n_mem, dim, len(lens) == 1))


# --------------------------------------------------------------- C20
def _spectrum_ok(h, z, name):
    """the kernel is a correlation function: its spectrum is not negative (dominated by the value at zero)"""
    s = 0
    for i in range(1, len(z)):
        u = h.real("%s_%d" % (name, i), lo=0)
        h.assume(z[i] <= u)
        h.assume(-u <= z[i])
        s = s + 2 * u
    h.assume(s <= z[0])


def _filter(T, dim, extra):
    """the noise is white noise filtered so that its (circular) correlation is the kernel"""
    def f(h):
        dt = h.real("dt", pos=True)
        K = h.real("k", (T, dim, dim), box=(-0.3, 0.3))
        for d in range(dim):
            K[0, d, d] = h.real("kz%d" % d, box=(2.0, 4.0))
            _spectrum_ok(h, K[:, d, d], "u%d" % d)
        K0 = K.copy()
        t = h.time(T, dt)
        n = 2 * T - 1
        N = n + extra
        Gen = h.mod("gle_integrate").ColoredNoiseGenerator
        W = h.real("w", (dim, N))
        one = []
        for i in range(N):
            e = np.zeros(N)
            e[i] = 1
            g = Gen(K, t, rng=lambda size=None, e=e: h.cst(e[:size]))
            one.append(g.generate(N))
            h.shape("one value per step and coordinate", one[-1], (N, dim))
        calls = []

        def rng(size=None):
            calls.append(size)
            return W[len(calls) - 1, :size].copy()

        g = Gen(K, t, rng=rng)
        out = g.generate(N)
        for d in range(dim):
            h.eq("noise is linear in the white noise, one independent source per coordinate", out[:, d], [sum(W[d, i] * one[i][m, d] for i in range(N)) for m in range(N)])
            mid = N // 2
            resp = [one[mid][(mid - T + 1 + j), d] for j in range(n)] if mid - T + 1 >= 0 and mid + T <= N else None
            for l in range(T):
                h.eq("circular correlation of the filter is the kernel, lag %d" % l, sum(resp[j] * resp[(j + l) % n] for j in range(n)), K[l, d, d])
            for i in range(N):
                for m in range(N):
                    o = m - i
                    h.eq("filter is the same at all times", one[i][m, d], resp[T - 1 + o] if abs(o) < T else 0)
            h.eq("filter is symmetric", resp, resp[::-1])
        calls.clear()
        h.eq("shorter noise is a part of it", g.generate(n)[: n - T + 1], np.stack([[sum(W[d, i] * one[i][m, d] for i in range(n)) for m in range(n - T + 1)] for d in range(dim)], axis=1))
        for s in range(1, T + 1):  # shorter than the filter: the beginning of a longer noise
            calls.clear()
            sh = g.generate(s)
            h.shape("one value per step of a short noise", sh, (s, dim))
            h.eq("noise of %d steps starts like a longer one" % s, sh, np.stack([[sum(W[d, i] * one[i][m, d] for i in range(n)) for m in range(s)] for d in range(dim)], axis=1))
        h.eq("kernel untouched", K, K0)
    return f


for T, dim, extra in ((2, 1, 0), (2, 1, 2), (3, 1, 1), (2, 2, 0)):
    case("C20", "stationary noise T=%d dim=%d n=%d" % (T, dim, 2 * T - 1 + extra), bounds="%d kernel values, %d coordinates, %d times" % (T, dim, 2 * T - 1 + extra), limit=300)(_filter(T, dim, extra))


def _toeplitz(T, back):
    """covariance matrix of a stationary noise: entry i, j is the kernel at i - j"""
    def f(h):
        K = h.real("k", (T,))
        B = h.real("b", (T - 1,)) if back else None
        G = h.vb.KarhunenLoeveNoiseGenerator
        M = G.generate_stationary_covariancematrix(K, backward_kernel=B) if back else G.generate_stationary_covariancematrix(K)
        h.shape("size", M, (T, T))
        for i in range(T):
            for j in range(T):
                # backward kernel: values at lags -(T-1) ... -1
                h.eq("covariance of two times", M[i, j], K[i - j] if i >= j else (B[T - 1 - (j - i)] if back else K[j - i]))
        h.eq("kernel untouched", K, h.real("k", (T,)))
    return f


for T in (2, 3, 4, 7):
    for back in (False, True):
        case("C20", "covariance matrix T=%d %s" % (T, "given backward part" if back else "symmetric"), bounds="%d kernel values" % T)(_toeplitz(T, back))


def _kl(T, stationary=False):
    def f(h):
        dt = h.real("dt", pos=True)
        G = h.vb.KarhunenLoeveNoiseGenerator
        if stationary:
            k = h.real("k", (T,), box=(-0.3, 0.3))
            k[0] = h.real("kz", box=(2.0, 4.0))
            M = G.generate_stationary_covariancematrix(k)
        else:
            M = np.empty((T, T), dtype=object if h.sym else float)
            for i in range(T):
                M[i, i] = h.real("d%d" % i, box=(1.5, 3.0))
                for j in range(i):
                    M[i, j] = M[j, i] = h.real("b%d%d" % (i, j), box=(-0.6, 0.6))
            h.assume(0 < M[0, 0])
            h.assume(0 < M[0, 0] * M[1, 1] - M[0, 1] ** 2)
            if T > 2:
                h.assume(0 < M[0, 0] * (M[1, 1] * M[2, 2] - M[1, 2] ** 2) - M[0, 1] * (M[0, 1] * M[2, 2] - M[1, 2] * M[0, 2]) + M[0, 2] * (M[0, 1] * M[1, 2] - M[1, 1] * M[0, 2]))
        resp = np.empty((T, T), dtype=object if h.sym else float)
        for i in range(T):
            e = np.zeros(T)
            e[i] = 1
            g = G(M, dt, rng=lambda size=None, e=e: h.cst(e))
            o = g.generate()
            h.shape("one value per time", o, (T,))
            resp[:, i] = o
        W = h.real("w", (T,))
        g = G(M, dt, rng=fixed(W))
        h.eq("noise is linear in the white noise", g.generate(), resp.dot(W))
        h.eq("shorter noise", g.generate(T - 1), resp.dot(W)[: T - 1])
        h.raises("longer than the kernel", g.generate, T + 1)
        h.eq("covariance of the noise is the kernel", resp.dot(resp.T), M * dt)
    return f


case("C20", "Karhunen-Loeve T=2", bounds="every positive covariance matrix of 2 times")(_kl(2))
case("C20", "Karhunen-Loeve T=3", bounds="every positive covariance matrix of 3 times")(_kl(3))
case("C20", "Karhunen-Loeve stationary T=2", bounds="stationary kernel of 2 times")(_kl(2, True))


def _source(T, dim, given=True, trunc=None, nomodel=False, const=False):
    """the noise of an integrator is coloured noise whose correlation is the kernel times the given (or fluctuation-dissipation) coefficients"""
    def f(h):
        dt = h.real("dt", pos=True)
        b = h.basis.LinearFeatures()
        nE = dim
        K = h.real("k", (T, nE, dim), box=(-0.2, 0.2))
        M = h.real("m", (nE, dim), box=(-0.2, 0.2))
        for d in range(dim):
            K[0, d, d], M[d, d] = h.real("kz%d" % d, box=(3.0, 5.0)), h.real("mz%d" % d, box=(1.0, 2.0))
        K0, M0 = K.copy(), M.copy()
        L = T if trunc is None else trunc
        Kn = np.empty((L, dim, dim), dtype=object if h.sym else float)
        none = nomodel and not given
        for i in range(L):
            for l in range(dim):
                for d in range(dim):
                    Kn[i, l, d] = K[i, l, d] if none else sum(M[k, l] * K[i, k, d] for k in range(nE))
        for d in range(dim):
            h.assume(Kn[0, d, d] > 0)
            _spectrum_ok(h, Kn[:, d, d], "u%d" % d)
        n = 2 * T
        w = h.real("w", (n + 2 * T,))
        cls = h.vb.Integrator_gle_const_kernel if const else h.vb.Integrator_gle
        kw = dict(verbose=False, rng=fixed(w))
        C = h.real("c", (dim, dim))
        if nomodel:
            kw.update(basis=b.fit(h.basis.describe_from_dim(dim)), force_coeff=C, kernel=K, dt=dt)
            m = None
        else:
            m = (h.vb.Pos_gle_const_kernel if const else h.vb.Pos_gle)(b, dt, dim_x=dim, dim_obs=dim, trunc_ind=T)
            m.force_coeff = xr.DataArray(C, dims=("dim_basis", "dim_x"))
            m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(T, dt)})
            m.inv_mass_coeff = xr.DataArray(2 * M if given else M, dims=("dim_basis", "dim_x'"))
        if trunc is not None:
            kw["trunc_kernel"] = trunc
        intg = cls(m, coeffs_noise_kernel=M, **kw) if given else cls(m, **kw)
        ref = h.mod("gle_integrate").ColoredNoiseGenerator(Kn, h.time(L, dt), rng=fixed(w))
        h.eq("noise of the integrator", intg.noise_generator.generate(n), ref.generate(n))
        h.eq("kernel untouched", K, K0)
        h.eq("coefficients untouched", M, M0)
    return f


for T, dim, given, trunc, nomodel, const in ((2, 1, True, None, False, False), (2, 2, True, None, False, False), (2, 1, False, None, False, False), (2, 2, False, None, False, False), (3, 1, True, 2, False, False), (3, 2, False, 2, False, False),
                                             (2, 1, True, None, True, False), (2, 2, True, None, True, False), (2, 2, False, None, True, False), (2, 1, True, None, False, True), (2, 2, False, None, False, True)):
    case("C20", "noise of %s dim=%d kernel=%d %s coefficients%s" % (("the integrator without a model" if nomodel else "the constant kernel integrator" if const else "the integrator"), dim, T, "given" if given else "default", "" if trunc is None else " truncated"),
         bounds="%d kernel values, %d coordinates, every white noise" % (T, dim), limit=200)(_source(T, dim, given, trunc, nomodel, const))
