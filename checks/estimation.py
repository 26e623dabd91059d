"""C08 pooling of trajectories, C09 projections (mean force, masses, gram)"""
import numpy as np
from vsym.runner import case
from checks._common import frames, tr, estimator


def poly(h, deg=1, rc=True):
    return h.basis.PolynomialFeatures(deg=deg, remove_const=rc)


def powers(x, deg):
    """1, x, x^2 ... in the layout of the package (degree major)"""
    return np.concatenate([x**0 * 1 if n == 0 else x**n for n in range(deg + 1)], axis=1)


# --------------------------------------------------------------- C08
def _describe(lens, dim):
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, lens, dim, dt)
        est = estimator(h, data if len(lens) > 1 else data[0], "Pos_gle", poly(h), (min(lens) - 0.5) * dt)
        ds = est.describe_data()
        X = np.concatenate([r["x"] for r in raw])
        h.same("number of observations", int(ds.nobs), sum(lens))
        mu = X.sum(axis=0) / sum(lens)
        h.eq("pooled mean", ds.mean, mu)
        h.eq("pooled variance", ds.variance, ((X - mu) ** 2).sum(axis=0) / (sum(lens) - 1))
        m2, m3, m4 = [((X - mu) ** k).sum(axis=0) / sum(lens) for k in (2, 3, 4)]
        h.eq("pooled skewness", ds.skewness, m3 / (m2 * np.sqrt(m2)), tol=1e-6)
        h.eq("pooled kurtosis", ds.kurtosis, m4 / (m2 * m2) - 3, tol=1e-6)
        for d in range(dim):
            for z in X[:, d]:
                h.le("minimum is a lower bound", ds.minmax[0][d], z)
                h.le("maximum is an upper bound", z, ds.minmax[1][d])
            h.eq("minimum is the minimum", ds.minmax[0][d], h.np.min(X[:, d]))
            h.eq("maximum is the maximum", ds.minmax[1][d], h.np.max(X[:, d]))
        h.eq("second call gives the same description", est.describe_data().mean, ds.mean)
        h.eq("model time step", est.model.dt, dt)
        h.same("dimension", int(est.model.dim_x), dim)
    return f


for lens, dim in (((3,), 1), ((2, 3), 1), ((3, 2, 4), 1), ((2, 3), 2)):
    case("C08", "description lens=%s dim=%d" % (lens, dim), bounds="trajectories of %s points, %d dimensions" % (lens, dim))(_describe(lens, dim))


def _pool_static(lens, model, obs=("x", "v", "a"), dim=1, deg=1):
    """static averages over several trajectories are the averages over all their points"""
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, lens, dim, dt, obs)
        est = estimator(h, data, model, poly(h, deg), 0.5 * dt)
        X = np.concatenate([r["x"] for r in raw])
        N = sum(lens)
        est.compute_gram_force()
        F = powers(X, deg)
        V = np.concatenate([r["v"] for r in raw])
        if model == "Pos_gle_with_friction":
            G = np.concatenate([n * X ** (n - 1) * V for n in range(1, deg + 1)], axis=1)
            F = np.concatenate([F, G], axis=1)
        h.eq("pooled gram matrix", tr(est.model.gram_force, "dim_basis", "dim_basis'"), F.T.dot(F) / N)
        h.eq("pooled mean of the basis", tr(est.compute_basis_mean(), "dim_basis"), F.sum(axis=0) / N)
        h.eq("data untouched", np.concatenate([d["x"].data for d in data]), X)
        h.same("trajectories untouched", [sorted(d.data_vars) for d in data], [sorted(obs)] * len(lens))
        rev = estimator(h, data[::-1], model, poly(h, deg), 0.5 * dt)
        rev.compute_gram_force()
        h.eq("order of trajectories is irrelevant", tr(rev.model.gram_force, "dim_basis", "dim_basis'"), tr(est.model.gram_force, "dim_basis", "dim_basis'"))
    return f


for model, obs in (("Pos_gle", ("x", "v", "a")), ("Pos_gle_with_friction", ("x", "v", "a")), ("Pos_gle_overdamped", ("x", "v"))):
    case("C08", "static averages %s" % model, bounds="trajectories of (2, 3) points, 2 basis functions")(_pool_static((2, 3), model, obs))
case("C08", "static averages three trajectories", bounds="trajectories of (1+1, 4, 3) points, 3 basis functions")(_pool_static((2, 4, 3), "Pos_gle", deg=2))
case("C08", "static averages dim=2", bounds="trajectories of (2, 3) points, 2 dimensions")(_pool_static((2, 3), "Pos_gle", dim=2))


def _pool_corrs(lens, model, obs, method, vectorize, jobs):
    """time correlations: length weighted average of the ones of each trajectory; serial = parallel = any order"""
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, lens, 1, dt, obs)
        nt = min(lens) - 1
        L = obs[-1]
        c = h.real("c", (2, 1))

        def run(dat, **kw):
            e = estimator(h, dat, model, poly(h, 1), (nt - 0.5) * dt, **kw)
            e.set_zero_force()
            e.model.force_coeff = e.model.force_coeff + c
            e.compute_corrs(method=method, vectorize=vectorize)
            return [tr(e.bkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), tr(e.bkdxcorrw, "dim_basis", "dim_x", "time_trunc"), tr(e.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc"), tr(e.dotbkdxcorrw, "dim_basis", "dim_x", "time_trunc")]

        pooled = run(data, n_jobs=jobs)
        single = [run([d]) for d in data]
        names = ("kernel basis", "kernel basis and observable", "derivative and basis", "derivative and observable")
        for k, nm in enumerate(names):
            h.eq("pooled correlation of " + nm, pooled[k], sum(s[k] * n for s, n in zip(single, lens)) / sum(lens))
        other = run(data[::-1], n_jobs=1)
        for k, nm in enumerate(names):
            h.eq("order and parallelism are irrelevant for " + nm, other[k], pooled[k])
    return f


for model, obs in (("Pos_gle", ("x", "v", "a")), ("Pos_gle_overdamped", ("x", "v"))):
    for method, vec, jobs in (("fft", False, 1), ("direct", False, 2)):
        case("C08", "correlations %s %s n_jobs=%d" % (model, method, jobs), bounds="trajectories of (3, 4) points, 2 lags", limit=200)(_pool_corrs((3, 4), model, obs, method, vec, jobs))
case("C08", "correlations Pos_gle_overdamped direct n_jobs=2, longest first", bounds="trajectories of (4, 3) points, 2 lags", limit=200)(_pool_corrs((4, 3), "Pos_gle_overdamped", ("x", "v"), "direct", False, 2))


def _jobs(lens, jobs, model="Pos_gle", obs=("x", "v", "a")):
    """every static average is the same whatever the number of jobs"""
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, lens, 1, dt, obs)
        res = []
        for n in (1, jobs):
            e = estimator(h, data, model, poly(h, 1), 0.5 * dt, n_jobs=n)
            e.compute_gram_force(), e.compute_gram_kernel(), e.compute_effective_mass()
            w = [tr(e.model.gram_force, "dim_basis", "dim_basis'"), tr(e.model.gram_kernel, "dim_basis", "dim_basis'") if "a" not in obs else e.model.gram_kernel.values, e.model.eff_mass.values, tr(e.compute_basis_mean(), "dim_basis"), tr(e.compute_basis_mean("force"), "dim_basis")]
            e.compute_mean_force()
            res.append(w + [tr(e.model.force_coeff, "dim_basis", "dim_x")])
        for a, b, nm in zip(res[0], res[1], ("gram matrix", "gram matrix of the kernel", "mass", "mean of the basis", "mean of the force basis", "mean force")):
            h.eq("%s with %d jobs" % (nm, jobs), b, a)
        X, V = np.concatenate([r["x"] for r in raw]), np.concatenate([r["v"] for r in raw])
        F = powers(X, 1)
        h.eq("gram matrix of all the points", res[1][0], F.T.dot(F) / sum(lens))
        h.eq("mass of all the points", res[1][2] * (V * V).sum() / sum(lens), np.ones((1, 1)))
    return f


for lens, jobs in (((3, 2), 2), ((4, 2, 3), 2), ((2, 4, 3), 3)):
    case("C08", "static averages of %s points with %d jobs" % (lens, jobs), bounds="trajectories of %s points" % (lens,))(_jobs(lens, jobs))


def _trunc(h):
    """truncation time: number of lags kept, and the override when a trajectory is shorter"""
    dt = h.real("dt", pos=True)
    data, raw = frames(h, (5, 3), 1, dt, shifted=False)
    for k, want in ((0.5, 1), (1.5, 2), (2.5, 3), (7.5, 3), (1, 2), (2, 3)):
        est = estimator(h, data, "Pos_gle", poly(h), k * dt)
        h.same("lags kept for truncation %s" % k, int(est.model.trunc_ind), want)
    est = estimator(h, data[0], "Pos_gle", poly(h), 3.25 * dt)
    h.same("lags kept for one trajectory", int(est.model.trunc_ind), 4)


def _trunc_any(lens):
    """symbolic truncation time: the lags kept are the times up to it, within the shortest trajectory"""
    def f(h):
        dt = h.real("dt", pos=True)
        tau = h.real("tau", pos=True)
        data, raw = frames(h, lens, 1, dt)
        est = estimator(h, data, "Pos_gle", poly(h), tau)
        k = int(est.model.trunc_ind)
        n = min(lens)
        h.true("at least the zero lag and at most the shortest trajectory", 1 <= k <= n)
        if 1 <= k <= n:
            h.le("the last lag kept is within the truncation time", (k - 1) * dt, tau)
            if k < n:
                h.le("the first lag dropped is beyond the truncation time", tau, k * dt)
    return f


for lens in ((4,), (3, 2), (2, 3), (4, 2, 3), (3, 4, 2), (2, 4, 3)):
    case("C08", "any truncation time lens=%s" % (lens,), bounds="trajectories of %s points, symbolic truncation time and step" % (lens,))(_trunc_any(lens))


def _trunc_steps(lens, ratios):
    """trajectories of different time steps: every lag kept is within the truncation time in each of them"""
    def f(h):
        dt = h.real("dt", pos=True)
        tau = h.real("tau", pos=True)
        data = []
        for i, (n, r) in enumerate(zip(lens, ratios)):
            q = {o: h.real("%s%d" % (o, i), (n, 1)) for o in ("x", "v", "a")}
            data.append(h.vb.xframe(q["x"], h.time(n, r * dt), v=q["v"], a=q["a"]))
        k = int(estimator(h, data, "Pos_gle", poly(h), tau).model.trunc_ind)
        h.true("at least the zero lag and at most the shortest trajectory", 1 <= k <= min(lens))
        for n, r in zip(lens, ratios):
            h.le("the last lag kept is within the truncation time", (k - 1) * r * dt, tau)
        if k < min(lens):
            h.le("the first lag dropped is beyond the truncation time", tau, k * max(ratios) * dt)
    return f


for lens, ratios in (((4, 4), (1, 2)), ((5, 3), (1, 3)), ((3, 5), (5, 1)), ((5, 3), (2, 1)), ((3, 5, 4), (1, 2, 3))):
    case("C08", "any truncation time lens=%s steps=%s" % (lens, ratios), bounds="trajectories of %s points and %s times the time step, symbolic truncation time and step" % (lens, ratios), max_paths=80)(_trunc_steps(lens, ratios))


case("C08", "truncation", bounds="trajectories of (5, 3) points")(_trunc)


# --------------------------------------------------------------- C09
def _force(lens, dim, deg, model, obs, L=None):
    """the residual of the mean force is orthogonal to every force basis function"""
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, lens, dim, dt, obs)
        est = estimator(h, data, model, poly(h, deg), 0.5 * dt, **({"L_obs": L} if L else {}))
        m = est.compute_mean_force()
        X = np.concatenate([r["x"] for r in raw])
        V = np.concatenate([r["v"] for r in raw])
        O = np.concatenate([r[L or obs[-1]] for r in raw])
        F = powers(X, deg)
        if model == "Pos_gle_with_friction":
            F = np.concatenate([F] + [n * X ** (n - 1) * V for n in range(1, deg + 1)], axis=1)
        C = tr(m.force_coeff, "dim_basis", "dim_x")
        h.shape("coefficients", C, (F.shape[1], dim))
        R = O - F.dot(C)
        h.eq("residual is orthogonal to the basis", F.T.dot(R), np.zeros((F.shape[1], dim)))
        h.eq("gram matrix is stored", tr(m.gram_force, "dim_basis", "dim_basis'"), F.T.dot(F) / sum(lens))
        h.true("model is returned", m is est.model)
        # evaluation of the force at the data points
        h.eq("force at the data", m.force_eval(X) if model != "Pos_gle_with_friction" else m.force_eval(X), powers(X, deg).dot(C[: (deg + 1) * dim]))
    return f


FM = (("Pos_gle", ("x", "v", "a")), ("Pos_gle_no_vel_basis", ("x", "v")), ("Pos_gle_const_kernel", ("x", "v", "a")), ("Pos_gle_hybrid", ("x", "v", "a")), ("Pos_gle_overdamped", ("x", "v")))
for model, obs in FM:
    case("C09", "mean force %s" % model, bounds="trajectories of (2, 2) points, basis 1, x")(_force((2, 2), 1, 1, model, obs))
case("C09", "mean force Pos_gle quadratic", bounds="one trajectory of 4 points, basis 1, x, x^2")(_force((4,), 1, 2, "Pos_gle", ("x", "v", "a")))
case("C09", "mean force three trajectories", bounds="trajectories of (2, 3, 2) points")(_force((2, 3, 2), 1, 1, "Pos_gle", ("x", "v", "a")))
case("C09", "mean force other observable", bounds="acceleration projected with the overdamped model")(_force((2, 2), 1, 1, "Pos_gle_overdamped", ("x", "v", "a"), "a"))
case("C09", "mean force with friction", bounds="one trajectory of 4 points, basis 1, x, v")(_force((4,), 1, 1, "Pos_gle_with_friction", ("x", "v", "a")))
case("C09", "mean force constant basis dim=2", bounds="3 points, 2 dimensions, one constant per coordinate is degenerate: linear basis only", tier="thorough")(lambda h: _force_lin(h, 3, 2))


def _force_lin(h, n, dim, model="Pos_gle_overdamped", obs=("x", "v")):
    dt = h.real("dt", pos=True)
    data, raw = frames(h, (n,), dim, dt, obs)
    est = estimator(h, data, model, h.basis.LinearFeatures(), 0.5 * dt)
    m = est.compute_mean_force()
    X, O = raw[0]["x"], raw[0][obs[-1]]
    C = tr(m.force_coeff, "dim_basis", "dim_x")
    h.eq("residual is orthogonal to the basis", X.T.dot(O - X.dot(C)), np.zeros((dim, dim)))
    h.eq("force at the data", m.force_eval(X), X.dot(C))


for n, dim in ((3, 1), (3, 2), (4, 2)):
    case("C09", "mean force linear basis n=%d dim=%d" % (n, dim), bounds="%d points, %d dimensions" % (n, dim))(lambda h, n=n, dim=dim: _force_lin(h, n, dim))
    case("C09", "mean force linear basis n=%d dim=%d no_vel" % (n, dim), bounds="%d points, %d dimensions" % (n, dim))(lambda h, n=n, dim=dim: _force_lin(h, n, dim, "Pos_gle_no_vel_basis", ("x", "v")))


def _recover(model, obs, deg):
    """data that follow a force of the basis exactly give back its coefficients"""
    def f(h):
        dt = h.real("dt", pos=True)
        n = deg + 2
        x = h.real("x", (n, 1))
        v = h.real("v", (n, 1))
        c = h.real("c", (deg + 1, 1))
        o = powers(x, deg).dot(c)
        kw = {"v": v, "a": o} if obs[-1] == "a" else {"v": o}
        est = estimator(h, h.vb.xframe(x, h.time(n, dt, h.real("t0")), **kw), model, poly(h, deg), 0.5 * dt)
        m = est.compute_mean_force()
        h.eq("coefficients are recovered", tr(m.force_coeff, "dim_basis", "dim_x"), c)
        y = h.real("y", (2, 1))
        h.eq("force is recovered everywhere", m.force_eval(y), powers(y, deg).dot(c))
    return f


def _zero(model, dim, deg):
    """a force set to zero: one zero per force basis function and coordinate"""
    def f(h):
        dt = h.real("dt", pos=True)
        obs = ("x", "v") if model in ("Pos_gle_overdamped", "Pos_gle_no_vel_basis") else ("x", "v", "a")
        data, raw = frames(h, (3,), dim, dt, obs)
        est = estimator(h, data, model, poly(h, deg), 0.5 * dt)
        est.set_zero_force()
        m = est.model
        n = {"Pos_gle_with_friction": 2 * deg + 1}.get(model, deg + 1) if dim == 1 else int(m.N_basis_elt_force)
        C = tr(m.force_coeff, "dim_basis", "dim_x")
        h.shape("coefficients", C, (n, dim))
        h.eq("coefficients", C, np.zeros((n, dim)))
        if model != "Pos_gle_with_friction":
            h.eq("force", m.force_eval(raw[0]["x"]), np.zeros((3, dim)))
    return f


for model, dim, deg in (("Pos_gle", 1, 2), ("Pos_gle_with_friction", 1, 2), ("Pos_gle_no_vel_basis", 1, 2), ("Pos_gle_const_kernel", 1, 2), ("Pos_gle_hybrid", 1, 1), ("Pos_gle_overdamped", 1, 2), ("Pos_gle", 2, 1), ("Pos_gle_const_kernel", 2, 1)):
    case("C09", "force set to zero %s dim=%d" % (model, dim), bounds="one trajectory of 3 points")(_zero(model, dim, deg))


case("C09", "recovery of an affine force", bounds="3 points")(_recover("Pos_gle", ("x", "v", "a"), 1))
case("C09", "recovery of an affine drift", bounds="3 points")(_recover("Pos_gle_overdamped", ("x", "v"), 1))


def _mass(lens, dim):
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, lens, dim, dt)
        est = estimator(h, data, "Pos_gle", poly(h), 0.5 * dt)
        m = est.compute_effective_mass()
        V = np.concatenate([r["v"] for r in raw])
        M = np.asarray(m.eff_mass)
        h.shape("effective mass", M, (dim, dim))
        h.eq("mass times mean square velocity is one", M.dot(V.T.dot(V) / sum(lens)), np.eye(dim))
    return f


for lens, dim in (((3,), 1), ((2, 3), 1), ((2, 2), 2), ((3,), 2), ((130,), 1), ((60, 70), 1), ((2, 2), 3)):
    case("C09", "effective mass lens=%s dim=%d" % (lens, dim), bounds="trajectories of %s points, %d dimensions" % (lens, dim))(_mass(lens, dim))


def _posmass(model, obs):
    """position dependent inverse mass: projection of the squared velocity on the kernel basis"""
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, (2, 2), 1, dt, obs)
        est = estimator(h, data, model, poly(h, 2 if model == "Pos_gle" else 1), 0.5 * dt)
        m = est.compute_pos_effective_mass()
        X = np.concatenate([r["x"] for r in raw])
        V = np.concatenate([r["v"] for r in raw])
        K = np.concatenate([X**0 * 1, 2 * X], axis=1) if model == "Pos_gle" else powers(X, 1)
        C = np.asarray(m.inv_mass_coeff)
        h.eq("residual of the squared velocity is orthogonal to the basis", K.T.dot(V * V - K.dot(C)), np.zeros((2, 1)))
    return f


case("C09", "position dependent mass Pos_gle", bounds="trajectories of (2, 2) points, 2 kernel functions")(_posmass("Pos_gle", ("x", "v", "a")))
case("C09", "position dependent mass overdamped", bounds="trajectories of (2, 2) points, 2 kernel functions")(_posmass("Pos_gle_overdamped", ("x", "v")))


def _gramk(model, obs, dim):
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, (2, 3), dim, dt, obs)
        est = estimator(h, data, model, poly(h, 2), 0.5 * dt)
        m = est.compute_gram_kernel()
        X = np.concatenate([r["x"] for r in raw])
        if model == "Pos_gle":
            b = poly(h, 2).fit(h.basis.describe_from_dim(dim))
            D = b.deriv(X)
            want = sum(D[t].dot(D[t].T) for t in range(len(X))) / 5
        else:
            F = powers(X, 2)
            want = F.T.dot(F) / 5 * dim
        h.eq("gram matrix of the kernel basis", tr(m.gram_kernel, "dim_basis", "dim_basis'"), want)
    return f


case("C09", "kernel gram Pos_gle dim=1", bounds="trajectories of (2, 3) points")(_gramk("Pos_gle", ("x", "v", "a"), 1))
case("C09", "kernel gram Pos_gle dim=2", bounds="trajectories of (2, 3) points, 2 dimensions")(_gramk("Pos_gle", ("x", "v", "a"), 2))
case("C09", "kernel gram overdamped", bounds="trajectories of (2, 3) points")(_gramk("Pos_gle_overdamped", ("x", "v"), 1))
