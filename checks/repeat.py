"""C23 calls leave their inputs alone, and nothing leaks from one call to the next"""
import numpy as np
import xarray as xr
from vsym.runner import case
from checks._common import frames, tr, estimator
from checks.models import ALL, VEL, POS, fitted, frame
from checks.volterra import inject, poly

OBS = {m: (("x", "v") if m in POS else ("x", "v", "a")) for m in ALL}


class Watch:
    """what an object looked like"""

    def __init__(self, *things):
        self.things = [(t, self.take(t)) for t in things]

    @staticmethod
    def take(t):
        if isinstance(t, xr.Dataset):
            return ({k: (t[k].dims, np.array(t[k].data, copy=True)) for k in t.data_vars}, {k: (t.coords[k].dims, np.array(t.coords[k].data, copy=True)) for k in t.coords}, dict(t.attrs))
        if isinstance(t, xr.DataArray):
            return (t.dims, np.array(t.data, copy=True), {k: np.array(t.coords[k].data, copy=True) for k in t.coords})
        return np.array(t, copy=True)

    def check(self, h, label, skip=()):
        for t, s in self.things:
            if isinstance(t, xr.Dataset):
                h.same(label + ": variables", sorted(k for k in t.data_vars if k not in skip), sorted(s[0]))
                h.same(label + ": coordinates", sorted(t.coords), sorted(s[1]))
                h.same(label + ": attributes", sorted(t.attrs), sorted(s[2]))
                for part in (s[0], s[1]):
                    for k, (dims, v) in part.items():
                        h.same(label + ": axes of " + k, tuple(t[k].dims), tuple(dims))
                        h.eq(label + ": values of " + k, t[k].data, v)
                for k, v in s[2].items():
                    (h.same if isinstance(v, str) else h.eq)(label + ": attribute " + str(k), t.attrs[k], v)
            elif isinstance(t, xr.DataArray):
                h.same(label + ": axes", t.dims, s[0])
                h.eq(label + ": values", t.data, s[1])
                h.same(label + ": coordinates", sorted(t.coords), sorted(s[2]))
                for k in t.coords:
                    h.eq(label + ": coordinate " + k, t.coords[k].data, s[2][k])
            else:
                h.eq(label, t, s)


# --------------------------------------------------------------- A: histories of an estimator
STEPS = {
    "gram": lambda e, h: e.compute_gram_force(),
    "gram of the kernel": lambda e, h: e.compute_gram_kernel(),
    "mean of the basis": lambda e, h: (e.compute_basis_mean(), e.compute_basis_mean("kernel")),
    "mass": lambda e, h: e.compute_effective_mass(),
    "position dependent mass": lambda e, h: e.compute_pos_effective_mass(),
    "mean force": lambda e, h: e.compute_mean_force(),
    "description": lambda e, h: e.describe_data(),
    "zero force": lambda e, h: e.set_zero_force(),
}
CORRS = ("bkbkcorrw", "bkdxcorrw", "dotbkbkcorrw", "dotbkdxcorrw")


def _estimator_history(model, steps, lens=(2, 3), method="fft", deg=1):
    """the correlations of an estimator do not depend on what was computed before"""
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, lens, 1, dt, OBS[model])
        w = Watch(*data)
        nt = (min(lens) - 0.5) * dt
        new = estimator(h, data, model, poly(h, deg), nt)
        old = estimator(h, data, model, poly(h, deg), nt)
        for s in steps:
            STEPS[s](old, h)
        w.check(h, "data after " + ", ".join(steps))
        C = xr.DataArray(h.real("c", (int(new.model.N_basis_elt_force), 1)), dims=("dim_basis", "dim_x"))
        for e in (new, old):
            e.model.force_coeff = C
            e.compute_corrs(method=method)
        for k in CORRS:
            h.same("axes of " + k, getattr(old, k).dims, getattr(new, k).dims)
            h.eq("%s after %s" % (k, ", ".join(steps)), getattr(old, k).data, getattr(new, k).data)
        w.check(h, "data after the correlations")
        h.eq("force untouched", C.data, h.real("c", C.shape))
        # computing again, by the other algorithm and without the second order, then as before
        keep = [getattr(old, k).data.copy() for k in CORRS]
        old.compute_corrs(method="direct" if method == "fft" else "fft", second_order_method=False)
        old.compute_corrs(method=method)
        for k, z in zip(CORRS, keep):
            h.eq("%s computed again" % k, getattr(old, k).data, z)
    return f


for model in ALL:
    case("C23", "estimator %s after gram, means and description" % model, bounds="trajectories of (2, 3) points, basis 1, x", limit=200)(_estimator_history(model, ("gram", "gram of the kernel", "mean of the basis", "description", "zero force")))
for model in ("Pos_gle", "Pos_gle_overdamped"):
    case("C23", "estimator %s after mean force and masses" % model, bounds="trajectories of (2, 3) points, basis 1, x", limit=300)(_estimator_history(model, ("mean force", "mass", "position dependent mass"), method="direct"))


def _static_again(model, lens=(2, 2)):
    """static averages asked twice, with other computations in between"""
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, lens, 1, dt, OBS[model])
        w = Watch(*data)
        e = estimator(h, data, model, poly(h, 1), 1.5 * dt)
        g1 = e.compute_gram_force().gram_force.data.copy()
        k1 = e.compute_gram_kernel().gram_kernel.data.copy()
        m1 = e.compute_effective_mass().eff_mass.data.copy()
        b1 = e.compute_basis_mean().data.copy()
        e.set_zero_force()
        e.compute_corrs(method="direct")
        e.model.kernel = xr.DataArray(h.real("k", (2,) + tuple(e.bkdxcorrw.shape[:2])), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(2, dt)})
        e.model.compute_noise(data[0])
        e.model.force_eval(raw[0]["x"])
        e.model.pmf_eval(raw[0]["x"])
        e.model.kernel_eval(raw[0]["x"])
        e.check_volterra_inversion()
        e.compute_projected_corrs()
        h.eq("gram matrix again", e.compute_gram_force().gram_force.data, g1)
        h.eq("gram matrix of the kernel again", e.compute_gram_kernel().gram_kernel.data, k1)
        h.eq("mass again", e.compute_effective_mass().eff_mass.data, m1)
        h.eq("mean of the basis again", e.compute_basis_mean().data, b1)
        w.check(h, "data")
        h.eq("zero force untouched", e.model.force_coeff.data, 0 * e.model.force_coeff.data)
    return f


for model in ALL:
    case("C23", "static averages again %s" % model, bounds="trajectories of (2, 2) points, basis 1, x", limit=200)(_static_again(model))


KM = ("rectangular", "rect", "midpoint", "midpoint_w_richardson", "trapz", "second_kind_rect", "second_kind_trapz")


def _kernel_again(N, b, d):
    """each method gives the same kernel after all the others, and leaves the correlations alone"""
    def f(h):
        est, dt, B, D, Bd, Dd = inject(h, N, b, d)
        w = Watch(est.bkbkcorrw, est.bkdxcorrw, est.dotbkbkcorrw, est.dotbkdxcorrw)
        k0 = h.real("k0", (b, d))
        wk = Watch(k0)
        # any gram matrix whose pivots do not vanish
        h.assume(B[0, 0, 0] >= 0.5)
        first = {}
        ms = [m for m in KM if not (m == "midpoint_w_richardson" and N < 7)]
        for rnd in (0, 1):
            for m in (ms if not rnd else ms[::-1]):
                est.compute_kernel(method=m, k0=k0 if m in ("trapz", "second_kind_rect", "second_kind_trapz") else None)
                K = est.model.kernel
                h.same("method is recorded", est.model.method, m)
                if rnd == 0:
                    first[m] = (K, Watch(K))
                else:
                    h.same("axes of the kernel by %s again" % m, K.dims, first[m][0].dims)
                    h.eq("kernel by %s again" % m, K.data, first[m][1].things[0][1][1])
                    h.eq("times of the kernel by %s again" % m, K.coords["time_kernel"].data, first[m][1].things[0][1][2]["time_kernel"])
            if rnd == 0:
                est.check_volterra_inversion()
                est.check_volterra_inversion(return_diff=True)
        for m in ms:
            first[m][1].check(h, "kernel by %s kept by its user" % m)
        w.check(h, "correlations")
        wk.check(h, "initial value")
    return f


case("C23", "kernel methods again", bounds="4 lags, 1 function, 1 coordinate", limit=300)(_kernel_again(4, 1, 1))
case("C23", "kernel methods again two coordinates", bounds="3 lags, 1 function, 2 coordinates", limit=300)(_kernel_again(3, 1, 2))
case("C23", "kernel methods again 7 lags", bounds="7 lags, 1 function", tier="thorough", limit=600)(_kernel_again(7, 1, 1))


def _corrs_kernels(h):
    """force, correlations and kernel again on one estimator after another force"""
    dt = h.real("dt", pos=True)
    data, raw = frames(h, (4,), 1, dt, ("x", "v"))
    mk = lambda: estimator(h, data, "Pos_gle_overdamped", h.basis.LinearFeatures(), 2.5 * dt)
    c1, c2 = h.real("c1", (1, 1)), h.real("c2", (1, 1))
    one, two = mk(), mk()

    def go(e, c):
        e.model.force_coeff = xr.DataArray(c, dims=("dim_basis", "dim_x"))
        e.compute_corrs(method="direct")
        h.assume(e.bkbkcorrw.data[0, 0, 0] > 0.01)
        return e.compute_kernel().kernel.data

    a = go(one, c1)
    keep = a.copy()
    go(two, c2)
    b = go(two, c1)
    h.eq("kernel after another force", b, keep)
    go(one, c2)
    h.eq("kernel kept by its user", a, keep)


case("C23", "kernel after another force", bounds="4 points, 3 lags, linear basis")(_corrs_kernels)


def _interleaved(m1, m2):
    """two estimators used in turn behave as each one alone"""
    def f(h):
        dt = h.real("dt", pos=True)
        obs = tuple(dict.fromkeys(OBS[m1] + OBS[m2]))
        d1, r1 = frames(h, (3,), 1, dt, obs, pre="p")
        d2, r2 = frames(h, (2, 3), 1, dt, obs, pre="q")
        w = Watch(*(d1 + d2))

        def steps(d, m, c):
            e = estimator(h, d, m, poly(h, 2 if m == m1 else 1), 1.5 * dt)
            yield
            e.compute_gram_force()
            yield
            C = xr.DataArray(h.real(c, (int(e.model.N_basis_elt_force), 1)), dims=("dim_basis", "dim_x"))
            e.model.force_coeff = C
            e.compute_corrs(method="direct")
            yield
            out.append([e.model.gram_force.data, e.bkbkcorrw.data, e.bkdxcorrw.data, e.dotbkbkcorrw.data, e.model.force_eval(r1[0]["x"]), np.array([e.model.dt, e.trunc_ind])])

        def alone(*a):
            for _ in steps(*a):
                pass
            return out.pop()

        out = []
        a, b = alone(d1, m1, "c1"), alone(d2, m2, "c2")
        g, k = steps(d1, m1, "c1"), steps(d2, m2, "c2")
        for _ in range(4):
            next(g, None)
            next(k, None)
        names = ("gram matrix", "basis and basis", "basis and observable", "derivative and basis", "force", "settings")
        for nm, x, y in zip(names, a, out[0]):
            h.eq(nm + " of the first", y, x)
        for nm, x, y in zip(names, b, out[1]):
            h.eq(nm + " of the second", y, x)
        w.check(h, "data")
    return f


for m1, m2 in (("Pos_gle", "Pos_gle"), ("Pos_gle", "Pos_gle_overdamped"), ("Pos_gle_hybrid", "Pos_gle_const_kernel"), ("Pos_gle_with_friction", "Pos_gle_no_vel_basis")):
    case("C23", "two estimators in turn %s %s" % (m1, m2), bounds="trajectories of (3) and (2, 3) points", limit=200)(_interleaved(m1, m2))


def _gfpe(lens, dim):
    """the Fokker-Planck projection adds its variable to the trajectories and changes nothing else"""
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, lens, dim, dt, ("x", "v"))
        w = Watch(*data)
        e = estimator(h, data, "Pos_gle_overdamped", h.basis.LinearFeatures() if dim > 1 else poly(h, 2), 1.5 * dt)
        e.to_gfpe(new_obs_name="new")
        w.check(h, "data", skip=("new",))
        X = [d["new"].data.copy() for d in e.xva_list]
        for d in e.xva_list:
            h.true("the new variable is there", "new" in d.data_vars)
        e.to_gfpe(new_obs_name="new")
        for d, x in zip(e.xva_list, X):
            h.eq("the new variable again", d["new"].data, x)
        w.check(h, "data", skip=("new",))
    return f


for lens, dim in (((3,), 1), ((2, 3), 1), ((2, 2), 2)):
    case("C23", "Fokker-Planck variable lens=%s dim=%d" % (lens, dim), bounds="trajectories of %s points, %d dimensions" % (lens, dim))(_gfpe(lens, dim))


# --------------------------------------------------------------- B: evaluations of a model
def _model(model, deg, dim, method):
    def f(h):
        m = fitted(h, model, deg, dim)
        m.method = method
        n = 3
        x, v, a = h.real("x", (n, dim)), h.real("v", (n, dim)), h.real("a", (n, dim))
        data = frame(h, x, v, a)
        m.inv_mass_coeff = xr.DataArray(h.real("im", (int(m.N_basis_elt_force), dim, dim)), dims=("dim_basis", "dim_x", "dim_x'")) if model not in ("Pos_gle_with_friction", "Pos_gle_const_kernel", "Pos_gle_hybrid") else None
        w = Watch(data, x, m.force_coeff, m.kernel)
        left = xr.DataArray(h.real("l", (n, 1)), dims=("time", "dim_left"))
        wl = Watch(left)
        calls = {
            "force": lambda: [m.force_eval(x)],
            "kernel": lambda: [tr(m.kernel_eval(x), "time_kernel", "time", "dim_x", "dim_x'")],
            "basis": lambda: [z.data for z in m.basis_vector(data)],
            "kernel part of the basis": lambda: [m.basis_vector(data, compute_for="kernel").data],
            "noise": lambda: [np.asarray(z) for z in m.compute_noise(data)],
            "noise with a short kernel": lambda: [np.asarray(z) for z in m.compute_noise(data, trunc_kernel=1)],
            "correlations with the noise": lambda: [np.asarray(z) for z in m.compute_corrs_w_noise(data)],
            "correlations with the noise and another variable": lambda: [np.asarray(z) for z in m.compute_corrs_w_noise(data, left_op=left)],
        }
        if dim == 1:
            calls["free energy"] = lambda: [m.pmf_eval(x)]
        if m.inv_mass_coeff is not None and model in POS:
            calls["inverse mass"] = lambda: [m.inv_mass_eval(x)]
        if model == "Pos_gle_with_friction":
            calls["friction"] = lambda: [m.friction_force_eval(x)]
        first = {k: [np.array(z, copy=True) for z in c()] for k, c in calls.items()}
        w.check(h, "after one call of each")
        names = list(calls)
        for k in names[::-1]:
            again = calls[k]()
            for z, o in zip(again, first[k]):
                h.eq("%s again" % k, z, o)
        w.check(h, "after two calls of each")
        wl.check(h, "other variable")
        h.same("method", m.method, method)
        h.same("projection", bool(m.rank_projection), False)
        # one point at a time is all points at once
        F, K = m.force_eval(x), tr(m.kernel_eval(x), "time_kernel", "time", "dim_x", "dim_x'")
        for t in range(n):
            h.eq("force one point at a time", m.force_eval(x[t : t + 1]), F[t : t + 1])
            h.eq("kernel one point at a time", tr(m.kernel_eval(x[t : t + 1]), "time_kernel", "time", "dim_x", "dim_x'"), K[:, t : t + 1])
        w.check(h, "after evaluations one point at a time")
        # results are not views of the model
        F0 = F.copy()
        F += 1
        h.eq("force after its value was changed by the user", m.force_eval(x), F0)
    return f


for model in ALL:
    case("C23", "evaluations again %s" % model, bounds="3 points, basis 1, x, x^2, 2 kernel times", limit=200)(_model(model, 2, 1, "rectangular"))
    case("C23", "evaluations again %s two coordinates" % model, bounds="3 points, 2 coordinates, basis 1, x", limit=200)(_model(model, 1, 2, "trapz"))


# --------------------------------------------------------------- D: bases
BS = {
    "linear": (lambda B, h: B.LinearFeatures(), 2, None),
    "centered linear": (lambda B, h: B.LinearFeatures(to_center=True), 2, None),
    "polynomial": (lambda B, h: B.PolynomialFeatures(deg=3), 2, None),
    "polynomial with constant": (lambda B, h: B.PolynomialFeatures(deg=2, remove_const=False), 2, None),
    "hermite": (lambda B, h: B.PolynomialFeatures(deg=3, polynom=np.polynomial.Hermite), 1, None),
    "fourier": (lambda B, h: B.FourierFeatures(order=2, freq=h.real("w", pos=True)), 2, None),
    "fourier with constant": (lambda B, h: B.FourierFeatures(order=1, freq=h.real("w", pos=True), remove_const=False), 1, None),
    "spline": (lambda B, h: B.BSplineFeatures(4), 1, (-0.9, 1.9)),
    "spline with constant": (lambda B, h: B.BSplineFeatures(5, k=2, remove_const=False), 1, (-0.9, 1.9)),
    "periodic spline": (lambda B, h: B.BSplineFeatures(5, periodic=True), 1, (-0.9, 1.9)),
    "spline function": (lambda B, h: B.SplineFctFeatures(np.array([0.0, 0.0, 0.0, 0.75, 2.0, 2.5, 2.5, 2.5]), h.real("sc", 5), k=2), 1, (0.05, 2.45)),
    "indicators": (lambda B, h: B.SmoothIndicatorFeatures([[-1.0, 0.0], [0.5, 1.0]]), 1, None),
    "periodic indicators": (lambda B, h: B.SmoothIndicatorFeatures([[-1.0, 0.0], [0.5, 1.0]], boundary_type="quartic", periodic=True), 1, None),
    "combination": (lambda B, h: B.FeaturesCombiner(B.LinearFeatures(), B.PolynomialFeatures(deg=2, remove_const=False), B.FourierFeatures(order=1)), 2, None),
    "product": (lambda B, h: B.TensorialBasis2D(B.PolynomialFeatures(deg=1), B.FourierFeatures(order=1)), 2, None),
}


def _basis(name):
    mk, dim, box = BS[name]

    def f(h):
        n = 2
        X = h.real("X", (n, dim), **(dict(lo=box[0], hi=box[1], box=box) if box else dict(box=(-2.0, 2.0))))
        D = np.array([[-1.0], [0.3], [2.0]]) if box else h.real("D", (3, dim))
        D = h.cst(D) if box else D
        D0, X0 = D.copy(), X.copy()
        ds = (lambda: np.array([[-1.0], [0.3], [2.0]])) if box else (lambda: h.basis.minimal_describe(D) if dim > 1 or "linear" in name else h.basis.describe_from_dim(dim))
        b = mk(h.basis, h)
        out = b.fit(ds())
        h.true("fit returns the basis", out is b)
        calls = {"basis": b.basis, "gradient": b.deriv, "hessian": b.hessian}
        if name not in ("indicators", "periodic indicators", "combination", "product", "periodic spline"):
            calls["antiderivative"] = b.antiderivative
        first = {k: np.array(c(X), copy=True) for k, c in calls.items()}
        h.eq("points untouched", X, X0)
        size, const = int(b.n_output_features_), bool(b.const_removed)
        for k in list(calls)[::-1]:
            again = calls[k](X)
            h.eq(k + " again", again, first[k])
            again += 1  # what a user does with the result is no concern of the basis
            h.eq(k + " after its value was changed by the user", calls[k](X), first[k])
        h.eq("points untouched", X, X0)
        h.eq("data of the fit untouched", D, D0)
        h.same("size", int(b.n_output_features_), size)
        h.same("constant", bool(b.const_removed), const)
        for k, c in calls.items():
            for t in range(n):
                h.eq(k + " one point at a time", c(X[t : t + 1]), first[k][t : t + 1])
        # another basis of the same kind, fitted on other data, is another basis
        o = mk(h.basis, h)
        o.fit(np.array([[-2.0], [0.0], [2.5]]) if box else h.basis.minimal_describe(h.real("D2", (4, dim))) if dim > 1 or "linear" in name else h.basis.describe_from_dim(dim))
        o.basis(X0[:1])
        o.deriv(X0[:1])
        for k, c in calls.items():
            h.eq(k + " after another basis was fitted", c(X), first[k])
        # fitted again on the same data
        b.fit(ds())
        for k, c in calls.items():
            h.eq(k + " after fitting again", c(X), first[k])
        h.same("size after fitting again", int(b.n_output_features_), size)
    return f


for name in BS:
    case("C23", "basis %s" % name, bounds="2 points, 3 data points", max_paths=150, limit=250)(_basis(name))


def _describe(h):
    """descriptions of data leave the data, and each other, alone"""
    D, E = h.real("D", (3, 2)), h.real("E", (2, 2))
    D0, E0 = D.copy(), E.copy()
    B = h.basis
    d, e = B.minimal_describe(D), B.minimal_describe(E)
    keep = [np.array(z, copy=True) for z in (d.mean, d.minmax[0], d.minmax[1], e.mean, e.minmax[0], e.minmax[1])]
    s = B.sum_describe(d, e)
    s2 = B.sum_describe(d, e)
    h.eq("pooled mean again", s2.mean, s.mean)
    h.eq("pooled minimum again", s2.minmax[0], s.minmax[0])
    for nm, z, o in zip(("mean", "minimum", "maximum") * 2, (d.mean, d.minmax[0], d.minmax[1], e.mean, e.minmax[0], e.minmax[1]), keep):
        h.eq(nm + " untouched", z, o)
    h.same("number untouched", (int(d.nobs), int(e.nobs)), (3, 2))
    h.eq("data untouched", D, D0)
    h.eq("data untouched", E, E0)


case("C23", "descriptions", bounds="3 and 2 points, 2 coordinates", max_paths=300)(_describe)


# --------------------------------------------------------------- C: integration
def _integrate(kind, n, n0, T=2, const=False, noise=True):
    def f(h):
        dt = h.real("dt", pos=True)
        dim = 1
        basis = h.basis.LinearFeatures() if kind == "linear" else poly(h, 1)
        m = getattr(h.vb, "Pos_gle_const_kernel" if const else "Pos_gle")(basis, dt, dim_x=dim, dim_obs=dim, trunc_ind=T)
        C = xr.DataArray(h.real("c", (int(m.N_basis_elt_force), dim)), dims=("dim_basis", "dim_x"))
        K = xr.DataArray(h.real("k", (T, int(m.N_basis_elt_kernel), dim)), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(T, dt)})
        m.force_coeff, m.kernel = C, K
        if kind == "linear":
            m.P_range = xr.DataArray(h.real("p", (1, 1)), dims=("dim_basis", "dim_basis_old"))
        xs, vs = h.real("x", (n0, dim)), h.real("v", (n0, dim))
        x0 = xr.Dataset({"x": (["time", "dim_x"], xs), "v": (["time", "dim_x"], vs)}, coords={"time": h.time(n0, dt)}, attrs={"dt": dt})
        y0 = xr.Dataset({"x": (["time", "dim_x"], 2 * xs), "v": (["time", "dim_x"], vs + 1)}, coords={"time": h.time(n0, dt)}, attrs={"dt": dt})
        cls = h.vb.Integrator_gle_const_kernel if const else h.vb.Integrator_gle
        mk = lambda: cls(m, verbose=False, coeffs_noise_kernel=h.cst(np.zeros((int(m.N_basis_elt_kernel), dim))))
        w = Watch(x0, y0, C, K)
        a = mk()
        t1 = a.run(n, x0, set_noise_to_zero=True)
        k1 = Watch(t1)
        w.check(h, "inputs after a run")
        a.run(n + 1, y0, set_noise_to_zero=True)
        k1.check(h, "first trajectory after another run")
        t2 = a.run(n, x0, set_noise_to_zero=True)
        t3 = mk().run(n, x0, set_noise_to_zero=True)
        long = a.run(n + 1, x0, set_noise_to_zero=True)
        for nm, t in (("the same integrator", t2), ("a new integrator", t3)):
            for z in ("x", "v"):
                h.eq("%s run again by %s" % (z, nm), t[z].data, t1[z].data)
            h.eq("times run again by %s" % nm, t["time"].data, t1["time"].data)
        for z in ("x", "v"):
            h.eq("%s of a longer run starts as the shorter one" % z, long[z].data[:n], t1[z].data)
        w.check(h, "inputs after all runs")
        t1["x"].data[:] = 0
        w.check(h, "inputs after the trajectory was changed by the user")
    return f


for kind in ("linear", "poly1"):
    case("C23", "integration again %s" % kind, bounds="2 kernel values, 3 steps, 1 initial point")(_integrate(kind, 3, 1))
    case("C23", "integration again %s with history" % kind, bounds="2 kernel values, 4 steps, 2 initial points")(_integrate(kind, 4, 2))
case("C23", "integration again constant kernel", bounds="2 kernel values, 3 steps, 2 initial points")(_integrate("poly1", 3, 2, const=True))


# --------------------------------------------------------------- E: functions
def _functions(h):
    """correlation functions, inversion routines"""
    cm = h.mod("correlation")
    a, b = h.real("a", (2, 1, 4)), h.real("b", (1, 3, 4))
    w = Watch(a, b)
    for name, args in (("correlation_ND", (a, b)), ("correlation_direct_ND", (a, b)), ("correlation_1D", (a[0, 0], b[0, 0])), ("correlation_direct_1D", (a[0, 0], b[0, 0]))):
        f = getattr(cm, name)
        one = f(*args, trunc=3)
        f(*args[::-1], trunc=2)
        h.eq(name + " again", f(*args, trunc=3), one)
        w.check(h, "inputs of " + name)


case("C23", "correlation functions", bounds="4 points, 3 lags")(_functions)


def _flow(h):
    """acceleration, frames"""
    vb = h.vb
    dt = h.real("dt", pos=True)
    x = h.real("x", (5, 2))
    t = h.time(5, dt)
    w = Watch(x)
    fr = vb.xframe(x, t)
    w0 = Watch(fr)
    va = vb.compute_va(fr)
    keep = Watch(va)
    va2 = vb.compute_va(fr)
    for z in va.data_vars:
        h.eq("derivatives again: " + z, va2[z].data, va[z].data)
    vb.compute_va(fr, correct_jumps=True, jump=50.0, jump_thr=40.0) if h.sym is False else None
    vb.compute_a(vb.xframe(x, t, v=2 * x))
    w.check(h, "positions")
    w0.check(h, "frame", skip=())
    keep.check(h, "derivatives kept by their user")


case("C23", "derivatives of a trajectory", bounds="5 points, 2 coordinates")(_flow)


def _evolve_again(b):
    """evolutions of the Volterra equation and transforms of the kernel"""
    def f(h):
        dt = h.real("dt", pos=True, box=(0.2, 0.6))
        nk = 3
        m = h.vb.Pos_gle_overdamped(h.basis.LinearFeatures(), dt, dim_x=b, dim_obs=b, trunc_ind=nk)
        F, K, G = h.real("f", (b, b), lo=-0.5, hi=0.5), h.real("k", (nk, b, b), lo=-0.5, hi=0.5), h.real("g", (b, b), lo=0.25)
        h.assume(dt <= 0.5)
        m.force_coeff = xr.DataArray(F, dims=("dim_basis", "dim_x"))
        m.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(nk, dt)})
        w = Watch(F, K, G, m.force_coeff, m.kernel)
        calls = {
            "rectangular": lambda: m.evolve_volterra(G, 3, method="rect"),
            "trapezoidal": lambda: m.evolve_volterra(G, 4, method="trapz"),
            "truncated": lambda: m.evolve_volterra(G, 3, method="trapz", trunc_ind=2),
        }
        if b == 1:
            calls["laplace"] = lambda: m.laplace_transform_kernel(n_points=2)
        first = {k: [np.array(z, copy=True) for z in c()] for k, c in calls.items()}
        w.check(h, "model and initial value")
        for k in list(calls)[::-1]:
            for z, o in zip(calls[k](), first[k]):
                h.eq(k + " again", z, o)
        w.check(h, "model and initial value")
        e = m.evolve_volterra(G, 2, method="trapz")[1]
        h.eq("shorter evolution is the start of the longer one", e, first["trapezoidal"][1][:, :, :2])
    return f


for b in (1, 2):
    case("C23", "evolution again basis=%d" % b, bounds="3 kernel times, up to 4 steps, %d functions" % b, fortran=True, limit=300)(_evolve_again(b))


# --------------------------------------------------------------- D: initial conditions
def _draw(single, attrs, n_mem):
    """drawing initial conditions leaves the data alone, and two draws do not share anything"""
    def f(h):
        dt, dim, n = h.real("dt", pos=True), 1, 4
        mk = lambda i: xr.Dataset({"x": (["time", "dim_x"], h.real("x%d" % i, (n, dim))), "v": (["time", "dim_x"], h.real("v%d" % i, (n, dim)))}, coords={"time": h.time(n, dt, h.real("t%d" % i))}, attrs={"dt": dt, "note": "mine"} if attrs else {})
        data = [mk(0), mk(1)]
        g = h.vb.Integrator_gle(None, basis=h.basis.LinearFeatures().fit(h.basis.describe_from_dim(dim)), force_coeff=h.real("c", (1, 1)), kernel=h.real("k", (3, 1, 1)), dt=dt, verbose=False, coeffs_noise_kernel=h.cst(np.zeros((1, 1))))
        w = Watch(*data)
        state = np.random.get_state()
        np.random.seed(3)
        try:
            a = g.initial_conditions(data[0] if single else data, n_mem)
            w.check(h, "data after a draw")
            ka = Watch(a)
            b = g.initial_conditions(data[0] if single else data, n_mem)
            w.check(h, "data after two draws")
            ka.check(h, "first draw after the second")
            np.random.seed(3)
            c = g.initial_conditions(data[0] if single else data, n_mem)
        finally:
            np.random.set_state(state)
        for z in ("x", "v", "time"):
            h.eq("%s of the same draw again" % z, c[z].data, a[z].data)
        c = c.assign_attrs(dt=dt)
        g.run(n_mem + 2, c, set_noise_to_zero=True)
        w.check(h, "data after a run")
    return f


for single in (True, False):
    for attrs in (True, False):
        for n_mem in (0, 2):
            case("C23", "initial conditions from %s %s attributes, history %d" % ("one trajectory" if single else "two trajectories", "with" if attrs else "without", n_mem), bounds="4 points, every value")(_draw(single, attrs, n_mem))


def _fitted(kind, model, dim):
    """a basis that the user fitted is used as it is"""
    def f(h):
        dt = h.real("dt", pos=True)
        obs = OBS[model]
        if kind == "linear":
            b = h.basis.LinearFeatures(to_center=True).fit(h.basis.minimal_describe(h.real("D", (3, dim))))
        else:
            b = h.basis.BSplineFeatures(n_knots=3, k=1, remove_const=False).fit(np.array([[-3.0], [3.0]]))
        if kind == "product":
            b = h.basis.TensorialBasis2D(h.basis.LinearFeatures(to_center=True), h.basis.LinearFeatures()).fit(h.basis.minimal_describe(h.real("D", (3, 2))))
        X = h.real("X", (2, dim), box=(-2.5, 2.5), **({"lo": -2.5, "hi": 2.5} if kind == "splines" else {}))
        B, G, n = np.array(b.basis(X), copy=True), np.array(b.deriv(X), copy=True), int(b.n_output_features_)
        if kind == "splines":
            x = np.array([[0.5], [-0.25], [1.0]])
            data = [h.vb.xframe(h.cst(x), h.time(3, dt), **{k: h.real(k, (3, 1)) for k in obs if k != "x"})]
        else:
            data, raw = frames(h, (3,), dim, dt, obs)
        e = estimator(h, data, model, b, 0.5 * dt)
        h.true("the estimator uses the basis given", e.model.basis is b)
        h.eq("values after it was given to an estimator", b.basis(X), B)
        h.eq("gradient after it was given to an estimator", b.deriv(X), G)
        h.same("size after it was given to an estimator", int(b.n_output_features_), n)
        e.compute_gram_force(), e.describe_data()
        m = getattr(h.vb, model)(b, dt, dim_x=dim, dim_obs=dim, trunc_ind=2, describe_data=h.basis.minimal_describe(data[0]["x"].data))
        h.eq("values after it was given to a model", m.basis.basis(X), B)
        h.eq("gradient after it was given to a model", m.basis.deriv(X), G)
        m.force_coeff = xr.DataArray(h.real("c", (int(m.N_basis_elt_force), dim)), dims=("dim_basis", "dim_x"))
        h.eq("force on the basis given", m.force_eval(X), B.dot(h.real("c", (int(m.N_basis_elt_force), dim))))
    return f


for kind, model, dim in (("linear", "Pos_gle", 1), ("linear", "Pos_gle_overdamped", 2), ("splines", "Pos_gle_overdamped", 1), ("product", "Pos_gle_overdamped", 2)):
    case("C23", "%s fitted before %s dim=%d" % (kind, model, dim), bounds="3 points of the fit, 3 of the trajectory, 2 of the evaluation", max_paths=150)(_fitted(kind, model, dim))
