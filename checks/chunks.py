"""C28 trajectories cut in chunks (dask) give the results of the same trajectories in memory"""
import numpy as np
import xarray as xr
from vsym.runner import case
from checks._common import estimator
from checks.models import ALL, fitted
from checks.volterra import poly
from checks.repeat import OBS


def eager(f):
    """dask computes in the calling process: the symbolic values belong to the current path"""
    import dask

    def g(h):
        with dask.config.set(scheduler="synchronous"):
            f(h)
    return g


def data(h, lens, dim, dt, obs, **kw):
    out = []
    for i, n in enumerate(lens):
        d = {k: h.real("%s%d" % (k, i), (n, dim), **kw) for k in obs}
        out.append(h.vb.xframe(d["x"], h.time(n, dt), **{k: d[k] for k in obs if k != "x"}))
    return out


def alike(h, name, b, a):
    """the same axes, coordinates and values"""
    if isinstance(a, (tuple, list)):
        h.same("number of results: " + name, len(b), len(a))
        for i, (p, q) in enumerate(zip(b, a)):
            alike(h, "%s %d" % (name, i), p, q)
    elif isinstance(a, xr.Dataset):
        h.same("variables of " + name, sorted(b.variables), sorted(a.variables))
        for k in a.variables:
            alike(h, "%s %s" % (name, k), b[k], a[k])
        h.same("attributes of " + name, sorted(b.attrs), sorted(a.attrs))
        for k in a.attrs:
            (h.same if isinstance(a.attrs[k], str) else h.eq)("attribute %s of %s" % (k, name), b.attrs[k], a.attrs[k])
    elif isinstance(a, xr.DataArray):
        h.same("axes of " + name, b.dims, a.dims)
        h.same("coordinates of " + name, sorted(b.coords), sorted(a.coords))
        h.eq(name, b.to_numpy(), a.to_numpy())
    elif a is None or isinstance(a, str):
        h.same(name, b, a)
    else:
        h.eq(name, np.asarray(b), np.asarray(a))


def both(h, D, chunk, f):
    """the results for the data in memory and for the data in chunks"""
    return f(D), f([d.chunk({"time": chunk}) for d in D])


CORRS = ("bkbkcorrw", "bkdxcorrw", "dotbkbkcorrw", "dotbkdxcorrw")


def _estimation(model, lens, chunk, method, vectorize, dim=1, second=True, jobs=1):
    @eager
    def f(h):
        dt = h.real("dt", pos=True, box=(0.5, 1.5))
        D = data(h, lens, dim, dt, OBS[model])

        def run(d):
            e = estimator(h, d, model, poly(h, 1) if dim == 1 else h.basis.LinearFeatures(), 2.5 * dt, n_jobs=jobs)
            e.compute_mean_force()
            e.compute_corrs(method=method, vectorize=vectorize, second_order_method=second)
            return e

        a, b = both(h, D, chunk, run)
        alike(h, "force", b.model.force_coeff, a.model.force_coeff)
        for k in CORRS:
            alike(h, k, getattr(b, k), getattr(a, k))
    return f


for model in ALL:
    for method in ("fft", "direct"):
        for vectorize in (False, True):
            case("C28", "correlations %s %s%s" % (model, method, " vectorized" if vectorize else ""), bounds="trajectories of 5 and 4 points in chunks of 2")(_estimation(model, (5, 4), 2, method, vectorize))
case("C28", "correlations two coordinates", bounds="one trajectory of 5 points in chunks of 3, 2 coordinates")(_estimation("Pos_gle_const_kernel", (5,), 3, "direct", False, 2))
case("C28", "correlations first order", bounds="trajectories of 5 and 4 points in chunks of 2")(_estimation("Pos_gle", (5, 4), 2, "fft", False, 1, False))
case("C28", "correlations in parallel", bounds="trajectories of 5 and 4 points in chunks of 2, 2 jobs")(_estimation("Pos_gle", (5, 4), 2, "fft", False, 1, True, 2))


def _averages(model, lens, chunk, dim=1):
    @eager
    def f(h):
        dt = h.real("dt", pos=True, box=(0.5, 1.5))
        D = data(h, lens, dim, dt, OBS[model])

        def run(d):
            e = estimator(h, d, model, poly(h, 1) if dim == 1 else h.basis.LinearFeatures(), 1.5 * dt)
            r = [e.model.basis.describe_result if hasattr(e.model.basis, "describe_result") else None]
            e.compute_gram_force()
            e.compute_gram_kernel()
            r += [e.model.gram_force, e.model.gram_kernel, e.compute_basis_mean(basis_type="force"), e.compute_basis_mean(basis_type="kernel")]
            if "a" in OBS[model]:
                e.compute_effective_mass()
                r += [e.model.eff_mass]
            e.compute_mean_force()
            return r + [e.model.force_coeff]

        a, b = both(h, D, chunk, run)
        for k, p, q in zip(("description", "gram of the force", "gram of the kernel", "mean of the force basis", "mean of the kernel basis", "mass or force", "force"), a, b):
            alike(h, k, q, p)
    return f


for model in ALL:
    case("C28", "averages %s" % model, bounds="trajectories of 5 and 4 points in chunks of 2")(_averages(model, (5, 4), 2))


def _describe(lens, chunk, dim):
    @eager
    def f(h):
        D = data(h, lens, dim, h.real("dt", pos=True), ("x", "v"))
        a, b = both(h, D, chunk, lambda d: h.vb.Estimator_gle.describe_data(d) if isinstance(d, h.vb.Estimator_gle) else h.vb.Estimator_gle(d, h.vb.Pos_gle_overdamped, h.basis.LinearFeatures(), trunc=1, saveall=False, verbose=False).describe_data())
        h.same("number of points", b.nobs, a.nobs)
        for k in ("minmax", "mean", "variance", "skewness", "kurtosis"):
            alike(h, k, getattr(b, k), getattr(a, k))
    return f


case("C28", "description", bounds="trajectories of 3 and 2 points in chunks of 2")(_describe((3, 2), 2, 1))




def _frame(n, chunk, kind, dim=1, flat=False, **kw):
    given = {"compute_a": "v", "compute_a_from_vel": "v", "concat_underdamped": "va"}.get(kind, "")

    @eager
    def f(h):
        import dask.array as da
        dt = h.real("dt", pos=True, box=(0.5, 1.5))
        a = {k: h.real(k, (n, dim)) for k in "x" + given}
        R = []
        for lazy in (False, True):
            w = lambda y: da.from_array(y, chunks=chunk if y.ndim == 1 else (chunk, 1)) if lazy else y
            fr = h.vb.xframe(w(a["x"][:, 0] if flat else a["x"]), h.time(n, dt), **{k: w(a[k][:, 0] if flat else a[k]) for k in given})
            R.append(getattr(h.vb, kind)(fr, **kw) if kind else fr)
        alike(h, "frame", R[1], R[0])
    return f


case("C28", "frame", bounds="6 points in chunks of 4, flat")(_frame(6, 4, "", 1, True))
for kind in ("compute_va", "compute_va_gjf", "compute_a", "compute_a_from_vel", "concat_underdamped"):
    case("C28", "frame %s" % kind, bounds="7 points in chunks of 3, flat")(_frame(7, 3, kind, 1, True))
    case("C28", "frame %s two coordinates" % kind, bounds="5 points in chunks of 2, 2 coordinates")(_frame(5, 2, kind, 2))
for kind in ("compute_va", "compute_va_gjf"):
    case("C28", "frame %s with jumps" % kind, bounds="4 points in chunks of 2", max_paths=200)(_frame(4, 2, kind, correct_jumps=True, jump=1.0, jump_thr=0.75))
case("C28", "frame compute_va with weight", bounds="6 points in chunks of 4")(_frame(6, 4, "compute_va", lamb_finite_diff=0.25))


def _noise(model, n, chunk, method, dim=1, left=None):
    @eager
    def f(h):
        dt = h.real("dt", pos=True, box=(0.5, 1.5))
        D = data(h, (n,), dim, dt, ("x", "v", "a"))
        m = fitted(h, model, 1, dim)
        m.dt, m.method = dt, method
        nk = m.N_basis_elt_kernel
        m.kernel = xr.DataArray(h.real("K", (3, nk, dim)), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(3, dt)})
        op = (lambda d: d["x"] * d["v"]) if left == "function" else left
        a, b = both(h, D, chunk, lambda d: (m.compute_noise(d[0]), m.compute_noise(d[0], trunc_kernel=2, start_point=1, end_point=n - 1), m.compute_corrs_w_noise(d[0], **({} if left is None else {"left_op": op}))))
        alike(h, "noise", b, a)
    return f


for model in ALL:
    for method in ("rect", "trapz"):
        case("C28", "noise %s %s" % (model, method), bounds="5 points in chunks of 2, 3 kernel values", fortran=True)(_noise(model, 5, 2, method))
for left in ("v", "function"):
    case("C28", "noise with %s" % left, bounds="5 points in chunks of 2, 3 kernel values", fortran=True)(_noise("Pos_gle", 5, 2, "trapz", 1, left))
case("C28", "noise two coordinates", bounds="4 points in chunks of 3, 3 kernel values, 2 coordinates", fortran=True)(_noise("Pos_gle_const_kernel", 4, 3, "rect", 2))


def _kernel(model, method, lens, chunk):
    """the whole estimation, from correlations to the correlation with the noise; positions given"""

    @eager
    def f(h):
        dt = h.real("dt", pos=True, box=(0.5, 1.5))
        D = data(h, lens, 1, dt, OBS[model])
        K = h.real("K", (3, 1 if model != "Pos_gle_overdamped" else 2, 1))

        def run(d):
            e = estimator(h, d, model, poly(h, 1), 2.5 * dt)
            e.set_zero_force()
            e.model.method = method
            e.model.kernel = xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(3, dt)})
            return e.compute_projected_corrs()

        a, b = both(h, D, chunk, run)
        alike(h, "projected correlation", b, a)
    return f


for model in ("Pos_gle", "Pos_gle_overdamped"):
    for method in ("rect", "trapz"):
        case("C28", "projected correlations %s %s" % (model, method), bounds="trajectories of 5 and 4 points in chunks of 2, 3 kernel values", fortran=True)(_kernel(model, method, (5, 4), 2))


def _inversion(method, model="Pos_gle_const_kernel"):
    @eager
    def f(h):
        dt = 0.5
        x = [[0.5, 1, -0.25, 0.75, 1.5, -1], [0.25, -0.5, 1.25, 0.5]]
        D = []
        for i, q in enumerate(x):
            n = len(q)
            v = [[(3 * k * k + 5 * k + i) % 7 / 4 - 0.75] for k in range(n)]
            D.append(h.vb.xframe(h.cst([[y] for y in q]), h.time(n, dt), v=h.cst(v), a=h.real("a%d" % i, (n, 1))))

        def run(d):
            e = estimator(h, d, model, h.basis.LinearFeatures(), 3.5 * dt)
            e.compute_mean_force()
            e.compute_corrs()
            return e.compute_kernel(method=method).kernel, e.check_volterra_inversion()

        a, b = both(h, D, 4, run)
        alike(h, "kernel", b, a)
    return f


for method in ("rect", "midpoint", "trapz", "second_kind_rect", "second_kind_trapz"):
    case("C28", "kernel %s" % method, bounds="trajectories of 6 and 4 points in chunks of 4, positions and velocities given, accelerations symbolic", fortran=True)(_inversion(method))


def _gfpe(lens, chunk):
    @eager
    def f(h):
        dt = h.real("dt", pos=True, box=(0.5, 1.5))
        D = data(h, lens, 1, dt, ("x", "v"))

        def run(d):
            e = estimator(h, d, "Pos_gle_overdamped", poly(h, 1), 2.5 * dt)
            e.to_gfpe()
            e.compute_mean_force()
            e.compute_corrs()
            return e

        a, b = both(h, D, chunk, run)
        alike(h, "drift", b.model.force_coeff, a.model.force_coeff)
        for k in CORRS:
            alike(h, k, getattr(b, k), getattr(a, k))
        for p, q in zip(a.xva_list, b.xva_list):
            alike(h, "new observable", q["dE"], p["dE"])
    return f


case("C28", "Fokker-Planck", bounds="trajectories of 5 and 3 points in chunks of 2")(_gfpe((5, 3), 2))

BASES = {
    "linear": lambda h: h.basis.LinearFeatures(),
    "hermite": lambda h: h.basis.PolynomialFeatures(deg=2, polynom=h.np.polynomial.Hermite, remove_const=True),
    "fourier": lambda h: h.basis.FourierFeatures(order=1, freq=1.0),
    "bspline": lambda h: h.basis.BSplineFeatures(4, k=2),
    "bspline without constant": lambda h: h.basis.BSplineFeatures(4, k=2, remove_const=True),
    "indicators": lambda h: h.basis.SmoothIndicatorFeatures([[-0.5, 0.25]]),
    "combination": lambda h: h.basis.FeaturesCombiner(h.basis.LinearFeatures(), h.basis.PolynomialFeatures(deg=2)),
}


def _basis(name, model):
    """bases evaluated on (and fitted to) given positions"""

    @eager
    def f(h):
        dt = 0.5
        x = [[0.5, 1, -0.25, 0.75, 1.5, -1], [0.25, -0.5, 2.25, -1.5]]
        D = []
        for i, q in enumerate(x):
            n = len(q)
            D.append(h.vb.xframe(h.cst([[y] for y in q]), h.time(n, dt), v=h.real("v%d" % i, (n, 1), pos=True), a=h.real("a%d" % i, (n, 1))))

        def run(d):
            e = estimator(h, d, model, BASES[name](h), 2.5 * dt)
            e.set_zero_force()
            e.compute_corrs()
            e.compute_gram_force()
            return [getattr(e, k) for k in CORRS] + [e.model.gram_force, e.model.basis.basis(h.cst([[0.125], [0.625]]))]

        a, b = both(h, D, 4, run)
        alike(h, "correlations", b, a)
    return f


for name in BASES:
    for model in ("Pos_gle", "Pos_gle_with_friction"):
        case("C28", "basis %s %s" % (name, model), bounds="trajectories of 6 and 4 given positions in chunks of 4, velocities and accelerations symbolic")(_basis(name, model))


def _fe(hist):
    @eager
    def f(h):
        x = [[0.5, 1, -0.25, 0.75], [0.25, -0.5, 1.25, -1]]
        D = []
        for i, q in enumerate(x):
            n = len(q)
            D.append(h.vb.xframe(h.cst([[y] for y in q]), h.time(n, 0.5), v=h.real("v%d" % i, (n, 1), box=(-2, 2)), a=h.real("a%d" % i, (n, 1), box=(-2, 2))))
        a, b = both(h, D, 3, lambda d: h.vb.compute_1d_fe(d, bins=4, kT=1.0, hist=hist))
        alike(h, "free energy", b, a)
    return f


for hist in (False, True):
    case("C28", "free energy%s" % (" histogram" if hist else ""), bounds="two trajectories of 4 given positions in chunks of 3, 4 cells, velocities and accelerations symbolic")(_fe(hist))

for chunk in (1, (1, 3, 1), (4, 1)):
    case("C28", "uneven chunks %s" % (chunk,), bounds="one trajectory of 5 points in chunks of %s" % (chunk,))(_estimation("Pos_gle", (5,), chunk, "fft", False))
    case("C28", "uneven chunks %s averages" % (chunk,), bounds="one trajectory of 5 points in chunks of %s" % (chunk,))(_averages("Pos_gle_with_friction", (5,), chunk))
    case("C28", "uneven chunks %s noise" % (chunk,), bounds="one trajectory of 5 points in chunks of %s, 3 kernel values" % (chunk,), fortran=True)(_noise("Pos_gle", 5, chunk, "trapz"))
    case("C28", "uneven chunks %s frame" % (chunk,), bounds="one trajectory of 5 points in chunks of %s" % (chunk,))(_frame(5, chunk, "compute_va"))
for model in ALL:
    for method in ("fft", "direct"):
        case("C28", "longer correlations %s %s" % (model, method), tier="thorough", bounds="trajectories of 9 and 6 points in chunks of 2")(_estimation(model, (9, 6), 2, method, False))
        case("C28", "correlations %s %s two coordinates" % (model, method), tier="thorough", bounds="trajectories of 5 and 4 points in chunks of 3, 2 coordinates")(_estimation(model, (5, 4), 3, method, False, 2))
    case("C28", "averages %s longer" % model, tier="thorough", bounds="trajectories of 9 and 6 points in chunks of 2")(_averages(model, (9, 6), 2))
    case("C28", "noise %s longer" % model, tier="thorough", bounds="9 points in chunks of 2, 3 kernel values", fortran=True)(_noise(model, 9, 2, "trapz"))
