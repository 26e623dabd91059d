"""C18 saving and loading"""
import os
import tempfile

import numpy as np
import xarray as xr
from vsym.runner import case
from checks._common import tr, frames
from checks.models import ALL, VEL, make, frame


def through_file(h, ds):
    """what a netCDF file gives back: same variables, numpy scalars as attributes"""
    if h.sym:
        out = ds.copy(deep=True)
        for k, v in ds.attrs.items():
            if isinstance(v, bool) or v is None:
                raise TypeError("Invalid value for attr %r" % k)
            if isinstance(v, int):
                out.attrs[k] = np.int64(v)
        for k in list(out.data_vars):
            if not isinstance(k, str):
                raise TypeError("name of a variable")
            out[k].encoding = {}
        return out
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "model.nc")
        ds.to_netcdf(p)
        return xr.load_dataset(p)


EVALS = ("force_eval", "kernel_eval")


def _model(h, model, deg, dim, rc, full, L_obs=None, rank=None):
    """a model with everything computed, all values symbolic"""
    kw = {} if L_obs is None else {"L_obs": L_obs}
    bas = h.basis.PolynomialFeatures(deg=deg, remove_const=rc)
    m = make(h, model, bas, dim, trunc_ind=4, **kw)
    nf, nk = int(m.N_basis_elt_force), int(m.N_basis_elt_kernel)
    nd = (deg + 1) * dim if model not in VEL else nk
    if model == "Pos_gle_const_kernel":
        nd = dim
    m.force_coeff = xr.DataArray(h.real("f", (nf, dim)), dims=("dim_basis", "dim_x"))
    r = nk
    if rank is not None:
        m.rank_projection = rank
    if m.rank_projection:
        r = max(nk - dim, 1)
        m.P_range = xr.DataArray(h.real("p", (r, nk)), dims=("dim_basis", "dim_basis_old"))
    m.kernel = xr.DataArray(h.real("k", (3, r, dim)), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(3, m.dt)})
    m.method = "trapz"
    if full:
        m.gram_force = xr.DataArray(h.real("g", (nf, nf)), dims=("dim_basis", "dim_basis'"))
        ng = r if m.rank_projection else nd
        m.gram_kernel = xr.DataArray(h.real("gk", (ng, ng)), dims=("dim_basis", "dim_basis'"))
        m.eff_mass = xr.DataArray(h.real("em", (dim, dim)), dims=("dim_x'", "dim_x"))
        m.inv_mass_coeff = xr.DataArray(h.real("im", (nd, dim, dim)), dims=("dim_basis", "dim_x", "dim_x'"))
    return m, bas


ARR = ("force_coeff", "kernel", "P_range", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff")


def same_model(h, m, q, what=""):
    h.same(what + "class", type(m).__name__, type(q).__name__)
    for k in ARR:
        a, b = getattr(m, k), getattr(q, k)
        h.same("%s%s is there" % (what, k), a is None, b is None)
        if a is not None and b is not None:
            h.same("%sdimensions of %s" % (what, k), sorted(a.dims), sorted(b.dims))
            if sorted(a.dims) == sorted(b.dims):
                h.eq("%s%s" % (what, k), tr(b, *a.dims), a.to_numpy())
    if m.kernel is not None:
        h.eq(what + "times of the kernel", q.kernel["time_kernel"].data, m.kernel["time_kernel"].data)
    h.same(what + "projection", bool(m.rank_projection), bool(q.rank_projection))
    h.eq(what + "time step", q.dt, m.dt)
    for k in ("trunc_ind", "dim_x", "dim_obs", "L_obs", "method", "N_basis_elt_force", "N_basis_elt_kernel"):
        a, b = getattr(m, k), getattr(q, k)
        h.same(what + k, a if isinstance(a, str) or a is None else int(a), b if isinstance(b, str) or b is None else int(b))


def _round(model, deg, dim, rc, full=True, file=True, L_obs=None, rank=None):
    def f(h):
        m, bas = _model(h, model, deg, dim, rc, full, L_obs, rank)
        keep = {k: getattr(m, k).copy(deep=True) for k in ARR if getattr(m, k) is not None}
        ds = m.save_model()
        if file:
            ds = through_file(h, ds)
        attrs = dict(ds.attrs)
        names = {k: tuple(v.dims) for k, v in ds.variables.items()}
        q = getattr(h.vb, model).load_model(bas, ds)
        same_model(h, m, q)
        h.same("attributes of the saved model untouched", sorted(map(str, attrs)), sorted(map(str, ds.attrs)))
        h.same("variables of the saved model untouched", names, {k: tuple(v.dims) for k, v in ds.variables.items()})
        for k, v in keep.items():
            h.same("dimensions of %s of the model untouched" % k, v.dims, getattr(m, k).dims)
            h.eq("%s of the model untouched" % k, getattr(m, k).to_numpy(), v.to_numpy())
        x = h.real("x", (2, dim))
        for e in EVALS:
            a, b = getattr(m, e)(x), getattr(q, e)(x)
            h.eq(e, tr(b, *a.dims) if hasattr(a, "dims") else b, a.to_numpy() if hasattr(a, "dims") else a)
        v, a = h.real("v", (4, dim)), h.real("a", (4, dim))
        y = h.real("y", (4, dim))
        if L_obs is None or L_obs in "va":
            n1, n2 = m.compute_noise(frame(h, y, v, a)), q.compute_noise(frame(h, y, v, a))
            h.eq("noise", tr(n2[1], "time", "dim_x"), tr(n1[1], "time", "dim_x"))
        # saving what was loaded gives the same file
        ds2 = q.save_model()
        h.same("variables after a second round trip", sorted(ds.data_vars), sorted(ds2.data_vars))
        q2 = getattr(h.vb, model).load_model(bas, through_file(h, ds2) if file else ds2)
        same_model(h, m, q2, "second round trip: ")
    return f


for model in ALL:
    case("C18", "%s in memory" % model, bounds="3 kernel times, basis 1, x, x^2")(_round(model, 2, 1, True, file=False))
    case("C18", "%s through a file" % model, bounds="3 kernel times, basis 1, x, x^2")(_round(model, 2, 1, True))
    case("C18", "%s through a file, only force and kernel" % model, bounds="3 kernel times, basis 1, x, x^2")(_round(model, 2, 1, True, full=False))
    case("C18", "%s through a file dim=2" % model, bounds="3 kernel times, 2 coordinates, 4 functions")(_round(model, 1, 2, True))
for model in VEL:
    case("C18", "%s deficient basis" % model, bounds="3 kernel times, basis 1, x, x^2, constant kept")(_round(model, 2, 1, False))
    case("C18", "%s deficient basis dim=2" % model, bounds="3 kernel times, 2 coordinates, constant kept")(_round(model, 1, 2, False))
for model in ALL:
    if model not in ("Pos_gle_const_kernel", "Pos_gle_hybrid"):
        for rank in (True, False):
            for rc in (True, False):
                case("C18", "%s constant %s, %s" % (model, "removed" if rc else "kept", "projected" if rank else "not projected"), bounds="3 kernel times, 2 coordinates, projection chosen by the user")(_round(model, 1, 2, rc, rank=rank))
case("C18", "Pos_gle other observable", bounds="observable v")(_round("Pos_gle", 1, 1, True, L_obs="v"))
case("C18", "Pos_gle_overdamped other observable", bounds="observable a")(_round("Pos_gle_overdamped", 1, 1, True, L_obs="a"))


def _empty(model):
    """a model saved before anything is computed loads as such"""
    def f(h):
        bas = h.basis.PolynomialFeatures(deg=1, remove_const=True)
        m = make(h, model, bas, 1, trunc_ind=4)
        q = getattr(h.vb, model).load_model(bas, through_file(h, m.save_model()))
        same_model(h, m, q)
        x = h.real("x", (2, 1))
        h.raises("force before its computation", q.force_eval, x)
        h.raises("kernel before its computation", q.kernel_eval, x)
        dt2 = h.real("dt2", pos=True)
        q2 = getattr(h.vb, model).load_model(bas, m.save_model(), dt=dt2, trunc_ind=2)
        h.eq("time step given at loading", q2.dt, dt2)
        h.same("truncation given at loading", int(q2.trunc_ind), 2)
        h.eq("time step of the first model", m.dt, h.real("dt", pos=True))
        h.same("truncation of the first model", int(m.trunc_ind), 4)
    return f


for model in ALL:
    case("C18", "%s without coefficients" % model, bounds="any time step")(_empty(model))


class Recorder:
    """stands for the file system: keeps what is written under its name"""

    def __enter__(self):
        self.files, self.old = {}, xr.Dataset.to_netcdf
        rec = self

        def to_netcdf(ds, path=None, *a, **k):
            rec.files[str(path)] = ds.copy(deep=True)

        xr.Dataset.to_netcdf = to_netcdf
        return self

    def __exit__(self, *a):
        xr.Dataset.to_netcdf = self.old


def _files(model, second, prefix, method, rc=True):
    def f(h):
        dt = h.real("dt", pos=True)
        data, raw = frames(h, (3,), 1, dt)
        h.assume(dt < 1)
        E = h.vb.Estimator_gle(data, getattr(h.vb, model), h.basis.PolynomialFeatures(deg=1, remove_const=True) if model == "Pos_gle" else h.basis.PolynomialFeatures(deg=0), trunc=10.0, verbose=False, prefix=prefix)
        E.model.force_coeff = xr.DataArray(h.real("f", (int(E.model.N_basis_elt_force), 1)), dims=("dim_basis", "dim_x"))
        with Recorder() as rec:
            E.compute_corrs(second_order_method=second)
            want = [("bkbk", "bkbkcorrw"), ("bkdx", "bkdxcorrw")] + ([("dotbkbk", "dotbkbkcorrw"), ("dotbkdx", "dotbkdxcorrw")] if second else [])
            name = prefix + "corrs.nc"
            h.same("file of the correlations", sorted(rec.files), [name])
            ds = rec.files[name]
            for k, a in want:
                b = getattr(E, a)
                h.eq("saved %s" % k, tr(ds[k], *b.dims), b.to_numpy())
            nt = E.bkbkcorrw.sizes["time_trunc"]
            h.eq("lags", ds["time_trunc"].data, h.time(nt, dt))
            C = E.bkbkcorrw.to_numpy()
            h.assume(C[0, 0, 0] > 0.25)
            if method == "second_kind_trapz":
                d0 = tr(E.dotbkbkcorrw, "dim_basis'", "dim_basis", "time_trunc")[0, 0, 0]
                h.assume(C[0, 0, 0] + 0.5 * dt * d0 > 0.25)
                h.assume(C[0, 0, 0] - 0.5 * dt * d0 > 0.25)
            if method == "trapz":
                h.assume(0.5 * C[0, 0, 0] > 0.1)
            E.compute_kernel(method)
            name2 = prefix + "kernel.nc"
            h.same("file of the kernel", sorted(rec.files), [name, name2])
            k = rec.files[name2]["kernel"]
            h.eq("saved kernel", tr(k, *E.model.kernel.dims), E.model.kernel.to_numpy())
            h.eq("times of the saved kernel", k["time_kernel"].data, E.model.kernel["time_kernel"].data)
    return f


for model, second, prefix, method in (("Pos_gle", True, "", "rect"), ("Pos_gle", False, "run_", "rect"), ("Pos_gle_overdamped", True, "dir/", "second_kind_trapz"), ("Pos_gle_const_kernel", True, "", "trapz")):
    case("C18", "files %s %s%s%s" % (model, method, "" if second else " first order only", " prefix" if prefix else ""), bounds="one trajectory of 3 points")(_files(model, second, prefix, method))


@case("C18", "nothing is written unless asked", bounds="one trajectory of 3 points")
def _nofile(h):
    dt = h.real("dt", pos=True)
    data, raw = frames(h, (3,), 1, dt)
    h.assume(dt < 1)
    E = h.vb.Estimator_gle(data, h.vb.Pos_gle, h.basis.PolynomialFeatures(deg=1, remove_const=True), trunc=10.0, verbose=False, saveall=False)
    E.model.force_coeff = xr.DataArray(h.real("f", (2, 1)), dims=("dim_basis", "dim_x"))
    with Recorder() as rec:
        E.compute_corrs()
        h.assume(E.bkbkcorrw.to_numpy()[0, 0, 0] > 0.25)
        E.compute_kernel("rect")
        h.same("files", sorted(rec.files), [])
