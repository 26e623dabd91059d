"""C10 projection vectors of the models, C17 evaluation of fitted models"""
import numpy as np
from vsym.runner import case
from checks._common import tr

VEL = ("Pos_gle", "Pos_gle_with_friction")
POS = ("Pos_gle_no_vel_basis", "Pos_gle_overdamped")
OTHER = ("Pos_gle_const_kernel", "Pos_gle_hybrid")
ALL = VEL + POS + OTHER


def make(h, model, basis, dim, **kw):
    kw.setdefault("dim_x", dim)
    kw.setdefault("dim_obs", dim)
    kw.setdefault("trunc_ind", 3)
    return getattr(h.vb, model)(basis, h.real("dt", pos=True), **kw)


def frame(h, x, v, a):
    return h.vb.xframe(x, h.time(len(x), h.real("dt", pos=True), h.real("t0")), v=v, a=a)


BASES = {
    "polynomial 2": lambda h, rc: h.basis.PolynomialFeatures(deg=2, remove_const=rc),
    "polynomial 3": lambda h, rc: h.basis.PolynomialFeatures(deg=3, remove_const=rc),
    "linear": lambda h, rc: h.basis.LinearFeatures(),
    "fourier": lambda h, rc: h.basis.FourierFeatures(order=2, freq=1.0, remove_const=rc),
    "tensor": lambda h, rc: h.basis.TensorialBasis2D(h.basis.PolynomialFeatures(deg=1, remove_const=False), h.basis.PolynomialFeatures(deg=2, remove_const=False)),
    "combination": lambda h, rc: h.basis.FeaturesCombiner(h.basis.LinearFeatures(), h.basis.PolynomialFeatures(deg=2, remove_const=False)),
}


def vals(h, E, *dims):
    return tr(E, *dims)


def _vectors(model, bname, dim, rc, n=2, obs=None):
    """value, total time derivative and kernel part of the projection vector"""
    def f(h):
        mk = lambda: make(h, model, BASES[bname](h, rc), dim, **({} if obs is None else {"L_obs": obs}))
        def frame(h, x, v, a):
            fr = globals()["frame"](h, x, v, a)
            return fr if obs in (None, "x", "v", "a") else fr.assign({obs: (("time", "dim_x"), h.real("obs", (n, dim)))})
        m = mk()
        x, v, a = h.real("x", (n, dim)), h.real("v", (n, dim)), h.real("a", (n, dim))
        Ef, E, dE = m.basis_vector(frame(h, x, v, a))
        Ef, E, dE = tr(Ef, "time", "dim_basis"), tr(E, "time", "dim_basis"), tr(dE, "time", "dim_basis")
        plain = BASES[bname](h, rc).fit(h.basis.describe_from_dim(dim))
        if model not in VEL + ("Pos_gle_const_kernel",):
            plain.const_removed = False
        B = plain.basis(x)
        D = plain.deriv(x)
        h.same("size of the force basis", (int(m.N_basis_elt_force),), (Ef.shape[1],))
        h.same("size of the kernel basis", (int(m.N_basis_elt_kernel),), (E.shape[1],))
        vel = np.array([[sum(D[t, k, d] * v[t, d] for d in range(dim)) for k in range(D.shape[1])] for t in range(n)])
        want = {"Pos_gle": vel, "Pos_gle_with_friction": vel, "Pos_gle_const_kernel": v}.get(model, B)
        if model == "Pos_gle_hybrid":
            want = np.concatenate([v, B], axis=1)
        h.eq("force basis", Ef, np.concatenate([B, vel], axis=1) if model == "Pos_gle_with_friction" else B)
        h.eq("kernel basis", E, want)
        # the third vector is the time derivative of the second along the trajectory
        def ez(z):
            _, q, _ = mk().basis_vector(frame(h, z[:, :dim], z[:, dim:], a))
            return tr(q, "time", "dim_basis")
        z = np.concatenate([x, v], axis=1)
        J = h.jac(ez, z)
        zd = np.concatenate([v, a], axis=1)
        h.deq("time derivative of the kernel basis", dE, np.array([[sum(J[t, k, d] * zd[t, d] for d in range(2 * dim)) for k in range(E.shape[1])] for t in range(n)]))
        # the parts asked separately are the same vectors
        fr = frame(h, x, v, a)
        h.eq("force basis alone", tr(m.basis_vector(fr, compute_for="force"), "time", "dim_basis"), Ef)
        K = tr(m.basis_vector(fr, compute_for="kernel"), "time", "dim_basis", "dim_x")
        if model in VEL + ("Pos_gle_const_kernel",):
            h.eq("kernel part times velocity is the kernel basis", np.array([[sum(K[t, k, d] * v[t, d] for d in range(dim)) for k in range(K.shape[1])] for t in range(n)]), E)
        else:
            for d in range(dim):
                h.eq("kernel part", K[:, :, d], B)
        if dim == 1 and bname not in ("fourier", "combination"):
            pm = lambda q: tr(mk().basis_vector(frame(h, q, v, a), compute_for="pmf"), "time", "dim_basis")
            h.deq("potential part is a primitive of the force basis", h.jac(pm, x)[:, :, 0], B)
        h.raises("unknown purpose", m.basis_vector, fr, compute_for="nothing")
        h.eq("positions untouched", fr["x"].data, x)
        h.eq("velocities untouched", fr["v"].data, v)
    return f


for model in ALL:
    for bname, dim, rc in (("polynomial 3", 1, True), ("linear", 1, True), ("linear", 2, True), ("polynomial 2", 2, True)):
        case("C10", "%s %s dim=%d" % (model, bname, dim), bounds="2 points, %d dimensions, %s basis" % (dim, bname))(_vectors(model, bname, dim, rc))
    case("C10", "%s fourier" % model, bounds="2 points, Fourier basis", limit=200)(_vectors(model, "fourier", 1, True))
for model in ALL:
    case("C10", "%s tensor product" % model, bounds="2 points, 2 dimensions, product of polynomials")(_vectors(model, "tensor", 2, True))
    for dim in (1, 2):
        case("C10", "%s combination dim=%d" % (model, dim), bounds="2 points, %d dimensions, linear and polynomial functions together" % dim)(_vectors(model, "combination", dim, True))
for model in ALL:
    for obs in ("f", "v"):
        case("C10", "%s observable %s" % (model, obs), bounds="2 points, 2 dimensions, equation of another observable than the default one")(_vectors(model, "polynomial 2", 2, True, obs=obs))
for model in VEL:
    case("C10", "%s polynomial with constant" % model, bounds="2 points, constant kept")(_vectors(model, "polynomial 2", 1, False))
    case("C10", "%s polynomial 2 dim=3" % model, tier="thorough", bounds="2 points, 3 dimensions")(_vectors(model, "polynomial 2", 3, True))


# --------------------------------------------------------------- C17
def fitted(h, model, deg, dim, nk=2, rc=True):
    import xarray as xr
    m = make(h, model, h.basis.PolynomialFeatures(deg=deg, remove_const=rc), dim)
    m.force_coeff = xr.DataArray(h.real("f", (int(m.N_basis_elt_force), dim)), dims=("dim_basis", "dim_x"))
    nkb = int(m.N_basis_elt_kernel)
    m.kernel = xr.DataArray(h.real("k", (nk, nkb, dim)), dims=("time_kernel", "dim_basis", "dim_x"), coords={"time_kernel": h.time(nk, m.dt)})
    return m


def _eval(model, deg, dim):
    def f(h):
        n = 2
        m = fitted(h, model, deg, dim)
        C = tr(m.force_coeff, "dim_basis", "dim_x")
        x = h.real("x", (n, dim))
        nb = (deg + 1) * dim
        B = np.concatenate([x**q if q else x * 0 + 1 for q in range(deg + 1)], axis=1)
        h.eq("force is the expansion on the basis", m.force_eval(x), B.dot(C[:nb]))
        if dim == 1:
            h.eq("force at points given as a vector", m.force_eval(x[:, 0]), B.dot(C[:nb]))
        h.eq("force at points of a dataset", m.force_eval(h.vb.xframe(x, h.time(n, m.dt, h.real("t0")))) if model != "Pos_gle_with_friction" else B.dot(C[:nb]), B.dot(C[:nb]))
        K = tr(m.kernel, "time_kernel", "dim_basis", "dim_x")
        ke = tr(m.kernel_eval(x), "time_kernel", "time", "dim_x", "dim_x'")
        if model in VEL:
            P = h.basis.PolynomialFeatures(deg=deg, remove_const=True).fit(h.basis.describe_from_dim(dim)).deriv(x)
        elif model == "Pos_gle_const_kernel":
            P = np.array([np.eye(dim)] * n)
        else:
            P = np.array([[[B[t, k]] * dim for k in range(nb)] for t in range(n)])
            if model == "Pos_gle_hybrid":
                h.eq("constant part of the kernel", tr(m.get_const_kernel_part(), "time_kernel", "dim_x") if dim == 1 else tr(m.get_const_kernel_part(), "time_kernel", "dim_basis", "dim_x"), K[:, 0] if dim == 1 else K[:, :dim])
                K = K[:, dim:]
        h.eq("kernel is the expansion on the basis", ke, np.array([[[[sum(K[i, k, l] * P[t, k, d] for k in range(P.shape[1])) for d in range(dim)] for l in range(dim)] for t in range(n)] for i in range(2)]))
        if model not in ("Pos_gle_with_friction",):
            c2 = h.real("c2", C.shape)
            import xarray as xr
            h.eq("force with other coefficients", m.force_eval(x, coeffs=xr.DataArray(c2, dims=("dim_basis", "dim_x"))), B.dot(c2))
        if model == "Pos_gle_with_friction":
            fe = np.asarray(m.friction_force_eval(x))
            h.eq("friction is the expansion on the derivatives", fe, np.array([[[sum(C[nb + k, l] * P[t, k, d] for k in range(P.shape[1])) for d in range(dim)] for l in range(dim)] for t in range(n)]))
        h.eq("coefficients untouched", tr(m.force_coeff, "dim_basis", "dim_x"), C)
    return f


for model in ALL:
    case("C17", "evaluation %s" % model, bounds="2 points, basis 1, x, x^2, 2 kernel times")(_eval(model, 2, 1))
for model in ALL:
    case("C17", "evaluation %s dim=2" % model, bounds="2 points, 2 dimensions, 4 basis functions")(_eval(model, 1, 2))


def _pmf(model, deg, mass):
    """the gradient of the free energy is minus the force (times mass, over kT) and its minimum is zero"""
    def f(h):
        import xarray as xr
        m = fitted(h, model, deg, 1)
        kT = h.real("kT", pos=True)
        M = 1
        if mass:
            M = h.real("mass", pos=True)
            m.eff_mass = xr.DataArray(np.array([[M]]), dims=("dim_x'", "dim_x"))
            if model == "Pos_gle_overdamped":
                M = 1
        x = h.real("x", (3, 1))
        raw = lambda q: m.pmf_eval(q, kT=kT, set_zero=False)
        h.deq("gradient of the free energy", h.jac(raw, x)[:, 0, 0] * kT, -1 * M * m.force_eval(x)[:, 0])
        p0, p1 = raw(x), m.pmf_eval(x, kT=kT)
        h.shape("free energy", p1, (3, 1))
        h.eq("setting the minimum shifts by a constant", p1[1:] - p1[:1], p0[1:] - p0[:1])
        h.eq("minimum is zero", h.np.min(p1), 0)
        for q in p1[:, 0]:
            h.le("free energy is not negative", 0, q)
        nb = deg + 1
        c2 = h.real("c2", (nb, 1))
        if model != "Pos_gle_with_friction":
            alt = lambda q: m.pmf_eval(q, coeffs=xr.DataArray(c2, dims=("dim_basis", "dim_x")), kT=kT, set_zero=False)
            h.deq("gradient with other coefficients", h.jac(alt, x)[:, 0, 0] * kT, -1 * M * sum(c2[q, 0] * x[:, 0] ** q if q else c2[0, 0] + 0 * x[:, 0] for q in range(nb)))
    return f


for model in ALL:
    for mass in (False, True):
        case("C17", "free energy %s%s" % (model, " with mass" if mass else ""), bounds="3 points, basis 1, x, x^2, any temperature")(_pmf(model, 2, mass))


def _invmass(h):
    import xarray as xr
    m = fitted(h, "Pos_gle", 1, 1)
    c = h.real("c", (2, 1, 1))
    m.inv_mass_coeff = xr.DataArray(c, dims=("dim_basis", "dim_x", "dim_x'"))
    x = h.real("x", (3, 1))
    want = np.array([[[c[0, 0, 0] + c[1, 0, 0] * q]] for q in x[:, 0]])
    h.eq("inverse mass is the expansion on the basis", m.inv_mass_eval(x), want)
    c2 = h.real("d", (2, 1, 1))
    h.eq("inverse mass with other coefficients", m.inv_mass_eval(x, coeffs=xr.DataArray(c2, dims=("dim_basis", "dim_x", "dim_x'"))), np.array([[[c2[0, 0, 0] + c2[1, 0, 0] * q]] for q in x[:, 0]]))


case("C17", "inverse mass", bounds="3 points, basis 1, x")(_invmass)


def _errors(h):
    """asking for what has not been computed is an error, never a number"""
    for model in ALL:
        m = make(h, model, h.basis.PolynomialFeatures(deg=1), 1)
        x = h.real("x", (2, 1))
        h.raises("force of %s before its computation" % model, m.force_eval, x)
        h.raises("free energy of %s before its computation" % model, m.pmf_eval, x)
        h.raises("kernel of %s before its computation" % model, m.kernel_eval, x)
        h.raises("inverse mass of %s before its computation" % model, m.inv_mass_eval, x)
        fr = frame(h, x, x, x)
        h.raises("noise of %s before its computation" % model, m.compute_noise, fr)
        h.raises("noise correlation of %s before its computation" % model, m.compute_corrs_w_noise, fr)
        h.raises("laplace transform of %s before its computation" % model, m.laplace_transform_kernel)
        if hasattr(m, "friction_force_eval"):
            h.raises("friction of %s before its computation" % model, m.friction_force_eval, x)
        if hasattr(m, "get_const_kernel_part"):
            h.raises("constant part of the kernel of %s before its computation" % model, m.get_const_kernel_part)


case("C17", "not computed", bounds="every model")(_errors)


def _numint(h):
    """numerical integration with a position dependent mass: increments are those of the rectangle rule"""
    import xarray as xr
    m = fitted(h, "Pos_gle", 1, 1)
    f = tr(m.force_coeff, "dim_basis", "dim_x")[:, 0]
    c0 = h.real("c0", pos=True)
    m.inv_mass_coeff = xr.DataArray(np.array([[[c0]], [[0 * c0]]]), dims=("dim_basis", "dim_x", "dim_x'"))
    dx = h.real("dx", pos=True)
    x0 = h.real("x0")
    x = np.array([x0 + i * dx for i in range(4)])
    p = m.pmf_num_int_eval(x, set_zero=False)
    h.eq("increments of the free energy for a constant mass", p[1:] - p[:-1], np.array([-1 * (f[0] + f[1] * q) / c0 * dx for q in x[1:]]))
    q = m.pmf_num_int_eval(x)
    h.eq("minimum is zero", h.np.min(q), 0)
    h.eq("setting the minimum shifts by a constant", q[1:] - q[:-1], p[1:] - p[:-1])
    y = x[::-1]
    p = m.pmf_num_int_eval(y, set_zero=False)
    h.eq("increments of the free energy at decreasing positions", p[1:] - p[:-1], np.array([(f[0] + f[1] * q) / c0 * dx for q in y[1:]]))


case("C17", "numerical free energy", bounds="4 equidistant points, constant mass, affine force")(_numint)


def _numint_pos(h):
    """mean square velocity depending on the position: the gradient of the free energy has its derivative (centred differences)"""
    import xarray as xr
    m = fitted(h, "Pos_gle", 1, 1)
    f = tr(m.force_coeff, "dim_basis", "dim_x")[:, 0]
    c = h.real("c", (2,))
    m.inv_mass_coeff = xr.DataArray(c.reshape(2, 1, 1), dims=("dim_basis", "dim_x", "dim_x'"))
    dx = h.real("dx", pos=True)
    x0 = h.real("x0")
    x = np.array([x0 + i * dx for i in range(4)])
    for q in x:
        h.assume(c[0] + c[1] * q > 0.01)
    p = m.pmf_num_int_eval(x, set_zero=False)
    h.eq("increments of the free energy", p[1:] - p[:-1], np.array([-1 * (f[0] + f[1] * q - c[1]) / (c[0] + c[1] * q) * dx for q in x[1:]]))
    h.eq("same on a column of points", m.pmf_num_int_eval(x.reshape(-1, 1), set_zero=False), p)


case("C17", "numerical free energy, position dependent mass", bounds="4 equidistant points, affine mean square velocity and force")(_numint_pos)


def _other_coeffs(model, dim):
    """evaluation with coefficients given by the user"""
    def f(h):
        import xarray as xr
        m = fitted(h, model, 2 if dim == 1 else 1, dim)
        x = h.real("x", (2, dim))
        nk = int(m.N_basis_elt_kernel)
        K = tr(m.kernel, "time_kernel", "dim_basis", "dim_x")
        k2 = h.real("k2", (3, nk, dim))
        P = tr(m.basis_vector(h.vb.xframe(x, h.time(2, m.dt), v=x, a=x), compute_for="kernel"), "time", "dim_basis", "dim_x")
        ev = lambda c: np.array([[[[sum(c[i, k, l] * P[t, k, d] for k in range(nk)) for d in range(dim)] for l in range(dim)] for t in range(2)] for i in range(len(c))])
        if model != "Pos_gle_hybrid":
            ke = m.kernel_eval(x, coeffs_ker=xr.DataArray(k2, dims=("time_kernel", "dim_basis", "dim_x")))
            h.eq("kernel with other coefficients", tr(ke, "time_kernel", "time", "dim_x", "dim_x'"), ev(k2))
            h.eq("kernel afterwards", tr(m.kernel_eval(x), "time_kernel", "time", "dim_x", "dim_x'"), ev(K))
            h.raises("coefficients of the kernel of another shape", m.kernel_eval, x, coeffs_ker=xr.DataArray(h.real("k3", (3, nk + 1, dim)), dims=("time_kernel", "dim_basis", "dim_x")))
        h.eq("kernel untouched", tr(m.kernel, "time_kernel", "dim_basis", "dim_x"), h.real("k", K.shape))
        if dim == 1 and model not in ("Pos_gle_with_friction", "Pos_gle_const_kernel"):
            bad = xr.DataArray(h.real("c3", (7, 1, 1)), dims=("dim_basis", "dim_x", "dim_x'"))
            h.raises("coefficients of the inverse mass of another shape", m.inv_mass_eval, x, coeffs=bad)
        if dim == 1:
            h.raises("coefficients of the free energy of another shape", m.pmf_eval, x, coeffs=xr.DataArray(h.real("c4", (7, 1)), dims=("dim_basis", "dim_x")))
            h.raises("coefficients of the force of another shape", m.force_eval, x, coeffs=xr.DataArray(h.real("c4", (7, 1)), dims=("dim_basis", "dim_x"))) if model != "Pos_gle_with_friction" else None
    return f


for model in ALL:
    for dim in (1, 2):
        case("C17", "coefficients given %s dim=%d" % (model, dim), bounds="2 points, 3 kernel times, %d coordinates" % dim)(_other_coeffs(model, dim))


def _pmf2(model, mass=False):
    """free energy in two coordinates: as documented, a sum of primitives weighted by the coefficients"""
    def f(h):
        import xarray as xr
        m = make(h, model, h.basis.LinearFeatures(), 2)
        C = h.real("f", (int(m.N_basis_elt_force), 2))
        m.force_coeff = xr.DataArray(C, dims=("dim_basis", "dim_x"))
        kT = h.real("kT", pos=True)
        M = np.eye(2)
        if mass:
            q = h.real("mass", (3,))
            M = np.array([[q[0], q[1]], [q[1], q[2]]])
            m.eff_mass = xr.DataArray(M, dims=("dim_x'", "dim_x"))
        x = h.real("x", (2, 2))
        p0, p1 = m.pmf_eval(x, kT=kT, set_zero=False), m.pmf_eval(x, kT=kT)
        want = -1 * (x**2 / 2).dot(C[:2]).dot(M) / kT
        h.eq("free energy", p0, want)
        if not mass:
            h.eq("minimum is zero", h.np.min(p1), 0)
        h.eq("setting the minimum shifts by a constant", p1[1] - p1[0], p0[1] - p0[0])
    return f


for model in ("Pos_gle", "Pos_gle_overdamped", "Pos_gle_no_vel_basis"):
    case("C17", "free energy two coordinates %s" % model, bounds="2 points, 2 coordinates, linear basis")(_pmf2(model))
    if model != "Pos_gle_overdamped":
        case("C17", "free energy two coordinates with mass %s" % model, bounds="2 points, 2 coordinates, linear basis, any symmetric mass")(_pmf2(model, True))
