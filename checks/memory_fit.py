"""C21 fits of the memory kernel and their evaluation"""
import contextlib

import numpy as np
import xarray as xr
from vsym.runner import case
from vsym import core
from checks._common import tr

NAMES = {
    "exp": ("exp", "exponential"), "expnorm": ("expnorm", "exp_norm"), "doubleexpnorm": ("doubleexpnorm", "double_exp_norm"),
    "sech": ("sech",), "sech_one": ("sech_one",), "sech_two": ("sech_two",), "gaussian": ("gaussian",),
}
NPAR = {"exp": 2, "expnorm": 1, "doubleexpnorm": 3, "sech": 3, "sech_one": 2, "sech_two": 2, "gaussian": 2}


def formula(h, kind, t, q):
    """the documented functions"""
    ex = h.np.exp
    if kind == "exp":
        return q[0] * ex(-q[1] * t)
    if kind == "expnorm":
        return ex(-q[0] * t)
    if kind == "doubleexpnorm":
        return q[2] * ex(-q[0] * t) + (1 - q[2]) * ex(-q[1] * t)
    if kind == "gaussian":
        return q[0] * ex(-q[1] * t * t)
    ch = h.np.cosh(q[1] * t)
    return q[0] / {"sech": lambda: ch ** q[2], "sech_one": lambda: ch, "sech_two": lambda: ch * ch}[kind]()


def params(h, kind, name):
    """any parameters; the exponent of the general hyperbolic secant is an integer"""
    q = [h.real(name + str(i)) for i in range(NPAR[kind])]
    return q


class Fitter:
    """stands for scipy.optimize.curve_fit: any parameters may come out; what it was asked is kept"""

    def __init__(self, h, npar):
        self.h, self.npar, self.calls = h, npar, []

    def __call__(self, f, xdata, ydata, p0=None, *a, **k):
        q = np.array([self.h.real("theta%d_%d" % (len(self.calls), i), lo=0.2, hi=1.5) for i in range(self.npar)], dtype=object if self.h.sym else float)
        self.calls.append((f, xdata, ydata, p0, a, k, q))
        return q, np.eye(self.npar)


@contextlib.contextmanager
def fitter(h, npar):
    """puts the stand-in wherever the package gets curve_fit from"""
    m, F = h.mod("fit_memory"), Fitter(h, npar)
    opt = m.scipy.optimize if hasattr(m, "scipy") else None
    old = []
    for o in (opt, m):
        if o is not None and hasattr(o, "curve_fit"):
            old.append((o, o.__dict__.get("curve_fit")))
            setattr(o, "curve_fit", F)
    try:
        yield F
    finally:
        for o, f in old:
            if f is None:
                delattr(o, "curve_fit")
            else:
                setattr(o, "curve_fit", f)


def val(x):
    return x.to_numpy() if hasattr(x, "to_numpy") else np.asarray(x)


def _eval(kind, n):
    def f(h):
        t = h.real("t", (n,))
        q = [h.real("q%d" % i, lo=0.1, hi=2) for i in range(NPAR[kind])]
        for nm in NAMES[kind]:
            a = h.vb.memory_fit_eval(t, (nm, q))
            h.eq("value of %s" % nm, a, np.array([formula(h, kind, x, q) for x in t], dtype=object if h.sym else float))
            h.eq("same with the type given apart", h.vb.memory_fit_eval(t, q, type=nm), a)
            h.eq("same with times as coordinates", val(h.vb.memory_fit_eval(xr.DataArray(t, dims=("time_kernel",)), (nm, q))), a)
        h.raises("unknown type", lambda: h.vb.memory_fit_eval(t, ("unknown", q)), Exception)
    return f


def _fit(kind, nm, wrap):
    def f(h):
        n = 5
        t, y = h.time(n, h.real("dt", pos=True), h.real("t0")), h.real("y", (n,))
        tt, yy = (xr.DataArray(t, dims=("time_kernel",)), xr.DataArray(y, dims=("time_kernel",))) if wrap == "xarray" else (t.reshape(-1, 1), y) if wrap == "column" else (t, y)
        with fitter(h, NPAR[kind]) as F:
            r = h.vb.memory_fit(tt, yy, nm, maxfev=77)
        h.same("one fit", len(F.calls), 1)
        g, xd, yd, p0, a, k, q = F.calls[0]
        h.eq("times given to the fit", val(xd).ravel(), t)
        h.eq("data given to the fit", val(yd).ravel(), y)
        h.true("all the data weigh the same", k.get("sigma") is None and len([z for z in a if z is not None]) == 0 and k.get("bounds") is None)
        h.same("options are passed on", k.get("maxfev"), 77)
        if p0 is not None:
            h.same("number of initial values", len(p0), NPAR[kind])
        z, s = h.real("z", (NPAR[kind],), lo=0.1, hi=2), h.real("s", (3,))
        h.eq("function that is fitted", val(g(s, *list(z))), np.array([formula(h, kind, x, list(z)) for x in s], dtype=object if h.sym else float))
        h.eq("the result evaluates to the fitted function", val(h.vb.memory_fit_eval(s, r)), np.array([formula(h, kind, x, list(q)) for x in s], dtype=object if h.sym else float))
        h.raises("data of several components", lambda: h.vb.memory_fit(t, np.stack([y, y], 1), nm), ValueError)
    return f


def _kernel(kind, nb, dim, wrap):
    def f(h):
        n = 4
        t, K = h.time(n, h.real("dt", pos=True), h.real("t0")), h.real("k", (n, nb, dim))
        tt, KK = (xr.DataArray(t, dims=("time_kernel",)), xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"))) if wrap else (t, K)
        with fitter(h, NPAR[kind]) as F:
            r = h.vb.memory_fit_kernel(tt, KK, type=kind, maxfev=55)
        h.same("number of fits", len(F.calls), nb * dim)
        h.true("options are passed on", all(c[5].get("maxfev") == 55 for c in F.calls))
        s = h.real("s", (3,))
        out = val(h.vb.memory_kernel_eval(s, r))
        h.shape("shape of the evaluated kernel", out, (3, nb, dim))
        h.eq("same with the type given apart", val(h.vb.memory_kernel_eval(s, r[1], type=r[0])), out)
        h.eq("same with the parameters in tuples", val(h.vb.memory_kernel_eval(s, tuple(tuple(q) for q in r[1]), type=r[0])), out)
        h.eq("same with all of it in tuples", val(h.vb.memory_kernel_eval(s, (r[0], tuple(tuple(q) for q in r[1])))), out)
        h.eq("same with the pair in a list", val(h.vb.memory_kernel_eval(s, [r[0], list(r[1])])), out)
        for k in range(nb):
            for d in range(dim):
                mine = [c for c in F.calls if all(core.lift(x) is core.lift(y) if h.sym else x == y for x, y in zip(val(c[2]).ravel(), K[:, k, d]))]
                h.same("component %d %d is fitted once" % (k, d), len(mine), 1)
                if len(mine) == 1:
                    h.eq("component %d %d" % (k, d), out[:, k, d], np.array([formula(h, kind, x, list(mine[0][6])) for x in s], dtype=object if h.sym else float))
    return f


for kind in NAMES:
    case("C21", "values of %s" % kind, bounds="2 times")(_eval(kind, 2))
    for nm in NAMES[kind]:
        for wrap in ("xarray", "column", "plain") if nm == "exp" else ("xarray",):
            case("C21", "fit of %s %s" % (nm, wrap), bounds="5 times; any outcome of the optimiser")(_fit(kind, nm, wrap))
for kind, nb, dim, wrap in (("exp", 2, 2, True), ("exp", 3, 1, False), ("gaussian", 1, 3, True), ("sech", 2, 2, False), ("doubleexpnorm", 2, 3, True)):
    case("C21", "kernel of %d functions dim=%d with %s%s" % (nb, dim, kind, " xarray" if wrap else ""), bounds="4 times, %d functions, %d coordinates; any outcome of the optimiser" % (nb, dim))(_kernel(kind, nb, dim, wrap))


@case("C21", "unknown type", bounds="any data")
def _unknown(h):
    t, y = h.time(4, h.real("dt", pos=True)), h.real("y", (4,))
    h.raises("fit", lambda: h.vb.memory_fit(t, y, "unknown"), ValueError)
    h.raises("fit of a kernel", lambda: h.vb.memory_fit_kernel(t, y.reshape(4, 1, 1), "unknown"), ValueError)


def _friction(n, nb, dim):
    def f(h):
        dt = h.real("dt", pos=True)
        t, K = h.time(n, dt, h.real("t0")), h.real("k", (n, nb, dim))
        r = h.mod("fit_memory").markovian_friction(t, K)[1]
        h.same("number of coordinates", len(r), dim)
        for d in range(dim):
            h.same("number of functions", len(r[d]), nb)
            for k in range(nb):
                w = [1] + [4, 2] * ((n - 3) // 2) + [4, 1]
                h.eq("integral of the kernel", val(r[d][k]), dt / 3 * sum(w[i] * K[i, k, d] for i in range(n)))
    return f


case("C21", "friction 3 times", bounds="3 times, 2 functions, 2 coordinates")(_friction(3, 2, 2))
case("C21", "friction 7 times", bounds="7 times, 1 function, 3 coordinates")(_friction(7, 1, 3))


@case("C21", "asymptotic fit of the integral", bounds="6 times; any outcome of the optimiser")
def _asym(h):
    n = 6
    t, y = h.time(n, h.real("dt", pos=True), t0=h.real("t0")), h.real("y", (n,))
    with fitter(h, 2) as F:
        r = h.mod("fit_memory").asymptotic_fit_integral(t, y)
    g, xd, yd, p0, a, k, q = F.calls[0]
    I = [0]
    for i in range(1, n):
        I.append(I[-1] + (t[i] - t[i - 1]) * (y[i] + y[i - 1]) / 2)
    h.eq("times", val(xd), t[n // 2:])
    h.eq("integral", val(yd), np.array(I[n // 2:]))
    s, z = h.real("s", lo=0.5, hi=3), h.real("z", (2,))
    h.assume(s > 0.25)
    h.eq("fitted function", val(g(s, *list(z))), z[0] + z[1] / s)
    h.eq("parameters", val(r), q)


# ---- Prony series ------------------------------------------------------------------------------
def power(z, i):
    r = 1
    for _ in range(i):
        r = r * z
    return r


def _jacobi(n, rank, N_keep=None, T=None):
    """sums of exponentials, sampled: the first entry of the powers of the matrix gives back the samples"""
    def f(h):
        m = 2 * n + 1 if T is None else T
        z = [h.real("z%d" % i, lo=0.2 + 0.5 * i, hi=0.4 + 0.5 * i) for i in range(rank)]
        for i in range(rank):
            h.assume(z[i] > 0.125 + 0.5 * i)
            h.assume(z[i] < 0.5 + 0.5 * i)
        if rank == 2:
            w = h.real("w", lo=0.3, hi=0.7)
            h.assume(w > 0.25)
            h.assume(w < 0.75)
            y = [w * power(z[0], i) + (1 - w) * power(z[1], i) for i in range(m)]
        else:
            y = [power(z[0], i) + 0 * z[0] for i in range(m)]
        y = np.array(y, dtype=object if h.sym else float)
        if rank == 2:  # the two exponentials are told apart
            m2 = [y[i + k] * y[j + l] - y[i + l] * y[j + k] for i in range(n) for j in range(i + 1, n + 1) for k in range(n) for l in range(k + 1, n + 1)]
            h.assume(h.cut(sum(x * x for x in m2)) > 0.0001)
        e = h.cut(sum(x * x for x in (y[i + j] for i in range(n + 1) for j in range(n + 1))))
        h.assume(e < 16)
        h.assume(e > 0.9)
        P = h.mod("fit_prony")
        J, H = P.get_jacobi_matrix_reduced(y, N_keep=N_keep)
        h.shape("one exponential per row", J, (rank, rank))
        for i in range(n + 1):
            for j in range(n + 1):
                h.eq("nothing is filtered", val(H)[i, j], y[i + j])
        if J.shape != (rank, rank):
            return
        M = np.array([[1 if i == j else 0 for j in range(rank)] for i in range(rank)], dtype=object if h.sym else float)
        for i in range(1, 2 * n + 1):
            M = M.dot(J)
            h.eq("sample %d" % i, M[0, 0], y[i])
    return f


case("C21", "prony matrix of one exponential, 3 samples", bounds="3 samples, decay per sample in (1/8, 1/2)")(_jacobi(1, 1))
case("C21", "prony matrix of one exponential, 5 samples", bounds="5 samples, decay per sample in (1/8, 1/2)")(_jacobi(2, 1))
case("C21", "prony matrix of one exponential, 6 samples", bounds="6 samples, decay per sample in (1/8, 1/2)")(_jacobi(2, 1, T=6))
case("C21", "prony matrix of one exponential, more terms allowed", bounds="5 samples")(_jacobi(2, 1, N_keep=2))
case("C21", "prony matrix of two exponentials, 5 samples", bounds="5 samples, two decays, any positive weights", limit=200)(_jacobi(2, 2))


@case("C21", "prony matrix of two exponentials of opposite signs", bounds="5 samples, two decays, weights of opposite signs", limit=200)
def _opposite(h):
    _jacobi_of(h, [h.real("z0", lo=0.2, hi=0.4), h.real("z1", lo=0.7, hi=0.9)], h.real("w", lo=1.3, hi=1.9), (1.25, 2))


@case("C21", "prony matrix of an alternating and a decaying exponential", bounds="5 samples, one negative and one positive decay", limit=200)
def _alternating(h):
    _jacobi_of(h, [h.real("z0", lo=-0.8, hi=-0.4), h.real("z1", lo=0.4, hi=0.8)], h.real("w", lo=0.3, hi=0.7), (0.25, 0.75))


def _jacobi_of(h, z, w, wb, n=2):
    h.assume(w > wb[0])
    h.assume(w < wb[1])
    for q in z:
        h.assume(q > -1)
        h.assume(q < 1)
    y = np.array([w * power(z[0], i) + (1 - w) * power(z[1], i) for i in range(2 * n + 1)], dtype=object if h.sym else float)
    m2 = [y[i + k] * y[j + l] - y[i + l] * y[j + k] for i in range(n) for j in range(i + 1, n + 1) for k in range(n) for l in range(k + 1, n + 1)]
    e = h.cut(sum(x * x for x in (y[i + j] for i in range(n + 1) for j in range(n + 1))))
    h.assume(h.cut(sum(x * x for x in m2)) > 0.0001)
    h.assume(e < 256)
    h.assume(e > 0.9)
    d = y[2] - y[1] * y[1]
    h.assume(d * d > 0.0001)
    J, H = h.mod("fit_prony").get_jacobi_matrix_reduced(y)
    h.shape("one exponential per row", J, (2, 2))
    M = J
    for i in range(1, 2 * n + 1):
        h.eq("sample %d" % i, M[0, 0], y[i])
        M = M.dot(J)
    h.eq("filtered data", h.mod("fit_prony").prony_inspect_data(3 * y), 3 * y)


def _more(N_keep):
    """allowing more terms than there are changes nothing"""
    def f(h):
        y = h.real("y", (3,), lo=0.2, hi=1)
        for q in (y[0], y[2]):
            h.assume(q > 0.125)
            h.assume(q < 2)
        h.assume(y[0] - y[2] > 0.01)
        y[1] = 0 * y[1]
        P = h.mod("fit_prony")
        a, b = P.get_jacobi_matrix_reduced(y), P.get_jacobi_matrix_reduced(y, N_keep=N_keep)
        h.eq("matrix", b[0], a[0])
        h.eq("filtered data", b[1], a[1])
        h.eq("filtered data of the inspection", P.prony_inspect_data(y, N_keep=N_keep), P.prony_inspect_data(y))
    return f


for N in (2, 3, 50):
    case("C21", "prony with up to %d terms on alternating data" % N, bounds="3 samples, the second zero")(_more(N))


def _fewer(N_keep):
    """keeping fewer terms than there are: the filtered data have that rank, the matrix that size"""
    def f(h):
        n = 2
        z = [h.real("z0", lo=0.2, hi=0.4), h.real("z1", lo=0.7, hi=0.9)]
        w = h.real("w", lo=0.3, hi=0.7)
        h.assume(z[0] > 0.125), h.assume(z[0] < 0.5), h.assume(z[1] > 0.625), h.assume(z[1] < 1)
        h.assume(w > 0.25), h.assume(w < 0.75)
        y = np.array([w * power(z[0], i) + (1 - w) * power(z[1], i) for i in range(2 * n + 1)], dtype=object if h.sym else float)
        e = h.cut(sum(x * x for x in (y[i + j] for i in range(n + 1) for j in range(n + 1))))
        h.assume(e < 16)
        h.assume(e > 0.9)
        P = h.mod("fit_prony")
        try:
            J, H = P.get_jacobi_matrix_reduced(y, N_keep=N_keep)
        except ValueError:  # everything filtered out
            return
        h.true("no more terms than asked for", J.shape[0] == J.shape[1] <= N_keep)
        H = val(H)
        for i in range(n):
            for j in range(n):
                h.eq("rank of the filtered data", H[i, j] * H[i + 1, j + 1], H[i, j + 1] * H[i + 1, j])
        D = P.prony_inspect_data(3 * y, N_keep=N_keep)
        h.eq("filtered data", D, 3 * np.concatenate([H[:, 0], H[-1, 1:]]))
    return f


case("C21", "prony with fewer terms", bounds="5 samples of two exponentials, one term kept", limit=200)(_fewer(1))


@case("C21", "prony with a threshold", bounds="5 samples of an exponential, thresholds below and above the singular values")
def _threshold(h):
    n = 2
    z = h.real("z", lo=0.2, hi=0.4)
    h.assume(z > 0.125), h.assume(z < 0.5)
    y = np.array([power(z, i) + 0 * z for i in range(2 * n + 1)], dtype=object if h.sym else float)
    e = h.cut(sum(x * x for x in (y[i + j] for i in range(n + 1) for j in range(n + 1))))
    h.assume(e < 16), h.assume(e > 0.9)
    P, M = h.mod("fit_prony"), h.mod("fit_memory")
    t = h.time(2 * n + 1, 0.5)
    J, H = P.get_jacobi_matrix_reduced(y, thres=0.5)
    h.shape("one exponential", J, (1, 1))
    h.eq("decay", val(J)[0, 0], z)
    h.eq("filtered data", P.prony_inspect_data(2 * y, thres=0.5), 2 * y)
    h.raises("threshold above everything", lambda: P.get_jacobi_matrix_reduced(y, thres=20.0))
    h.raises("fit with a threshold above everything", lambda: M.memory_fit(t, y, "prony", thres=20.0))
    h.raises("fit of a kernel with a threshold above everything", lambda: M.memory_fit_kernel(t, y.reshape(-1, 1, 1), "prony", thres=20.0))
    for kw in ({"thres": 20.0}, {"thres": 20.0, "N_keep": 1}, {"thres": 20.0, "N_keep": 2}):
        for name, f in (("series", lambda: P.prony_fit_times_serie(y, 0.5, **kw)), ("components of a kernel", lambda: P.prony_fit_kernel(t, y.reshape(-1, 1, 1), **kw)), ("memory", lambda: M.memory_fit(t, y, "prony", **kw)), ("memory kernel", lambda: M.memory_fit_kernel(t, y.reshape(-1, 1, 1), "prony", **kw))):
            h.raises("fit of the %s refused with %s" % (name, sorted(kw)), f)
    for kw in ({"thres": 0.5, "N_keep": 1}, {"thres": 0.5, "N_keep": 3}):
        J, H = P.get_jacobi_matrix_reduced(y, **kw)
        h.shape("one exponential, at most %d" % kw["N_keep"], J, (1, 1))
        h.eq("its decay, at most %d" % kw["N_keep"], val(J)[0, 0], z)
        h.eq("filtered data, at most %d" % kw["N_keep"], P.prony_inspect_data(2 * y, **kw), 2 * y)
    h.eq("filtered data with a threshold above everything", P.prony_inspect_data(y, thres=20.0), 0 * y)


@contextlib.contextmanager
def eigen(h, lam, V):
    """eigenvalues and eigenvectors known to the caller (the matrix was built from them)"""
    m = h.mod("fit_prony")
    if not h.sym:
        yield
        return
    L = m.np.linalg
    old = L.eig
    L.eig = lambda a: (np.array(list(lam) + [None], dtype=object)[:-1], np.array(V, dtype=object))
    try:
        yield
    finally:
        L.eig = old


def _log(n):
    """the matrix of the series is the logarithm of the matrix of the samples"""
    def f(h):
        dt = h.real("dt", pos=True)
        lam = [h.real("l%d" % i, lo=0.1 + 0.8 * i / n, hi=0.3 + 0.6 * i / n) for i in range(n)]
        for l in lam:
            h.assume(l > 0)
            h.assume(l < 1)
        V = h.real("v", (n, n), lo=-0.3, hi=0.3)
        V = V + np.eye(n, dtype=int) * 2
        V = np.array(V, dtype=object if h.sym else float)
        Vi = h.np.linalg.inv(V)
        mk = lambda q: V.dot(np.array([[q[i] if i == j else 0 * q[i] for j in range(n)] for i in range(n)], dtype=object if h.sym else float)).dot(Vi)
        J = mk(lam)
        for remove in (True, False):
            with eigen(h, lam, V):
                A = h.mod("fit_prony").clean_eigenvalues(J, dt, remove=remove)
            h.eq("logarithm, remove=%s" % remove, A, mk([h.np.log(l) / dt for l in lam]))
        h.same("no more terms", A.shape, (n, n))
    return f


case("C21", "logarithm of 1 decay", bounds="any decay in (0, 1), any time step")(_log(1))
case("C21", "logarithm of 2 decays", bounds="any two decays in (0, 1), any eigenvectors, any time step")(_log(2))
case("C21", "logarithm of 3 decays", bounds="any three decays in (0, 1), any eigenvectors, any time step", limit=200)(_log(3))


def _neg(n, k):
    """alternating components are carried by two conjugate exponents"""
    def f(h):
        dt = h.real("dt", pos=True)
        lam = [h.real("l%d" % i, lo=0.2, hi=0.9) for i in range(n)]
        for l in lam:
            h.assume(l > 0)
            h.assume(l < 1)
        lam[k] = -lam[k]
        V = h.real("v", (n, n), lo=-0.3, hi=0.3) + np.eye(n, dtype=int) * 2
        V = np.array(V, dtype=object if h.sym else float)
        D = lambda q: np.array([[q[i] if i == j else 0 * q[i] for j in range(n)] for i in range(n)], dtype=object if h.sym else float)
        J = V.dot(D(lam)).dot(h.np.linalg.inv(V))
        with eigen(h, lam, V):
            A = h.mod("fit_prony").clean_eigenvalues(J, dt)
        h.shape("one more exponent", A, (n + 1, n + 1))
        if A.shape != (n + 1, n + 1):
            return
        L = [h.np.log(-l if i == k else l) / dt for i, l in enumerate(lam)]
        A0 = A[:, :n]
        for i in range(n):
            u = A0.dot(V[:, i])
            h.eq("decay of component %d" % i, u[:n], L[i] * V[:, i])
            if i != k:
                h.eq("no frequency of component %d" % i, u[n], 0)
            else:  # (A - L)^2 is -(pi / dt)^2 on the plane of that component
                w = A.dot(u) - 2 * L[k] * u
                h.eq("frequency of component %d" % i, w, np.array([-((h.pi / dt) ** 2 + L[k] ** 2) * V[j, k] for j in range(n)] + [0], dtype=object if h.sym else float))
    return f


case("C21", "logarithm of an alternating decay", bounds="any decay in (-1, 0), any time step")(_neg(1, 0))
case("C21", "logarithm of a decay and an alternating one", bounds="any two decays of opposite signs, any eigenvectors, any time step", limit=200)(_neg(2, 1))
case("C21", "logarithm of an alternating decay and another one", bounds="any two decays of opposite signs, any eigenvectors, any time step", limit=200)(_neg(2, 0))


@case("C21", "diverging exponentials are removed", bounds="one decay above one, one below")
def _remove(h):
    dt = h.real("dt", pos=True)
    lam = [h.real("l0", lo=0.2, hi=0.8), h.real("l1", lo=1.2, hi=1.8)]
    h.assume(lam[0] > 0)
    h.assume(lam[0] < 1)
    h.assume(lam[1] > 1)
    V = h.real("v", (2, 2), lo=-0.3, hi=0.3) + np.eye(2, dtype=int) * 2
    V = np.array(V, dtype=object if h.sym else float)
    Vi = h.np.linalg.inv(V)
    D = lambda q: np.array([[q[0], 0 * q[0]], [0 * q[1], q[1]]], dtype=object if h.sym else float)
    J = V.dot(D(lam)).dot(Vi)
    with eigen(h, lam, V):
        A = h.mod("fit_prony").clean_eigenvalues(J, dt)
    h.shape("one term left", A, (1, 1))
    if A.shape == (1, 1):
        h.eq("the other one", A[0, 0], h.np.log(lam[0]) / dt)
    with eigen(h, lam, V):
        B = h.mod("fit_prony").clean_eigenvalues(J, dt, remove=False)
    h.eq("kept if asked", B, V.dot(D([h.np.log(l) / dt for l in lam])).dot(Vi))


def _series(nb, dim, n, wrap, N_keep=None):
    """one exponential per component of the kernel is found and evaluated back, between the samples too"""
    def f(h):
        dt = h.real("dt", pos=True)
        t = h.time(n, dt)
        K = np.empty((n, nb, dim), dtype=object if h.sym else float)
        a, z = h.real("a", (nb, dim), lo=0.5, hi=2), h.real("z", (nb, dim), lo=0.2, hi=0.9)
        m = (n - 1) // 2
        for k in range(nb):
            for d in range(dim):
                h.assume(a[k, d] > 0.25)
                h.assume(z[k, d] > 0)
                h.assume(z[k, d] < 1)
                for i in range(n):
                    K[i, k, d] = a[k, d] * power(z[k, d], i)
                e = h.cut(sum(x * x for x in (power(z[k, d], i + j) + 0 * z[k, d] for i in range(m + 1) for j in range(m + 1))))
                h.assume(e > 0.9)
                h.assume(e < 256)
        tt, KK = (xr.DataArray(t, dims=("time_kernel",)), xr.DataArray(K, dims=("time_kernel", "dim_basis", "dim_x"))) if wrap else (t, K)
        kw = {} if N_keep is None else {"N_keep": N_keep}
        s = h.real("s", (3,), lo=0, hi=3)
        lst = h.vb.prony_fit_kernel(tt, KK, **kw)
        par = h.vb.memory_fit_kernel(tt, KK, type="prony", **kw)
        want = np.array([[[a[k, d] * h.np.exp(q / dt * h.np.log(z[k, d])) for d in range(dim)] for k in range(nb)] for q in s], dtype=object if h.sym else float)
        h.eq("kernel at any times", val(h.vb.prony_series_kernel_eval(s, lst)), want)
        h.eq("kernel at any times, through the fits of the memory", val(h.vb.memory_kernel_eval(s, par)), want)
        h.eq("kernel at one time", val(h.vb.prony_series_kernel_eval(s[:1], lst)), want[:1])
        h.eq("kernel at one time, through the fits of the memory", val(h.vb.memory_kernel_eval(s[1:2], par)), want[1:2])
        k, d = nb - 1, dim - 1
        one = h.vb.prony_fit_times_serie(K[:, k, d], dt, **kw)
        h.eq("initial value", val(one[0]), a[k, d])
        h.eq("one series at one time", val(h.vb.prony_series_eval(s[2:], *one)), want[2:, k, d])
        h.eq("one series", val(h.vb.prony_series_eval(s, *one)), want[:, k, d])
        h.eq("one series, through the fits of the memory", val(h.vb.memory_fit_eval(s, h.vb.memory_fit(tt, K[:, k, d], "prony", **kw))), want[:, k, d])
        h.eq("filtered data", val(h.vb.prony_inspect_data(K[:, k, d], **kw)), K[:2 * m + 1, k, d])
    return f


@case("C21", "growing exponential kept if asked", bounds="5 samples, one growing exponential, any amplitude and rate")
def _growing(h):
    dt, a, z = h.real("dt", pos=True), h.real("a", lo=0.5, hi=2), h.real("z", lo=1.1, hi=1.6)
    h.assume(a > 0.25)
    h.assume(z > 1)
    h.assume(z < 2)
    y = np.array([a * power(z, i) for i in range(5)], dtype=object if h.sym else float)
    e = h.cut(sum(x * x for x in (power(z, i + j) + 0 * z for i in range(3) for j in range(3))))
    h.assume(e > 0.9)
    h.assume(e < 4096)
    s = h.real("s", (3,), lo=0, hi=3)
    want = np.array([a * h.np.exp(q / dt * h.np.log(z)) for q in s], dtype=object if h.sym else float)
    one = h.vb.prony_fit_times_serie(y, dt, remove=False)
    h.eq("initial value", val(one[0]), a)
    h.eq("series", val(h.vb.prony_series_eval(s, *one)), want)
    fit = h.vb.memory_fit(h.time(5, dt), y, "prony", remove=False)
    h.eq("through the fits of the memory", val(h.vb.memory_fit_eval(s, fit)), want)


case("C21", "prony series 5 samples", bounds="5 samples, one exponential, any amplitude and decay")(_series(1, 1, 5, False))
case("C21", "prony series 4 samples", bounds="4 samples, one exponential, any amplitude and decay")(_series(1, 1, 4, True))
case("C21", "prony series of a kernel", bounds="5 samples, one exponential per component, 2 functions, 3 coordinates")(_series(2, 3, 5, True))
case("C21", "prony series of a kernel, more terms allowed", bounds="5 samples, one exponential per component, 3 functions, 2 coordinates")(_series(3, 2, 5, False, N_keep=2))


def _expm(n):
    """any matrix: first entry of its exponential"""
    def f(h):
        A, y0 = h.real("A", (n, n), lo=-1, hi=0.5), h.real("y0")
        s = h.real("s", (2,), lo=0, hi=2)
        E = h.mod("fit_prony").scipy.linalg.expm
        want = np.array([y0 * E(q * A)[0, 0] for q in s])
        h.eq("series", val(h.vb.prony_series_eval(s, y0, A)), want)
        h.eq("series in a kernel", val(h.vb.prony_series_kernel_eval(s, [[(y0, A)]]))[:, 0, 0], want)
        h.eq("at the start", val(h.vb.prony_series_eval(np.array([0.0, 1.0]), y0, A))[0], y0)
    return f


case("C21", "series of a matrix 2", bounds="any 2x2 matrix, any times")(_expm(2))
case("C21", "series of a matrix 3", bounds="any 3x3 matrix, any times")(_expm(3))
