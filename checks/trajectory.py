"""C01 finite differences, C02 periodic jumps, (x-frame construction)"""
import numpy as np
from vsym.runner import case


def col(a):
    return a.reshape(-1, 1) if a.ndim == 1 else a


def traj(h, n, dim, name="x"):
    return h.real(name, (n, dim))


def _va(n, dim):
    def f(h):
        dt = h.real("dt", pos=True)
        lam = h.real("lam")
        x = traj(h, n, dim)
        t = h.time(n, dt, t0=h.real("t0"))
        x_keep = x.copy()
        xf = h.vb.xframe(x, t)
        h.eq("frame holds the positions", xf["x"].data, x)
        h.eq("frame holds the times", xf["time"].data, t)
        h.eq("frame holds the step", xf.attrs["dt"], dt)
        for lab, kw, l in (("default", {}, 0.5), ("lamb", {"lamb_finite_diff": lam}, lam)):
            r = h.vb.compute_va(xf, **kw)
            h.shape("va %s length" % lab, r["x"], (n - 2, dim))
            h.eq("va %s x" % lab, r["x"].data, x[1:-1])
            h.eq("va %s time" % lab, r["time"].data, t[1:-1])
            h.eq("va %s v" % lab, r["v"].data, (l * (x[2:] - x[1:-1]) + (1 - l) * (x[1:-1] - x[:-2])) / dt)
            h.eq("va %s a" % lab, r["a"].data, (x[2:] - 2 * x[1:-1] + x[:-2]) / dt**2)
            h.eq("va %s dt" % lab, r.attrs["dt"], dt)
        r = h.vb.compute_va_gjf(xf)
        h.eq("gjf x", r["x"].data, x[1:-1])
        h.eq("gjf time", r["time"].data, t[1:-1])
        h.eq("gjf v", r["v"].data, (x[1:-1] - x[:-2]) / dt)
        h.eq("gjf a", r["a"].data, (x[2:] - 2 * x[1:-1] + x[:-2]) / dt**2)
        h.eq("gjf dt", r.attrs["dt"], dt)
        h.eq("input untouched", x, x_keep)
        h.eq("frame untouched", xf["x"].data, x_keep)
    return f


for n, dim in ((4, 1), (5, 1), (4, 2), (6, 3)):
    case("C01", "compute_va n=%d dim=%d" % (n, dim), bounds="%d time points, %d dimensions; positions, step, start time and lambda symbolic" % (n, dim))(_va(n, dim))
for n, dim in ((9, 2), (12, 1)):
    case("C01", "compute_va n=%d dim=%d" % (n, dim), tier="thorough", bounds="%d time points, %d dimensions" % (n, dim))(_va(n, dim))


def _frame(n, dim):
    def f(h):
        dt = h.real("dt", pos=True)
        t = h.time(n, dt, h.real("t0"))
        x, v, a = h.real("x", (n, dim)), h.real("v", (n, dim)), h.real("a", (n, dim))
        fr = h.vb.xframe(x, t, v=v)
        h.same("variables of x,v frame", sorted(fr.data_vars), ["v", "x"])
        h.eq("xv frame x", fr["x"].data, x)
        h.eq("xv frame v", fr["v"].data, v)
        h.eq("xv frame time", fr["time"].data, t)
        h.eq("xv frame dt", fr.attrs["dt"], dt)
        fr = h.vb.xframe(x, t, v=v, a=a)
        h.same("variables of x,v,a frame", sorted(fr.data_vars), ["a", "v", "x"])
        h.eq("xva frame x", fr["x"].data, x)
        h.eq("xva frame v", fr["v"].data, v)
        h.eq("xva frame a", fr["a"].data, a)
        h.eq("xva frame time", fr["time"].data, t)
        h.eq("xva frame dt", fr.attrs["dt"], dt)
        if dim == 1:
            fr = h.vb.xframe(x[:, 0], t, v=v[:, 0], a=a[:, 0])
            for k, w in (("x", x), ("v", v), ("a", a)):
                h.eq("1D frame %s" % k, fr[k].data, w)
            fr = h.vb.xframe(list(x[:, 0]), list(t))
            h.eq("list frame x", fr["x"].data, x)
            h.eq("list frame time", fr["time"].data, t)
    return f


def _fixtime(n):
    def f(h):
        dt = h.real("dt", pos=True)
        x = h.real("x", (n, 1))
        jit = h.real("j", n, lo=-0.01, hi=0.01)
        t = np.array([3 + dt * i + jit[i] for i in range(n)])
        fr = h.vb.xframe(x, t, fix_time=True, dt=dt)
        want = np.array([i * dt for i in range(n)])
        h.eq("fixed time", fr["time"].data, want)
        h.eq("fixed dt", fr.attrs["dt"], dt)
        h.eq("fixed x", fr["x"].data, x)
        r = h.vb.compute_va(fr)
        h.eq("fixed va v", r["v"].data, (x[2:] - x[:-2]) / (2 * dt))
        h.eq("fixed va time", r["time"].data, want[1:-1])
    return f


def _fixround(h):
    """the first step is rounded to round_time and the grid rebuilt from it"""
    n = 4
    x = h.real("x", (n, 1))
    s = h.real("s", lo=0.26, hi=0.84, box=(0.26, 0.84))
    t = np.array([0.5 + 0 * s, 0.5 + s, 0.5 + 2.01 * s, 0.5 + 3 * s])
    fr = h.vb.xframe(x, t, fix_time=True, round_time=0.5)
    dt = fr.attrs["dt"]
    h.le("rounded step is within half a unit", dt - s, 0.25)
    h.le("rounded step is within half a unit (other side)", s - dt, 0.25)
    h.true("rounded step is a multiple of the unit", (dt == 0.5) | (dt == 1.0))
    h.eq("rounded grid", fr["time"].data, np.array([i * dt for i in range(n)]))


def _fromvel(n, dim):
    def f(h):
        dt = h.real("dt", pos=True)
        t = h.time(n, dt, t0=h.real("t0"))
        x, v = h.real("x", (n, dim)), h.real("v", (n, dim))
        fr = h.vb.xframe(x, t, v=v)
        r = h.vb.compute_a_from_vel(fr)
        h.shape("a_from_vel length", r["a"], (n - 2, dim))
        h.eq("a_from_vel x", r["x"].data, x[1:-1])
        h.eq("a_from_vel v", r["v"].data, v[1:-1])
        h.eq("a_from_vel time", r["time"].data, t[1:-1])
        h.eq("a_from_vel a", r["a"].data, (v[2:] - v[:-2]) / (2 * dt))
        h.eq("a_from_vel dt", r.attrs["dt"], dt)
        r = h.vb.compute_a(fr)
        h.shape("compute_a length", r["a"], (n - 2, dim))
        h.eq("compute_a x", r["x"].data, x[1:-1])
        h.eq("compute_a v", r["v"].data, v[1:-1])
        h.eq("compute_a time", r["time"].data, t[1:-1])
        h.eq("compute_a a", r["a"].data, (x[2:] - 2 * x[1:-1] + x[:-2]) / dt**2)
        h.eq("compute_a dt", r.attrs["dt"], dt)
        h.eq("frame untouched", fr["x"].data, x)
        h.eq("frame velocities untouched", fr["v"].data, v)
        u = h.vb.concat_underdamped(r)
        h.eq("underdamped x", u["x"].data, np.concatenate([x[1:-1], v[1:-1]], axis=1))
        h.eq("underdamped v", u["v"].data, np.concatenate([v[1:-1], (x[2:] - 2 * x[1:-1] + x[:-2]) / dt**2], axis=1))
        h.eq("underdamped time", u["time"].data, t[1:-1])
        h.eq("underdamped dt", u.attrs["dt"], dt)
    return f


for n, dim in ((4, 1), (4, 2)):
    case("C01", "xframe with v,a n=%d dim=%d" % (n, dim), bounds="%d time points, %d dimensions" % (n, dim))(_frame(n, dim))
for n, dim in ((4, 1), (5, 2)):
    case("C01", "accelerations from velocities n=%d dim=%d" % (n, dim), bounds="%d time points, %d dimensions" % (n, dim))(_fromvel(n, dim))
case("C01", "regularised time axis, step given", bounds="5 time points, jitter up to 0.01, step symbolic")(_fixtime(5))
case("C01", "regularised time axis, step rounded", bounds="4 time points, unit 0.5, first step in [0.26, 0.84]")(_fixround)


# ------------------------------------------------------------------ C02
def _jump_free(n, dim, which, default):
    """every displacement pattern: the displacement used is the one of the nearest image"""

    def f(h):
        dt = h.real("dt", pos=True)
        x = h.real("x", (n, dim), box=(-4.0, 4.0))
        kw = {}
        if default:
            L, T = 2 * h.pi, 1.75 * h.pi
        else:
            L = h.real("L", pos=True, box=(1.0, 3.0))
            T = h.real("T", pos=True, box=(0.6, 2.5))
            h.assume(2 * T > L)
            h.assume(T < L)
            kw = {"jump": L, "jump_thr": T}
        d = x[1:] - x[:-1]
        h.assume(d.ravel()[0] < 2 * L)
        fr = h.vb.xframe(x, h.time(n, dt, h.real("t0")))
        fn = h.vb.compute_va if which == "va" else h.vb.compute_va_gjf
        r = fn(fr, correct_jumps=True, **kw)

        def image(z):
            if z <= -T:
                return z + L
            if z >= T:
                return z - L
            return z

        D = np.empty(d.shape, dtype=d.dtype)
        for i in np.ndindex(*d.shape):
            D[i] = image(d[i])
        h.eq("jump corrected v", r["v"].data, ((D[1:] + D[:-1]) / 2 if which == "va" else D[:-1]) / dt)
        h.eq("jump corrected a", r["a"].data, (D[1:] - D[:-1]) / dt**2)
        h.eq("positions kept", r["x"].data, x[1:-1])
        h.same("kept points", r["x"].shape[0], n - 2)
    return f


def _unwrap(n, dim, which, default, ks):
    """a wrapped trajectory gives the velocities and accelerations of the unwrapped one"""

    def f(h):
        dt = h.real("dt", pos=True)
        y0 = h.real("y", dim)
        d = h.real("d", (n - 1, dim), box=(-0.2, 0.2))
        kw = {}
        if default:
            L, T = 2 * h.pi, 1.75 * h.pi
        else:
            L = h.real("L", pos=True, box=(2.0, 3.0))
            T = h.real("T", pos=True, box=(1.0, 1.7))
            h.assume(T < L)
            kw = {"jump": L, "jump_thr": T}
        for z in d.ravel():
            h.assume(z < T)
            h.assume(-T < z)
            h.assume(z < L - T)
            h.assume(T - L < z)
        y = [y0]
        for i in range(n - 1):
            y.append(y[-1] + d[i])
        y = np.array(y)
        k = np.array(ks).reshape(n, -1)[:, :dim]
        x = y + L * k
        fn = h.vb.compute_va if which == "va" else h.vb.compute_va_gjf
        r = fn(h.vb.xframe(x, h.time(n, dt, h.real("t0"))), correct_jumps=True, **kw)
        h.eq("unwrapped v", r["v"].data, (d[1:] + d[:-1]) / 2 / dt if which == "va" else d[:-1] / dt)
        h.eq("unwrapped a", r["a"].data, (d[1:] - d[:-1]) / dt**2)
        plain = fn(h.vb.xframe(y, h.time(n, dt, h.real("t0"))))
        h.eq("same v as unwrapped trajectory", r["v"].data, plain["v"].data)
        h.eq("same a as unwrapped trajectory", r["a"].data, plain["a"].data)
    return f


for which in ("va", "gjf"):
    for default in (True, False):
        nm = "%s %s period" % (which, "default" if default else "given")
        case("C02", "nearest image %s n=3" % nm, bounds="3 points, 1 dimension, all displacements", max_paths=80)(_jump_free(3, 1, which, default))
        case("C02", "unwrap %s dim=1" % nm, bounds="5 points, crossings up, down, none", max_paths=80)(_unwrap(5, 1, which, default, [0, -1, -1, 0, 1]))
        case("C02", "unwrap %s dim=2" % nm, bounds="4 points, 2 dimensions, independent crossings", max_paths=80)(_unwrap(4, 2, which, default, [0, 0, -1, 0, -1, 1, 0, 1]))
        case("C02", "nearest image %s n=4" % nm, tier="thorough", bounds="4 points, 1 dimension, all displacements", max_paths=200)(_jump_free(4, 1, which, default))
        case("C02", "nearest image %s n=3 dim=2" % nm, tier="thorough", bounds="3 points, 2 dimensions, all displacements", max_paths=400)(_jump_free(3, 2, which, default))
