"""Harness API (class H) and the per-case decision procedure.

A case is a function `case(h)` that builds inputs through `h.real(...)`, drives the public API of
the package (`h.vb`, `h.basis`, `h.fk`) and states claims (`h.eq`, `h.le`, `h.true`, ...).  The very
same function is executed
  * symbolically: the package is /repo's current source run on symbolic inputs (all paths), every
    claim is negated and handed to the solver together with the assumptions and the path condition;
  * concretely: the real, unpatched package at a concrete point (replay of a counterexample, and
    validation of the encoding at points drawn from VERIF_SEED).
"""
import contextlib
import io
import math
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback
import warnings
import zlib
from fractions import Fraction

import numpy as np

from . import core, smt, gimple, loader
from .core import Sym, SymBool, Unsupported, PathAbort, Ctx, lift

TOL = 1e-7


class Skip(Exception):
    """the concrete point does not satisfy the assumptions"""


class Undefined(Exception):
    """numeric oracle not defined at this point (kink)"""


def _patch_xarray():
    """mean of an object array: xarray converts to float; symbolic entries stay exact"""
    from xarray.core import nanops

    old = nanops._nanmean_ddof_object

    def mean(ddof, value, axis=None, dtype=None, **kw):
        if any(isinstance(x, Sym) for x in np.asarray(value).ravel()):
            n = value.size if axis is None else int(np.prod([value.shape[i] for i in np.atleast_1d(axis)]))
            return np.sum(value, axis=axis) / (n - ddof)
        return old(ddof, value, axis=axis, dtype=dtype, **kw)

    nanops._nanmean_ddof_object = mean

    import xarray as xr

    bins_of = xr.Dataset.groupby_bins

    def groupby_bins(self, group, bins, right=True, labels=None, precision=3, include_lowest=False, squeeze=True, restore_coord_dims=False):
        if all(v.dtype != object for v in self.data_vars.values()) and not any(isinstance(b, Sym) for b in np.ravel(bins)):
            return bins_of(self, group, bins, right=right, labels=labels, precision=precision, include_lowest=include_lowest, squeeze=squeeze, restore_coord_dims=restore_coord_dims)
        if np.ndim(bins) != 1 or labels is not None:
            raise Unsupported("groupby_bins with %s" % ("labels" if labels is not None else "a number of bins"))
        return SymBins(self.compute(), group.compute() if hasattr(group, "compute") else group, list(bins), right, include_lowest)

    xr.Dataset.groupby_bins = groupby_bins
    fill_of = xr.Dataset.fillna

    def fillna(self, value):
        if isinstance(value, (int, float)) and any(v.dtype == object for v in self.data_vars.values()):
            value = lift(value)
            return self.map(lambda v: v if v.dtype != object else v.copy(data=np.array([value if isinstance(x, float) and x != x else x for x in v.data.ravel()], dtype=object).reshape(v.shape)))
        return fill_of(self, value)

    xr.Dataset.fillna = fillna
    _patch_dask()


def _patch_dask():
    """dask sizes its chunks by bytes: symbolic entries count as the floats they stand for"""
    try:
        import dask.array.core as dac
    except ImportError:
        return
    auto = dac.auto_chunks

    def auto_chunks(chunks, shape, limit, dtype, *a, **kw):
        return auto(chunks, shape, limit, np.dtype(float) if np.dtype(dtype).hasobject else dtype, *a, **kw)

    dac.auto_chunks = auto_chunks


class SymBins:
    """Dataset.groupby_bins by its contract: every point is put in its cell (a fork per edge)"""

    def __init__(self, ds, group, edges, right, lowest):
        self.ds, self.edges = ds, edges
        g = ds[group] if isinstance(group, str) else group
        self.name = "%s_bins" % g.name
        self.dims = g.dims
        self.cell = []
        for x in g.data.ravel():
            k = None
            for i in range(len(edges) - 1):
                lo = x > edges[i] if right and not (lowest and i == 0) else x >= edges[i]
                hi = x <= edges[i + 1] if right else x < edges[i + 1]
                if bool(lo) and bool(hi):
                    k = i
                    break
            self.cell.append(k)
        if all(k is None for k in self.cell):
            raise ValueError("None of the data falls within bins with edges %r" % (edges,))

    def _reduce(self, f, empty):
        import xarray as xr

        out = {}
        for k, v in self.ds.data_vars.items():
            if not set(self.dims) <= set(v.dims):
                raise Unsupported("binned reduction of a variable without the dimensions of the group")
            w = v.transpose(*self.dims, *[d for d in v.dims if d not in self.dims]).data.reshape(len(self.cell), -1)
            r = np.empty(len(self.edges) - 1, dtype=object)
            for i in range(len(r)):
                c = [x for j, row in enumerate(w) if self.cell[j] == i for x in row]
                r[i] = f(c) if c else empty
                if f is not len and c:
                    r[i] = lift(r[i])
            out[k] = ((self.name,), r.astype(float) if f is len else r)
        return xr.Dataset(out)

    def sum(self, dim=None, **kw):
        return self._reduce(lambda c: sum(c[1:], c[0]), float("nan"))

    def count(self, dim=None, **kw):
        return self._reduce(len, float("nan"))

    def mean(self, dim=None, **kw):
        return self._reduce(lambda c: sum(c[1:], c[0]) / len(c), float("nan"))

    def __getattr__(self, k):
        raise Unsupported("groupby_bins().%s" % k)


class Env:
    """Everything loaded once per run: the real package, the symbolic package, the Fortran IR."""

    def __init__(self):
        _patch_xarray()
        self.real = loader.real_package()
        import importlib

        self.real_basis = importlib.import_module("VolterraBasis.basis")
        for m in ("correlation", "fit_memory", "fit_prony", "gle_integrate", "models", "gle_estimation", "fkernel"):
            try:
                importlib.import_module("VolterraBasis." + m)
            except Exception:
                pass
        self.pi = core.var("pi", pos=1)
        self.error = None
        try:
            self.machine = gimple.Machine(gimple.dump_gimple(os.path.join(loader.PKG, "fkernel.f90")))
            self.fm = gimple.FModule(self.machine, self.real.fkernel)
        except Exception as e:  # Fortran outside the supported IR subset
            self.error = "fortran: %r" % (e,)
            self.machine = None
            self.fm = None
        self.sym = loader.SymPackage(self.fm, self.pi)
        try:
            self.symvb = self.sym.load("")
            self.symbasis = self.sym.load("basis")
        except Exception as e:
            self.error = (self.error or "") + " python: %r" % (e,)
            self.symvb = None


def _unwrap(l):
    return [x.item() if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object else x for x in l]


def _flat(a):
    s, l = _flat0(a)
    return s, _unwrap([x.to_numpy().item() if hasattr(x, "to_numpy") and x.ndim == 0 else x for x in l])


def _flat0(a):
    if isinstance(a, (list, tuple)):
        a = np.array(a, dtype=object)
    if hasattr(a, "to_numpy"):
        a = a.to_numpy()
    if isinstance(a, np.ndarray):
        return a.shape, list(a.ravel())
    a = np.asarray(a) if hasattr(a, "__array__") else a
    if isinstance(a, np.ndarray):
        return a.shape, list(a.ravel())
    return (), [a]


class Claim:
    __slots__ = ("label", "kind", "a", "b", "tol", "path", "num")

    def __init__(self, label, kind, a, b, tol, num=False):
        self.label, self.kind, self.a, self.b, self.tol, self.num = label, kind, a, b, tol, num


class H:
    def __init__(self, env, mode, point=None, rnd=None, ctx=None):
        self.env = env
        self.mode = mode
        self.sym = mode == "sym"
        self.point = point
        self.rnd = rnd
        self.ctx = ctx
        self.claims = []
        self.decl = {}  # name -> (lo, hi) box
        self.used = {}
        if self.sym:
            self.vb = env.symvb
            self.basis = env.symbasis
            self.np = env.sym.np
            self.pi = env.pi
            self.fk = env.fm
        else:
            self.vb = env.real
            self.basis = env.real_basis
            self.np = np
            self.pi = math.pi
            self.fk = env.real.fkernel

    def mod(self, name):
        """a submodule of the package under analysis"""
        if self.sym:
            return self.env.sym.load(name)
        import importlib

        return importlib.import_module("VolterraBasis." + name)

    # ------------------------------------------------------------- inputs
    def _one(self, name, lo, hi, pos, box):
        if self.sym:
            v = core.var(name, pos=1 if pos else None)
            if name not in self.decl:
                self.decl[name] = box
                if lo is not None:
                    self.ctx.add_assumption(core.cmp("<=", lift(lo), v))
                if hi is not None:
                    self.ctx.add_assumption(core.cmp("<=", v, lift(hi)))
                if pos:
                    self.ctx.add_assumption(core.cmp("<", core.ZERO, v))
            return v
        if name in self.used:
            return self.used[name]
        self.decl[name] = box
        v = None
        if self.point is not None and name in self.point:
            v = float(self.point[name])
        if v is None:
            v = self.rnd.uniform(*box)
            v = round(v * 1024) / 1024.0  # dyadic: exact in both worlds
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (pos and v <= 0):
            raise Skip()
        self.used[name] = v
        return v

    def real(self, name, shape=None, lo=None, hi=None, pos=False, box=None):
        """arbitrary real number(s); box only guides counterexample search and sampling"""
        if box is None:
            box = (0.25 if pos else (-2.0 if lo is None else float(lo)), 2.0 if hi is None else float(hi))
        if shape is None:
            return self._one(name, lo, hi, pos, box)
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object if self.sym else float)
        for i in np.ndindex(*shape):
            a[i] = self._one(name + "_" + "_".join(map(str, i)), lo, hi, pos, box)
        return a

    def time(self, n, dt, t0=0.0):
        """uniform time grid with (symbolic) step"""
        return np.array([t0 + i * dt for i in range(n)] + [None], dtype=object)[:-1] if self.sym else np.array([t0 + i * dt for i in range(n)])

    def rng(self, name):
        """stand-in for the random source: arbitrary reals"""
        cnt = [0]

        def draw(*a, size=None, **k):
            cnt[0] += 1
            if size is None and a:
                size = a[-1]
            return self.real("%s%d" % (name, cnt[0]), size)

        return draw

    def assume(self, c):
        if self.sym:
            self.ctx.add_assumption(c)
        else:
            if not np.all(c):
                raise Skip()

    def cut(self, x):
        """the name given to this value in the encoding (same as the stubs use)"""
        return core.name_value(lift(x), "cut") if self.sym else x

    def cst(self, x):
        """array / number of exact constants"""
        if not self.sym:
            return np.asarray(x, dtype=float)
        return np.vectorize(lambda v: lift(v), otypes=[object])(np.asarray(x, dtype=object))

    # ------------------------------------------------------------- claims
    def eq(self, label, a, b, tol=TOL, num=False):
        sa, fa = _flat(a)
        sb, fb = _flat(b)
        if sa != sb:
            if sa == () or sb == ():
                fa = fa * len(fb) if sa == () else fa
                fb = fb * len(fa) if sb == () else fb
            else:
                self.claims.append(Claim(label + ": shape", "shape", sa, sb, tol))
                return
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.claims.append(Claim("%s[%d]" % (label, i), "eq", x, y, tol, num))

    def shape(self, label, a, shp):
        sa = tuple(a.shape)
        self.claims.append(Claim(label, "shape", sa, tuple(shp), 0))

    def same(self, label, a, b):
        """equality of concrete (non-symbolic) values"""
        self.claims.append(Claim(label, "shape", a, b, 0))

    def le(self, label, a, b, tol=TOL):
        for i, (x, y) in enumerate(zip(*self._bc(a, b))):
            self.claims.append(Claim("%s[%d]" % (label, i), "le", x, y, tol))

    def _bc(self, a, b):
        sa, fa = _flat(a)
        sb, fb = _flat(b)
        if len(fa) == 1 and len(fb) > 1:
            fa = fa * len(fb)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        return fa, fb

    def true(self, label, c):
        self.claims.append(Claim(label, "true", c, None, 0))

    def raises(self, label, f, *a, **k):
        try:
            f(*a, **k)
        except (Unsupported, PathAbort):
            raise
        except Exception:
            self.claims.append(Claim(label, "shape", "raises", "raises", 0))
            return
        self.claims.append(Claim(label, "shape", "no error", "raises", 0))

    # ------------------------------------------------------------- derivatives
    def jac(self, f, X):
        """d f(X)[n, k] / d X[n, d] of a row-wise map, shape (n, k, d)"""
        n, dim = X.shape
        if self.sym:
            Y = f(X)
            out = np.empty(Y.shape + (dim,), dtype=object)
            for i in np.ndindex(*Y.shape):
                memo = [{} for _ in range(dim)]
                for d in range(dim):
                    out[i + (d,)] = core.diff(lift(Y[i]), X[i[0], d], memo[d])
            return out
        cols = []
        with np.errstate(all="ignore"):
            for d in range(dim):
                g = []
                for hstep in (2e-4, 1e-4):
                    E = np.zeros_like(X)
                    E[:, d] = hstep
                    g.append((8 * (np.asarray(f(X + E / 2), float) - np.asarray(f(X - E / 2), float)) - (np.asarray(f(X + E), float) - np.asarray(f(X - E), float))) / (6 * hstep))
                if not (np.isclose(g[0], g[1], rtol=1e-5, atol=1e-6) | ~np.isfinite(g[0])).all():
                    raise Undefined()  # a kink between the points
                cols.append(g[1])
        return np.stack(cols, axis=-1)

    def deq(self, label, a, b):
        """equality between an analytic derivative and `jac` (numeric when replayed)"""
        self.eq(label, a, b, tol=1e-5, num=True)


# -------------------------------------------------------------------------- numeric claim evaluation
def num_ok(c, scale):
    """True/False/None on a concrete claim"""
    if c.kind == "shape":
        try:
            return bool(c.a == c.b)
        except Exception:
            return False
    if c.kind == "true":
        return bool(np.all(c.a))
    try:
        a, b = complex(c.a), complex(c.b)
    except TypeError:
        return bool(c.a == c.b)
    if a.imag or b.imag:
        return abs(a - b) <= c.tol * scale
    a, b = a.real, b.real
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    if c.kind == "eq":
        return abs(a - b) <= c.tol * scale
    if c.kind == "le":
        return a <= b + c.tol * scale
    raise ValueError(c.kind)


def group(label):
    return label.split("[")[0]


def scales(claims):
    s = {}
    for c in claims:
        if c.kind in ("eq", "le"):
            for x in (c.a, c.b):
                try:
                    v = abs(complex(x))
                except TypeError:
                    continue
                if v == v and v != float("inf"):
                    g = group(c.label)
                    s[g] = max(s.get(g, 1.0), v)
    return s


class Crash(Exception):
    pass


def _threads():
    """joblib workers as threads: no processes or shared memory left behind"""
    try:
        import joblib

        return joblib.parallel_backend("threading")
    except Exception:
        return contextlib.nullcontext()


class Ran:
    """what is kept of a harness that ran in a child process"""

    def __init__(self, used, decl):
        self.used, self.decl = used, decl


def _portable(c):
    def one(x):
        if isinstance(x, (bool, int, float, complex, str, np.generic)) or x is None:
            return x
        if isinstance(x, np.ndarray) and x.dtype != object and x.size < 1000:
            return x
        if isinstance(x, (tuple, list)):
            return type(x)(one(y) for y in x)
        return repr(x)[:200]

    if c.kind in ("shape", "true"):  # decided in the child
        ok = num_ok(c, 1.0)
        return Claim(c.label, "shape", one(c.a), one(c.b) if not ok else one(c.a), c.tol, c.num)
    return Claim(c.label, c.kind, one(c.a), one(c.b), c.tol, c.num)


REAL_TIMEOUT = 120


def run_real(env, fn, point=None, rnd=None):
    """run_real_here in a forked child: the real code may stop the process (Fortran STOP, segfault) or hang"""
    if rnd is None:
        rnd = random.Random(0)
    seed = rnd.random()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            st, cl, h, info = run_real_here(env, fn, point, random.Random(seed))
            if st == "bad":
                info = [_portable(c) for c in info]
            data = pickle.dumps((st, [_portable(c) for c in cl], dict(h.used), dict(h.decl), info))
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(wfd)
    data, t0 = b"", time.time()
    while True:
        rd, _, _ = select.select([rfd], [], [], 1.0)
        if rd:
            chunk = os.read(rfd, 1 << 20)
            if not chunk:
                break
            data += chunk
        elif time.time() - t0 > REAL_TIMEOUT:
            os.kill(pid, signal.SIGKILL)
            break
    os.close(rfd)
    os.waitpid(pid, 0)
    try:
        st, cl, used, decl, info = pickle.loads(data)
    except Exception:
        return "died", [], Ran({}, {}), "the process was stopped by the code under test"
    return st, cl, Ran(used, decl), info


def run_real_here(env, fn, point=None, rnd=None):
    """Execute the case on the real package.  Returns (status, claims, harness, info)."""
    h = H(env, "float", point=point, rnd=rnd or random.Random(0))
    old = core.CTX
    core.set_ctx(None)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()), _threads():
            warnings.simplefilter("ignore")
            fn(h)
    except Skip:
        return "skip", [], h, None
    except Undefined:
        return "undef", [], h, None
    except np.linalg.LinAlgError as e:
        return "singular", h.claims, h, "LinAlgError: %s" % (e,)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(f.filename.startswith(loader.PKG) for f in tb)
        return "raise", h.claims, h, "%s: %s%s" % (type(e).__name__, str(e)[:200], "" if inside else " (outside the package)")
    finally:
        core.set_ctx(old)
    sc = scales(h.claims)
    bad = []
    for c in h.claims:
        if not num_ok(c, sc.get(group(c.label), 1.0)):
            bad.append(c)
    return ("bad" if bad else "ok"), h.claims, h, bad


# -------------------------------------------------------------------------- symbolic exploration
class CaseResult(dict):
    pass


def _cond(c):
    """SymBool (or bool) that must hold"""
    if c.kind == "shape":
        try:
            return bool(c.a == c.b)
        except Exception:
            return False
    if c.kind == "true":
        if isinstance(c.a, (SymBool, bool, np.bool_)):
            return c.a
        if isinstance(c.a, np.ndarray):
            r = True
            for x in c.a.ravel():
                r = r & x if isinstance(x, SymBool) else (x if r is True else r & bool(x))
            return r
        return bool(c.a)
    a, b = c.a, c.b
    fa = isinstance(a, (float, np.floating)) and not math.isfinite(a)
    fb = isinstance(b, (float, np.floating)) and not math.isfinite(b)
    if fa or fb:
        return bool(fa and fb and (a == b or (a != a and b != b)))
    if isinstance(a, core.CycBase) or isinstance(b, core.CycBase):
        d = a - b
        d = lift(d.real) if hasattr(d, "real") else d
        return core.cmp("==", d, core.ZERO)
    a, b = lift(a), lift(b)
    if a.op == "const" and b.op == "const" and c.kind in ("eq", "le"):
        eps = Fraction(c.tol) * max(1, abs(a.val), abs(b.val))  # two computed floats
        return bool(a.val <= b.val + eps and (c.kind == "le" or b.val <= a.val + eps))
    return core.cmp("==" if c.kind == "eq" else "<=", a, b)


def _robust_neg(c, eps):
    a, b = lift(c.a), lift(c.b)
    e = core.const(eps)
    if c.kind == "eq":
        return (core.cmp("<", b + e, a)) | (core.cmp("<", a + e, b))
    return core.cmp("<", b + e, a)


def _with_margin(b, eps):
    """strict path condition kept away from its boundary; None when it is an equality"""
    if isinstance(b, bool):
        return b
    if b.op in ("<", "<="):
        return core.cmp("<", b.args[0] + core.const(eps), core.ZERO)
    if b.op == "==":
        return None
    if b.op == "!=":
        return b
    return b


def box_conds(decl, names):
    out = []
    for n in names:
        if n in decl:
            lo, hi = decl[n]
            v = core.var(n)
            out.append(core.cmp("<=", core.const(Fraction(lo).limit_denominator(1000)), v))
            out.append(core.cmp("<=", v, core.const(Fraction(hi).limit_denominator(1000))))
    return out


PI_CONDS = None


def pi_conds(env):
    return [core.cmp("<", core.const(Fraction(314159, 100000)), env.pi), core.cmp("<", env.pi, core.const(Fraction(31416, 10000)))]


class Decider:
    def __init__(self, env, fn, cfg, seed, deadline):
        self.env, self.fn, self.cfg, self.seed, self.deadline = env, fn, cfg, seed, deadline
        self.res = CaseResult(paths=0, aborted=0, decisions=0, claims=0, proved=0, proved_trivial=0, robust_only=0, unknown=[], violations=[], crashes=[], unsupported=[], calls=0, funcs=[], validated=0, mismatches=[], stmts=0, witness=None, samples=[], truncated=False)
        self.cex_tried = 0
        self.paths = []

    def feasible(self, ctx, c):
        if time.time() > self.deadline:
            raise Unsupported("time budget of the case exhausted")
        if isinstance(c, bool):
            return c
        if ctx.lemmas:  # a weaker system, without most of the facts: its answer counts only when it is "impossible"
            v, _ = smt.check(ctx.assume + ctx.path + ctx.lemmas[0] + [c], defs=ctx.defs, expand=False, timeout=2, kind="feas", strategy="nlsat")
            if v == "unsat":
                return False
        conds = ctx.assume + ctx.path + ctx.facts + [c]
        v, _ = smt.check(conds, defs=ctx.defs, expand=False, congruence=True, timeout=self.cfg.get("feas_timeout", 3), kind="feas", strategy="nlsat")
        if v == "unknown":
            v, _ = smt.check(conds, defs=ctx.defs, expand=True, congruence=True, timeout=2, kind="feas", strategy="default")
        return v != "unsat"

    def run(self):
        r = self.res
        rnd = random.Random(zlib.crc32(self.cfg["name"].encode()) ^ self.seed)
        self.points = self.sample_points(rnd, self.cfg.get("points", 3))
        if self.env.symvb is None or (self.env.error and self.cfg.get("fortran")):
            r["unsupported"].append("package not loadable symbolically: %s" % self.env.error)
            self.fallback()
            return r
        queue = [[]]
        maxp = self.cfg.get("max_paths", 64)
        self.paths = []
        while queue:
            if r["paths"] + r["aborted"] >= maxp or time.time() > self.deadline:
                r["truncated"] = True
                break
            prefix = queue.pop()
            ctx = Ctx(prefix, self.feasible, max_decisions=self.cfg.get("max_decisions", 200))
            ctx.assume += pi_conds(self.env)
            core.set_ctx(ctx)
            h = H(self.env, "sym", ctx=ctx)
            prof = {}

            def tracer(frame, event, arg):
                if event == "call":
                    f = frame.f_code
                    if f.co_filename.startswith(loader.PKG):
                        prof[(os.path.relpath(f.co_filename, loader.REPO), f.co_name)] = prof.get((os.path.relpath(f.co_filename, loader.REPO), f.co_name), 0) + 1

            crash = None
            g0 = getattr(self.env.machine, "steps", 0) if self.env.machine else 0
            try:
                sys.setprofile(tracer)
                try:
                    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
                        warnings.simplefilter("ignore")
                        self.fn(h)
                finally:
                    sys.setprofile(None)
            except PathAbort:
                r["aborted"] += 1
                queue += ctx.pending
                continue
            except Unsupported as e:
                r["unsupported"].append(str(e)[:300])
                queue += ctx.pending
                crash = ("unsupported", str(e))
            except Exception as e:
                crash = (type(e).__name__, str(e)[:300])
                tb = traceback.extract_tb(e.__traceback__)
                where = [(os.path.basename(f.filename), f.lineno) for f in tb][-3:]
                r["crashes"].append({"error": "%s: %s" % crash, "where": str(where)})
                queue += ctx.pending
            else:
                queue += ctx.pending
            r["paths"] += 1
            r["decisions"] += len(ctx.decisions)
            r["calls"] += sum(prof.values())
            if self.env.machine:
                r["stmts"] += getattr(self.env.machine, "steps", 0) - g0
            for k in prof:
                if list(k) not in r["funcs"]:
                    r["funcs"].append(list(k))
            core.set_ctx(ctx)
            self.cur = ctx
            self.paths.append((ctx, h, crash))
            if crash:
                self.on_crash(ctx, h, crash)
            if not crash or not r["violations"]:  # what was claimed before a path stopped is decided too
                self.decide(ctx, h)
            if len(r["violations"]) >= self.cfg.get("max_violations", 3):
                break
        self.validate()
        if r["unsupported"] or r["crashes"] or r["truncated"] or r["mismatches"]:
            self.fallback()
        return r

    # --------------------------------------------------------------- decide claims of one path
    def decide(self, ctx, h):
        r = self.res
        claims = h.claims
        r["claims"] += len(claims)
        todo = []
        triv = []
        for c in claims:
            k = _cond(c)
            if isinstance(k, (bool, np.bool_)):
                if k:
                    if c.kind == "eq" and isinstance(c.a, Sym) and isinstance(c.b, Sym) and c.a is c.b:
                        triv.append(c)
                        continue
                    r["proved"] += 1
                    r["proved_trivial"] += 1
                else:
                    self.refute(ctx, h, c, None)
                continue
            todo.append((c, k))
        base = [b for b in ctx.assume + ctx.path + ctx.facts if not isinstance(b, bool)]
        left = []
        CH = 40
        for i in range(0, len(triv), 200):
            part = triv[i : i + 200]
            for c, v in zip(part, smt.check_pairs([(c.a, c.b) for c in part], defs=ctx.defs)):
                if v == "unsat":
                    r["proved"] += 1
                    if len(r["samples"]) < 2:
                        r["samples"].append("negation of claim %s is unsat for all values of its variables" % c.label)
                else:  # canonical forms are the same object: the solver ran out of time, nothing else
                    r["unknown"].append(c.label + ": solver " + v)
        for i in range(0, len(todo), CH):
            part = todo[i : i + CH]
            vs = smt.check_many([k for _, k in part], defs=ctx.defs, timeout=self.cfg.get("t1", 4))
            for (c, k), v in zip(part, vs):
                if v == "unsat":
                    r["proved"] += 1
                    if len(r["samples"]) < 2:
                        r["samples"].append("negation of claim %s is unsat for all values of its variables" % c.label)
                else:
                    left.append((c, k))
        if not left:
            return
        left2 = []
        for i in range(0, len(left), CH):
            part = left[i : i + CH]
            vs = smt.check_many([k for _, k in part], defs=ctx.defs, timeout=self.cfg.get("t2", 8), conds=base, congruence=True)
            for (c, k), v in zip(part, vs):
                if v == "unsat":
                    r["proved"] += 1
                else:
                    left2.append((c, k))
        for i, lem in enumerate(ctx.lemmas):
            few = [b for b in (ctx.assume + ctx.path if i < 2 else []) + lem if not isinstance(b, bool)]
            vs = [smt.check(few + [core.bnot(k)], defs=ctx.defs, timeout=self.cfg.get("t2", 8) / 2)[0] for _, k in left2]
            r["proved"] += len([v for v in vs if v == "unsat"])
            left2 = [c for c, v in zip(left2, vs) if v != "unsat"]
        bad_groups = {}
        for c, k in left2:
            if time.time() > self.deadline:
                r["unknown"].append(c.label + ": time budget")
                continue
            g = group(c.label)
            if bad_groups.get(g, 0) >= 1:
                continue  # one counterexample per claim group is enough
            v, m = smt.check(base + [core.bnot(k)], defs=ctx.defs, expand=True, congruence=True, timeout=self.cfg.get("t3", 20), want=self.wanted(ctx, h, c))
            if v == "unsat":
                r["proved"] += 1
                continue
            if v == "unknown":
                v, m = smt.check(base + [core.bnot(k)], defs=ctx.defs, expand=True, congruence=True, timeout=self.cfg.get("t3", 20) / 2, want=self.wanted(ctx, h, c), strategy="default")
                if v == "unsat":
                    r["proved"] += 1
                    continue
            if self.refute(ctx, h, c, m if v == "sat" else None, base=base, unknown=(v != "sat")):
                bad_groups[g] = bad_groups.get(g, 0) + 1
                if len(r["violations"]) >= self.cfg.get("max_violations", 3):
                    return

    def wanted(self, ctx, h, c):
        return [core.var(n) for n in h.decl]

    # --------------------------------------------------------------- counterexamples
    def refute(self, ctx, h, c, model, base=None, unknown=False):
        """Find a concrete point at which the real code breaks claim c (same label group)."""
        r = self.res
        if base is None:
            base = [b for b in ctx.assume + ctx.path + ctx.facts if not isinstance(b, bool)]
        tried = []

        def attempt(m):
            pt = {k: float(v) for k, v in m.items() if k in h.decl}
            for n in h.decl:
                pt.setdefault(n, float(Fraction((h.decl[n][0] + h.decl[n][1]) / 2).limit_denominator(64)))
            tried.append(pt)
            return self.try_point(pt, c, "solver model")

        if model is not None and attempt(model):
            return True
        v2 = None
        if c.kind in ("eq", "le") and not isinstance(_cond(c), bool):
            marg = [_with_margin(b, Fraction(1, 1000)) for b in ctx.path]
            if all(m is not None for m in marg):
                conds = base + [m for m in marg if not isinstance(m, bool)] + [_robust_neg(c, Fraction(1, 1000))]
                v2, m = smt.check(conds + box_conds(h.decl, h.decl), defs=ctx.defs, expand=True, congruence=True, timeout=self.cfg.get("t4", 15), want=self.wanted(ctx, h, c))
                if v2 == "sat" and attempt(m):
                    return True
            else:
                v2 = "unsat"  # a measure-zero path: nothing robust to report
        else:
            conds = base + box_conds(h.decl, h.decl)
            v2, m = smt.check(conds, defs=ctx.defs, expand=True, congruence=True, timeout=10, want=self.wanted(ctx, h, c))
            if v2 == "sat" and attempt(m):
                return True
        # the claim is not valid in the encoding: look for a nearby point that shows it on the real code
        rnd = random.Random(self.seed * 7919 + zlib.crc32(c.label.encode()))
        for t in range(self.cfg.get("cex_samples", 12)):
            if time.time() > self.deadline + 30:
                break
            st, cl, hh, info = run_real(self.env, self.fn, point=None, rnd=rnd)
            if self.judge(st, cl, hh, info, c, "sampled after a non-unsat verdict"):
                return True
        if v2 == "unsat" and not unknown:
            r["robust_only"] += 1
            r["proved"] += 1
            return False
        r["unknown"].append("%s: %s but no counterexample reproduces on the real code" % (c.label, "solver unknown" if unknown else "sat"))
        return False

    def try_point(self, pt, c, how):
        st, cl, hh, info = run_real(self.env, self.fn, point=pt)
        return self.judge(st, cl, hh, info, c, how)

    def confirmed(self, hh, cl, b, generic):
        """rounding guard: the failing claim must also fail in exact arithmetic, or fail grossly"""
        if b.kind not in ("eq", "le"):
            return True
        scale = scales(cl).get(group(b.label), 1.0)
        try:
            a_, b_ = complex(b.a).real, complex(b.b).real
        except TypeError:
            return True
        gap = abs(a_ - b_) if b.kind == "eq" else a_ - b_
        gross = not (gap <= 1e-4 * scale)
        if gross and generic:
            return True
        env = {k: Fraction(v) for k, v in hh.used.items()}
        env["pi"] = Fraction(math.pi)
        for ctx, h, crash in self.paths:
            try:
                memo = {}
                if not all(core.qbool(x, env, memo, ctx.defs) for x in ctx.path):
                    continue
                for sc in h.claims:
                    if sc.label == b.label and sc.kind == b.kind:
                        d = core.qeval(lift(sc.a), env, memo, ctx.defs) - core.qeval(lift(sc.b), env, memo, ctx.defs)
                        return (abs(d) if b.kind == "eq" else d) > 0.1 * b.tol * scale
            except Exception:
                continue
        return gross

    def judge(self, st, cl, hh, info, c, how):
        if st == "bad":
            info = [b for b in info if self.confirmed(hh, cl, b, "solver model" not in how)]
            if not info:
                return False
        if st == "bad":
            bad = info
            same = [b for b in bad if c is None or group(b.label) == group(c.label)] or bad
            b = same[0]
            self.add_violation(hh.used, b, how)
            return True
        if st == "raise":
            self.add_violation(hh.used, None, how, err=info)
            return True
        return False

    def add_violation(self, used, claim, how, err=None):
        d = {"case": self.cfg["name"], "how": how, "point": dict(used)}
        if claim is not None:
            d["claim"] = claim.label
            d["got"] = repr(claim.a)[:120]
            d["expected"] = repr(claim.b)[:120]
        else:
            d["claim"] = "raises"
            d["error"] = err
        key = (d["case"], group(d["claim"]), (err or "")[:40])
        for o in self.res["violations"]:
            if (o["case"], group(o["claim"]), (o.get("error") or "")[:40]) == key:
                return
        self.res["violations"].append(d)

    def on_crash(self, ctx, h, crash):
        """the symbolic run raised: solve the path condition and run the real code there"""
        base = [b for b in ctx.assume + ctx.path + ctx.facts if not isinstance(b, bool)]
        v, m = smt.check(base + box_conds(h.decl, h.decl), defs=ctx.defs, expand=True, congruence=True, timeout=10, want=[core.var(n) for n in h.decl])
        if v != "sat":
            return
        pt = {k: float(x) for k, x in m.items() if k in h.decl}
        rnd = random.Random(self.seed)
        if crash[0] == "unsupported":
            return  # a gap of the encoding: fallback() runs the real code at generic points
        st, cl, hh, info = run_real(self.env, self.fn, point=pt, rnd=rnd)
        if st == "raise" and not str(info).startswith(crash[0] + ":"):
            return  # another error than the one of the symbolic run: degenerate point
        self.judge(st, cl, hh, info, None, "solver model of the path on which the symbolic run stopped with %s" % (crash,))

    # --------------------------------------------------------------- validation / fallback
    def sample_points(self, rnd, n):
        """points satisfying the assumptions, executed on the real package"""
        out = []
        tries = 0
        while len(out) < n and tries < 60 * n:
            tries += 1
            st, cl, hh, info = run_real(self.env, self.fn, point=None, rnd=rnd)
            if st in ("skip", "undef"):
                continue
            if st in ("singular", "died"):  # at a generic point this is not a degenerate input
                st = "raise"
            out.append((st, cl, hh, info))
        return out

    def validate(self):
        """compare encoding and implementation at concrete points, through both sides of every claim"""
        r = self.res
        badpts = []
        for st, cl, hh, info in self.points:
            if st in ("bad", "raise"):
                badpts.append((st, cl, hh, info))
                continue
            env = dict(hh.used)
            env["pi"] = math.pi
            for ctx, h, crash in self.paths:
                if crash:
                    continue
                memo = {}
                try:
                    if not all(core.beval(b, env, memo, ctx.defs) for b in ctx.path):
                        continue
                    if len(cl) != len(h.claims):
                        r["mismatches"].append("claim count %d vs %d" % (len(cl), len(h.claims)))
                        break
                    sc = scales(cl)
                    for rc, sc_ in zip(cl, h.claims):
                        if rc.kind not in ("eq", "le") or sc_.kind != rc.kind:
                            continue
                        for side in ("a", "b"):
                            x, y = getattr(rc, side), getattr(sc_, side)
                            if rc.num and side == "b":
                                continue
                            if isinstance(y, core.CycBase):
                                continue
                            y = core.feval(y, env, memo, ctx.defs)
                            try:
                                x, y = complex(x).real, complex(y).real
                            except TypeError:
                                continue
                            if x != x or y != y:
                                if (x != x) != (y != y):
                                    r["mismatches"].append("%s nan" % rc.label)
                                continue
                            if abs(x - y) > max(rc.tol, 1e-6) * 10 * sc.get(group(rc.label), 1.0):
                                r["mismatches"].append("%s: real %r encoding %r" % (rc.label, x, y))
                    r["validated"] += 1
                except (KeyError, Unsupported) as e:
                    r["mismatches"].append("not evaluable: %r" % (e,))
                break
        r["witness"] = len([1 for p in self.points if p[0] in ("ok", "bad", "raise")])
        r["mismatches"] = r["mismatches"][:5]
        # a validation point that breaks a claim on the real code is a violation in itself
        if badpts and not r["violations"]:
            if len(badpts) >= 2 or len(self.points) == len(badpts):
                st, cl, hh, info = badpts[0]
                self.judge(st, cl, hh, info, None, "validation point (encoding gap: %s)" % ("; ".join(r["mismatches"][:1] + r["unsupported"][:1]) or "none"))

    def fallback(self):
        """the encoding does not cover this case completely: replay the oracle on the real code only"""
        r = self.res
        if r["violations"]:
            return
        rnd = random.Random(self.seed * 31 + 5)
        pts = self.sample_points(rnd, self.cfg.get("fallback_points", 12))
        bad = [p for p in pts if p[0] in ("bad", "raise")]
        r["fallback_points"] = len(pts)
        if len(bad) >= 2 or (bad and len(bad) == len(pts)):
            st, cl, hh, info = bad[0]
            self.judge(st, cl, hh, info, None, "concrete replay, encoding incomplete: %s" % ("; ".join(r["unsupported"][:1] + [c["error"] for c in r["crashes"][:1]])))
