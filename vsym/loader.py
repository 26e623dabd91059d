"""Load /repo's current Python source with numpy/scipy/fkernel replaced by symbolic stand-ins,
and load the real package (rebuilding the extension if it is stale)."""
import ast
import builtins
import hashlib
import importlib
import os
import subprocess
import sys
import types

REPO = os.environ.get("VSYM_REPO", "/repo")
PKG = os.path.join(REPO, "VolterraBasis")

_real = None


def ensure_built():
    """Rebuild the f2py extension when it does not match the current Fortran source."""
    if os.environ.get("VSYM_PREBUILT"):
        return
    src = os.path.join(PKG, "fkernel.f90")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    rec = os.path.join(REPO, "build", "f2py", "source.sha256")
    so = [f for f in os.listdir(PKG) if f.startswith("fkernel") and f.endswith(".so")]
    try:
        ok = bool(so) and h in open(rec).read()
    except OSError:
        ok = False
    if not ok:
        subprocess.run(["bash", "/opt/vp/build.sh"], cwd=REPO, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600, check=True)


def real_package():
    global _real
    if _real is None:
        ensure_built()
        sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        import warnings

        warnings.filterwarnings("ignore")
        _real = importlib.import_module("VolterraBasis")
        if not os.path.abspath(_real.__file__).startswith(os.path.abspath(REPO)):
            raise RuntimeError("imported VolterraBasis from " + _real.__file__)
    return _real


class _Tr(ast.NodeTransformer):
    """float(x), x.astype(t), x.real and x.imag must accept symbolic values"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "float":
            n.func = ast.copy_location(ast.Name("__vs_float__", ast.Load()), n.func)
        elif isinstance(n.func, ast.Attribute) and n.func.attr == "astype":
            n = ast.copy_location(ast.Call(ast.Name("__vs_astype__", ast.Load()), [n.func.value] + n.args, n.keywords), n)
        return n


    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in ("real", "imag") and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("__vs_%s__" % n.attr, ast.Load()), [n.value], []), n)
        return n


class SymPackage:
    """The package under analysis, executed from source with symbolic stand-ins."""

    NAME = "VBSym"

    def __init__(self, fmodule, pi, optimize_overrides=None):
        from . import npshim

        self.np = npshim.make_numpy(pi)
        self.sp = npshim.make_scipy()
        self.fk = fmodule
        self.mods = {}
        self.npshim = npshim
        self.b = dict(vars(builtins))
        self.b["__import__"] = self._import
        self.b["__vs_float__"] = npshim.vs_float
        self.b["__vs_real__"] = npshim.vs_real
        self.b["__vs_imag__"] = npshim.vs_imag
        self.b["__vs_astype__"] = npshim.astype
        self.encoded = {}
        self.funcs = set()

    def load(self, sub=""):
        """sub: dotted path below the package ('' for the package itself)"""
        if sub in self.mods:
            return self.mods[sub]
        if sub == "fkernel":
            self.mods[sub] = self.fk
            return self.fk
        p = os.path.join(PKG, *sub.split(".")) if sub else PKG
        if os.path.isdir(p):
            path = os.path.join(p, "__init__.py")
            ispkg = True
        else:
            path = p + ".py"
            ispkg = False
        if not os.path.exists(path):
            raise ImportError("no module %s" % sub)
        src = open(path).read()
        full = self.NAME + ("." + sub if sub else "")
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if ispkg else full.rpartition(".")[0]
        m.__vs_sub__ = sub
        m.__vs_pkg__ = ispkg
        m.__dict__["__builtins__"] = self.b
        self.mods[sub] = m
        tree = ast.fix_missing_locations(_Tr().visit(ast.parse(src)))
        self.encoded[path] = hashlib.sha256(src.encode()).hexdigest()[:12]
        try:
            exec(compile(tree, path, "exec"), m.__dict__)
        except BaseException:
            del self.mods[sub]
            raise
        if sub:
            par, _, leaf = sub.rpartition(".")
            if par in self.mods:
                setattr(self.mods[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0 or name == "VolterraBasis" or name.startswith("VolterraBasis."):
            if level > 0:
                sub = globals.get("__vs_sub__", "")
                parts = sub.split(".") if sub else []
                if not globals.get("__vs_pkg__"):
                    parts = parts[:-1]
                for _ in range(level - 1):
                    parts = parts[:-1]
                target = ".".join(parts + ([name] if name else []))
            else:
                target = name[len("VolterraBasis"):].lstrip(".")
            m = self.load(target)
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f):
                    try:
                        setattr(m, f, self.load((target + "." + f).lstrip(".")))
                    except ImportError:
                        pass
            return m
        top = name.split(".")[0]
        if top == "numpy":
            m = self.np
            if fromlist:
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
            return m
        if top == "scipy":
            importlib.import_module(name)
            if not fromlist:
                return self.sp["scipy"]
            return self.sp.get(name) or importlib.import_module(name)
        if top == "sparse":
            return self.npshim.sparse
        if top == "joblib":
            return self.npshim.joblib
        return builtins.__import__(name, globals, locals, fromlist, level)
