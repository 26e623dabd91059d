"""Symbolic execution of Fortran subroutines from gfortran's GIMPLE dump.

The dump is produced by the compiler from /repo's current fkernel.f90 on every run
(`gfortran -O0 -fdump-tree-gimple`).  Integers, pointers and array descriptors are
concrete; double precision cells hold Sym values.  Buffers are bounds-checked and reads
of uninitialised cells are errors.  LAPACK and libgfortran entry points are stubs with
their documented meaning (matrix inverse/solve, matmul, pack/unpack).
"""
import os
import re
import shutil
import subprocess
import tempfile
from fractions import Fraction

import numpy as np

from . import core
from .core import Sym, Unsupported
from .linalg import sym_inv, sym_solve


class FortranError(Exception):
    """Undefined behaviour (out of bounds, uninitialised read) or STOP in the Fortran code."""


class Buffer:
    __slots__ = ("size", "cells", "name", "zero", "cut")

    def __init__(self, size, name="", zero=False):
        self.size = size
        self.cells = {}
        self.name = name
        self.zero = zero
        self.cut = False


class Ptr:
    __slots__ = ("buf", "off")

    def __init__(self, buf, off=0):
        self.buf = buf
        self.off = off

    def __add__(self, n):
        if n >= 1 << 63:
            n -= 1 << 64
        return Ptr(self.buf, self.off + n)

    def __radd__(self, n):
        return self + n

    def __sub__(self, o):
        if isinstance(o, Ptr):
            if o.buf is not self.buf:
                raise Unsupported("pointer difference across buffers")
            return self.off - o.off
        return self + (-o)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.buf is self.buf and o.off == self.off

    def __ne__(self, o):
        return not self == o

    def load(self, off=0):
        o = self.off + off
        b = self.buf
        if o < 0 or o >= b.size:
            raise FortranError("read out of bounds of %s: byte %d of %d" % (b.name, o, b.size))
        try:
            return b.cells[o]
        except KeyError:
            if b.zero:
                return core.ZERO
            raise FortranError("read of uninitialised memory in %s at byte %d" % (b.name, o))

    def store(self, v, off=0):
        o = self.off + off
        b = self.buf
        if o < 0 or o >= b.size:
            raise FortranError("write out of bounds of %s: byte %d of %d" % (b.name, o, b.size))
        if b.cut and type(v) is Sym and v.op not in ("const", "var"):
            v = core.name_value(v, b.name)
        b.cells[o] = v


NULL = Ptr(Buffer(0, "null"), 0)


class VarRef:
    __slots__ = ("env", "name")

    def __init__(self, env, name):
        self.env = env
        self.name = name

    def load(self, off=0):
        try:
            return self.env[self.name]
        except KeyError:
            raise FortranError("read of uninitialised variable %s" % self.name)

    def store(self, v, off=0):
        self.env[self.name] = v


class Struct(dict):
    pass


_TYPE = r"(?:struct\s+)?[A-Za-z_][\w]*(?:\(kind=\d+\))?(?:\s+long|\s+int|\s+char)?"


def dump_gimple(src):
    """Compile and return the gimple text."""
    d = tempfile.mkdtemp(prefix="vsym_gimple_")
    try:
        shutil.copy(src, os.path.join(d, "fkernel.f90"))
        p = subprocess.run(["gfortran", "-c", "-O0", "-fdump-tree-gimple", "fkernel.f90", "-o", "fkernel.o"], cwd=d, capture_output=True, text=True, timeout=300)
        if p.returncode != 0:
            raise Unsupported("gfortran failed: " + p.stderr[-400:])
        f = [x for x in os.listdir(d) if x.endswith(".gimple")]
        with open(os.path.join(d, f[0])) as fh:
            return fh.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Func:
    def __init__(self, name, params, ptypes):
        self.name = name
        self.params = params
        self.ptypes = ptypes
        self.code = []
        self.labels = {}
        self.vars = {}  # name -> type text
        self.lines = []
        self.nested = set()  # contained procedures, which see this one's variables
        self.host = None
        self.ambiguous = False


class ChainEnv(dict):
    """Variables of a contained procedure: what it does not declare belongs to its host."""

    def __init__(self, own, parent, f):
        super().__init__(own)
        self.parent = parent
        self.own = f.vars

    def _mine(self, k):
        return k in self.own or k.startswith("_") or re.search(r"_\d+$", k) or k not in self.parent

    def __missing__(self, k):
        return self.parent[k]

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.parent

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __setitem__(self, k, v):
        if self._mine(k):
            dict.__setitem__(self, k, v)
        else:
            self.parent[k] = v


_PROTO = re.compile(r"^static (?!const)[^=]*?([A-Za-z_]\w*) \(.*\);$")


def parse(text):
    funcs = {}
    lines = text.split("\n")
    i = 0
    hdr = re.compile(r"^(?:static\s+)?([A-Za-z_][\w\(\)= ]*?)\s*\b([a-z_][\w]*) \((.*)\)$")
    while i < len(lines):
        ln = lines[i]
        m = hdr.match(ln) if ln and not ln[0].isspace() and not ln.startswith("__attribute__") else None
        if m and i + 1 < len(lines) and lines[i + 1].strip() == "{":
            params, ptypes = [], []
            args = m.group(3)
            if args.strip() and args.strip() != "void":
                for a in _split_args(args):
                    mm = re.match(r"^(.*?)([A-Za-z_][\w.]*)$", a.strip())
                    params.append(mm.group(2))
                    ptypes.append(mm.group(1).strip())
            f = Func(m.group(2), params, ptypes)
            for p, t in zip(params, ptypes):
                f.vars[p] = t
            i += 1
            depth = 0
            while i < len(lines):
                s = lines[i].strip()
                if s == "{":
                    depth += 1
                elif s == "}":
                    depth -= 1
                    if depth == 0:
                        break
                elif s:
                    f.lines.append(s)
                i += 1
            f.lines, protos = [x for x in f.lines if not _PROTO.match(x)], [_PROTO.match(x).group(1) for x in f.lines if _PROTO.match(x)]
            f.nested = set(protos)
            if f.name in funcs:
                f.ambiguous = funcs[f.name].ambiguous = True
            else:
                funcs[f.name] = f
        i += 1
    for f in funcs.values():
        for nm in f.nested:
            if nm in funcs:
                g = funcs[nm]
                if g.host is not None:
                    g.ambiguous = True
                g.host = f.name
    return funcs


def _split_args(s):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            if ch in ")]}>":
                depth -= 1
            if ch == "," and depth == 0:
                out.append(cur)
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur)
    return out


_ID = r"[A-Za-z_][\w.]*"
_FIELD = re.compile(r"^(%s?)(\.|->)(data|offset|span|dtype(?:\.\w+)?|dim\[\d+\]\.(?:lbound|ubound|stride))$" % _ID)
_NUM = re.compile(r"^-?\d+(\.\d*)?(e[+-]?\d+)?$")
_DECL = re.compile(r"^(?:static\s+|const\s+|volatile\s+)*((?:struct\s+)?[A-Za-z_]\w*(?:\(kind=\d+\))?(?:\s+(?:long|int|char))*(?:\s*\[[^\]]*\])?(?:\s*[\*&])?(?:\s*restrict)?)\s+(%s)(\[[^\]]*\])*(\s*=\s*.*)?;$" % _ID)
_CASTT = r"\((?:integer\(kind=\d+\)|real\(kind=\d+\)|logical\(kind=\d+\)|sizetype|ssizetype|bitsizetype|unsigned long|unsigned int|long int|unsigned char|int|void \*|[\w\(\)= ]+\[[^\]]*\] \*(?: restrict)?|struct [\w\(\)=]+ \*|character\(kind=1\)[^\)]*|real\(kind=\d+\) \*|integer\(kind=\d+\) \*)\)"
_CAST = re.compile(r"^(%s) (.+)$" % _CASTT)
_BINOPS = ["%[fl]", "/[fl]", "%[cl]", "/[cl]", "/[ex]", "==", "!=", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%", "&", "|", "<", ">", "^"]


def _wrapped(rv, t):
    """Arithmetic on 32-bit unsigned variables (step counts of do loops) wraps."""
    def g(env):
        v = rv(env)
        return wrap_int(v, t) if type(v) is int else v
    return g


def wrap_int(v, t):
    if isinstance(v, Sym):
        return v
    if "unsigned int" in t:
        return v & 0xFFFFFFFF
    if "unsigned long" in t or "sizetype" in t and "bit" not in t:
        return v & 0xFFFFFFFFFFFFFFFF
    if "kind=4" in t:
        v &= 0xFFFFFFFF
        return v - (1 << 32) if v >= 1 << 31 else v
    if "kind=8" in t:
        v &= 0xFFFFFFFFFFFFFFFF
        return v - (1 << 64) if v >= 1 << 63 else v
    return v


class Machine:
    def __init__(self, text):
        self.funcs = parse(text)
        self.used = set()
        self.steps = 0
        self.max_steps = 3_000_000
        self.compiled = {}

    # ---- expression compilation: returns function(env) -> value
    def operand(self, f, s):
        s = s.strip()
        if _NUM.match(s):
            if "." in s or "e" in s:
                v = core.const(core.snap(float(s)))
                return lambda env: v
            v = int(s)
            return lambda env: v
        if s in ("0B",):
            return lambda env: NULL
        if s.startswith("&"):
            return self.address(f, s[1:])
        if s.startswith('"'):
            return lambda env: s
        if s.startswith("(") and s.endswith(")") and re.match(r"^\(+%s\)+$" % _ID, s):
            return self.operand(f, s.strip("()"))
        return self.load(f, s)

    def lvalue(self, f, s):
        """returns function(env) -> (ref with load/store, byte offset)"""
        s = s.strip()
        m = _FIELD.match(s)
        if m and not (s in f.vars):
            base, arrow, field = m.groups()
            if arrow == ".":
                return lambda env: (FieldRef(env[base], field), 0)
            return lambda env: (FieldRef(deref_struct(env, base), field), 0)
        m = re.match(r"^\(\*(%s)\)\[(.+)\]$" % _ID, s)
        if m:
            p, idx = m.groups()
            io = self.operand(f, idx)
            sz = elem_size(self.vartype(f, p))
            return lambda env: (getv(env, p), io(env) * sz)
        m = re.match(r"^MEM <(.*?)(?:\[.*?\])?> \[\((.*)\)(%s)(?: \+ (-?\d+)B)?\](?:\[(.+)\])?$" % _ID, s)
        if m:
            t, _, p, boff, idx = m.groups()
            sz = elem_size(t)
            bo = int(boff or 0)
            if idx is None:
                return lambda env: (getv(env, p), bo)
            io = self.operand(f, idx)
            return lambda env: (getv(env, p), bo + io(env) * sz)
        m = re.match(r"^MEM\[\((.*?)(?:\[.*?\])? \*[^)]*\)(%s)(?: \+ (-?\d+)B)?\](?:\[(.+)\])?$" % _ID, s)
        if m:
            t, p, boff, idx = m.groups()
            sz = elem_size(t)
            bo = int(boff or 0)
            if idx is None:
                return lambda env: (getv(env, p), bo)
            io = self.operand(f, idx)
            return lambda env: (getv(env, p), bo + io(env) * sz)
        m = re.match(r"^\*(%s)$" % _ID, s)
        if m:
            p = m.group(1)
            return lambda env: (getv(env, p), 0)
        m = re.match(r"^(%s)\[(.+)\]$" % _ID, s)
        if m:
            p, idx = m.groups()
            io = self.operand(f, idx)
            sz = elem_size(self.vartype(f, p))
            return lambda env: (getv(env, p), io(env) * sz)
        if re.match(r"^%s$" % _ID, s):
            return lambda env: (VarRef(env, s), 0)
        raise Unsupported("gimple lvalue: " + s)

    def load(self, f, s):
        if re.match(r"^%s$" % _ID, s) and (s in f.vars or not _FIELD.match(s)):
            def g(env):
                try:
                    return env[s]
                except KeyError:
                    raise FortranError("read of uninitialised variable %s" % s)
            return g
        lv = self.lvalue(f, s)

        def h(env):
            r, o = lv(env)
            return r.load(o)
        return h

    def address(self, f, s):
        s = s.strip()
        if s.startswith('"'):
            return lambda env: s
        if re.match(r"^%s$" % _ID, s) and (s in f.vars or not _FIELD.match(s)):
            def g(env):
                v = env.get(s)
                if isinstance(v, (Struct, LocalArray)):
                    return v if isinstance(v, Struct) else v.ptr
                return VarRef(env, s)
            return g
        lv = self.lvalue(f, s)

        def h(env):
            r, o = lv(env)
            return r + o if isinstance(r, Ptr) else r
        return h

    def rvalue(self, f, s):
        s = s.strip()
        if s == "{}" or s.startswith("{CLOBBER"):
            return None
        m = re.match(r"^(MAX_EXPR|MIN_EXPR) <(.+), (.+)>$", s)
        if m:
            a, b = self.operand(f, m.group(2)), self.operand(f, m.group(3))
            if m.group(1) == "MAX_EXPR":
                return lambda env: _max(a(env), b(env))
            return lambda env: _min(a(env), b(env))
        m = re.match(r"^\.ANNOTATE \((.+?), .*\)$", s)
        if m:
            return self.operand(f, m.group(1))
        m = re.match(r"^ABS_EXPR <(.+)>$", s)
        if m:
            a = self.operand(f, m.group(1))
            return lambda env: abs(a(env))
        m = re.match(r"^(%s) \((.*)\)$" % _ID, s)
        if m and not s.startswith("MEM"):
            return self.call(f, m.group(1), m.group(2))
        m = _CAST.match(s)
        if m:
            t, x = m.groups()
            a = self.operand(f, x)
            if "*" in t:
                return a
            if "real" in t:
                return lambda env: core.lift(a(env))
            def cast(env):
                v = a(env)
                if isinstance(v, Sym):
                    return core.int_of(v, "trunc")
                if isinstance(v, (Ptr, VarRef, Struct)):
                    return v
                return wrap_int(int(v), t)
            return cast
        if s.startswith("((") and s.endswith("))"):
            return self.operand(f, s[2:-2])
        if s.startswith("&") or s.startswith("MEM <") or s.startswith("MEM[") or _NUM.match(s):
            return self.operand(f, s)
        for op in _BINOPS:
            k = s.find(" %s " % op)
            if k > 0:
                a = self.operand(f, s[:k])
                b = self.operand(f, s[k + len(op) + 2:])
                return _binop(op, a, b)
        if s.startswith("-") and len(s) > 1:
            a = self.operand(f, s[1:])
            return lambda env: -a(env)
        if s.startswith("~"):
            a = self.operand(f, s[1:])
            def inv(env):
                v = a(env)
                if isinstance(v, bool):
                    return not v
                return ~v
            return inv
        if s.startswith("!"):
            a = self.operand(f, s[1:])
            return lambda env: not a(env)
        return self.operand(f, s)

    def call(self, f, name, args):
        ops = [self.operand(f, a) for a in _split_args(args)]
        mach = self
        if name in self.funcs:
            g = self.funcs[name]
            if g.ambiguous:
                raise Unsupported("two contained procedures called " + name)
            if g.host is not None:
                # a contained procedure runs in its host's variables (called by the host or by a sibling)
                up = f.name != g.host
                return lambda env: mach.run(name, [o(env) for o in ops], env.parent if up else env)
            return lambda env: mach.run(name, [o(env) for o in ops])
        st = getattr(self, "x_" + name.rstrip("_"), None)
        if st is None:
            if name.startswith("_gfortran_st_write") or name.startswith("_gfortran_transfer") or name.startswith("_gfortran_st_"):
                return lambda env: None
            def bad(env):
                raise Unsupported("external Fortran call " + name)
            return bad
        return lambda env: st(*[o(env) for o in ops])

    def vartype(self, f, p, default="kind=8"):
        if p in f.vars:
            return f.vars[p]
        if f.host is not None:
            return self.funcs[f.host].vars.get(p, default)
        return default

    def compile(self, name):
        f = self.funcs[name]
        code = []
        for s in f.lines:
            if s in ("try", "finally") or s.startswith("{CLOBBER"):
                continue
            m = re.match(r"^(?:<(D\.\d+)>|(L\.\d+|%s)):$" % r"[A-Za-z_][\w.]*", s)
            if m:
                f.labels[m.group(1) or m.group(2)] = len(code)
                continue
            m = re.match(r"^goto <?([\w.]+)>?;$", s)
            if m:
                code.append(("goto", m.group(1)))
                continue
            m = re.match(r"^if \((.*)\) goto <?([\w.]+)>?; else goto <?([\w.]+)>?;$", s)
            if m:
                code.append(("if", self.rvalue(f, m.group(1)), m.group(2), m.group(3)))
                continue
            m = re.match(r"^switch \((.*)\) <(.*)>$", s)
            if m:
                arms, default = [], None
                for a in m.group(2).split(", "):
                    w, l = a.rsplit(": ", 1)
                    if w == "default":
                        default = l.strip("<>")
                        continue
                    w = w.replace("case ", "").split(" ... ")
                    arms.append((int(w[0]), int(w[-1]), l.strip("<>")))
                code.append(("switch", self.rvalue(f, m.group(1)), arms, default))
                continue
            m = re.match(r"^return(?: (.*))?;$", s)
            if m:
                code.append(("ret", self.operand(f, m.group(1)) if m.group(1) else None))
                continue
            m = _DECL.match(s)
            if m and not s.startswith("goto") and not m.group(1).strip() == "return":
                t, nm, arr, init = m.group(1), m.group(2), m.group(3), m.group(4)
                f.vars[nm] = t + (arr or "")
                if "struct array" in t and "*" not in t and "&" not in t:
                    code.append(("struct", nm))
                elif ("[" in t and "*" not in t) or arr:
                    dim = re.search(r"\[(?:(\d+):)?(\d+)\]", t + (arr or ""))
                    if dim:
                        code.append(("array", nm, int(dim.group(2)) + (1 if dim.group(1) else 0), elem_size(t)))
                if init and "{" not in init:
                    code.append(("set", self.lvalue(f, nm), self.rvalue(f, init.strip().lstrip("="))))
                continue
            m = re.match(r"^(.*?) = (.*);$", s)
            if m and not s.startswith("_gfortran_"):
                lhs, rhs = m.group(1), m.group(2)
                if lhs.startswith("common.") or ".common." in lhs or lhs.startswith("dt_parm"):
                    continue
                rv = self.rvalue(f, rhs)
                if rv is None:
                    continue
                if "unsigned int" in f.vars.get(lhs, ""):
                    rv = _wrapped(rv, f.vars[lhs])
                code.append(("set", self.lvalue(f, lhs), rv))
                continue
            m = re.match(r"^(%s) \((.*)\);$" % _ID, s)
            if m:
                code.append(("call", self.call(f, m.group(1), m.group(2))))
                continue
            raise Unsupported("gimple statement: " + s)
        f.code = code
        self.compiled[name] = True

    def run(self, name, args, host_env=None):
        f = self.funcs[name]
        if name not in self.compiled:
            self.compile(name)
        self.used.add(name)
        env = dict(zip(f.params, args))
        if host_env is not None:
            env = ChainEnv(env, host_env, f)
        code, labels = f.code, f.labels
        pc, n = 0, len(code)
        while pc < n:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("gimple step bound exceeded")
            ins = code[pc]
            k = ins[0]
            if k == "set":
                v = ins[2](env)
                r, o = ins[1](env)
                r.store(v, o)
            elif k == "if":
                pc = labels[ins[2]] if ins[1](env) else labels[ins[3]]
                continue
            elif k == "goto":
                pc = labels[ins[1]]
                continue
            elif k == "switch":
                v = ins[1](env)
                pc = labels[next((l for lo, hi, l in ins[2] if lo <= v <= hi), ins[3])]
                continue
            elif k == "call":
                ins[1](env)
            elif k == "struct":
                env[ins[1]] = Struct()
            elif k == "array":
                env[ins[1]] = LocalArray(Ptr(Buffer(ins[2] * ins[3], ins[1])))
            elif k == "ret":
                return ins[1](env) if ins[1] else None
            pc += 1
        return None

    # ---- external routines -------------------------------------------------
    def x___builtin_malloc(self, n):
        return Ptr(Buffer(int(n), "tmp"))

    def x___builtin_calloc(self, n, m):
        return Ptr(Buffer(int(n) * int(m), "tmp", True))

    def x___builtin_realloc(self, p, n):
        new = Ptr(Buffer(int(n), "tmp"))
        if isinstance(p, Ptr) and p != NULL:
            new.buf.cells = {o - p.off: v for o, v in p.buf.cells.items() if o - p.off < n}
        return new

    def x___builtin_free(self, p):
        return None

    def x___builtin_memset(self, p, v, n):
        if v != 0:
            raise Unsupported("memset non-zero")
        for o in range(0, n, 8):
            p.store(core.ZERO, o)
        return p

    def x___builtin_memcpy(self, d, s, n):
        vals = [s.load(o) for o in range(0, n, 8)]
        for k, v in enumerate(vals):
            d.store(v, 8 * k)
        return d

    x___builtin_memmove = x___builtin_memcpy

    def x__gfortran_stop_string(self, *a):
        raise FortranError("STOP " + str(a[0]))

    def x__gfortran_error_stop_string(self, *a):
        raise FortranError("ERROR STOP " + str(a[0]))

    def x__gfortran_runtime_error_at(self, *a):
        raise FortranError("runtime error")

    def x__gfortran_os_error_at(self, *a):
        raise FortranError("os error")

    def x___builtin_sqrt(self, x):
        return core.sqrt(core.lift(x))

    def x___builtin_exp(self, x):
        return core.lift(x).exp()

    def x___builtin_powi(self, x, n):
        return core.lift(x) ** int(n)

    def x___builtin_pow(self, x, y):
        return core.lift(x) ** y

    def x___builtin_fabs(self, x):
        return abs(x)

    # descriptors: element address = data + (offset? no: strides from lbound) ------
    def shape(self, d):
        r = d.get("dtype.rank")
        return [max(d["dim[%d].ubound" % i] - d["dim[%d].lbound" % i] + 1, 0) for i in range(r)]

    def elems(self, d):
        """iterator over (index tuple, byte offset) in Fortran order"""
        shp = self.shape(d)
        st = [d["dim[%d].stride" % i] for i in range(len(shp))]
        sp = d.get("span", 8) or 8
        for idx in np.ndindex(*shp[::-1]):
            idx = idx[::-1]
            yield idx, sum(i * s for i, s in zip(idx, st)) * sp

    def read(self, d):
        out = np.empty(self.shape(d), dtype=object)
        p = d["data"]
        for idx, o in self.elems(d):
            out[idx] = p.load(o)
        return out

    def read_lazy(self, d):
        """Like read; a cell never written stays so (moving it is not a read)."""
        out = np.empty(self.shape(d), dtype=object)
        p = d["data"]
        for idx, o in self.elems(d):
            try:
                out[idx] = p.load(o)
            except FortranError as e:
                if "uninitialised" not in str(e):
                    raise
                out[idx] = None
        return out

    def write(self, d, arr):
        p = d["data"]
        for idx, o in self.elems(d):
            if arr[idx] is not None:
                p.store(arr[idx], o)

    def x__gfortran_matmul_r8(self, ret, a, b, *rest):
        A, B = self.read(a), self.read(b)
        if A.shape[-1] != B.shape[0]:
            raise FortranError("matmul shape mismatch")
        R = np.dot(A, B)
        if ret.get("data") is None or ret["data"] == NULL:
            n = int(np.prod(R.shape)) * 8
            ret["data"] = Ptr(Buffer(n, "matmul"))
            st = 1
            for i, s in enumerate(R.shape):
                ret["dim[%d].lbound" % i] = 0
                ret["dim[%d].ubound" % i] = s - 1
                ret["dim[%d].stride" % i] = st
                st *= s
            ret["dtype.rank"] = R.ndim
            ret["span"] = 8
        if list(R.shape) != self.shape(ret):
            raise FortranError("matmul result shape mismatch")
        self.write(ret, R)

    def alloc(self, ret, shp):
        """Result descriptor of a library transformation: allocated by the library when the caller did not."""
        if ret.get("data") is None or ret["data"] == NULL:
            ret["data"] = Ptr(Buffer(max(int(np.prod(shp)), 1) * 8, "result"))
            st = 1
            for i, n in enumerate(shp):
                ret["dim[%d].lbound" % i] = 0
                ret["dim[%d].ubound" % i] = n - 1
                ret["dim[%d].stride" % i] = st
                st *= n
            ret["dtype.rank"] = len(shp)
            ret["span"] = 8
        if list(shp) != self.shape(ret):
            raise FortranError("shape mismatch of a transformational result")

    def out(self, ret, arr):
        self.alloc(ret, list(arr.shape))
        self.write(ret, arr)

    def x__gfortran_spread(self, ret, src, along, n):
        d, n = int(along.load()), max(int(n.load()), 0)
        self.out(ret, np.stack([self.read(src)] * n, axis=d - 1))

    def x__gfortran_spread_scalar(self, ret, src, along, n):
        n = max(int(n.load()), 0)
        out = np.empty(n, dtype=object)
        out[:] = [src.load()] * n
        self.out(ret, out)

    def x__gfortran_reshape_r8(self, ret, src, shp, pad, order):
        if pad not in (None, NULL) or order not in (None, NULL):
            raise Unsupported("reshape with pad or order")
        shp = [int(v) for v in self.read(shp)]
        vals = list(self.read(src).ravel(order="F"))
        if len(vals) < int(np.prod(shp)):
            raise FortranError("reshape of too few elements")
        out = np.empty(int(np.prod(shp)), dtype=object)
        out[:] = vals[: len(out)]
        self.out(ret, out.reshape(shp, order="F"))

    def x__gfortran_sum_r8(self, ret, a, dim, *r):
        self.out(ret, np.sum(self.read(a), axis=int(dim.load()) - 1))

    def x__gfortran_product_r8(self, ret, a, dim, *r):
        self.out(ret, np.prod(self.read(a), axis=int(dim.load()) - 1))

    def x__gfortran_runtime_error(self, *a):
        raise FortranError("runtime error")

    def x__gfortran_internal_pack(self, d):
        shp = self.shape(d)
        st = 1
        contiguous = True
        for i, s in enumerate(shp):
            if d["dim[%d].stride" % i] != st:
                contiguous = False
            st *= s
        if contiguous or 0 in shp:
            return d["data"]
        b = Buffer(int(np.prod(shp)) * 8, "pack")
        p = Ptr(b)
        src = d["data"]
        for k, (idx, o) in enumerate(self.elems(d)):
            # pack copies raw memory: an uninitialised source cell stays uninitialised
            try:
                b.cells[8 * k] = src.load(o)
            except FortranError as e:
                if "uninitialised" not in str(e):
                    raise
        return p

    def x__gfortran_internal_unpack(self, d, p):
        if d["data"] == p:
            return
        for k, (idx, o) in enumerate(self.elems(d)):
            try:
                v = p.load(8 * k)
            except FortranError:
                continue
            d["data"].store(v, o)

    # LAPACK: exact linear algebra; the matrix is assumed regular -------------
    def _mat(self, p, n, m, ld):
        return np.array([[p.load(8 * (i + j * ld)) for j in range(m)] for i in range(n)], dtype=object).reshape(n, m)

    def _putmat(self, p, A, ld):
        for i in range(A.shape[0]):
            for j in range(A.shape[1]):
                p.store(A[i, j], 8 * (i + j * ld))

    def x_dgetrf(self, m, n, a, lda, ipiv, info):
        n, lda = n.load(), lda.load()
        A = self._mat(a, n, n, lda)
        tok = LU(A)
        for i in range(n):
            for j in range(n):
                a.store(tok, 8 * (i + j * lda))
        info.store(0)

    def x_dgetri(self, n, a, lda, ipiv, work, lwork, info):
        n, lda = n.load(), lda.load()
        tok = a.load()
        if not isinstance(tok, LU) or tok.A.shape[0] != n:
            raise Unsupported("dgetri on something that is not an LU factorisation")
        self._putmat(a, sym_inv(tok.A), lda)
        info.store(0)

    def x_dgetrs(self, trans, n, nrhs, a, lda, ipiv, b, ldb, info, *r):
        n, nrhs, lda, ldb = n.load(), nrhs.load(), lda.load(), ldb.load()
        tok = a.load()
        A = tok.A
        if '"T"' in str(trans) or '"t"' in str(trans):
            A = A.T
        self._putmat(b, sym_solve(A, self._mat(b, n, nrhs, ldb)), ldb)
        info.store(0)

    def x_dgesv(self, n, nrhs, a, lda, ipiv, b, ldb, info):
        n, nrhs, lda, ldb = n.load(), nrhs.load(), lda.load(), ldb.load()
        self._putmat(b, sym_solve(self._mat(a, n, n, lda), self._mat(b, n, nrhs, ldb)), ldb)
        info.store(0)

    # BLAS -------------------------------------------------------------------
    @staticmethod
    def _tr(t):
        return str(t).strip('&"( ')[:1].upper() in ("T", "C") or '"T"' in str(t).upper()

    @staticmethod
    def _axpy(alpha, X, beta, Y):
        """alpha X + beta Y, where Y is not looked at when beta is zero"""
        b = core.lift(beta.load())
        out = X * alpha.load()
        return out if b is core.ZERO or b.op == "const" and b.val == 0 else out + Y() * b

    def x_dgemm(self, ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc, *r):
        m, n, k, lda, ldb, ldc = [int(v.load()) for v in (m, n, k, lda, ldb, ldc)]
        A = self._mat(a, k, m, lda).T if self._tr(ta) else self._mat(a, m, k, lda)
        B = self._mat(b, n, k, ldb).T if self._tr(tb) else self._mat(b, k, n, ldb)
        self._putmat(c, self._axpy(alpha, np.dot(A, B), beta, lambda: self._mat(c, m, n, ldc)), ldc)

    @staticmethod
    def _vec(p, n, inc):
        return np.array([p.load(8 * inc * i) for i in range(n)] + [None], dtype=object)[:-1]

    def x_dgemv(self, t, m, n, alpha, a, lda, x, incx, beta, y, incy, *r):
        m, n, lda, incx, incy = [int(v.load()) for v in (m, n, lda, incx, incy)]
        if incx <= 0 or incy <= 0:
            raise Unsupported("dgemv with a negative stride")
        A = self._mat(a, m, n, lda)
        A = A.T if self._tr(t) else A
        out = self._axpy(alpha, np.dot(A, self._vec(x, A.shape[1], incx)), beta, lambda: self._vec(y, A.shape[0], incy))
        for i, v in enumerate(out):
            y.store(v, 8 * incy * i)

    def x_ddot(self, n, x, incx, y, incy):
        n, incx, incy = [int(v.load()) for v in (n, incx, incy)]
        if incx <= 0 or incy <= 0:
            raise Unsupported("ddot with a negative stride")
        return core.lift(np.dot(self._vec(x, n, incx), self._vec(y, n, incy)))

    def x_daxpy(self, n, alpha, x, incx, y, incy):
        n, incx, incy = [int(v.load()) for v in (n, incx, incy)]
        if incx <= 0 or incy <= 0:
            raise Unsupported("daxpy with a negative stride")
        for i, v in enumerate(self._vec(x, n, incx) * alpha.load()):
            y.store(y.load(8 * incy * i) + v, 8 * incy * i)

    def x_dscal(self, n, alpha, x, incx):
        n, incx = int(n.load()), int(incx.load())
        for i in range(n):
            x.store(x.load(8 * incx * i) * alpha.load(), 8 * incx * i)

    def x_dcopy(self, n, x, incx, y, incy):
        n, incx, incy = [int(v.load()) for v in (n, incx, incy)]
        for i, v in enumerate(self._vec(x, n, incx)):
            y.store(v, 8 * incy * i)

    def _shifted(self, arr, n, ax, fill=None):
        out = np.roll(arr, -n, axis=ax) if fill is None or n == 0 else None
        if out is None:
            out = np.empty(arr.shape, dtype=object)
            out[...] = fill
            k = arr.shape[ax]
            for i in range(k):
                if 0 <= i + n < k:
                    out[(slice(None),) * ax + (i,)] = arr[(slice(None),) * ax + (i + n,)]
        return out

    def x__gfortran_eoshift0_4(self, ret, a, shift, bound, dim):
        if bound not in (None, NULL):
            raise Unsupported("eoshift with a boundary")
        self.out(ret, self._shifted(self.read_lazy(a), int(shift.load()), int(dim.load()) - 1 if dim not in (None, NULL) else 0, core.ZERO))

    x__gfortran_eoshift0_8 = x__gfortran_eoshift0_4

    def x__gfortran_cshift0_4(self, ret, a, shift, dim):
        self.out(ret, self._shifted(self.read_lazy(a), int(shift.load()), int(dim.load()) - 1 if dim not in (None, NULL) else 0))

    x__gfortran_cshift0_8 = x__gfortran_cshift0_4


class LU:
    def __init__(self, A):
        self.A = A


class LocalArray:
    def __init__(self, ptr):
        self.ptr = ptr


class FieldRef:
    __slots__ = ("d", "k")

    def __init__(self, d, k):
        self.d = d
        self.k = k

    def load(self, off=0):
        try:
            return self.d[self.k]
        except KeyError:
            raise FortranError("uninitialised descriptor field " + self.k)

    def store(self, v, off=0):
        self.d[self.k] = v


def deref_struct(env, name):
    v = env[name]
    if isinstance(v, VarRef):
        v = v.load()
    if not isinstance(v, Struct):
        raise Unsupported("-> on non-struct")
    return v


def getv(env, name):
    v = env[name]
    if isinstance(v, LocalArray):
        return v.ptr
    return v


def elem_size(t):
    m = re.search(r"kind=(\d+)", t)
    return int(m.group(1)) if m else 8


def _max(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        a, b = core.lift(a), core.lift(b)
        return a if bool(a >= b) else b
    return max(a, b)


def _min(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        a, b = core.lift(a), core.lift(b)
        return a if bool(a <= b) else b
    return min(a, b)


def _binop(op, a, b):
    if op == "+":
        return lambda env: a(env) + b(env)
    if op == "-":
        return lambda env: a(env) - b(env)
    if op == "*":
        return lambda env: a(env) * b(env)
    if op == "/":
        def d(env):
            x, y = a(env), b(env)
            if isinstance(x, Sym) or isinstance(y, Sym):
                return core.lift(x) / core.lift(y)
            q = abs(x) // abs(y)
            return q if (x >= 0) == (y >= 0) else -q
        return d
    if op == "%":
        def md(env):
            x, y = a(env), b(env)
            q = abs(x) // abs(y)
            q = q if (x >= 0) == (y >= 0) else -q
            return x - q * y
        return md
    if op in ("%[fl]", "/[fl]", "%[cl]", "/[cl]", "/[ex]"):
        def fl(env):
            x, y = a(env), b(env)
            if isinstance(x, Sym) or isinstance(y, Sym):
                raise Unsupported("rounding division of symbolic integers")
            q = -(-x // y) if "cl" in op else x // y
            return q if op[0] == "/" else x - q * y
        return fl
    import operator
    fn = {"==": operator.eq, "!=": operator.ne, "<=": operator.le, ">=": operator.ge, "<": operator.lt, ">": operator.gt, "&": operator.and_, "|": operator.or_, "<<": operator.lshift, ">>": operator.rshift, "^": operator.xor}[op]

    def g(env):
        x, y = a(env), b(env)
        r = fn(x, y)
        return bool(r) if op in ("==", "!=", "<=", ">=", "<", ">") else r
    return g


# --------------------------------------------------------------------------
class FModule:
    """Stand-in for the f2py module: same call signatures (taken from the built module's docstrings)."""

    def __init__(self, machine, realmod):
        self._m = machine
        self._real = realmod
        self._sig = {}
        self.cut = False

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = getattr(self._real, name)
        return FFunc(self, name, real.__doc__)


class FFunc:
    def __init__(self, mod, name, doc):
        self.mod = mod
        self.name = name
        self.__name__ = name
        self.__doc__ = doc
        self.parse(doc)

    def parse(self, doc):
        first = doc.strip().split("\n")[0]
        m = re.match(r"^(?:(.*?)\s*=\s*)?(\w+)\((.*)\)$", first.strip())
        self.outs = [x.strip() for x in (m.group(1) or "").split(",") if x.strip()]
        body = m.group(3)
        opt = ""
        if "[" in body:
            body, opt = body.split("[", 1)
            opt = opt.rstrip("]")
        self.req = [x.strip() for x in body.split(",") if x.strip()]
        self.opt = [x.strip() for x in opt.split(",") if x.strip()]
        self.kind = {}
        self.default = {}
        cur = None
        for ln in doc.split("\n")[1:]:
            mm = re.match(r"^(\w+) : (.*)$", ln.strip())
            if mm:
                cur = mm.group(1)
                self.kind[cur] = mm.group(2)
                md = re.search(r"[Dd]efault: (.*)$", mm.group(2))
                if md:
                    self.default[cur] = md.group(1)
                continue
            mm = re.match(r"^\s*Default: (.*)$", ln)
            if mm and cur:
                self.default[cur] = mm.group(1)

    def __call__(self, *args, **kw):
        vals = {}
        names = self.req + self.opt
        if len(args) > len(names):
            raise TypeError("too many arguments to %s" % self.name)
        for n, a in zip(names, args):
            vals[n] = a
        for k, v in kw.items():
            if k not in names or k in vals:
                raise TypeError("bad keyword %s for %s" % (k, self.name))
            vals[k] = v
        for n in self.req:
            if n not in vals:
                raise TypeError("missing argument %s of %s" % (n, self.name))
        arrays = {}
        ns = {}
        for n in self.req:
            if "rank-" in self.kind[n]:
                a = np.asarray(vals[n])
                rank = int(re.search(r"rank-(\d+)", self.kind[n]).group(1))
                if a.ndim > rank:
                    a = a.reshape(a.shape[:rank]) if a.size == int(np.prod(a.shape[:rank])) else a
                if a.ndim < rank:
                    a = a.reshape(a.shape + (1,) * (rank - a.ndim))
                arrays[n] = a
        shape = lambda a, i: a.shape[i]
        base = dict(arrays)
        base["shape"] = shape
        base["len"] = lambda a: a.shape[0]
        for n in self.opt + [r for r in self.req if r not in arrays]:
            if n in vals:
                ns[n] = vals[n]
        for n in self.opt:
            if n not in ns:
                ns[n] = int(eval(self.default[n], {"__builtins__": {}}, dict(base, **ns)))
        # bounds of every array from the docstring: bounds (a,b,c)
        def dims(n):
            b = re.search(r"bounds \((.*)\)", self.kind[n]).group(1)
            return [int(eval(x.replace("/", "//"), {"__builtins__": {}}, dict(ns))) if not x.strip().isdigit() else int(x) for x in _split_args(b)]
        for n, a in arrays.items():
            d = dims(n)
            if list(a.shape) != d:
                raise ValueError("%s: shape %s of %s does not match %s" % (self.name, a.shape, n, d))
        f = self.mod._m.funcs[self.name]
        bufs = {}
        argv = []
        holder = {}
        for p in f.params:
            if p in arrays:
                a = arrays[p]
                b = Buffer(a.size * 8, p)
                for k, x in enumerate(a.ravel(order="F")):
                    if isinstance(x, (float, np.floating)) and x != x:
                        raise Unsupported("nan passed to Fortran")
                    b.cells[8 * k] = core.lift(x)
                bufs[p] = b
                argv.append(Ptr(b))
            elif p in self.outs:
                d = dims(p)
                size = 1
                for x in d:
                    size *= x
                b = Buffer(size * 8, p, zero=True)
                b.cut = self.mod.cut
                bufs[p] = b
                holder[p] = d
                argv.append(Ptr(b))
            else:
                v = ns[p]
                if "float" in self.kind[p]:
                    v = core.lift(v)
                else:
                    v = int(v)
                e = {p: v}
                argv.append(VarRef(e, p))
        self.mod._m.run(self.name, argv)
        res = []
        for o in self.outs:
            d = holder[o]
            b = bufs[o]
            arr = np.empty(d, dtype=object, order="F")
            n = int(np.prod(d))
            flat = [b.cells.get(8 * k, core.ZERO) for k in range(n)]
            arr = np.array(flat + [None], dtype=object)[:-1].reshape(d, order="F")
            res.append(arr)
        return res[0] if len(res) == 1 else tuple(res)
