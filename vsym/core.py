"""Symbolic reals for executing the real Python / Fortran code over all inputs.

A `Sym` is a hash-consed term over the reals (exact rational constants, variables,
n-ary sums and products, quotients, integer powers, uninterpreted or transcendental
applications).  numpy object arrays of `Sym` run through the code under test; a
comparison yields a `SymBool`, and asking for its truth value forks the execution
(see `Ctx`), each side being kept only if the solver says it is feasible.
"""
import math
from fractions import Fraction

import numpy as np


class Unsupported(Exception):
    """The symbolic engine cannot encode what the code does here."""


class PathAbort(BaseException):
    """This path is infeasible / abandoned (BaseException: the code under test must not catch it)."""


_TABLE = {}
_COUNT = [0]
_CONSTS = {}


def reset():
    _TABLE.clear()
    _CONSTS.clear()


def snap(f):
    """Exact rational for a float; floats that are a rounded small fraction become that fraction."""
    if f == int(f) and abs(f) < 1e15:
        return Fraction(int(f))
    ex = Fraction(f)
    if ex.denominator <= 4096:
        return ex
    cand = ex.limit_denominator(5000)
    if cand != 0 and abs(cand - ex) <= abs(ex) * Fraction(1, 2**49):
        return cand
    return ex


class Sym:
    __slots__ = ("op", "args", "val", "id", "pos", "__weakref__")

    def __init__(self):
        raise TypeError

    # numpy scalars on the left: np.float64(2) * sym  -> __rmul__
    def __hash__(self):
        return self.id * 2654435761 % (1 << 61)

    def __repr__(self):
        return show(self, 4)

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        return _bin(add, self, o)

    def __radd__(self, o):
        return _bin(add, o, self)

    def __sub__(self, o):
        return _bin(sub, self, o)

    def __rsub__(self, o):
        return _bin(sub, o, self)

    def __mul__(self, o):
        return _bin(mul, self, o)

    def __rmul__(self, o):
        return _bin(mul, o, self)

    def __truediv__(self, o):
        return _bin(div, self, o)

    def __rtruediv__(self, o):
        return _bin(div, o, self)

    def __neg__(self):
        return mul(const(-1), self)

    def __pos__(self):
        return self

    def __abs__(self):
        if is_pos(self) or is_nonneg(self):
            return self
        if self >= 0:
            return self
        return -self

    def __pow__(self, n):
        if isinstance(n, np.ndarray):
            return NotImplemented
        if isinstance(n, Sym):
            if n.op == "const":
                n = n.val
            else:
                return app("pow", self, n)
        if isinstance(n, float) and math.isnan(n):
            return n
        f = Fraction(n) if not isinstance(n, (float, np.floating)) else snap(float(n))
        if f.denominator == 1:
            return power(self, int(f))
        if f.denominator == 2:
            return power(sqrt(self), int(f * 2))
        return app("pow", self, const(f))

    def __rpow__(self, b):
        return app("pow", lift(b), self)

    def __mod__(self, o):
        raise Unsupported("mod of a symbolic real")

    def __floordiv__(self, o):
        raise Unsupported("floordiv of a symbolic real")

    # comparisons ----------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if o is None or isinstance(o, str):
            return False if op == "==" else (True if op == "!=" else NotImplemented)
        if isinstance(o, (float, np.floating)):
            o = float(o)
            if math.isnan(o):
                return op == "!="
            if math.isinf(o):
                return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op]
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        return cmp(op, self, o)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __bool__(self):
        if self.op == "const":
            return self.val != 0
        return bool(cmp("!=", self, ZERO))

    def __float__(self):
        if self.op == "const":
            return float(self.val)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.op == "const":
            return int(self.val)
        return int_of(self, "trunc")

    def __index__(self):
        if self.op == "const" and self.val.denominator == 1:
            return int(self.val)
        raise TypeError("symbolic value used as an index")

    def __round__(self, n=None):
        if self.op == "const":
            return round(float(self.val), n) if n is not None else round(float(self.val))
        if n is None:
            return int_of(self, "rint")
        raise Unsupported("round of a symbolic value to decimals")

    def __floor__(self):
        return int_of(self, "floor")

    def __ceil__(self):
        return int_of(self, "ceil")

    # used by numpy ufuncs on object arrays --------------------------------
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        if self.op == "const" and self.val == 0:
            return ONE
        return app("exp", self)

    def log(self):
        if self.op == "const" and self.val == 1:
            return ZERO
        return app("log", self)

    def sin(self):
        if self.op == "const" and self.val == 0:
            return ZERO
        return app("sin", self)

    def cos(self):
        if self.op == "const" and self.val == 0:
            return ONE
        return app("cos", self)

    def tan(self):
        return app("sin", self) / app("cos", self)

    def tanh(self):
        e = app("exp", self)
        return (e - ONE / e) / (e + ONE / e)

    def arctan(self):
        return app("arctan", self)

    def cosh(self):
        e = app("exp", self)
        return (e + ONE / e) / 2

    def sinh(self):
        e = app("exp", self)
        return (e - ONE / e) / 2

    def square(self):
        return self * self

    def reciprocal(self):
        return ONE / self

    def conjugate(self):
        return self

    conj = conjugate

    def floor(self):
        return const(int_of(self, "floor"))

    def ceil(self):
        return const(int_of(self, "ceil"))

    def rint(self):
        return const(int_of(self, "rint"))

    def isnan(self):
        return False

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def squeeze(self, *a):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")




def _bin(f, a, b):
    if isinstance(a, (np.ndarray, CycBase)) or isinstance(b, (np.ndarray, CycBase)):
        return NotImplemented
    if a is None or b is None:
        return NotImplemented
    if isinstance(a, (float, np.floating)) and not math.isfinite(a):
        return _nonfinite(f, float(a), b, True)
    if isinstance(b, (float, np.floating)) and not math.isfinite(b):
        return _nonfinite(f, float(b), a, False)
    if COMPLEX is not None and (isinstance(a, (complex, np.complexfloating)) or isinstance(b, (complex, np.complexfloating))):
        return COMPLEX(f.__name__, a, b)
    try:
        a = lift(a)
        b = lift(b)
    except TypeError:
        return NotImplemented
    return f(a, b)


def _nonfinite(f, x, sym, left):
    if math.isnan(x):
        return float("nan")
    if f is add:
        return x
    if f is sub:
        return x if left else -x
    if f is div and not left:
        return ZERO
    raise Unsupported("arithmetic with infinity")


COMPLEX = None  # arithmetic of a symbolic real with a complex number (set by npshim)


class CycBase:
    pass


def lift(x):
    if type(x) is Sym:
        return x
    if isinstance(x, SymBool):
        return const(1) if x else const(0)
    if isinstance(x, (bool, np.bool_)):
        return const(int(x))
    if isinstance(x, (int, np.integer)):
        return const(int(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, (float, np.floating)):
        if not math.isfinite(x):
            raise Unsupported("non finite constant")
        return const(snap(float(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if hasattr(x, "to_numpy") and x.ndim == 0:
        return lift(x.to_numpy().item())
    raise TypeError("cannot lift %r" % type(x))


def _mk(op, args, val=None):
    key = (op, args, val)
    n = _TABLE.get(key)
    if n is None:
        n = object.__new__(Sym)
        n.op = op
        n.args = args
        n.val = val
        _COUNT[0] += 1
        n.id = _COUNT[0]
        n.pos = None
        _TABLE[key] = n
    return n


def const(v):
    n = _CONSTS.get(v)
    if n is None:
        v = Fraction(v)
        n = object.__new__(Sym)
        n.op = "const"
        n.args = ()
        n.val = v
        _COUNT[0] += 1
        n.id = _COUNT[0]
        n.pos = 1 if v > 0 else (0 if v == 0 else -1)
        _CONSTS[v] = n
    return n


ZERO = const(0)
ONE = const(1)


def reinit():
    """Fresh tables, keeping the singletons."""
    _TABLE.clear()
    _CONSTS.clear()
    _CONSTS[Fraction(0)] = ZERO
    _CONSTS[Fraction(1)] = ONE


def var(name, pos=None):
    n = _mk("var", (), name)
    if pos is not None:
        n.pos = pos
    return n


_FRESH = [0]


def fresh(prefix):
    _FRESH[0] += 1
    return var("%s!%d" % (prefix, _FRESH[0]))


MAXFLAT = 400


def _addterms(n, scale, acc):
    if n.op == "const":
        acc[None] = acc.get(None, 0) + scale * n.val
    elif n.op == "+":
        for c, t in n.args:
            acc[t] = acc.get(t, 0) + scale * c
        if n.val:
            acc[None] = acc.get(None, 0) + scale * n.val
    elif n.op == "*" and n.val != 1:
        t = _mk("*", n.args, Fraction(1)) if len(n.args) > 1 or n.args[0][1] != 1 else n.args[0][0]
        acc[t] = acc.get(t, 0) + scale * n.val
    else:
        acc[n] = acc.get(n, 0) + scale


def _mkadd(acc):
    c0 = acc.pop(None, 0)
    items = [(c, t) for t, c in acc.items() if c != 0]
    if not items:
        return const(c0)
    if len(items) == 1 and c0 == 0:
        c, t = items[0]
        return t if c == 1 else mul(const(c), t)
    items.sort(key=lambda ct: ct[1].id)
    return _mk("+", tuple(items), Fraction(c0))


def add(a, b):
    if a.op == "const" and a.val == 0:
        return b
    if b.op == "const" and b.val == 0:
        return a
    acc = {}
    one = Fraction(1)
    for x in (a, b):
        if x.op == "+" and len(x.args) > MAXFLAT:
            acc[x] = acc.get(x, 0) + one
        else:
            _addterms(x, one, acc)
    r = _mkadd(acc)
    return CTX.rewrites.get(r, r) if CTX is not None and CTX.rewrites else r


def sub(a, b):
    if b.op == "const" and b.val == 0:
        return a
    if a is b:
        return ZERO
    acc = {}
    for x, s in ((a, Fraction(1)), (b, Fraction(-1))):
        if x.op == "+" and len(x.args) > MAXFLAT:
            acc[x] = acc.get(x, 0) + s
        else:
            _addterms(x, s, acc)
    return _mkadd(acc)


def _mulfac(n, acc):
    """accumulate base->exponent; return coefficient"""
    if n.op == "const":
        return n.val
    if n.op == "*":
        for b, e in n.args:
            acc[b] = acc.get(b, 0) + e
        return n.val
    if n.op == "+" and n.val == 0 and len(n.args) == 1:
        c, t = n.args[0]
        return c * _mulfac(t, acc)
    acc[n] = acc.get(n, 0) + 1
    return Fraction(1)


def _mkmul(coef, acc):
    if coef == 0:
        return ZERO
    items = [(b, e) for b, e in acc.items() if e != 0]
    if not items:
        return const(coef)
    # products of square roots: s*s -> radicand
    red = None
    for b, e in items:
        if b.op == "sqrt" and abs(e) >= 2:
            red = (b, e)
            break
    if red is not None:
        b, e = red
        acc = dict(items)
        k = e // 2 if e > 0 else -((-e) // 2)
        acc[b] = e - 2 * k
        return mul(_mkmul(coef, acc), power(b.args[0], k))
    if len(items) == 1 and items[0][1] == 1:
        b = items[0][0]
        if coef == 1:
            return b
        if b.op == "+" and len(b.args) <= 12:
            # distribute a numeric coefficient over a short sum
            return _mk("+", tuple((c * coef, t) for c, t in b.args), b.val * coef)
    items.sort(key=lambda be: be[0].id)
    return _mk("*", tuple(items), Fraction(coef))


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    acc = {}
    c = _mulfac(a, acc) * _mulfac(b, acc)
    r = _mkmul(c, acc)
    return CTX.rewrites.get(r, r) if CTX is not None and CTX.rewrites else r


def div(a, b):
    if b.op == "const":
        if b.val == 0:
            if a is ZERO:
                return float("nan")
            raise ZeroDivisionError("symbolic division by zero")
        return mul(a, const(1 / b.val))
    if CTX is not None:
        CTX.note_divisor(b)
    acc = {}
    c = _mulfac(a, acc)
    acc2 = {}
    c2 = _mulfac(b, acc2)
    for k, e in acc2.items():
        acc[k] = acc.get(k, 0) - e
    return _mkmul(c / c2, acc)


def power(a, n):
    if n == 0:
        return ONE
    if a.op == "const":
        return const(a.val**n)
    if n < 0 and CTX is not None:
        CTX.note_divisor(a)
    acc = {}
    c = _mulfac(a, acc)
    return _mkmul(c**n, {b: e * n for b, e in acc.items()})


def sqrt(a):
    if a.op == "const":
        v = a.val
        if v < 0:
            return float("nan")
        p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if p * p == v.numerator and q * q == v.denominator:
            return const(Fraction(p, q))
        # pull out square factors lightly: sqrt(n/d) = sqrt(n*d)/d
        if v.denominator != 1:
            return mul(sqrt(const(v.numerator * v.denominator)), const(Fraction(1, v.denominator)))
    if a.op == "*":
        # sqrt of perfect squares of nonnegative bases, and of the positive numeric factor
        if a.val > 0 and a.val != 1:
            return mul(sqrt(const(a.val)), sqrt(_mkmul(Fraction(1), dict(a.args))))
        if a.val == 1 and len(a.args) > 1 and all(is_pos(b) for b, e in a.args):
            r = ONE
            for b, e in a.args:
                s = sqrt(b)
                r = mul(r, power(s, e))
            return r
        if a.val == 1 and len(a.args) == 1 and is_pos(a.args[0][0]):
            b, e = a.args[0]
            if e != 1:
                return power(sqrt(b), e)
    return _mk("sqrt", (a,))


def app(f, *args):
    return _mk("app", tuple(args), f)


def is_pos(n):
    if n.pos is not None:
        return n.pos == 1
    r = None
    if n.op == "+":
        if n.val >= 0 and all((c > 0 and (is_pos(t) or is_nonneg(t))) for c, t in n.args) and (n.val > 0 or any(is_pos(t) for c, t in n.args)):
            r = True
    elif n.op == "*":
        if n.val > 0 and all(is_pos(b) or (e % 2 == 0 and b.op == "never") for b, e in n.args):
            r = True
    elif n.op == "sqrt":
        r = is_pos(n.args[0])
    elif n.op == "app" and n.val == "exp":
        r = True
    if r:
        n.pos = 1
        return True
    return False


def is_nonneg(n):
    if is_pos(n):
        return True
    if n.op == "const":
        return n.val >= 0
    if n.op == "sqrt":
        return True
    if n.op == "*":
        return n.val > 0 and all(e % 2 == 0 or is_nonneg(b) for b, e in n.args)
    if n.op == "+":
        return n.val >= 0 and all(c > 0 and is_nonneg(t) for c, t in n.args)
    return False


# --------------------------------------------------------------------------
class SymBool:
    """A symbolic truth value; bool() forks."""

    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def __bool__(self):
        if CTX is None:
            raise Unsupported("branch on symbolic value outside a run")
        return CTX.decide(self)

    def key(self):
        if self.op in ("and", "or", "not"):
            return (self.op,) + tuple(a.key() if isinstance(a, SymBool) else a for a in self.args)
        return (self.op,) + tuple(a.id for a in self.args)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return SymBool("and", (self, o))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return SymBool("or", (self, o))

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def logical_not(self):
        return bnot(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "(%s %s)" % (self.op, " ".join(map(repr, self.args)))


def cmp(op, a, b):
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    d = sub(a, b)
    if d.op == "const":
        v = d.val
        return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[op]
    if is_pos(d):
        return op == "!="
    if is_nonneg(d) and op == "<":
        return False
    nd = mul(const(-1), d)
    if is_pos(nd):
        return op in ("<", "<=", "!=")
    if is_nonneg(nd) and op == "<=":
        return True
    return SymBool(op, (d,))  # d op 0


def bnot(b):
    if isinstance(b, (bool, np.bool_)):
        return not b
    if b.op == "<":
        return SymBool("<=", (mul(const(-1), b.args[0]),))
    if b.op == "<=":
        return SymBool("<", (mul(const(-1), b.args[0]),))
    if b.op == "==":
        return SymBool("!=", b.args)
    if b.op == "!=":
        return SymBool("==", b.args)
    if b.op == "and":
        return SymBool("or", tuple(bnot(a) for a in b.args))
    if b.op == "or":
        return SymBool("and", tuple(bnot(a) for a in b.args))
    return SymBool("not", (b,))


def int_of(s, how):
    """Concretise an integer-valued floor/ceil of a symbolic real by forking over candidate integers."""
    if s.op == "const":
        return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round}[how](s.val)
    if CTX is None:
        raise Unsupported("floor outside a run")
    for k in range(0, 40):
        for c in (k, -k - 1):
            if how == "ceil":
                hit = (cmp("<", const(c - 1), s), cmp("<=", s, const(c)))
            else:
                hit = (cmp("<=", const(c), s), cmp("<", s, const(c + 1)))
            if how == "rint":  # ties go to the even integer
                o = "<=" if c % 2 == 0 else "<"
                hit = (cmp(o, const(c - Fraction(1, 2)), s), cmp(o, s, const(c + Fraction(1, 2))))
            if how == "trunc" and c < 0:
                hit = (cmp("<", const(c - 1 + 0), s), cmp("<=", s, const(c)))
            if bool(hit[0]) and bool(hit[1]):
                return c
    raise Unsupported("unbounded floor")


# --------------------------------------------------------------------------
class Ctx:
    """One symbolic execution: assumptions, decisions (path), divisors met, named definitions."""

    def __init__(self, prefix=(), feasible=None, max_decisions=400):
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []  # alternative prefixes to explore
        self.path = []  # SymBools taken
        self.assume = []
        self.known = {}
        self.divisors = {}
        self.defs = {}  # var node -> defining Sym (cut points)
        self.rewrites = {}  # Sym -> Sym equal to it by the contract of a stub
        self.named = {}  # defining Sym -> var node
        self.lemmas = []  # lists of facts: the first suffices to discard most impossible paths, the others help with the claims
        self.facts = []  # facts attached to fresh variables (SymBools)
        self.feasible = feasible
        self.max_decisions = max_decisions
        self.assumed_nonzero = set()

    def note_divisor(self, b):
        self.divisors.setdefault(b, len(self.path))

    def decide(self, c):
        if isinstance(c, (bool, np.bool_)):
            return bool(c)
        k = c.key()
        if k in self.known:
            return self.known[k]
        nk = bnot(c).key()
        if nk in self.known:
            return not self.known[nk]
        i = len(self.decisions)
        if i >= self.max_decisions:
            raise Unsupported("too many decisions on one path")
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if self.feasible is None:
                raise Unsupported("fork not allowed here")
            t = self.feasible(self, c)
            f = self.feasible(self, bnot(c))
            if t and f:
                d = True
                self.pending.append(self.decisions + [False])
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathAbort()
        self.decisions.append(d)
        self.known[k] = d
        self.path.append(c if d else bnot(c))
        return d

    def add_assumption(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathAbort()
            return
        if isinstance(c, np.ndarray):
            for x in c.ravel():
                self.add_assumption(x)
            return
        self.assume.append(c)


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def name_value(s, prefix="k"):
    """Introduce a cut point: a fresh variable defined to be `s` (small terms are left alone)."""
    if type(s) is not Sym or s.op in ("const", "var") or CTX is None:
        return s
    if s in CTX.named:
        return CTX.named[s]
    v = fresh(prefix)
    CTX.defs[v] = s
    CTX.named[s] = v
    return v


# --------------------------------------------------------------------------
def show(n, depth=6):
    if not isinstance(n, Sym):
        return repr(n)
    if n.op == "const":
        return str(n.val)
    if n.op == "var":
        return str(n.val)
    if depth == 0:
        return "#%d" % n.id
    if n.op == "+":
        return "(" + " + ".join("%s*%s" % (c, show(t, depth - 1)) for c, t in n.args) + (" + %s" % n.val if n.val else "") + ")"
    if n.op == "*":
        return "(" + ("%s*" % n.val if n.val != 1 else "") + "*".join("%s^%d" % (show(b, depth - 1), e) for b, e in n.args) + ")"
    if n.op == "sqrt":
        return "sqrt(%s)" % show(n.args[0], depth - 1)
    return "%s(%s)" % (n.val, ", ".join(show(a, depth - 1) for a in n.args))


FLOAT_FN = {
    "sin": math.sin,
    "cos": math.cos,
    "exp": math.exp,
    "log": lambda x: math.log(x) if x > 0 else float("nan"),
    "tanh": math.tanh,
    "arctan": math.atan,
    "pow": lambda a, b: a**b,
    "min": lambda *a: min(a),
    "max": lambda *a: max(a),
}
EXTRA_FN = {}


def feval(n, env, memo=None, defs=None):
    """Evaluate in floats. env: var name -> float."""
    if not isinstance(n, Sym):
        if isinstance(n, SymBool):
            return beval(n, env, memo, defs)
        return n
    if memo is None:
        memo = {}
    stack = [n]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x.op == "const":
            memo[x] = float(x.val)
            stack.pop()
            continue
        if x.op == "var":
            if x.val in env:
                memo[x] = float(env[x.val])
                stack.pop()
                continue
            if defs and x in defs:
                ch = [defs[x]]
            else:
                raise KeyError(x.val)
        elif x.op == "+":
            ch = [t for c, t in x.args]
        elif x.op == "*":
            ch = [b for b, e in x.args]
        else:
            ch = list(x.args)
        todo = [c for c in ch if c not in memo]
        if todo:
            stack.extend(todo)
            continue
        try:
            if x.op == "var":
                v = memo[ch[0]]
            elif x.op == "+":
                v = float(x.val) + math.fsum(float(c) * memo[t] for c, t in x.args)
            elif x.op == "*":
                v = float(x.val)
                for b, e in x.args:
                    v *= memo[b] ** e
            elif x.op == "sqrt":
                v = math.sqrt(memo[x.args[0]]) if memo[x.args[0]] >= 0 else float("nan")
            else:
                f = FLOAT_FN.get(x.val) or EXTRA_FN.get(x.val)
                if f is None:
                    raise Unsupported("no float semantics for %s" % x.val)
                v = f(*[memo[a] for a in x.args])
        except (ZeroDivisionError, OverflowError, ValueError):
            v = float("nan")
        memo[x] = v
        stack.pop()
    return memo[n]


def beval(b, env, memo=None, defs=None):
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    if memo is None:
        memo = {}
    if b.op == "and":
        return all(beval(a, env, memo, defs) for a in b.args)
    if b.op == "or":
        return any(beval(a, env, memo, defs) for a in b.args)
    if b.op == "not":
        return not beval(b.args[0], env, memo, defs)
    v = feval(b.args[0], env, memo, defs)
    return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[b.op]


def qeval(n, env, memo=None, defs=None):
    """Evaluate exactly in rationals (square roots and transcendentals to double precision)."""
    if not isinstance(n, Sym):
        return Fraction(n)
    if memo is None:
        memo = {}
    stack = [n]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x.op == "const":
            memo[x] = Fraction(x.val)
            stack.pop()
            continue
        if x.op == "var":
            if x.val in env:
                memo[x] = Fraction(env[x.val])
                stack.pop()
                continue
            ch = [defs[x]]
        else:
            ch = children(x)
        todo = [c for c in ch if c not in memo]
        if todo:
            stack.extend(todo)
            continue
        if x.op == "var":
            v = memo[ch[0]]
        elif x.op == "+":
            v = x.val + sum((c * memo[t] for c, t in x.args), Fraction(0))
        elif x.op == "*":
            v = Fraction(x.val)
            for b, e in x.args:
                v *= memo[b] ** e
        elif x.op == "sqrt":
            a = memo[x.args[0]]
            p = 1 << 240
            v = Fraction(math.isqrt(a.numerator * p // a.denominator), 1 << 120)
        elif x.val == "min":
            v = min(memo[a] for a in x.args)
        elif x.val == "max":
            v = max(memo[a] for a in x.args)
        else:
            f = FLOAT_FN.get(x.val) or EXTRA_FN.get(x.val)
            v = Fraction(f(*[float(memo[a]) for a in x.args]))
        memo[x] = v
        stack.pop()
    return memo[n]


def qbool(b, env, memo=None, defs=None):
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    if b.op == "and":
        return all(qbool(a, env, memo, defs) for a in b.args)
    if b.op == "or":
        return any(qbool(a, env, memo, defs) for a in b.args)
    if b.op == "not":
        return not qbool(b.args[0], env, memo, defs)
    v = qeval(b.args[0], env, memo, defs)
    return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[b.op]


def children(x):
    if x.op == "+":
        return [t for c, t in x.args]
    if x.op == "*":
        return [b for b, e in x.args]
    return list(x.args)


def variables(terms, defs=None):
    seen = set()
    out = []
    stack = list(terms)
    while stack:
        x = stack.pop()
        if isinstance(x, SymBool):
            stack.extend(x.args)
            continue
        if not isinstance(x, Sym) or x in seen:
            continue
        seen.add(x)
        if x.op == "var":
            if defs and x in defs:
                stack.append(defs[x])
            else:
                out.append(x)
        else:
            stack.extend(children(x))
    return out


DERIV = {}  # uninterpreted name -> function(args, i) -> Sym: derivative wrt argument i


def diff(n, v, memo=None):
    """Symbolic derivative of a term with respect to a variable."""
    if not isinstance(n, Sym):
        return ZERO
    if memo is None:
        memo = {}
    if n in memo:
        return memo[n]
    if n is v:
        r = ONE
    elif n.op in ("const", "var"):
        r = ZERO
        if n.op == "var" and CTX is not None and n in CTX.defs:
            r = diff(CTX.defs[n], v, memo)
    elif n.op == "+":
        r = ZERO
        for c, t in n.args:
            d = diff(t, v, memo)
            if d is not ZERO:
                r = r + const(c) * d
    elif n.op == "*":
        r = ZERO
        for b, e in n.args:
            d = diff(b, v, memo)
            if d is ZERO:
                continue
            acc = dict(n.args)
            acc[b] = e - 1
            r = r + mul(_mkmul(n.val * e, acc), d)
    elif n.op == "sqrt":
        d = diff(n.args[0], v, memo)
        r = ZERO if d is ZERO else d / (2 * n)
    else:
        r = ZERO
        for i, a in enumerate(n.args):
            d = diff(a, v, memo)
            if d is ZERO:
                continue
            r = r + d * _dapp(n, i)
    memo[n] = r
    return r


def _dapp(n, i):
    a = n.args
    f = n.val
    if f == "sin":
        return app("cos", a[0])
    if f == "cos":
        return -app("sin", a[0])
    if f == "exp":
        return n
    if f == "log":
        return ONE / a[0]
    if f == "tanh":
        return ONE - n * n
    if f == "arctan":
        return ONE / (ONE + a[0] * a[0])
    if f in DERIV:
        return DERIV[f](a, i)
    raise Unsupported("no derivative rule for %s" % f)
