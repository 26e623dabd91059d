"""Translation of Sym constraints to SMT-LIB2 (QF_NRA) and the solver driver.

Quotients are eliminated before the solver sees them: every term becomes N/D with D a
product of bases, `t == 0` becomes `N == 0` with each base asserted non-zero, and
`t < 0` becomes `N*D < 0`.  Square roots become variables s with s >= 0, s*s = radicand.
Transcendental applications become one variable per application; congruence between
applications of the same function is added (Ackermann) when the first query is not unsat.
"""
import os
import re
import shutil
import subprocess
import time
from fractions import Fraction

from . import core
from .core import Sym, SymBool, const, mul, add, ZERO, ONE

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "feasibility": 0}
Z3 = shutil.which("z3-new") or shutil.which("z3")
Z3OLD = shutil.which("z3")
CVC5 = shutil.which("cvc5")


class Lifter:
    def __init__(self, defs=None, expand=False):
        self.memo = {}
        self.side = []  # ("==0"/">=0"/"!=0", numerator Sym)
        self.nonzero = {}
        self.apps = {}
        self.defs = defs or {}
        self.expand = expand
        self.sqrts = {}

    def factors(self, n, e, den):
        """add n**e to den dict, splitting products"""
        if n.op == "const":
            return Fraction(n.val) ** e
        if n.op == "*":
            c = Fraction(n.val) ** e
            for b, k in n.args:
                den[b] = den.get(b, 0) + k * e
            return c
        den[n] = den.get(n, 0) + e
        return Fraction(1)

    def rat(self, n):
        r = self.memo.get(n)
        if r is not None:
            return r
        # iterative post-order
        stack = [n]
        while stack:
            x = stack[-1]
            if x in self.memo:
                stack.pop()
                continue
            if x.op == "var" and self.expand and x in self.defs:
                ch = [self.defs[x]]
            elif x.op in ("const", "var"):
                self.memo[x] = (x, {})
                stack.pop()
                continue
            else:
                ch = core.children(x)
            todo = [c for c in ch if c not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[x] = self._rat1(x)
            stack.pop()
        return self.memo[n]

    def _rat1(self, x):
        m = self.memo
        if x.op == "var":
            return m[self.defs[x]]
        if x.op == "+":
            lcm = {}
            for c, t in x.args:
                for b, e in m[t][1].items():
                    if e > lcm.get(b, 0):
                        lcm[b] = e
            acc = const(x.val)
            if x.val and lcm:
                acc = mul(acc, self._prod(lcm))
            parts = {}
            # group by denominator to keep terms small
            for c, t in x.args:
                nt, dt = m[t]
                key = tuple(sorted(((b.id, e) for b, e in dt.items())))
                if key in parts:
                    parts[key][0] = add(parts[key][0], mul(const(c), nt))
                else:
                    parts[key] = [mul(const(c), nt), dt]
            for nt, dt in parts.values():
                rest = {b: e - dt.get(b, 0) for b, e in lcm.items() if e - dt.get(b, 0)}
                acc = add(acc, mul(nt, self._prod(rest)))
            return (acc, lcm)
        if x.op == "*":
            num = const(x.val)
            den = {}
            for b, e in x.args:
                nb, db = m[b]
                if e > 0:
                    num = mul(num, core.power(nb, e)) if e != 1 else mul(num, nb)
                    for bb, k in db.items():
                        den[bb] = den.get(bb, 0) + k * e
                else:
                    c = self.factors(nb, -e, den)
                    num = mul(num, const(1 / c))
                    for bb, k in db.items():
                        num = mul(num, core.power(bb, k * (-e)))
            # cancel common factors between num and den
            if den and num.op == "*":
                na = dict(num.args)
                for b in list(den):
                    if b in na:
                        k = min(na[b], den[b])
                        if k > 0:
                            na[b] -= k
                            den[b] -= k
                num = core._mkmul(num.val, na)
                den = {b: e for b, e in den.items() if e}
            elif den and num in den:
                den[num] -= 1
                if not den[num]:
                    del den[num]
                num = ONE
            for b in den:
                self.nonzero[b] = True
            return (num, den)
        if x.op == "sqrt":
            v = core.var("sqrt!%d" % x.id)
            if x not in self.sqrts:
                self.sqrts[x] = v
                na, da = m[x.args[0]]
                # v^2 * D = N, v >= 0
                lhs = mul(mul(v, v), self._prod(da))
                self.side.append(("==", core.sub(lhs, na)))
                self.side.append((">=", v))
            return (v, {})
        if x.op == "app":
            v = core.var("app!%s!%d" % (x.val, x.id))
            self.apps[x] = v
            return (v, {})
        raise core.Unsupported("smt: " + x.op)

    def _prod(self, d):
        r = ONE
        for b, e in d.items():
            r = mul(r, core.power(b, e))
        return r

    def atom(self, b):
        """SymBool leaf -> ('op', poly Sym) with op in < <= == !="""
        n, d = self.rat(b.args[0])
        if b.op in ("==", "!="):
            return (b.op, n)
        for base, e in d.items():
            if e % 2 and not core.is_pos(base):
                n = mul(n, base)
        return (b.op, n)


class Script:
    def __init__(self, lifter):
        self.l = lifter
        self.lines = []
        self.decl = {}
        self.defd = {}
        self.done_side = 0
        self.done_nz = set()
        self.nt = 0

    def name(self, v):
        s = self.decl.get(v)
        if s is None:
            s = "|%s|" % v.val
            self.decl[v] = s
            self.lines.append("(declare-const %s Real)" % s)
            if v.pos == 1:
                self.lines.append("(assert (> %s 0.0))" % s)
        return s

    def num(self, f):
        f = Fraction(f)
        a = "%d.0" % abs(f.numerator)
        if f.denominator != 1:
            a = "(/ %s %d.0)" % (a, f.denominator)
        return "(- %s)" % a if f < 0 else a

    def term(self, n):
        if n.op == "const":
            return self.num(n.val)
        if n in self.defd:
            return self.defd[n]
        stack = [n]
        while stack:
            x = stack[-1]
            if x in self.defd or x.op == "const":
                stack.pop()
                continue
            if x.op == "var":
                self.defd[x] = self.name(x)
                stack.pop()
                continue
            todo = [c for c in core.children(x) if c not in self.defd and c.op != "const"]
            if todo:
                stack.extend(todo)
                continue
            if x.op == "+":
                parts = []
                for c, t in x.args:
                    s = self.defd[t]
                    parts.append(s if c == 1 else "(* %s %s)" % (self.num(c), s))
                if x.val:
                    parts.append(self.num(x.val))
                body = parts[0] if len(parts) == 1 else "(+ %s)" % " ".join(parts)
            elif x.op == "*":
                parts = [] if x.val == 1 else [self.num(x.val)]
                for b, e in x.args:
                    if e < 0:
                        raise core.Unsupported("negative exponent reached smt")
                    parts += [self.defd[b]] * e
                body = parts[0] if len(parts) == 1 else "(* %s)" % " ".join(parts)
            else:
                raise core.Unsupported("smt term " + x.op)
            if len(body) > 60:
                nm = "def!%d" % self.nt
                self.nt += 1
                self.lines.append("(define-fun %s () Real %s)" % (nm, body))
                self.defd[x] = nm
            else:
                self.defd[x] = body
            stack.pop()
        return self.defd[n]

    def rel(self, op, p):
        s = self.term(p)
        if op == "!=":
            return "(not (= %s 0.0))" % s
        if op == "==":
            return "(= %s 0.0)" % s
        return "(%s %s 0.0)" % (op, s)

    def formula(self, b):
        if isinstance(b, bool):
            return "true" if b else "false"
        if b.op in ("and", "or"):
            return "(%s %s)" % (b.op, " ".join(self.formula(a) for a in b.args))
        if b.op == "not":
            return "(not %s)" % self.formula(b.args[0])
        op, p = self.l.atom(b)
        return self.rel(op, p)

    def flush_side(self, nonzero=True):
        """assert side facts of everything lifted so far"""
        while self.done_side < len(self.l.side):
            op, p = self.l.side[self.done_side]
            self.done_side += 1
            self.lines.append("(assert %s)" % self.rel(op, p))
        if nonzero:
            for b in list(self.l.nonzero):
                if b not in self.done_nz:
                    self.done_nz.add(b)
                    if not core.is_pos(b):
                        self.lines.append("(assert %s)" % self.rel("!=", b))

    def assert_(self, b):
        f = self.formula(b)
        self.lines.append("(assert %s)" % f)

    def congruence(self):
        apps = list(self.l.apps.items())
        for i in range(len(apps)):
            for j in range(i):
                a, va = apps[i]
                b, vb = apps[j]
                if a.val == b.val and len(a.args) == len(b.args):
                    conds = []
                    triv = False
                    for p, q in zip(a.args, b.args):
                        d = core.sub(p, q)
                        if d.op == "const":
                            if d.val != 0:
                                triv = True
                            continue
                        op, poly = self.l.atom(SymBool("==", (d,)))
                        conds.append(self.rel("==", poly))
                    if triv:
                        continue
                    c = "(and true %s)" % " ".join(conds)
                    self.lines.append("(assert (=> %s %s))" % (c, self.rel("==", core.sub(va, vb))))
        # facts about the functions themselves
        for a, va in apps:
            if a.val == "exp":
                self.lines.append("(assert %s)" % self.rel("<", mul(const(-1), va)))
            if a.val in ("min", "max"):
                alts = []
                for x in a.args:
                    d = core.sub(a, x) if a.val == "min" else core.sub(x, a)
                    op, poly = self.l.atom(SymBool("<=", (d,)))
                    self.lines.append("(assert %s)" % self.rel(op, poly))
                    op, poly = self.l.atom(SymBool("==", (d,)))
                    alts.append(self.rel(op, poly))
                self.lines.append("(assert (or %s))" % " ".join(alts))
            if a.val in ("sin", "cos"):
                other = core.app("cos" if a.val == "sin" else "sin", *a.args)
                if a.val == "sin" and other in self.l.apps:
                    vo = self.l.apps[other]
                    self.lines.append("(assert %s)" % self.rel("==", core.sub(add(mul(va, va), mul(vo, vo)), ONE)))
                self.lines.append("(assert (and (<= %s 1.0) (>= %s (- 1.0))))" % (self.term(va), self.term(va)))


_RAT = re.compile(r"\(- ")


def parse_value(s):
    s = s.strip()
    if s.startswith("(-"):
        v = parse_value(s[2:-1])
        return None if v is None else -v
    if s.startswith("(/"):
        parts = _split(s[2:-1])
        a, b = parse_value(parts[0]), parse_value(parts[1])
        return None if a is None or b is None else a / b
    s = s.rstrip("?")
    try:
        return Fraction(s)
    except ValueError:
        return None


def _split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            depth += 1
        if ch == ")":
            depth -= 1
        if ch.isspace() and depth == 0:
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def run_solver(script, timeout, solver="z3"):
    """Return list of output lines."""
    t0 = time.time()
    if solver == "z3":
        cmd = [Z3, "-in", "-memory:6000"]
    elif solver == "z3old":
        cmd = [Z3OLD, "-in"]
    else:
        cmd = [CVC5, "--lang=smt2", "--produce-models", "-"]
    try:
        p = subprocess.run(cmd, input=script, capture_output=True, text=True, timeout=timeout)
        out = p.stdout
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        out += "\ntimeout\n"
    STATS["solver_s"] += time.time() - t0
    return out


def _model(out):
    m = {}
    i = out.find("((")
    txt = out[i:] if i >= 0 else ""
    # get-value output: ((|x| 1.0) (|y| (/ 1.0 2.0)))
    depth = 0
    cur = ""
    for ch in txt:
        if ch == "(":
            depth += 1
            if depth == 2:
                cur = ""
                continue
        if ch == ")":
            depth -= 1
            if depth == 1:
                parts = _split(cur)
                if len(parts) >= 2:
                    v = parse_value(" ".join(parts[1:]))
                    if v is not None:
                        m[parts[0].strip("|")] = v
                continue
            if depth == 0:
                break
        if depth >= 2:
            cur += ch
    return m


def check(conds, claims_neg=None, defs=None, expand=False, congruence=False, timeout=20, want=None, extra=(), strategy="nlsat", solver="z3", kind="claim"):
    """Satisfiability of the conjunction of SymBools in conds (+ extra smt formula builders).

    want: list of var Syms whose values are wanted on sat.  Returns (verdict, model)."""
    l = Lifter(defs, expand)
    s = Script(l)
    for b in conds:
        if isinstance(b, bool):
            if not b:
                return "unsat", None
            continue
        s.assert_(b)
    if congruence:
        s.congruence()
    if expand is False and defs and congruence:
        pass
    s.flush_side()
    s.flush_side()
    names = []
    if want is not None:
        for v in want:
            if v in s.decl:
                names.append(s.decl[v])
    head = ["(set-option :pp.decimal true)", "(set-option :pp.decimal_precision 17)"] if solver.startswith("z3") else ["(set-logic QF_NRA)"]
    tail = []
    ms = int(timeout * 1000)
    if solver.startswith("z3") and strategy == "nlsat":
        tail.append("(check-sat-using (try-for (then simplify purify-arith propagate-values solve-eqs (! simplify :som true) (or-else (try-for smt 300) qfnra-nlsat)) %d))" % ms if False else "(check-sat-using (or-else (try-for qfnra-nlsat %d) fail))" % ms)
    elif solver.startswith("z3"):
        head.append("(set-option :timeout %d)" % ms)
        tail.append("(check-sat)")
    else:
        tail.append("(check-sat)")
    if names:
        tail.append("(get-value (%s))" % " ".join(names))
    script = "\n".join(head + s.lines + tail) + "\n"
    if os.environ.get("VSYM_DUMP"):
        with open(os.environ["VSYM_DUMP"], "w") as f:
            f.write(script)
    t0 = time.time()
    out = run_solver(script, timeout + 5, solver)
    first = out.strip().split("\n")[0].strip() if out.strip() else ""
    if os.environ.get("VSYM_TRACE"):  # development: one line per query
        with open(os.environ["VSYM_TRACE"], "a") as f:
            f.write("%s %d conditions, %d characters: %s %.1f s expand=%s %s\n" % (kind, len(conds), len(script), first, time.time() - t0, expand, strategy))
    if kind == "claim":
        STATS["queries"] += 1
    else:
        STATS["feasibility"] += 1
    if "(error" in out and first != "unsat" and first != "sat":
        verdict = "unknown"
    elif first in ("sat", "unsat"):
        verdict = first
    else:
        verdict = "unknown"
    if "(error" in out and first in ("sat",) and not names:
        verdict = "unknown"
    if kind == "claim":
        STATS[verdict] += 1
    if verdict == "sat":
        return verdict, _model(out)
    return verdict, None


def check_many(claims, defs=None, expand=False, timeout=5, conds=(), congruence=False):
    """Each claim is a SymBool that must be valid; returns list of verdicts for its negation
    ('unsat' = the claim holds) using one solver process with push/pop."""
    l = Lifter(defs, expand)
    s = Script(l)
    for b in conds:
        if isinstance(b, bool):
            if not b:
                return ["unsat"] * len(claims)
            continue
        s.assert_(b)
    forms = []
    for c in claims:
        forms.append(s.formula(core.bnot(c)))
    if congruence:
        s.congruence()
    s.flush_side()
    s.flush_side()
    lines = list(s.lines)
    ms = int(timeout * 1000)
    for f in forms:
        lines.append("(push)")
        lines.append("(assert %s)" % f)
        lines.append("(check-sat-using (or-else (try-for qfnra-nlsat %d) fail))" % ms)
        lines.append("(pop)")
    out = run_solver("\n".join(lines) + "\n", 10 + timeout * max(3, len(forms)) if timeout > 1 else 60)
    res = []
    for ln in out.split("\n"):
        ln = ln.strip()
        if ln in ("sat", "unsat", "unknown"):
            res.append(ln)
        elif ln.startswith("(error"):
            if "tactic failed" in ln or "canceled" in ln:
                res.append("unknown")
            else:
                res = ["unknown"] * len(claims)
                break
    while len(res) < len(claims):
        res.append("unknown")
    res = res[: len(claims)]
    STATS["queries"] += len(claims)
    for r in res:
        STATS[r] += 1
    return res


def check_pairs(pairs, defs=None, timeout=5):
    """Validity of a == b for terms whose canonical forms already coincide (cheap confirmation)."""
    l = Lifter(defs, False)
    s = Script(l)
    forms = []
    for a, b in pairs:
        (n1, d1), (n2, d2) = l.rat(a), l.rat(b)
        forms.append("(not (= (* %s %s) (* %s %s)))" % (s.term(n1), s.term(l._prod(d2)), s.term(n2), s.term(l._prod(d1))))
    s.flush_side()
    lines = list(s.lines)
    for f in forms:
        lines += ["(push)", "(assert %s)" % f, "(check-sat-using (or-else (try-for qfnra-nlsat %d) fail))" % int(timeout * 1000), "(pop)"]
    out = run_solver("\n".join(lines) + "\n", 60)
    res = [x.strip() for x in out.split("\n") if x.strip() in ("sat", "unsat", "unknown")]
    if "(error" in out or len(res) != len(pairs):
        res = ["unknown"] * len(pairs)
    STATS["queries"] += len(pairs)
    for r in res:
        STATS[r] += 1
    return res
