#!/opt/venv/bin/python
"""Behaviour-preserving rewrites of the whole package in a scratch copy, then every check on it (development aid):
quiet.py [rewrite[+rewrite...] ...] [PROP ...]; every check has to stay quiet and conclusive.
rewrites: while (for loops), invert (if/else), flip (comparisons and sums), temp (call arguments put in temporaries),
          rename (local variables), helper (function bodies moved to helpers), setitem (x[i] += y spelled out), dot (some einsum)"""
import ast, copy, glob, json, os, shutil, subprocess, sys, time

PY = "/opt/venv/bin/python"
D = "/tmp/w/quiet"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ("gfpe_instance.py", "pos_gle_fem.py", "_version.py", "__init__.py")


class While(ast.NodeTransformer):
    n = 0

    def visit_For(self, s):
        self.generic_visit(s)
        if s.orelse or any(isinstance(x, ast.Continue) for x in ast.walk(s)):
            return s
        While.n += 1
        it = "_it%d" % While.n
        pre = ast.parse("%s = iter(None)" % it).body[0]
        pre.value.args[0] = s.iter
        body = ast.parse("while True:\n    try:\n        _v = next(%s)\n    except StopIteration:\n        break" % it).body[0]
        body.body[0].body[0].targets[0] = s.target
        body.body += s.body
        return [pre, body]


class Invert(ast.NodeTransformer):
    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse:
            s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
        return s

    def visit_IfExp(self, s):
        self.generic_visit(s)
        s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
        return s


class Flip(ast.NodeTransformer):
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.F:
            return ast.Compare(n.comparators[0], [self.F[type(n.ops[0])]()], [n.left])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)

        def plain(x):
            return isinstance(x, (ast.Name, ast.Subscript, ast.Constant)) and not (isinstance(x, ast.Constant) and isinstance(x.value, str))
        if isinstance(n.op, ast.Mult) and plain(n.left) and plain(n.right):
            n.left, n.right = n.right, n.left
        return n


class Temp(ast.NodeTransformer):
    """y = f(g(x), h(z))  ->  t1 = g(x); t2 = h(z); y = f(t1, t2)"""
    n = 0

    def visit_Assign(self, s):
        if isinstance(s.value, ast.Call) and not any(isinstance(x, (ast.Lambda, ast.IfExp, ast.BoolOp, ast.Starred, ast.ListComp)) for x in ast.walk(s.value)):
            out = []
            f = s.value.func
            if not isinstance(f, (ast.Name, ast.Attribute)) or isinstance(f, ast.Attribute) and not isinstance(f.value, (ast.Name, ast.Attribute)):
                return s
            for i, a in enumerate(s.value.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript)):
                    Temp.n += 1
                    t = "_t%d" % Temp.n
                    out.append(ast.Assign([ast.Name(t, ast.Store())], a))
                    s.value.args[i] = ast.Name(t, ast.Load())
            return out + [s]
        return s

    def visit_Return(self, s):
        if s.value is None or isinstance(s.value, ast.Constant):
            return s
        return [ast.Assign([ast.Name("_ret", ast.Store())], s.value), ast.Return(ast.Name("_ret", ast.Load()))]


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for b in f.body for x in ast.walk(b)):
            return f
        args = {a.arg for a in f.args.args + f.args.kwonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        loc = {x.id for b in f.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        for b in f.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id = "loc_" + x.id
        return f


class Helper(ast.NodeTransformer):
    """method body moved to a private method"""

    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith("__") and f.args.args and f.args.args[0].arg == "self" and not any("super" == getattr(x, "id", "") for x in ast.walk(f)):
                g = copy.deepcopy(f)
                g.name = "_body_of_%s_%s" % (c.name, f.name)
                call = "self.%s(%s)" % (g.name, ", ".join([a.arg for a in f.args.args[1:]] + (["*" + f.args.vararg.arg] if f.args.vararg else []) + ["%s=%s" % (a.arg, a.arg) for a in f.args.kwonlyargs] + (["**" + f.args.kwarg.arg] if f.args.kwarg else [])))
                f.body = ([f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []) + ast.parse("return " + call).body
                new.append(g)
            new.append(f)
        c.body = new
        return c


class SetItem(ast.NodeTransformer):
    def visit_AugAssign(self, s):
        if isinstance(s.target, ast.Subscript):
            t = copy.deepcopy(s.target)
            t.ctx = ast.Load()
            return ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
        return s


class Dot(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and getattr(f.value, "id", "") == "np":
            if f.attr == "einsum" and len(n.args) == 3 and isinstance(n.args[0], ast.Constant) and not n.keywords:
                a, b = n.args[0].value.replace(" ", "").split("->")
                p, q = a.split(",")
                if "..." not in a:
                    n.args[0] = ast.Constant("%s,%s->%s" % (q, p, b))
                    n.args[1], n.args[2] = n.args[2], n.args[1]
            elif f.attr == "matmul" and len(n.args) == 2:
                return ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
            elif f.attr == "zeros" and len(n.args) == 1 and not n.keywords:
                n.keywords = [ast.keyword("dtype", ast.Name("float", ast.Load()))]
        return n


ALL = {"while": While, "invert": Invert, "flip": Flip, "temp": Temp, "rename": Rename, "helper": Helper, "setitem": SetItem, "dot": Dot}


def main():
    a = sys.argv[1:]
    ws = [x for x in a if x.split("+")[0] in ALL] or list(ALL)
    ps = [x for x in a if x.split("+")[0] not in ALL] or [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
    for w in ws:
        shutil.rmtree(D, ignore_errors=True)
        shutil.copytree("/repo", D, symlinks=True)
        for f in glob.glob(D + "/VolterraBasis/**/*.py", recursive=True):
            if os.path.basename(f) in SKIP and not f.endswith("VolterraBasis/__init__.py"):
                continue
            for k in w.split("+"):
                t = ast.fix_missing_locations(ALL[k]().visit(ast.parse(open(f).read())))
                open(f, "w").write(ast.unparse(t) + "\n")
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:benchmark", "tests"], cwd=D, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=D, MPLBACKEND="Agg"))
        print(w, "tests:", r.stdout.strip().splitlines()[-1], flush=True)
        for p in ps:
            t = time.time()
            r = subprocess.run([PY, "run.py", p, "quick"], cwd=V, capture_output=True, text=True, env=dict(os.environ, VSYM_REPO=D, VSYM_PREBUILT="1", VSYM_EVIDENCE="/tmp/w/ev"))
            bad = [l[:200] for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "  case", "INCONCLUSIVE"))]
            print(w, p, "rc=%d" % r.returncode, "quiet" if r.returncode == 0 and not bad else "NOT QUIET", "%.0fs" % (time.time() - t), bad[:3] or "", flush=True)
    shutil.rmtree(D, ignore_errors=True)


main()
