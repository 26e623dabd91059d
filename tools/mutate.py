#!/opt/venv/bin/python
"""Mutation campaign (development aid, not a check): mutate.py cover | mutate.py run [N] [seed] [file-substring] | mutate.py one FILE.json
Small syntactic changes of the Python sources in scratch copies; the cases that execute the changed line are run, cheapest first.
Survivors that pass the stable tests are printed for a human to judge (equivalent, outside every claim, or a hole)."""
import ast, copy, glob, pickle, importlib, json, os, random, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/mut"
PY = "/opt/venv/bin/python"
SKIP = ("gfpe_instance.py", "pos_gle_fem.py", "_version.py")


def load():
    sys.path.insert(0, HERE)
    os.chdir(HERE)
    for f in sorted(glob.glob("checks/*.py")):
        importlib.import_module("checks." + os.path.basename(f)[:-3])


def cover():
    """which lines each quick case executes, on the real package"""
    load()
    from vsym import runner, harness, loader
    import multiprocessing as mp
    env = harness.Env()
    cost = {}
    for f in glob.glob(HERE + "/evidence/C*.json"):
        e = json.load(open(f))
        for c in e["coverage"]["cases"]:
            cost[e["property"], c["case"]] = c["seconds"]
    cases = [c for cs in runner.REGISTRY.values() for c in cs if c["tier"] == "quick"]

    def one(i):
        c = cases[i]
        lines = set()
        mon = sys.monitoring
        mon.use_tool_id(1, "cov")

        def on(code, line):
            if code.co_filename.startswith(loader.PKG):
                lines.add((os.path.relpath(code.co_filename, loader.REPO), line))
            return mon.DISABLE if not code.co_filename.startswith(loader.PKG) else None

        mon.register_callback(1, mon.events.LINE, on)
        mon.set_events(1, mon.events.LINE)
        for s in range(3):
            try:
                harness.run_real_here(env, c["fn"], rnd=random.Random(s))
            except BaseException:
                pass
        mon.set_events(1, 0)
        return c["prop"], c["name"], cost.get((c["prop"], c["name"]), 5.0), sorted(lines)

    out = []
    pids = []
    os.makedirs(W, exist_ok=True)
    for k in range(8):
        pid = os.fork()
        if not pid:
            res = []
            for i in range(k, len(cases), 8):
                try:
                    sys.monitoring.free_tool_id(1)
                except Exception:
                    pass
                res.append(one(i))
            json.dump(res, open("%s/cov%d.json" % (W, k), "w"))
            os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    for k in range(8):
        out += json.load(open("%s/cov%d.json" % (W, k)))
    json.dump(out, open(W + "/cov.json", "w"))
    hit = {tuple(l) for o in out for l in o[3]}
    for f in sorted(glob.glob(loader.PKG + "/**/*.py", recursive=True)):
        rel = os.path.relpath(f, loader.REPO)
        src = open(f).read()
        ex = set()
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.stmt) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                ex.add(n.lineno)
        miss = sorted(l for l in ex if (rel, l) not in hit)
        print(rel, len(ex), "statements, not executed by any case:", miss)


class Mut(ast.NodeTransformer):
    """applies the k-th possible change"""

    def __init__(self, k):
        self.k, self.i, self.what, self.line = k, -1, None, None
        self.infunc = 0

    def hit(self, node, what):
        self.i += 1
        if self.i == self.k:
            self.what, self.line = what, node.lineno
            return True
        return False

    def visit_FunctionDef(self, n):
        self.infunc += 1
        n.body = [self.visit(s) for s in n.body]
        n.body = [s for s in n.body if s is not None] or [ast.Pass()]
        self.infunc -= 1
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_Raise(self, n):
        return n

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return n
        if isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") in ("print",):
            return n
        if self.infunc and self.hit(n, "statement removed"):
            return ast.copy_location(ast.Pass(), n)
        return self.generic_visit(n)

    def visit_Assign(self, n):
        if not self.infunc:
            return n
        self.generic_visit(n)
        return n

    def visit_AugAssign(self, n):
        if self.infunc and self.hit(n, "augmented assignment turned into assignment"):
            return ast.copy_location(ast.Assign([n.target], n.value), n)
        return self.generic_visit(n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if not self.infunc or len(n.ops) != 1:
            return n
        sw = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
        for o in sw.get(type(n.ops[0]), []):
            if self.hit(n, "comparison %s -> %s" % (type(n.ops[0]).__name__, o.__name__)):
                n = copy.deepcopy(n)
                n.ops = [o()]
                return n
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not self.infunc or isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return n
        sw = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.MatMult: []}
        for o in sw.get(type(n.op), []):
            if self.hit(n, "operator %s -> %s" % (type(n.op).__name__, o.__name__)):
                n = copy.deepcopy(n)
                n.op = o()
                return n
        if isinstance(n.op, (ast.Add, ast.Sub)) and self.hit(n, "right term dropped"):
            return n.left
        if isinstance(n.op, (ast.Mult, ast.Div)):
            if self.hit(n, "right factor dropped"):
                return n.left
            if isinstance(n.op, ast.Mult) and self.hit(n, "left factor dropped"):
                return n.right
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if self.infunc and isinstance(n.op, (ast.USub, ast.Not)) and not isinstance(n.operand, ast.Constant) and self.hit(n, "unary operator dropped"):
            return n.operand
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.infunc and self.hit(n, "and/or exchanged"):
            n = copy.deepcopy(n)
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        return n

    def visit_Constant(self, n):
        if not self.infunc:
            return n
        v = n.value
        if isinstance(v, bool):
            if self.hit(n, "%r -> %r" % (v, not v)):
                return ast.copy_location(ast.Constant(not v), n)
        elif isinstance(v, int):
            for w in (v + 1, v - 1) if v else (1,):
                if self.hit(n, "%r -> %r" % (v, w)):
                    return ast.copy_location(ast.Constant(w), n)
        elif isinstance(v, float):
            if self.hit(n, "%r -> %r" % (v, v + 1 if v < 100 else v * 10)):
                return ast.copy_location(ast.Constant(v + 1 if v < 100 else v * 10), n)
        elif isinstance(v, str) and "->" in v and "," in v.split("->")[0] and len(v) < 40:
            a, b = v.split("->")
            ops = a.split(",")
            if self.hit(n, "einsum operands exchanged in %r" % v):
                return ast.copy_location(ast.Constant(",".join([ops[1], ops[0]] + ops[2:]) + "->" + b), n)
            if len(b.strip()) > 1 and self.hit(n, "einsum output reversed in %r" % v):
                return ast.copy_location(ast.Constant(a + "->" + b.strip()[::-1]), n)
        return n

    def visit_If(self, n):
        if self.infunc and not (isinstance(n.test, ast.Attribute) and n.test.attr == "verbose"):
            if self.hit(n, "condition always true"):
                n = copy.deepcopy(n)
                n.test = ast.Constant(True)
                return n
            if self.hit(n, "condition always false"):
                n = copy.deepcopy(n)
                n.test = ast.Constant(False)
                return n
            self.generic_visit(n)
        return n

    def visit_Slice(self, n):
        self.generic_visit(n)
        if self.infunc:
            if n.lower is not None and self.hit(n.lower, "slice start dropped"):
                return ast.copy_location(ast.Slice(None, n.upper, n.step), n)
            if n.upper is not None and self.hit(n.upper, "slice end dropped"):
                return ast.copy_location(ast.Slice(n.lower, None, n.step), n)
        return n

    def visit_Call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if name in ("print", "format"):
            return n
        self.generic_visit(n)
        if not self.infunc:
            return n
        sw = {"min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum", "zeros": "ones", "ones": "zeros", "sin": "cos", "cos": "sin", "sum": "mean", "floor": "ceil", "ceil": "floor", "any": "all", "all": "any"}
        if name in sw and self.hit(n, "%s -> %s" % (name, sw[name])):
            n = copy.deepcopy(n)
            if isinstance(n.func, ast.Attribute):
                n.func.attr = sw[name]
            else:
                n.func.id = sw[name]
            return n
        if name in ("abs", "real", "copy", "conj", "transpose", "array", "asarray", "sorted") and len(n.args) <= 1:
            arg = n.args[0] if n.args else (f.value if isinstance(f, ast.Attribute) else None)
            if arg is not None and self.hit(n, "%s dropped" % name):
                return arg
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and name not in ("einsum", "isinstance", "zeros", "getattr", "hasattr", "setattr"):
            if self.hit(n, "first two arguments of %s exchanged" % name):
                n = copy.deepcopy(n)
                n.args[0], n.args[1] = n.args[1], n.args[0]
                return n
        for i, k in enumerate(n.keywords):
            if k.arg and k.arg not in ("dask", "dask_gufunc_kwargs", "dtype") and self.hit(n, "keyword %s of %s dropped" % (k.arg, name)):
                n = copy.deepcopy(n)
                del n.keywords[i]
                return n
        return n


def mutants(rel):
    src = open("/repo/" + rel).read()
    tree = ast.parse(src)
    p = pickle.dumps(tree)
    m = Mut(-2)
    m.visit(copy.deepcopy(tree))
    total = m.i + 1
    for k in range(total):
        m = Mut(k)
        m.visit(pickle.loads(p))
        if m.what:
            yield k, m.line, m.what


def scratch(k):
    d = "%s/tree%d" % (W, k)
    if not os.path.isdir(d):
        os.makedirs(d)
        for s in ("VolterraBasis", "tests", "examples", "setup.py"):
            p = "/repo/" + s
            (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, d + "/" + s)
    return d


def worker():
    """stdin: list of (prop, case); runs them in order, prints the first violation"""
    todo = json.load(sys.stdin)
    limit = float(os.environ.get("MUT_LIMIT", "150"))
    load()
    from vsym import runner, harness
    t0 = time.time()
    try:
        env = harness.Env()
    except BaseException as e:
        print("KILLED import %r" % (e,))
        return
    reg = {(c["prop"], c["name"]): c for cs in runner.REGISTRY.values() for c in cs}
    n, inc = 0, 0
    for key in todo:
        if time.time() - t0 > limit:
            print("TIMEOUT after %d of %d" % (n, len(todo)))
            return
        c = reg[tuple(key)]
        r = runner.run_cases(env, [c], 1, 60, 1)[c["name"]]
        n += 1
        if r.get("violations"):
            v = r["violations"][0]
            print("KILLED %s | %s | %s (case %d)" % (c["prop"], c["name"], v["claim"], n))
            return
        if r.get("error") or r.get("unsupported") or r.get("unknown"):
            inc += 1
    print("SURVIVED %d cases, %d inconclusive" % (n, inc))


def run(N, seed, only):
    cov = json.load(open(W + "/cov.json"))
    byline = {}
    for p, n, cost, lines in cov:
        for f, l in lines:
            byline.setdefault((f, l), []).append((cost, p, n))
    pool = []
    for f in sorted(glob.glob("/repo/VolterraBasis/**/*.py", recursive=True)):
        rel = os.path.relpath(f, "/repo")
        if os.path.basename(f) in SKIP or only and only not in rel:
            continue
        for m in mutants(rel):
            pool.append((rel,) + m)
    rnd = random.Random(seed)
    rnd.shuffle(pool)
    done = set()
    log = W + "/log.jsonl"
    if os.path.exists(log):
        for l in open(log):
            e = json.loads(l)
            done.add((e["file"], e["k"]))
    pool = [p for p in pool if (p[0], p[1]) not in done and any(byline.get((p[0], p[2] - d)) for d in range(6))][:N]
    print(len(pool), "mutants")
    J = int(os.environ.get("MUT_JOBS", "7"))
    live = {}
    free = list(range(J))
    while pool or live:
        while pool and free:
            rel, k, line, what = pool.pop()
            slot = free.pop()
            d = scratch(slot)
            mm = Mut(k)
            t = mm.visit(ast.parse(open("/repo/" + rel).read()))
            assert mm.what == what
            ast.fix_missing_locations(t)
            open(d + "/" + rel, "w").write(ast.unparse(t))
            cs = sorted(byline.get((rel, line), []))
            # statements spanning lines: fall back to neighbours
            for dl in range(1, 6):
                if cs:
                    break
                cs = sorted(byline.get((rel, line - dl), []))
            # cheapest first, but vary the properties
            order, seen = [], {}
            for c, p, n in cs:
                seen.setdefault(p, []).append((c, p, n))
            while any(seen.values()):
                for p in list(seen):
                    if seen[p]:
                        order.append(seen[p].pop(0))
            e = dict(os.environ, VSYM_REPO=d, VSYM_PREBUILT="1", VSYM_EVIDENCE=W + "/ev%d" % slot, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            pr = subprocess.Popen([PY, os.path.abspath(__file__), "worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=e)
            pr.stdin.write(json.dumps([[p, n] for _, p, n in order]))
            pr.stdin.close()
            live[slot] = (pr, rel, k, line, what, len(order))
        time.sleep(0.2)
        for slot, (pr, rel, k, line, what, n) in list(live.items()):
            if pr.poll() is None:
                continue
            out = (pr.stdout.read().strip().splitlines() or ["WORKER DIED"])[-1]
            d = scratch(slot)
            tests = ""
            if not out.startswith("KILLED"):
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:benchmark", "--timeout=100", "tests"], cwd=d, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONPATH=d))
                tests = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "?"
            shutil.copy("/repo/" + rel, d + "/" + rel)
            rec = dict(file=rel, k=k, line=line, what=what, cases=n, result=out, tests=tests)
            open(log, "a").write(json.dumps(rec) + "\n")
            if not out.startswith("KILLED") :
                print("%s:%d %s | %d cases | %s | %s\n      %s" % (rel, line, what, n, out, tests, open("/repo/" + rel).read().splitlines()[line - 1].strip()), flush=True)
            del live[slot]
            free.append(slot)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "cover":
        cover()
    elif a[0] == "worker":
        worker()
        sys.stdout.flush()
        os._exit(0)
    elif a[0] == "run":
        run(int(a[1]) if len(a) > 1 else 50, int(a[2]) if len(a) > 2 else 0, a[3] if len(a) > 3 else None)
    elif a[0] == "one":  # one FILE K PROP...: the whole checks on one mutant
        rel, k = a[1], int(a[2])
        d = scratch(99)
        mm = Mut(k)
        t = ast.fix_missing_locations(mm.visit(ast.parse(open("/repo/" + rel).read())))
        open("/tmp/w/mut/orig.py", "w").write(ast.unparse(ast.parse(open("/repo/" + rel).read())))
        open(d + "/" + rel, "w").write(ast.unparse(t))
        print(subprocess.run(["diff", "/tmp/w/mut/orig.py", d + "/" + rel], capture_output=True, text=True).stdout)
        for p in a[3:]:
            r = subprocess.run([PY, "run.py", p, "quick"], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, VSYM_REPO=d, VSYM_PREBUILT="1", VSYM_EVIDENCE=W + "/ev99", PYTHONDONTWRITEBYTECODE="1"))
            print("\n".join(l[:220] for l in r.stdout.splitlines() if not l.startswith("VIOL"))[-700:])
        shutil.copy("/repo/" + rel, d + "/" + rel)
