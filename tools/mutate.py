"""Mutation testing of the checks (development aid, no check uses it).

mutate.py COV.json OUT.jsonl [--files SUBSTR,...] [--per-file N] [--scale X] [--jobs N] [--seed S]
Every mutant is one small textual change of one non-test source file, loaded through an import hook (nothing is written to
/repo); the sub-checks whose coverage (mutcov.py) includes the changed line run on it until one reports a violation."""
import argparse, ast, hashlib, json, os, random, subprocess, sys, time, signal
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&"}
NAMES = {"max": "min", "min": "max", "argmax": "argmin", "argmin": "argmax", "any": "all", "all": "any", "zeros": "ones", "ones": "zeros", "mean": "sum", "sum": "mean", "permutations": "combinations",
         "combinations": "permutations", "successors": "predecessors", "predecessors": "successors", "std": "var", "exp": "expm1", "log": "log1p", "sin": "cos", "floor": "ceil", "ceil": "floor", "triu": "tril", "tril": "triu", "sqrt": "square",
         "union": "intersection", "intersection": "union", "sorted": "list", "copy": None, "deepcopy": None, "abs": "float", "median": "mean", "cdf": "sf", "sf": "cdf", "inv": "pinv", "append": "insert0", "diag": "diagflat", "hstack": "vstack", "vstack": "hstack"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    enc = src.encode()
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    pos = lambda l, c: off[l - 1] + c
    seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: enc[slice(*seg(n))].decode()
    out = []

    def put(node, a, b, new, what):
        out.append((node.lineno, a, b, new, what))

    class V(ast.NodeVisitor):
        infn = 0

        def visit_FunctionDef(self, n):
            self.infn += 1
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                if isinstance(d, ast.Constant):
                    self.visit(d)
            self.block(n.body)
            self.infn -= 1

        def visit_ClassDef(self, n):
            self.block(n.body)

        def block(self, body):
            for k, s in enumerate(body):
                if self.infn and not (k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    if isinstance(s, (ast.AugAssign, ast.Delete, ast.Raise)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) or isinstance(s, ast.Assign) and (not isinstance(s.targets[0], ast.Name)):
                        if "print(" not in text(s)[:6]:
                            put(s, *seg(s), "pass", "delete")
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and k > 0:
                        put(s, *seg(s), "pass", "delete")
                    if isinstance(s, ast.Continue):
                        put(s, *seg(s), "break", "break")
                    if isinstance(s, ast.Break):
                        put(s, *seg(s), "pass", "nobreak")
                self.visit(s)

        def generic_visit(self, n):
            for f, v in ast.iter_fields(n):
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    self.block(v)
                elif isinstance(v, list):
                    for x in v:
                        if isinstance(x, ast.AST):
                            self.visit(x)
                elif isinstance(v, ast.AST):
                    self.visit(v)

        def visit_Expr(self, n):
            if isinstance(n.value, ast.Constant) or text(n).startswith("print("):
                return
            self.generic_visit(n)

        def visit_Compare(self, n):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                a, b = seg(left)[1], seg(right)[0]
                for new in CMP.get(type(op), []):
                    mid = enc[a:b].decode()
                    if "(" not in mid and ")" not in mid:
                        put(n, a, b, " %s " % new, "compare")
                left = right
            self.generic_visit(n)

        def visit_BinOp(self, n):
            a, b = seg(n.left)[1], seg(n.right)[0]
            mid = enc[a:b].decode()
            if type(n.op) in BIN and "(" not in mid and ")" not in mid and "\n" not in mid and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                put(n, a, b, " %s " % BIN[type(n.op)], "binop")
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    put(n, *seg(n), text(n.left), "drop right")
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            a, b = seg(n.target)[1], seg(n.value)[0]
            if type(n.op) in BIN:
                put(n, a, b, " %s= " % BIN[type(n.op)], "augop")
                put(n, a, b, " = ", "augop")
            self.generic_visit(n)

        def visit_BoolOp(self, n):
            for l, r in zip(n.values, n.values[1:]):
                a, b = seg(l)[1], seg(r)[0]
                mid = enc[a:b].decode()
                if "(" not in mid and ")" not in mid:
                    put(n, a, b, " or " if isinstance(n.op, ast.And) else " and ", "boolop")
            for v in n.values:
                put(n, *seg(v), "True" if isinstance(n.op, ast.And) else "False", "drop clause")
            self.generic_visit(n)

        def visit_UnaryOp(self, n):
            if isinstance(n.op, (ast.USub, ast.Not)):
                put(n, *seg(n), "(" + text(n.operand) + ")", "unary")
            self.generic_visit(n)

        def cond(self, n):
            put(n, *seg(n.test), "True", "always")
            put(n, *seg(n.test), "False", "never")
            self.generic_visit(n)
        visit_If = cond
        visit_IfExp = cond

        def visit_comprehension(self, n):
            for c in n.ifs:
                put(c, *seg(c), "True", "always")
            self.generic_visit(n)

        def visit_Constant(self, n):
            v = n.value
            if isinstance(v, bool):
                put(n, *seg(n), str(not v), "const")
            elif isinstance(v, int):
                put(n, *seg(n), str(v + 1), "const")
                if v > 0:
                    put(n, *seg(n), str(v - 1), "const")
            elif isinstance(v, float):
                put(n, *seg(n), repr(v * 1.5 if v else .1), "const")

        def visit_Attribute(self, n):
            if n.attr == "T":
                put(n, *seg(n), text(n.value), "no T")
            self.generic_visit(n)

        def visit_Slice(self, n):
            for f, d in ((n.lower, "0"), (n.upper, None)):
                if f is not None and not isinstance(f, ast.Constant):
                    put(f, *seg(f), "(" + text(f) + ") + 1", "slice")
            self.generic_visit(n)

        def visit_Call(self, n):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name in NAMES:
                new = NAMES[name]
                e = seg(f)[1]
                if name == "copy" and isinstance(f, ast.Attribute) and not n.args and text(f.value) not in ("copy",):
                    put(n, *seg(n), text(f.value), "no copy")
                elif name in ("copy", "deepcopy") and n.args:
                    put(n, *seg(n), text(n.args[0]), "no copy")
                elif new == "insert0" and len(n.args) == 1:
                    put(n, e - len(name), e, "insert", "insert") if False else None
                    put(n, seg(f)[0], seg(n.args[0])[0], text(f.value) + ".insert(0, ", "insert0")
                elif new and new != "insert0":
                    put(n, e - len(name), e, new, "name")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args[0], n.args[1]
                if text(a) != text(b) and not (isinstance(a, ast.Constant) and isinstance(b, ast.Constant)):
                    put(n, seg(a)[0], seg(b)[1], text(b) + ", " + text(a), "swap args")
            for k in n.keywords:
                if k.arg and k.arg not in ("dtype",):
                    a = seg(k)[0]
                    e = seg(k)[1]
                    rest = enc[e:e + 200].decode(errors="ignore").lstrip()
                    pre = enc[:a].decode(errors="ignore").rstrip()
                    if pre.endswith(","):
                        put(n, len(pre.encode()) - 1, e, "", "drop kw")
            self.generic_visit(n)

        def visit_Subscript(self, n):
            if isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
                a, b = n.slice.elts
                if text(a) != text(b) and not isinstance(a, ast.Slice) | isinstance(b, ast.Slice):
                    put(n, seg(a)[0], seg(b)[1], text(b) + ", " + text(a), "swap index")
            self.generic_visit(n)

        def visit_Return(self, n):
            if n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) >= 2:
                a, b = n.value.elts[:2]
                put(n, seg(a)[0], seg(b)[1], text(b) + ", " + text(a), "swap return")
            self.generic_visit(n)

        def visit_Assert(self, n):
            put(n, *seg(n), "pass", "delete")

        def visit_JoinedStr(self, n):
            pass

    V().visit(tree)
    seen, res = set(), []
    for ln, a, b, new, what in out:
        m = enc[:a] + new.encode() + enc[b:]
        h = hashlib.sha1(m).hexdigest()
        if h in seen or m == enc:
            continue
        seen.add(h)
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((ln, what, enc[a:b].decode()[:80], new[:80], m))
    return res


def child(target, source, order, scale, budget):
    """Runs in a forked process: exit 1 killed, 0 survived, 3 out of budget."""
    import importlib, importlib.machinery as im, importlib._bootstrap_external as be
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
    if os.environ.get("SURV"):
        pass

    def nocache(*a, **k):
        raise NotImplementedError
    be.cache_from_source = nocache
    real = im.SourceFileLoader.get_data

    def get_data(self, path):
        return source if os.path.abspath(path) == target else real(self, path)
    im.SourceFileLoader.get_data = get_data
    from harness import core
    core.SHRINK_SECONDS = 0
    core.CASE_CPU_SECONDS = 40
    t0 = time.time()
    full = {}
    for pid, name, part in [(p, n, .04) for p, n in order] + [(p, n, scale) for p, n in order[:12]]:
        try:
            suite = importlib.import_module("checks." + pid.lower()).SUITE
            s = suite.get(name)
            n = full.setdefault((pid, name), s.n["quick"])
            s.n["quick"] = max(min(n, 10 * s.shards["quick"] if part == .04 else 30), int(n * part))
            if s.cases is not None and part == .04:
                continue
            for k in range(s.shards["quick"] if part != .04 else 1):
                if time.time() - t0 > budget:
                    os._exit(3)
                r = core.run_sub(suite, s, "quick", k, 1)
                if r.failure:
                    os._exit(1)
        except SystemExit:
            os._exit(1)
        except BaseException:
            os._exit(4)
    os._exit(0)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cov"); ap.add_argument("out")
    ap.add_argument("--files", default=""); ap.add_argument("--per-file", type=int, default=40); ap.add_argument("--scale", type=float, default=.5)
    ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--budget", type=float, default=240)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    sys.path[:0] = [os.path.join(ROOT, ".deps"), ROOT, "/repo"]
    cov = json.load(open(a.cov))
    hit = {}
    for key, v in cov.items():
        for f, ln in v["lines"]:
            hit.setdefault((f, ln), []).append((v["t"], key))
    files = sorted({f for f, _ in hit})
    rng = random.Random(a.seed)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l); done.add((d["file"], d["line"], d["old"], d["new"], d["what"]))
    todo = []
    for f in files:
        if "/tests/" in f or a.files and not any(x in f for x in a.files.split(",")):
            continue
        ms = mutants(open("/repo/" + f).read())
        ms = [m for m in ms if (f, m[0]) in hit]
        rng.shuffle(ms)
        if a.list:
            print(f, len(ms))
        for m in ms[:a.per_file]:
            if (f, m[0], m[2], m[3], m[1]) not in done:
                todo.append((f, m))
    if a.list:
        sys.exit()
    rng.shuffle(todo)
    print(len(todo), "mutants", flush=True)
    import numpy, scipy.stats, scipy.optimize, pandas, networkx, hypothesis, sklearn.linear_model, sklearn.gaussian_process, torch, igraph, matplotlib.pyplot, lingam
    torch.set_num_threads(1)
    from harness import core  # noqa
    running, res = {}, open(a.out, "a")
    count = {}
    while todo or running:
        while todo and len(running) < a.jobs:
            f, m = todo.pop()
            order = [k.split("/") for t, k in sorted(hit[(f, m[0])], key=lambda x: (len(cov[x[1]]["lines"]), x))]
            pid = os.fork()
            if pid == 0:
                os.setsid()
                child("/repo/" + f, m[4], order, a.scale, a.budget)
            running[pid] = (f, m, time.time(), len(order))
        time.sleep(.05)
        for pid in list(running):
            f, m, t, k = running[pid]
            w, st = os.waitpid(pid, os.WNOHANG)
            if w == 0:
                if time.time() - t > a.budget * 2 + 60:
                    os.killpg(pid, signal.SIGKILL)
                continue
            del running[pid]
            rc = os.waitstatus_to_exitcode(st)
            verdict = {0: "SURVIVED", 1: "killed", 3: "BUDGET", 4: "error"}.get(rc, "died %d" % rc)
            count[verdict] = count.get(verdict, 0) + 1
            res.write(json.dumps(dict(file=f, line=m[0], what=m[1], old=m[2], new=m[3], verdict=verdict, subs=k, t=round(time.time() - t, 1))) + "\n"); res.flush()
            if sum(count.values()) % 50 == 0:
                print(count, len(todo), flush=True)
    print(count)
