"""Mutation testing of the checks (development only; no check uses this).

Makes small changes to binobj one at a time in scratch copies, keeps those that its test
suite doesn't notice, and runs the checks on these with VF_REPO set to the copy.

    python3 tools/mutate.py list                     # how many mutants
    python3 tools/mutate.py tests OUT                # mutants the tests don't notice
    python3 tools/mutate.py checks OUT RESULTS       # which checks notice these
"""
import ast, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MUT_REPO", "/repo")
FILES = ["structures", "varints", "helpers", "pep526", "decorators", "fields/base",
         "fields/containers", "fields/numeric", "fields/stringlike"]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
       ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Mod: "*",
       ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.Div: "*"}


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split("\n")
        self.starts = [0]
        for ln in self.lines:
            self.starts.append(self.starts[-1] + len(ln) + 1)
        self.out = []

    def pos(self, ln, col):
        return self.starts[ln - 1] + len(self.lines[ln - 1].encode()[:col].decode())

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.src[a:b]

    def rep(self, n, new, what):
        a, b = self.span(n)
        self.out.append((a, b, new, n.lineno, what))

    def visit_FunctionDef(self, n):
        if any("overload" in ast.dump(d) for d in n.decorator_list):
            return
        for st in n.body:
            self.visit(st)
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(d)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.rep(n, "pass", "del " + self.text(n)[:60])
        self.generic_visit(n)

    def visit_Assign(self, n):
        if not isinstance(n.targets[0], ast.Name):
            self.rep(n, "pass", "del " + self.text(n)[:60])
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.rep(n, "pass", "del " + self.text(n)[:60])
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.rep(n, "pass", "del " + self.text(n)[:60])

    def visit_Continue(self, n):
        self.rep(n, "pass", "continue->pass")
        self.rep(n, "break", "continue->break")

    def visit_Break(self, n):
        self.rep(n, "pass", "break->pass")

    def visit_If(self, n):
        if "TYPE_CHECKING" in self.text(n.test):
            return
        self.rep(n.test, "True", "if True: was " + self.text(n.test)[:60])
        self.rep(n.test, "False", "if False: was " + self.text(n.test)[:60])
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.rep(n, self.text(n.body), "ifexp body")
        self.rep(n, self.text(n.orelse), "ifexp else")
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            new = CMP[type(n.ops[0])]
            self.rep(n, f"({self.text(n.left)} {new} {self.text(n.comparators[0])})",
                     f"cmp {new}")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.rep(n, "(" + op.join(f"({self.text(v)})" for v in n.values) + ")", "boolop")
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            o = " and " if isinstance(n.op, ast.And) else " or "
            self.rep(n, "(" + o.join(f"({self.text(v)})" for v in rest) + ")",
                     f"boolop drop {self.text(n.values[i])[:50]}")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.rep(n, f"bool({self.text(n.operand)})", "drop not")
        elif isinstance(n.op, ast.USub):
            self.rep(n, self.text(n.operand), "drop -")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)):
            self.rep(n, f"({self.text(n.left)} {BIN[type(n.op)]} {self.text(n.right)})",
                     f"binop {BIN[type(n.op)]}")
        self.generic_visit(n)

    def visit_JoinedStr(self, n):
        pass

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.rep(n, str(not n.value), f"{n.value} flipped")
        elif isinstance(n.value, int):
            self.rep(n, str(n.value + 1), f"{n.value}+1")
            if n.value > 0:
                self.rep(n, str(n.value - 1), f"{n.value}-1")
        elif isinstance(n.value, bytes):
            self.rep(n, repr(n.value + b"!"), "bytes")

    def visit_Call(self, n):
        t = self.text(n.func)
        if t.startswith(("warnings", "typing.cast", "logging")) or "Error" in t:
            return
        for k in n.keywords:
            if k.arg and k.arg != "field" and not t.endswith("super().__init__"):
                rest = [self.text(a) for a in n.args] + [
                    (f"{q.arg}=" if q.arg else "**") + self.text(q.value)
                    for q in n.keywords if q is not k]
                self.rep(n, f"{t}({', '.join(rest)})", f"drop {k.arg}= of {t}")
        if len(n.args) > 1:
            rest = [self.text(a) for a in n.args[:-1]] + [
                (f"{q.arg}=" if q.arg else "**") + self.text(q.value) for q in n.keywords]
            self.rep(n, f"{t}({', '.join(rest)})", f"drop last arg of {t}")
        if len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in (
                "dict", "list", "tuple", "set", "bool", "int", "abs", "reversed"):
            self.rep(n, self.text(n.args[0]), f"drop {t}()")
        if isinstance(n.func, ast.Attribute) and n.func.attr == "copy":
            self.rep(n, self.text(n.func.value), "drop copy()")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value and not isinstance(n.value, ast.Constant):
            self.rep(n.value, "None", "return None")
        self.generic_visit(n)

    def visit_Name(self, n):
        if n.id in ("loaded_fields", "all_fields", "field_values") and isinstance(
                n.ctx, ast.Load):
            self.rep(n, "{}", f"{n.id}->{{}}")
        if n.id in ("context",) and isinstance(n.ctx, ast.Load):
            self.rep(n, "None", f"{n.id}->None")


def mutants():
    seen = set()
    for f in FILES:
        path = f"binobj/{f}.py"
        src = open(f"{REPO}/{path}").read()
        v = V(src)
        for st in ast.parse(src).body:
            v.visit(st)
        for a, b, new, line, what in v.out:
            key = (path, a, b, new)
            if key in seen or src[a:b] == new:
                continue
            seen.add(key)
            yield {"id": len(seen), "path": path, "a": a, "b": b, "new": new,
                   "line": line, "what": what}


class Slot:
    """A scratch copy that mutants are written into one after another."""

    def __init__(self, i):
        self.dir = f"/tmp/w/mut/s{i}"
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.copytree(REPO, self.dir, ignore=shutil.ignore_patterns(
            ".git", "__pycache__", "docs", "*.pyc"))

    def set(self, m):
        src = open(f"{REPO}/{m['path']}").read()
        out = src[:m["a"]] + m["new"] + src[m["b"]:]
        try:
            compile(out, "x", "exec")
        except SyntaxError:
            return False
        open(f"{self.dir}/{m['path']}", "w").write(out)
        return True

    def reset(self, m):
        shutil.copy(f"{REPO}/{m['path']}", f"{self.dir}/{m['path']}")

    def tests(self):
        env = dict(os.environ, PYTHONPATH=self.dir, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0", TZ="UTC")
        try:
            r = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
                 "no:cacheprovider", "--no-cov", "--import-mode", "importlib",
                 "--randomly-seed=0", "--randomly-dont-reorganize", "--timeout=20",
                 "tests"], cwd=self.dir, env=env, capture_output=True, timeout=120,
                preexec_fn=limit)
        except subprocess.TimeoutExpired:
            return False
        return r.returncode == 0

    def check(self, c, scale):
        env = dict(os.environ, VF_REPO=self.dir, VF_EVIDENCE=self.dir + "/evidence",
                   VF_SHRINK="0")
        try:
            r = subprocess.run(["./check", c, "--jobs", "1", "--scale", str(scale)],
                               cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env, capture_output=True, timeout=900)
        except subprocess.TimeoutExpired:
            return 9
        return r.returncode


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def pool(items, fn, n=8):
    import queue
    slots = queue.Queue()
    for i in range(n):
        slots.put(Slot(i))

    def job(m):
        s = slots.get()
        try:
            return m, fn(s, m)
        finally:
            slots.put(s)

    with ThreadPoolExecutor(n) as ex:
        yield from ex.map(job, items)


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        print(len(list(mutants())))
    elif cmd == "tests":
        done = open(sys.argv[2], "w")

        def t(s, m):
            if not s.set(m):
                return False
            ok = s.tests()
            s.reset(m)
            return ok
        n = 0
        for m, ok in pool(list(mutants()), t):
            n += 1
            if ok:
                done.write(json.dumps(m) + "\n")
                done.flush()
    elif cmd == "checks":
        ms = [json.loads(x) for x in open(sys.argv[2])]
        scale = float(sys.argv[4]) if len(sys.argv) > 4 else 0.25
        only = sys.argv[5].split(",") if len(sys.argv) > 5 else [
            f"C{i:02}" for i in range(1, 30)]
        out = open(sys.argv[3], "w")

        def c(s, m):
            s.set(m)
            got, odd = [], []
            for k in only:
                rc = s.check(k, scale)
                if rc == 1:
                    got.append(k)
                    break
                if rc:
                    odd.append((k, rc))
            s.reset(m)
            return got, odd
        for m, (got, odd) in pool(ms, c):
            out.write(json.dumps({**m, "caught": got, "odd": odd}) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
