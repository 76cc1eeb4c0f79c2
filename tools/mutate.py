#!/usr/bin/env python3
"""Development aid: automatic mutation of one source file, judged by the checks named.

usage: tools/mutate.py OUT.jsonl N SEED SCALE file[:func-regex]=C01,C02 ...

Each mutant is applied to a private copy of the repository (and of this directory); nothing in /repo or /verif changes.
"""
import ast, concurrent.futures, json, os, random, re, shutil, subprocess, sys, threading

SRC = os.environ.get("VP_REPO", "/repo")
BASE = "python/lsst/pipe/base/"
W = "/tmp/mut"
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def is_log(node):
    s = ast.unparse(node)
    return bool(re.match(r"^(self\.)?_?(log|LOG|_LOG|comms\.log)\b|^warnings\.|^assert|.*\blog\.(debug|info|warning|verbose|error)\(", s))


def mutants(text, func):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    data = text.encode()
    out = []

    def seg(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, what, name):
        a, b = seg(n)
        out.append({"a": a, "b": b, "new": new, "what": what, "line": n.lineno, "func": name, "old": data[a:b].decode()[:150]})

    def visit(n, name):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            name = f"{name}.{n.name}" if name else n.name
            if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__"):
                return
            for d in n.body:
                visit(d, name)
            return
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            return
        if isinstance(n, (ast.Assert, ast.Import, ast.ImportFrom, ast.Raise)):
            if isinstance(n, ast.Raise) and func_ok(name) and n.exc is not None:
                add(n, "pass", "drop raise", name)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, name)
            return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant) or is_log(n.value):
                return
            if func_ok(name) and isinstance(n.value, ast.Call):
                add(n, "pass", "drop call", name)
        if func_ok(name):
            if isinstance(n, ast.If) and not is_log(n):
                add(n.test, f"(not ({ast.unparse(n.test)}))", "negate if", name)
            if isinstance(n, ast.AugAssign):
                add(n, "pass", "drop augassign", name)
            if isinstance(n, ast.Continue):
                add(n, "break", "continue->break", name)
            if isinstance(n, ast.Break):
                add(n, "continue", "break->continue", name)
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                m = ast.Compare(n.left, [CMP[type(n.ops[0])]()], n.comparators)
                add(n, f"({ast.unparse(m)})", "compare", name)
            if isinstance(n, ast.BoolOp):
                m = ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)
                add(n, f"({ast.unparse(m)})", "and/or", name)
                for i in range(len(n.values)):
                    rest = [v for j, v in enumerate(n.values) if j != i]
                    m = ast.BoolOp(n.op, rest) if len(rest) > 1 else rest[0]
                    add(n, f"({ast.unparse(m)})", "drop operand", name)
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.BitOr, ast.BitAnd)) and not isinstance(n.left, ast.Constant):
                new = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}[type(n.op)]()
                add(n, f"({ast.unparse(ast.BinOp(n.left, new, n.right))})", "binop", name)
            if isinstance(n, ast.Constant) and n.value in (True, False) and isinstance(n.value, bool):
                add(n, str(not n.value), "bool const", name)
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                add(n, str(n.value + 1), "int const", name)
            if isinstance(n, ast.IfExp):
                add(n, f"({ast.unparse(ast.IfExp(n.test, n.orelse, n.body))})", "swap ifexp", name)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(g.ifs for g in n.generators):
                import copy

                m = copy.deepcopy(n)
                for g in m.generators:
                    g.ifs = []
                add(n, ast.unparse(m) if not isinstance(n, ast.GeneratorExp) else ast.unparse(m), "drop filter", name)
            if isinstance(n, ast.Call):
                import copy

                for i, k in enumerate(n.keywords):
                    if k.arg in (None, "exc_info", "stacklevel", "desc", "total", "description", "title", "help", "msg"):
                        continue
                    m = copy.deepcopy(n)
                    del m.keywords[i]
                    add(n, ast.unparse(m), f"drop keyword {k.arg}", name)
                if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "reversed") and n.args:
                    add(n, f"list({ast.unparse(n.args[0])})", f"drop {n.func.id}", name)
                if isinstance(n.func, ast.Name) and n.func.id in ("any", "all"):
                    add(n.func, {"any": "all", "all": "any"}[n.func.id], "any/all", name)
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy",) and not n.args:
                    add(n, ast.unparse(n.func.value), "drop copy", name)
                if isinstance(n.func, ast.Name) and n.func.id in ("list", "set", "dict", "frozenset") and len(n.args) == 1:
                    add(n, f"({ast.unparse(n.args[0])})", "drop container copy", name)
        for child in ast.iter_child_nodes(n):
            if isinstance(child, (ast.arguments,)):
                continue
            if isinstance(n, ast.Call) and is_log(n):
                continue
            visit(child, name)

    def func_ok(name):
        return bool(name) and re.search(func, name) is not None

    for n in tree.body:
        visit(n, "")
    good = []
    for m in out:
        new = (data[: m["a"]] + m["new"].encode() + data[m["b"]:]).decode()
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        good.append(m)
    return data, good


def main():
    outp, n, seed, scale, *specs = sys.argv[1:]
    jobs = int(os.environ.get("MUT_JOBS", "7"))
    rnd = random.Random(int(seed))
    todo = []
    for s in specs:
        f, checks = s.split("=")
        f, _, func = f.partition(":")
        data, ms = mutants(open(os.path.join(SRC, BASE, f)).read(), func or ".")
        k = int(n)
        ms = rnd.sample(ms, k) if len(ms) > k else ms
        todo += [dict(m, file=f, data=data, checks=checks.split(",")) for m in ms]
    done = set()
    if os.path.exists(outp):
        for ln in open(outp):
            r = json.loads(ln)
            done.add((r["file"], r["line"], r["what"], r["new"]))
    todo = [m for m in todo if (m["file"], m["line"], m["what"], m["new"]) not in done]
    print(len(todo), "mutants", flush=True)
    os.makedirs(W, exist_ok=True)
    free = []
    for i in range(jobs):
        for a, b in ((SRC, f"{W}/r{i}"), ("/verif", f"{W}/v{i}")):
            shutil.rmtree(b, ignore_errors=True)
            subprocess.run(["cp", "-a", a, b], check=True)
        free.append(i)
    lock = threading.Lock()

    def one(m):
        with lock:
            i = free.pop()
        path = os.path.join(f"{W}/r{i}", BASE, m["file"])
        try:
            with open(path, "wb") as f:
                f.write(m["data"][: m["a"]] + m["new"].encode() + m["data"][m["b"]:])
            res = {}
            for c in m["checks"]:
                env = dict(os.environ, VP_REPO=f"{W}/r{i}", VP_JOBS="1", VP_SHRINK="1", VP_BUDGET="400", VERIF_TIER="quick")
                try:
                    p = subprocess.run([f"{W}/v{i}/run.sh", c, "--scale", scale], env=env, capture_output=True, text=True, timeout=700, cwd=f"{W}/v{i}")
                    res[c] = p.returncode
                    tail = [x for x in p.stdout.splitlines() if x][-3:]
                except subprocess.TimeoutExpired:
                    res[c] = "timeout"
                    tail = []
                if res[c] != 0:
                    break
            r = {k: m[k] for k in ("file", "line", "func", "what", "old", "new")} | {"res": res, "killed": res[c] == 1, "tail": "" if res[c] in (0, 1) else "\n".join(tail)[-600:]}
        finally:
            with open(path, "wb") as f:
                f.write(m["data"])
            with lock:
                free.append(i)
        with lock:
            with open(outp, "a") as f:
                f.write(json.dumps(r) + "\n")

    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for fut in [ex.submit(one, m) for m in todo]:
            fut.result()


main()
