"""Systematic small changes: python3 tools/mutate.py OUT.jsonl [--files a,b] [--scale 0.05] [--jobs 8] [--only N,M]

Each change is one edit of one expression or statement of /repo/src/koreo.  Those
which compile and pass the stable tests are offered to the checks of the properties
concerned (a share of their quick scenarios, no shrinking); what survives is for
a person to look at."""

import argparse
import ast
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import zlib
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
SRC = pathlib.Path("/repo/src/koreo")
PROPS = {
    "cache.py": "C15 C16 C14", "registry.py": "C17 C16 C14", "result.py": "C03 C01 C09 C02",
    "conditions.py": "C09 C01", "predicate_helpers.py": "C13 C10 C20", "ref_helpers.py": "C12 C11 C08", "status.py": "C09",
    "cel/": "C10 C12 C11 C14 C20", "value_function/": "C13 C10 C12 C20",
    "resource_template/": "C06 C12 C20 C10 C14", "schema/": "C20",
    "resource_function/reconcile/validate.py": "C05 C04 C08",
    "resource_function/reconcile/kind_lookup.py": "C09 C02",
    "resource_function/reconcile/": "C07 C04 C05 C08 C10 C13",
    "resource_function/prepare.py": "C07 C06 C14 C20 C10 C05",
    "function_test/prepare.py": "C18 C19 C20 C14", "function_test/": "C19 C18",
    "workflow/prepare.py": "C14 C20 C01 C10", "workflow/": "C01 C02 C09 C03",
}  # fmt: skip


def props_of(rel):
    for key, value in PROPS.items():
        if rel == key or (key.endswith("/") and rel.startswith(key)):
            return value.split()
    return "C01 C07 C20".split()


class Edits(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for line in self.lines:
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.raw = text.encode()
        self.out = []
        self.visit(ast.parse(text))

    def span(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset)

    def src(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()

    def put(self, node, new, why):
        a, b = self.span(node)
        self.out.append((a, b, new, why, node.lineno))

    def visit_Compare(self, node):
        swap = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not",
                ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}  # fmt: skip
        if len(node.ops) == 1:
            left, right = self.src(node.left), self.src(node.comparators[0])
            self.put(node, f"({left} {swap[type(node.ops[0])]} {right})", "compare")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        parts = [f"({self.src(v)})" for v in node.values]
        self.put(node, "(" + (" or " if isinstance(node.op, ast.And) else " and ").join(parts) + ")", "boolop")
        for i in range(len(parts)):
            rest = parts[:i] + parts[i + 1 :]
            self.put(node, "(" + (" and " if isinstance(node.op, ast.And) else " or ").join(rest) + ")", f"drop-operand-{i}")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.put(node, f"({self.src(node.operand)})", "drop-not")
        self.generic_visit(node)

    def visit_If(self, node):
        self.put(node.test, "True", "if-true")
        self.put(node.test, "False", "if-false")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.put(node, f"({self.src(node.body)})", "ifexp-body")
        self.put(node, f"({self.src(node.orelse)})", "ifexp-else")
        self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            self.put(node, str(not node.value), "bool")
        elif isinstance(node.value, int):
            self.put(node, str(node.value + 1), "int")

    def visit_JoinedStr(self, node):
        pass

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, ast.Call) and "logg" in self.src(node.value.func):
            return
        self.put(node, "pass", "drop-statement")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.put(node, "pass", "drop-augassign")
        self.generic_visit(node)

    def visit_Assign(self, node):
        if isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
            self.put(node, "pass", "drop-assign")
        self.generic_visit(node)

    def visit_Delete(self, node):
        self.put(node, "pass", "drop-del")

    def visit_Continue(self, node):
        self.put(node, "break", "continue-break")
        self.put(node, "pass", "continue-pass")

    def visit_Break(self, node):
        self.put(node, "pass", "break-pass")

    def visit_Raise(self, node):
        self.put(node, "pass", "drop-raise")

    def visit_Return(self, node):
        if node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            self.put(node, "return None", "return-none")
        self.generic_visit(node)

    def visit_Call(self, node):
        name = self.src(node.func)
        if "logg" in name:
            return
        if name.split(".")[-1] in ("deepcopy", "copy", "sorted", "set", "list", "tuple", "dict", "reversed", "str", "int") and len(node.args) == 1:
            self.put(node, f"({self.src(node.args[0])})", f"drop-{name}")
        if name in ("any", "all"):
            self.put(node.func, "all" if name == "any" else "any", "any-all")
        if name in ("max", "min"):
            self.put(node.func, "max" if name == "min" else "min", "max-min")
        if name == "isinstance" or name.startswith("is_"):
            self.put(node, "True", f"{name}-true")
        for i, kw in enumerate(node.keywords):
            if kw.arg:
                a, b = self.span(kw)
                rest = self.raw[b : b + 1]
                end = b + 1 if rest == b"," else b
                self.out.append((a, end, "", f"drop-kw-{kw.arg}", kw.lineno if hasattr(kw, "lineno") else node.lineno))
        self.generic_visit(node)

    def visit_Dict(self, node):
        if len(node.keys) > 0:
            for k, v in zip(node.keys, node.values):
                if k is None:
                    continue
                a, _ = self.span(k)
                _, b = self.span(v)
                end = b + 1 if self.raw[b : b + 1] == b"," else b
                self.out.append((a, end, "", "drop-entry", k.lineno))
        self.generic_visit(node)

    def _seq(self, node):
        if len(node.elts) > 1 and not isinstance(getattr(node, "ctx", None), ast.Store):
            for e in node.elts:
                a, b = self.span(e)
                end = b + 1 if self.raw[b : b + 1] == b"," else b
                self.out.append((a, end, "", "drop-element", e.lineno))
        self.generic_visit(node)

    visit_List = visit_Set = visit_Tuple = _seq

    def visit_BinOp(self, node):
        swap = {ast.Add: "-", ast.Sub: "+", ast.BitOr: "&", ast.BitAnd: "|", ast.Mult: "//"}
        if type(node.op) in swap and not isinstance(node.left, ast.Constant):
            self.put(node, f"({self.src(node.left)} {swap[type(node.op)]} {self.src(node.right)})", "binop")
            self.put(node, f"({self.src(node.left)})", "binop-left")
            self.put(node, f"({self.src(node.right)})", "binop-right")
        self.generic_visit(node)

    def visit_match_case(self, node):
        if node.guard:
            self.put(node.guard, "True", "guard-true")
            self.put(node.guard, "False", "guard-false")
        else:
            a, b = self.span(node.pattern)
            if not (isinstance(node.pattern, ast.MatchAs) and node.pattern.pattern is None):
                self.out.append((b, b, " if False", "drop-case", node.pattern.lineno))
        if isinstance(node.pattern, ast.MatchOr):
            for p in node.pattern.patterns:
                rest = [self.src(q) for q in node.pattern.patterns if q is not p]
                self.put(node.pattern, " | ".join(rest) if len(rest) > 1 else rest[0], "drop-pattern")
        for stmt in node.body:
            self.visit(stmt)
        if node.guard:
            self.visit(node.guard)

    def visit_ExceptHandler(self, node):
        if isinstance(node.type, ast.Tuple):
            for e in node.type.elts:
                rest = [self.src(x) for x in node.type.elts if x is not e]
                self.put(node.type, "(" + ", ".join(rest) + ",)", "drop-exception")
        if node.type is not None:
            self.put(node.type, "ZeroDivisionError", "except-nothing")
        for stmt in node.body:
            self.visit(stmt)

    def visit_Slice(self, node):
        self.generic_visit(node)

    def visit_arg(self, node):
        pass

    def visit_Module(self, node):
        for stmt in node.body:
            if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.visit(stmt)

    def visit_FunctionDef(self, node):
        for stmt in node.body:
            self.visit(stmt)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        if node.value:
            self.visit(node.value)


def mutants(files):
    for path in sorted(SRC.rglob("*.py")):
        rel = str(path.relative_to(SRC))
        if files and not any(rel.startswith(f) for f in files):
            continue
        text = path.read_text()
        raw = text.encode()
        seen = set()
        for a, b, new, why, line in Edits(text).out:
            out = raw[:a] + new.encode() + raw[b:]
            if out in seen or out == raw:
                continue
            seen.add(out)
            try:
                compile(out, rel, "exec")
            except SyntaxError:
                continue
            yield dict(rel=rel, line=line, why=why, old=raw[a:b].decode()[:200], new=new[:200], a=a, b=b, full=new)


_COPIES = []


def copy_for():
    if _COPIES:
        return _COPIES.pop()
    os.makedirs("/dev/shm/mutate", exist_ok=True)
    copy = pathlib.Path(tempfile.mkdtemp(dir="/dev/shm/mutate"))
    subprocess.run(f"cp -a /repo/. {copy}/", shell=True, check=True)
    return copy


def judge(m, scale):
    copy = copy_for()
    target = copy / "src/koreo" / m["rel"]
    original = (SRC / m["rel"]).read_bytes()
    target.write_bytes(original[: m["a"]] + m["full"].encode() + original[m["b"] :])
    try:
        sys.path.insert(0, str(HERE / "tools"))
        import plant

        try:
            lost = plant.missing(copy, 12)
        except Exception:
            lost = ["all"]
        if lost:
            return m | {"result": "tests", "n": len(lost)}
        run = subprocess.run(
            [PY, "-B", str(HERE / "tools/mutrun.py"), str(scale), *props_of(m["rel"])],
            env=os.environ | {"VERIF_REPO": str(copy), "PYTHONHASHSEED": "1", "PYTHONDONTWRITEBYTECODE": "1"},
            capture_output=True, text=True, timeout=7200,
        )  # fmt: skip
        last = run.stdout.strip().splitlines()[-1:] or [run.stderr[-300:]]
        return m | {"result": last[0]}
    except subprocess.TimeoutExpired:
        return m | {"result": "timeout"}
    finally:
        target.write_bytes(original)
        _COPIES.append(copy)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("out")
    parser.add_argument("--files", default="")
    parser.add_argument("--scale", type=float, default=0.05)
    parser.add_argument("--jobs", type=int, default=8)
    parser.add_argument("--again", help="only what survived in this file")
    parser.add_argument("--part", default="0/1", help="i/n: the i-th of n shares")
    parser.add_argument("--count", action="store_true")
    args = parser.parse_args()
    todo = list(mutants([f for f in args.files.split(",") if f]))
    part, parts = map(int, args.part.split("/"))
    todo = [m for m in todo if zlib.crc32(f"{m['rel']}{m['a']}{m['b']}{m['full']}".encode()) % parts == part]
    if args.again:
        keep = set()
        for line in open(args.again):
            d = json.loads(line)
            if d["result"].startswith("survived"):
                keep.add((d["rel"], d["a"], d["b"], d["full"]))
        todo = [m for m in todo if (m["rel"], m["a"], m["b"], m["full"]) in keep]
    if args.count:
        print(len(todo))
        return
    done = set()
    if os.path.exists(args.out):
        for line in open(args.out):
            d = json.loads(line)
            done.add((d["rel"], d["a"], d["b"], d["full"]))
    todo = [m for m in todo if (m["rel"], m["a"], m["b"], m["full"]) not in done]
    with ThreadPoolExecutor(args.jobs) as pool, open(args.out, "a") as out:
        for future in as_completed([pool.submit(judge, m, args.scale) for m in todo]):
            res = future.result()
            out.write(json.dumps(res) + "\n")
            out.flush()
    for copy in _COPIES:
        shutil.rmtree(copy)


main()
