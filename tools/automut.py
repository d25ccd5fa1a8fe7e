"""Runs checks against systematic small faults of the code.

python3 tools/automut.py list                  number of faults per function
python3 tools/automut.py run [REGEX]           in scratch copies
environment: SHARD=i/n, EVERY=k (each k-th fault), BUDGET=seconds, JOBS=n
REGEX selects file:function:line:kind. Nothing is read from tools/.
"""
import ast
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/sofar"
FILES = ("io.py", "sofa.py", "sofastream.py", "update_conventions.py",
         "utils.py")

# checks of a function, the most promising first
CHECKS = {
    "read_sofa": "C28 C03 C01", "read_sofa_as_netcdf": "C03",
    "_read_netcdf": "C03 C28 C02 C25", "write_sofa": "C02 C25 C28 C01",
    "_write_sofa": "C02 C28 C01 C25 C03",
    "_format_value_for_netcdf": "C02 C01 C25",
    "_format_value_from_netcdf": "C03 C01 C21",
    "__init__": "C24 C18 C21 C12", "__setattr__": "C13 C12 C22",
    "__delattr__": "C12 C15", "list_dimensions": "C23 C21",
    "get_dimension": "C23 C21 C29", "_update_dimensions": "C23 C29",
    "info": "C23 C26", "inspect": "C23 C29 C21",
    "add_missing": "C15 C06 C12", "add_variable": "C14",
    "add_attribute": "C14", "delete": "C15 C12", "protected": "C12",
    "_add_entry": "C14 C12", "_add_custom_api_entry": "C14 C12 C22 C13",
    "upgrade_convention": "C17 C12 C26",
    "_verify_value": "C08 C09", "_verify_unit": "C09",
    "_get_reference_unit": "C09", "_verify_handle_issues": "C11",
    "_verification_rules": "C08 C09", "copy": "C22",
    "_reset_convention": "C14 C29 C17 C18 C24", "_load_convention": "C18 C24",
    "_convention_to_sofa": "C24 C18", "_get_size_and_shape_of_string_var":
    "C04 C02 C05", "_mandatory": "C06 C15 C24", "_read_only": "C12 C24",
    "__enter__": "C21", "__exit__": "C21", "__getattr__": "C21",
    "update_conventions": "C20", "_compile_conventions": "C20 C19",
    "_convention_csv2dict": "C19 C20", "_check_congruency": "C27",
    "version": "C26", "_verify_convention_and_version": "C18 C28",
    "list_conventions": "C18 C26", "_get_conventions": "C18 C26 C28",
    "equals": "C16", "_equals_raise_warning": "C16", "_atleast_nd":
    "C01 C02 C16", "_nd_newaxis": "C01 C02", "__repr__": "C26 C23",
    "_complete_sofa": "C26 C24",
}
# parts of verify by their order in the function
PARTS = (("0. update", "C29 C14 C18"), ("1. check if the mand", "C06 C11 C29"),
         ("2. verify data type", "C05 C29"), ("3. Verify names", "C07 C14"),
         ("4. Get dim", "C04 C29 C02 C23"), ("5. verify dim", "C04 C11"),
         ("6. check restric", "C08 C09 C10"), ("7. check write", "C10 C09"),
         ("8. check depre", "C10 C28 C11"), ("9. handle", "C11 C10"))

SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<",
        ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
        ast.Is: "is not", ast.IsNot: "is"}
LOUD = ("print", "warn")


class Faults(ast.NodeVisitor):
    def __init__(self, name, text):
        self.name, self.text, self.out = name, text, []
        self.lines = text.split("\n")
        self.start = [0]
        for x in self.lines:
            self.start.append(self.start[-1] + len(x.encode()) + 1)
        self.raw = text.encode()
        self.fn = []
        self.visit(ast.parse(text))

    def pos(self, node):
        return (self.start[node.lineno - 1] + node.col_offset,
                self.start[node.end_lineno - 1] + node.end_col_offset)

    def src(self, node):
        a, b = self.pos(node)
        return self.raw[a:b].decode()

    def add(self, node, new, kind):
        a, b = self.pos(node)
        self.out.append((f"{self.name}:{self.fn[-1] if self.fn else '-'}:"
                         f"{node.lineno}:{kind}", a, b, new))

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        for x in node.body:
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            self.visit(x)
        self.fn.pop()

    def visit_Compare(self, node):
        if self.fn and len(node.ops) == 1:
            new = (f"({self.src(node.left)}) {SWAP[type(node.ops[0])]} "
                   f"({self.src(node.comparators[0])})")
            self.add(node, new, "compare")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        if self.fn:
            op = " or " if isinstance(node.op, ast.And) else " and "
            self.add(node, "(" + op.join(
                f"({self.src(v)})" for v in node.values) + ")", "bool")
            for k in range(len(node.values)):
                rest = [v for i, v in enumerate(node.values) if i != k]
                op0 = " and " if isinstance(node.op, ast.And) else " or "
                self.add(node, "(" + op0.join(
                    f"({self.src(v)})" for v in rest) + ")", f"drop{k}")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if self.fn and isinstance(node.op, ast.Not):
            self.add(node, f"({self.src(node.operand)})", "not")
        self.generic_visit(node)

    def visit_Constant(self, node):
        if not self.fn:
            return
        v = node.value
        if v is True or v is False:
            self.add(node, str(not v), "constant")
        elif isinstance(v, int):
            self.add(node, str(v + 1), "constant")
        elif v is None:
            pass
        elif isinstance(v, str) and len(v) < 12 and "\n" not in v:
            q = self.src(node)
            if q[:1] in "\"'":
                self.add(node, repr(v + "x") if v else repr("x"), "constant")

    def visit_JoinedStr(self, node):
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                self.visit(v.value)

    def statement(self, node):
        self.add(node, "pass", "delete")

    def visit_Expr(self, node):
        if self.fn:
            self.statement(node)
        self.generic_visit(node)

    def visit_Assign(self, node):
        if self.fn and not isinstance(node.targets[0], ast.Name):
            self.statement(node)
        elif self.fn and isinstance(node.value, ast.Call) and \
                len(node.value.args) >= 1:
            self.add(node.value, self.src(node.value.args[0]), "identity")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        if self.fn:
            self.statement(node)
        self.generic_visit(node)

    def visit_Raise(self, node):
        if self.fn:
            self.statement(node)

    def visit_Continue(self, node):
        self.statement(node)

    def visit_Break(self, node):
        self.statement(node)

    def visit_Return(self, node):
        if self.fn and node.value is None:
            self.statement(node)
        self.generic_visit(node)

    def visit_Call(self, node):
        if self.fn:
            f = node.func
            if isinstance(f, ast.Attribute) and not node.args and \
                    not node.keywords:
                self.add(node, self.src(f.value), "call")
            for k in node.keywords:
                if k.arg in ("stacklevel",):
                    continue
                if k.arg:
                    a, b = self.pos(k)
                    if len(node.args) + len(node.keywords) > 1:
                        while self.raw[a - 1:a] in b" \n":
                            a -= 1
                            if self.raw[a - 1:a] == b",":
                                a -= 1
                                break
                        self.out.append((
                            f"{self.name}:{self.fn[-1]}:{k.lineno}:"
                            f"keyword-{k.arg}", a, b, ""))
        self.generic_visit(node)

    def visit_IfExp(self, node):
        if self.fn:
            self.add(node, f"({self.src(node.body)})", "first")
            self.add(node, f"({self.src(node.orelse)})", "second")
        self.generic_visit(node)


def faults():
    out = []
    for name in FILES:
        with open(os.path.join(SRC, name)) as f:
            text = f.read()
        part = None
        where = {}
        for i, line in enumerate(text.split("\n"), 1):
            for key, checks in PARTS:
                if line.strip().startswith("# " + key):
                    part = checks
            where[i] = part
        for tag, a, b, new in Faults(name, text).out:
            fn, line = tag.split(":")[1:3]
            checks = where[int(line)] or "C06" if fn == "verify" else \
                CHECKS.get(fn, "")
            code = (text.encode()[:a] + new.encode()
                    + text.encode()[b:]).decode()
            try:
                ast.parse(code)
            except SyntaxError:
                continue
            old = text.encode()[a:b].decode()
            out.append((tag, name, code, old, new, checks.split()))
    return out


def main():
    fs = faults()
    rx = sys.argv[2] if len(sys.argv) > 2 else "."
    fs = [f for f in fs if re.search(rx, f[0])]
    if sys.argv[1] == "list":
        n = {}
        for f in fs:
            k = ":".join(f[0].split(":")[:2])
            n[k] = n.get(k, 0) + 1
        for k, v in n.items():
            print(v, k)
        print(len(fs))
        return
    i, n = (int(x) for x in os.environ.get("SHARD", "0/1").split("/"))
    every = int(os.environ.get("EVERY", "1"))
    fs = fs[i * every::n * every]
    work = tempfile.mkdtemp(prefix="automut")
    repo, ver = os.path.join(work, "repo"), os.path.join(work, "verif")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    shutil.copytree(ROOT, ver, ignore=shutil.ignore_patterns(
        ".git", "seeded", "evidence", "replay"))
    env = {**os.environ, "SX_REPO": repo, "VERIF_SEED": "1",
           "VERIF_TIER": "quick"}
    caught = 0
    for tag, name, code, old, new, checks in fs:
        p = os.path.join(repo, "sofar", name)
        with open(os.path.join(SRC, name)) as f:
            original = f.read()
        with open(p, "w") as f:
            f.write(code)
        t = time.time()
        hit = None
        for c in checks[:int(os.environ.get("CHECKS", "3"))]:
            r = subprocess.run(
                [os.path.join(ver, "check.sh"), c, "--budget",
                 os.environ.get("BUDGET", "60"), "--jobs",
                 os.environ.get("JOBS", "8")], cwd=ver, env=env,
                capture_output=True, text=True)
            if r.returncode == 1:
                hit = c
                break
        with open(p, "w") as f:
            f.write(original)
        caught += hit is not None
        if hit is None:
            print(f"SURVIVED {tag} [{' '.join(checks)}]\n    "
                  + old.replace("\n", "\n    ") + "\n  ->\n    "
                  + new.replace("\n", "\n    "), flush=True)
        else:
            print(f"{hit} {tag} {time.time() - t:.0f} s", flush=True)
    print(f"{caught} of {len(fs)} caught")
    shutil.rmtree(work)


if __name__ == "__main__":
    main()
