#!/usr/bin/env python3
"""Mutation of the code under test, to look for behaviour the checks do not observe (used while developing; no check runs it).

mutate.py list REPO                 -- one line per mutant: number, file, line, what
mutate.py run REPO WORK OUT N..     -- applies each mutant to a copy of REPO in WORK and runs the checks of its file until one objects
"""

from __future__ import annotations

import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
CHECKS = {
    "stage_builder.py": "A01 A02 A04", "stage_runner.py": "A03 A02 A04 A05", "stages/stage.py": "A01", "instance_space.py": "A04 B02 A05",
    "data/options.py": "B01 B02 D02 A04", "data/metadata.py": "B03 B02 C03", "data/model.py": "J01 J05 K01", "model.py": "A04 C02 K04 K01",
    "_serialisers.py": "K01 K02 K03 K04", "stages/preprocessing.py": "C01 C02 M01", "stages/prelim.py": "D01 D02 D03 C02 C03 M01 A04",
    "utils/filter.py": "E01 D03", "stages/sifted.py": "F01 F02 C02 A04 C03 M01", "stages/pilot.py": "G01 G02 C03 A04",
    "stages/pythia.py": "H02 H01 C02 A04 M01", "stages/cloister.py": "I01 A04", "stages/trace.py": "J03 J01 J02 J05 J04",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
NAMES = {"max": "min", "min": "max", "argmax": "argmin", "argmin": "argmax", "nanmin": "min", "nanmax": "max", "nanmean": "mean", "nanmedian": "median", "nanstd": "std", "mean": "median",
         "floor": "round", "ceil": "floor", "all": "any", "any": "all", "zeros": "ones", "ones": "zeros", "sum": "max", "union": "intersection", "intersection": "union", "difference": "intersection",
         "argsort": "argmin", "logical_and": "logical_or", "logical_or": "logical_and", "isnan": "isfinite", "unique": "sort", "std": "var", "abs": "negative"}


class Finder(ast.NodeVisitor):
    def __init__(self) -> None:
        self.out: list[tuple[ast.AST, ast.AST | None, str]] = []
        self.fn = 0

    def visit_FunctionDef(self, n: ast.FunctionDef) -> None:  # noqa: N802
        self.fn += 1
        body = n.body[1:] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(d)
        for s in body:
            self.visit(s)
        self.fn -= 1

    def visit_ClassDef(self, n: ast.ClassDef) -> None:  # noqa: N802
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)

    def visit_Module(self, n: ast.Module) -> None:  # noqa: N802
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)

    def visit_Import(self, n: ast.AST) -> None:  # noqa: N802
        pass

    visit_ImportFrom = visit_Raise = visit_JoinedStr = visit_Import

    def visit_AnnAssign(self, n: ast.AnnAssign) -> None:  # noqa: N802
        if n.value is not None:
            self.visit(n.value)

    def visit_Expr(self, n: ast.Expr) -> None:  # noqa: N802
        f = n.value.func if isinstance(n.value, ast.Call) else None
        name = getattr(f, "id", getattr(f, "attr", ""))
        if "print" in name:
            return
        if self.fn:
            self.out.append((n, ast.Pass(), "statement removed"))
        self.generic_visit(n)

    def visit_Assign(self, n: ast.Assign) -> None:  # noqa: N802
        if isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            return
        self.generic_visit(n)

    def visit_AugAssign(self, n: ast.AugAssign) -> None:  # noqa: N802
        self.out.append((n, ast.Pass(), "update removed"))
        if type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            self.out.append((n, m, "operator"))
        self.generic_visit(n)

    def visit_If(self, n: ast.If) -> None:  # noqa: N802
        self.out.append((n.test, ast.UnaryOp(ast.Not(), copy.deepcopy(n.test)), "condition negated"))
        if not n.orelse and not all("print" in ast.unparse(s) for s in n.body):
            self.out.append((n.test, ast.Constant(False), "never"))
            self.out.append((n.test, ast.Constant(True), "always"))
        self.generic_visit(n)

    def visit_IfExp(self, n: ast.IfExp) -> None:  # noqa: N802
        self.out += [(n, n.body, "first"), (n, n.orelse, "second")]
        self.generic_visit(n)

    def visit_Compare(self, n: ast.Compare) -> None:  # noqa: N802
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            m = copy.deepcopy(n)
            m.ops = [CMP[type(n.ops[0])]()]
            self.out.append((n, m, "comparison"))
        self.generic_visit(n)

    def visit_BoolOp(self, n: ast.BoolOp) -> None:  # noqa: N802
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        self.out.append((n, m, "and/or"))
        for i in range(len(n.values)):
            m = copy.deepcopy(n)
            del m.values[i]
            self.out.append((n, m if len(m.values) > 1 else m.values[0], f"operand {i} removed"))
        self.generic_visit(n)

    def visit_UnaryOp(self, n: ast.UnaryOp) -> None:  # noqa: N802
        self.out.append((n, n.operand, "sign/not removed"))
        self.generic_visit(n)

    def visit_BinOp(self, n: ast.BinOp) -> None:  # noqa: N802
        if isinstance(n.left, (ast.JoinedStr,)) or (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) or isinstance(n.right, ast.JoinedStr):
            return
        if type(n.op) in BIN and not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            self.out.append((n, m, "operator"))
            self.out.append((n, n.left, "right operand removed"))
        self.generic_visit(n)

    def visit_Constant(self, n: ast.Constant) -> None:  # noqa: N802
        v = n.value
        if isinstance(v, bool):
            self.out.append((n, ast.Constant(not v), "constant"))
        elif isinstance(v, int):
            self.out.append((n, ast.Constant(v + 1), "constant"))
            if v == 1:
                self.out.append((n, ast.Constant(0), "constant"))
        elif isinstance(v, float):
            self.out.append((n, ast.Constant(v * 1.5 + 0.1), "constant"))

    def visit_Call(self, n: ast.Call) -> None:  # noqa: N802
        name = getattr(n.func, "id", getattr(n.func, "attr", ""))
        if "print" in name:
            return
        if name in NAMES and not (name == "abs" and isinstance(n.func, ast.Name)):
            m = copy.deepcopy(n)
            if isinstance(n.func, ast.Attribute):
                m.func.attr = NAMES[name]
            else:
                m.func.id = NAMES[name]
            self.out.append((n, m, f"{name} -> {NAMES[name]}"))
        if name in ("copy", "deepcopy", "flatten", "astype", "abs", "round", "sorted", "list", "set", "float", "int", "simplify", "buffer") and not n.keywords:
            inner = n.func.value if isinstance(n.func, ast.Attribute) and name not in ("deepcopy", "abs") else n.args[0] if n.args else None
            if inner is not None:
                self.out.append((n, inner, f"{name} removed"))
        for i, k in enumerate(n.keywords):
            if k.arg in ("axis", "ddof", "keepdims", "return_counts", "nan_policy", "interpolation", "kind", "rowvar", "squared", "fill_value", "index", "header", "encoding", "random_state", "sample_weight"):
                m = copy.deepcopy(n)
                del m.keywords[i]
                self.out.append((n, m, f"{k.arg} removed"))
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and name not in ("zeros", "isinstance", "getattr", "range"):
            m = copy.deepcopy(n)
            m.args[0], m.args[1] = m.args[1], m.args[0]
            self.out.append((n, m, "arguments swapped"))
        self.visit(n.func)
        for a in n.args:
            self.visit(a)
        for k in n.keywords:
            self.visit(k.value)

    def visit_comprehension(self, n: ast.comprehension) -> None:
        for t in n.ifs:
            self.out.append((t, ast.Constant(True), "filter removed"))
        self.visit(n.iter)
        for t in n.ifs:
            self.visit(t)

    def visit_Slice(self, n: ast.Slice) -> None:  # noqa: N802
        for f in ("lower", "upper"):
            if getattr(n, f) is not None:
                self.visit(getattr(n, f))

    def visit_Continue(self, n: ast.AST) -> None:  # noqa: N802
        self.out.append((n, ast.Pass(), "continue removed"))

    def visit_Break(self, n: ast.AST) -> None:  # noqa: N802
        self.out.append((n, ast.Pass(), "break removed"))


def mutants(repo: Path) -> list[tuple[str, int, int, int, int, str, str]]:
    out = []
    for rel in CHECKS:
        src = (repo / "instancespace" / rel).read_text()
        f = Finder()
        f.visit(ast.parse(src))
        for node, new, what in f.out:
            text = ast.unparse(ast.fix_missing_locations(new))
            if isinstance(new, ast.expr) and not isinstance(new, (ast.Constant, ast.Name, ast.Call, ast.Attribute, ast.Subscript)):
                text = f"({text})"
            out.append((rel, node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, text, what))
    return out


def apply(src: str, m: tuple) -> str:
    _, l0, c0, l1, c1, text, _ = m
    lines = src.encode().split(b"\n")
    head, tail = lines[l0 - 1][:c0], lines[l1 - 1][c1:]
    lines[l0 - 1 : l1] = [head + text.encode() + tail]
    return b"\n".join(lines).decode()


def main() -> None:
    cmd, repo = sys.argv[1], Path(sys.argv[2])
    ms = mutants(repo)
    if cmd == "list":
        for i, m in enumerate(ms):
            print(i, m[0], m[1], m[6], "|", m[5].replace("\n", " ")[:90])
        return
    work, out = Path(sys.argv[3]), Path(sys.argv[4])
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    shutil.copytree(repo / "instancespace", work / "instancespace", ignore=shutil.ignore_patterns("__pycache__"))
    for i in map(int, sys.argv[5:]):
        m = ms[i]
        path = work / "instancespace" / m[0]
        src = path.read_text()
        res = {"n": i, "file": m[0], "line": m[1], "what": m[6], "new": m[5][:100], "by": None}
        try:
            new = apply(src, m)
            try:
                ast.parse(new)
            except SyntaxError:
                res["by"] = "syntax"
            else:
                path.write_text(new)
                env = {**os.environ, "ISA_REPO": str(work), "ISA_STOP": "1"}
                for c in CHECKS[m[0]].split():
                    try:
                        r = subprocess.run([str(VERIF / "check.sh"), c, "quick"], env=env, capture_output=True, text=True, timeout=600)
                    except subprocess.TimeoutExpired:
                        res["by"] = f"{c}:timeout"
                        break
                    if r.returncode:
                        res["by"] = f"{c}:{r.returncode}"
                        if r.returncode != 1:
                            res["out"] = r.stdout[-300:]
                            if "vacuous" not in r.stdout:
                                continue
                        break
        finally:
            path.write_text(src)
        with out.open("a") as f:
            f.write(json.dumps(res) + "\n")


main()
