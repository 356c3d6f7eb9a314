#!/opt/venv/bin/python
"""Mutation sweep: breaks single spots of a source file of amlib and reports which changes no check notices.

    tools/mutate.py amlib/io/spi.py [--ids I07,I08] [--n 60] [--seed 1] [--workers 4] [--lines 100-200]

Works on copies under /tmp/mut only. The survivors have to be judged by hand: many are equivalent.
"""

import argparse
import ast
import concurrent.futures as cf
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"

CMP = {ast.Eq: ("==", ["!="]), ast.NotEq: ("!=", ["=="]), ast.Lt: ("<", ["<=", ">"]), ast.LtE: ("<=", ["<"]),
       ast.Gt: (">", [">=", "<"]), ast.GtE: (">=", [">"]), ast.Is: ("is", ["is not"]), ast.IsNot: ("is not", ["is"])}
BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.LShift: ("<<", [">>"]), ast.RShift: (">>", ["<<"]),
       ast.BitAnd: ("&", ["|"]), ast.BitOr: ("|", ["&"]), ast.BitXor: ("^", ["|"]), ast.Mult: ("*", ["+"]),
       ast.FloorDiv: ("//", ["*"]), ast.Div: ("/", ["*"]), ast.Mod: ("%", ["//"])}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l.encode()))
        self.raw = src.encode()
        self.out = []          # (start, end, replacement, line, what)

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def add(self, a, b, new, line, what):
        self.out.append((a, b, new.encode(), line, what))

    def between(self, l, r, old, news, line):
        a, b = self.span(l)[1], self.span(r)[0]
        text = self.raw[a:b].decode()
        i = text.find(old)
        if i < 0 or "#" in text:
            return
        for new in news:
            self.add(a + i, a + i + len(old), new, line, "{} -> {}".format(old, new))

    def visit_ClassDef(self, n):
        bases = [ast.unparse(b) for b in n.bases]
        if n.name.endswith("Test") or any("TestCase" in b for b in bases):
            return
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name.startswith("test_"):
            return
        for s in ast.walk(n):
            for body in (getattr(s, "body", None), getattr(s, "orelse", None)):
                if isinstance(body, list):
                    for x in body:
                        self.statement(x, len(body))
        self.generic_visit(n)

    def statement(self, x, n):
        if isinstance(x, ast.AugAssign) or (isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr == "next"):
            a, b = self.span(x)
            self.add(a, b, "pass", x.lineno, "drop: " + self.raw[a:b].decode()[:60].replace("\n", " "))
            if isinstance(x, ast.AugAssign) and isinstance(x.value, ast.List) and len(x.value.elts) > 1:
                for e in x.value.elts:
                    a, b = self.span(e)
                    tail = re.match(rb"\s*,", self.raw[b:b + 80])
                    if tail:
                        self.add(a, b + tail.end(), "", e.lineno, "drop: " + self.raw[a:b].decode()[:60].replace("\n", " "))

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.generic_visit(n)

    def visit_Compare(self, n):
        left = n.left
        for op, r in zip(n.ops, n.comparators):
            if type(op) in CMP:
                self.between(left, r, CMP[type(op)][0], CMP[type(op)][1], n.lineno)
            left = r
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n.op, (ast.Add, ast.Sub, ast.LShift)):
            self.between(n.left, n.right, BIN[type(n.op)][0], BIN[type(n.op)][1], n.lineno)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Invert, ast.Not)):
            a, _ = self.span(n)
            b, _ = self.span(n.operand)
            # keep parentheses
            t = self.raw[a:b].decode()
            self.add(a, b, t.replace("~", "", 1) if isinstance(n.op, ast.Invert) else t.replace("not ", "", 1), n.lineno, "drop negation")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        old = "and" if isinstance(n.op, ast.And) else "or"
        self.between(n.values[0], n.values[1], old, ["or" if old == "and" else "and"], n.lineno)
        self.generic_visit(n)

    def visit_Constant(self, n):
        a, b = self.span(n)
        if n.value is True or n.value is False:
            self.add(a, b, str(not n.value), n.lineno, "{} -> {}".format(n.value, not n.value))
        elif isinstance(n.value, int):
            for v in {n.value + 1, n.value - 1 if n.value > 0 else 2}:
                self.add(a, b, str(v), n.lineno, "{} -> {}".format(n.value, v))

    def visit_With(self, n):
        for item in n.items:
            c = item.context_expr
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("If", "Elif"):
                a, b = self.span(c.args[0])
                t = self.raw[a:b].decode()
                self.add(a, b, "~(Cat({}).any())".format(t) if False else "1", n.lineno, "condition -> 1")
                self.add(a, b, "0", n.lineno, "condition -> 0")
        self.generic_visit(n)


def ids_for(path):
    ids = []
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        for l in f:
            p = json.loads(l)
            if path in p["anchors"]["files"]:
                ids.append(p["id"])
    return ids


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--ids")
    ap.add_argument("--n", type=int, default=60)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--lines")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--timeout", type=int, default=240)
    ap.add_argument("--repo", default="/repo")
    args = ap.parse_args()
    src = open(os.path.join(args.repo, args.file)).read()
    f = Finder(src)
    f.visit(ast.parse(src))
    muts = sorted(set(f.out))
    if args.lines:
        lo, hi = map(int, args.lines.split("-"))
        muts = [m for m in muts if lo <= m[3] <= hi]
    good = []
    for m in muts:
        new = f.raw[:m[0]] + m[2] + f.raw[m[1]:]
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        good.append((m, new))
    random.Random(args.seed).shuffle(good)
    total = len(good)
    good = good[:args.n]
    ids = args.ids.split(",") if args.ids else ids_for(args.file)
    print("{}: {} of {} mutants, checks {}".format(args.file, len(good), total, ids), flush=True)
    slots = queue.Queue()
    tag = args.file.replace("/", "_")
    for k in range(args.workers):
        d = os.path.join(ROOT, tag, str(k))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(os.path.join(args.repo, "amlib"), os.path.join(d, "repo", "amlib"))
        shutil.copytree(VERIF, os.path.join(d, "verif"), ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        slots.put(d)

    def one(item):
        m, new = item
        d = slots.get()
        try:
            with open(os.path.join(d, "repo", args.file), "wb") as o:
                o.write(new)
            res = []
            for i in ids:
                env = dict(os.environ, VERIF_REPO=os.path.join(d, "repo"), VERIF_NOSHRINK="1", VERIF_SEED="1")
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "-B", "check.py", i, "--tier", "quick", "--jobs", "2", "--scale", args.scale],
                                       cwd=os.path.join(d, "verif"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=args.timeout)
                except subprocess.TimeoutExpired:
                    res.append((i, "timeout"))
                    continue
                if r.returncode == 1:
                    return m, "killed", i
                if r.returncode:
                    res.append((i, "error {}".format(r.stdout.strip().split("\n")[-1][:100])))
            with open(os.path.join(d, "repo", args.file), "w") as o:
                o.write(src)
            return m, "SURVIVED" if not res else "UNDECIDED", res
        finally:
            slots.put(d)
    n = {}
    with cf.ThreadPoolExecutor(args.workers) as ex:
        for m, verdict, info in ex.map(one, good):
            n[verdict] = n.get(verdict, 0) + 1
            if verdict != "killed":
                print("{} {}:{}: {}   | {} {}".format(verdict, args.file, m[3], m[4], src.splitlines()[m[3] - 1].strip()[:100], info), flush=True)
    print("{}: {}".format(args.file, n), flush=True)
    shutil.rmtree(os.path.join(ROOT, tag), ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
