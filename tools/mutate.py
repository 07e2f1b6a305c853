#!/usr/bin/env python3
"""mutate.py CHECKS FILE[:func,func] ... [--max n] [--seed s]
Machine-made small changes of source files; reports those which none of the checks (comma separated) sees.
A development tool to find holes in the checks: it is not part of any check."""
import ast
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("BF_REPO", "/repo")
SRC = "BayesicFitting/source/"
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["*"]}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}


def offsets(text):
    o = [0]
    for l in text.splitlines(True):
        o.append(o[-1] + len(l.encode()))
    return o


def mutants(text, funcs):
    raw = text.encode()
    off = offsets(text)
    pos = lambda n, end=False: off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    out = []

    def put(a, b, new, what, line):
        out.append((line, what, raw[:a] + new.encode() + raw[b:]))

    def walk(node, fn):
        for ch in ast.iter_child_nodes(node):
            f = fn
            if isinstance(ch, (ast.FunctionDef,)):
                f = fn + [ch.name]
            inside = not funcs or any(x in funcs for x in f)
            if inside and f:
                one(ch)
            walk(ch, f)

    def op_between(l, r, new, what):
        a, b = pos(l, True), pos(r)
        seg = raw[a:b].decode()
        m = re.search(r"\*\*|//|<=|>=|==|!=|is not|not in|\bis\b|\bin\b|[-+*/<>@]|\band\b|\bor\b", seg)
        if m:
            put(a + m.start(), a + m.end(), new, what, l.lineno)

    def one(n):
        if isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                op_between(n.left, n.right, new, "%s -> %s" % (type(n.op).__name__, new))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                op_between(n.left, n.comparators[0], new, "%s -> %s" % (type(n.ops[0]).__name__, new))
        elif isinstance(n, ast.BoolOp):
            op_between(n.values[0], n.values[1], "or" if isinstance(n.op, ast.And) else "and", "boolop")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            put(pos(n), pos(n, True), repr(n.value + 1), "%r -> %r" % (n.value, n.value + 1), n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(pos(n), pos(n, True), repr(not n.value), "not", n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(pos(n), pos(n.operand), "", "remove minus", n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(pos(n), pos(n.operand), "", "remove not", n.lineno)
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            if isinstance(n, ast.AugAssign):
                seg = raw[pos(n.target, True):pos(n.value)].decode()
                put(pos(n.target, True), pos(n.value), seg.replace("+=", "=").replace("-=", "+=").replace("*=", "/=") if "+=" not in seg else seg.replace("+=", "="), "aug", n.lineno)
            put(pos(n), pos(n, True), "pass", "delete: " + raw[pos(n):pos(n, True)].decode().split("\n")[0][:50], n.lineno)
        elif isinstance(n, ast.Attribute) and n.attr in ("npchain", "npbase", "npars", "npmax"):
            a = pos(n, True) - len(n.attr)
            put(a, pos(n, True), {"npchain": "npbase", "npbase": "npchain", "npars": "npchain", "npmax": "npbase"}[n.attr], "attr", n.lineno)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            put(pos(n.func.value, True), pos(n, True), "", "remove copy()", n.lineno)
    walk(ast.parse(text), [])
    # drop those in raise/print/warn lines
    lines = text.splitlines()
    return [(l, w, b) for l, w, b in out if not re.match(r"\s*(raise|print|warnings)", lines[l - 1])]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opt = dict(zip([a for a in sys.argv[1:] if a.startswith("--")], [sys.argv[sys.argv.index(a) + 1] for a in sys.argv[1:] if a.startswith("--")]))
    args = [a for a in args if a not in opt.values()]
    checks = args[0].split(",")
    work = []
    for spec in args[1:]:
        f, _, fs = spec.partition(":")
        text = open(REPO + "/" + SRC + f).read()
        for l, w, b in mutants(text, set(fs.split(",")) if fs else None):
            work.append((f, l, w, b))
    random.Random(int(opt.get("--seed", 1))).shuffle(work)
    work = work[:int(opt.get("--max", 60))]
    nw = int(opt.get("--jobs", 4))
    free = list(range(nw))
    for k in free:
        d = "/tmp/mut_%d_%d" % (os.getpid(), k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run("git -C %s archive HEAD BayesicFitting/source | tar x -C %s" % (REPO, d), shell=True, check=True)

    def run(item):
        f, l, w, b = item
        k = free.pop()
        d = "/tmp/mut_%d_%d" % (os.getpid(), k)
        p = os.path.join(d, SRC + f)
        old = open(p, "rb").read()
        res = []
        try:
            try:
                compile(b, f, "exec")
            except SyntaxError:
                return item, "syntax"
            open(p, "wb").write(b)
            for c in checks:
                r = subprocess.run(["timeout", "600", "python3-vt", os.path.join(VERIF, "check.py"), c], env=dict(os.environ, BF_REPO=d, BF_EVIDENCE=d + "/ev"), capture_output=True, text=True)
                res.append(r.returncode)
                if r.returncode == 1:
                    break
        finally:
            open(p, "wb").write(old)
            free.append(k)
        return item, res

    n = {"killed": 0, "survived": 0, "other": 0}
    with ThreadPoolExecutor(nw) as ex:
        for (f, l, w, b), res in ex.map(run, work):
            line = open(REPO + "/" + SRC + f).read().splitlines()[l - 1].strip()
            if res == "syntax":
                continue
            if 1 in res:
                n["killed"] += 1
            elif any(r not in (0, 1) for r in res):
                n["other"] += 1
                print("EXIT%s %s:%d %s | %s" % (res, f, l, w, line), flush=True)
            else:
                n["survived"] += 1
                print("SURVIVED %s:%d %s | %s" % (f, l, w, line), flush=True)
    print(n)
    for k in range(nw):
        shutil.rmtree("/tmp/mut_%d_%d" % (os.getpid(), k), ignore_errors=True)


main()
