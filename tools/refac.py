#!/usr/bin/env python3
"""refac.py OUT KIND...: write to OUT a copy of /repo of which the sources have been rewritten, mechanically, with edits that keep the
behaviour.  The checks have to be quiet on it.  KINDS: see the functions t_*; "all" applies them one after another."""
import ast
import copy
import os
import subprocess
import sys

SRC = "BayesicFitting/source"


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


def scope_walk(f):
    """nodes of the function, not in nested functions, lambdas and classes"""
    stack = list(f.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def nested(f):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for n in scope_walk(f))


class Blocks(ast.NodeTransformer):
    """visit lists of statements"""

    def __init__(self):
        self.n = 0

    def new(self, pre="tmp"):
        self.n += 1
        return "%s_%d_" % (pre, self.n)

    def generic_visit(self, node):
        super().generic_visit(node)
        for field in ("body", "orelse", "finalbody"):
            v = getattr(node, field, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                out = []
                for s in v:
                    r = self.stmt(s)
                    out += r if isinstance(r, list) else [r]
                setattr(node, field, out)
        return node

    def stmt(self, s):
        return s


def name(i, store=False):
    return ast.Name(id=i, ctx=ast.Store() if store else ast.Load())


def assign(i, v):
    return ast.Assign(targets=[name(i, True)], value=v)


def t_unparse(tree):
    return tree


def t_rename(tree):
    for f in functions(tree):
        if nested(f):
            continue
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        if f.args.vararg:
            params.add(f.args.vararg.arg)
        if f.args.kwarg:
            params.add(f.args.kwarg.arg)
        loc = {n.id for n in scope_walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        if any(isinstance(n, ast.ExceptHandler) for n in scope_walk(f)):
            loc -= {n.name for n in scope_walk(f) if isinstance(n, ast.ExceptHandler)}
        for n in scope_walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + "_rn"
    return tree


def t_return(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = self.new("ret")
                return [assign(t, s.value), ast.Return(value=name(t))]
            return s
    return V().visit(tree)


def t_ifexp(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
                e = s.value
                return ast.If(test=e.test, body=[ast.Assign(targets=s.targets, value=e.body)], orelse=[ast.Assign(targets=copy.deepcopy(s.targets), value=e.orelse)])
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                e = s.value
                return [ast.If(test=e.test, body=[ast.Return(value=e.body)], orelse=[]), ast.Return(value=e.orelse)]
            return s
    return V().visit(tree)


def t_while(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" \
                    and len(s.iter.args) in (1, 2) and isinstance(s.target, ast.Name):
                a = s.iter.args
                i, n = self.new("idx"), self.new("end")
                return [assign(i, a[0] if len(a) == 2 else ast.Constant(value=0)), assign(n, a[-1]),
                        ast.While(test=ast.Compare(left=name(i), ops=[ast.Lt()], comparators=[name(n)]), orelse=[],
                                  body=[assign(s.target.id, name(i)), ast.AugAssign(target=name(i, True), op=ast.Add(), value=ast.Constant(value=1))] + s.body)]
            return s
    return V().visit(tree)


def t_invert(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
                return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=s.orelse, orelse=s.body)
            return s
    return V().visit(tree)


def t_impl(tree):
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        out = []
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or not f.args.args or f.args.args[0].arg != "self" or f.name.startswith("__") \
                    or f.args.posonlyargs:
                out.append(f)
                continue
            g = copy.deepcopy(f)
            g.name = "_impl_%s_%s" % (c.name.lstrip("_"), f.name)
            g.args.defaults = []
            doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and isinstance(f.body[0].value.value, str) else []
            g.args.kw_defaults = [None] * len(g.args.kwonlyargs)
            call = ast.Call(func=ast.Attribute(value=name("self"), attr=g.name, ctx=ast.Load()),
                            args=[name(a.arg) for a in f.args.args[1:]] + ([ast.Starred(value=name(f.args.vararg.arg), ctx=ast.Load())] if f.args.vararg else []),
                            keywords=[ast.keyword(arg=a.arg, value=name(a.arg)) for a in f.args.kwonlyargs] +
                            ([ast.keyword(arg=None, value=name(f.args.kwarg.arg))] if f.args.kwarg else []))
            f.body = doc + [ast.Return(value=call)]
            out += [f, g]
        c.body = out
    return tree


def t_enumerate(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" \
                    and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple):
                i = self.new("cnt")
                return [assign(i, ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=1))),
                        ast.For(target=s.target.elts[1], iter=s.iter.args[0], orelse=[],
                                body=[ast.AugAssign(target=name(i, True), op=ast.Add(), value=ast.Constant(value=1)),
                                      ast.Assign(targets=[s.target.elts[0]], value=name(i))] + s.body)]
            return s
    return V().visit(tree)


def t_and(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                b = s.body
                for v in reversed(s.test.values):
                    b = [ast.If(test=v, body=b, orelse=[])]
                return b[0]
            return s
    return V().visit(tree)


def t_args(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Attribute, ast.Name)):
                f = s.value.func
                if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name)):
                    return s
                if isinstance(f, ast.Name) and f.id in ("super", "print", "isinstance"):
                    return s
                c = s.value
                if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                    return s
                pre = []
                for k, a in enumerate(c.args):
                    if not isinstance(a, (ast.Name, ast.Constant)):
                        t = self.new("arg")
                        pre.append(assign(t, a))
                        c.args[k] = name(t)
                for k in c.keywords:
                    if not isinstance(k.value, (ast.Name, ast.Constant)):
                        t = self.new("arg")
                        pre.append(assign(t, k.value))
                        k.value = name(t)
                return pre + [s]
            return s
    return V().visit(tree)


def t_listcomp(tree):
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and not s.value.generators[0].is_async:
                g = s.value.generators[0]
                names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                if any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for n in ast.walk(s.value.elt)) or any(n.id in names for n in ast.walk(g.iter) if isinstance(n, ast.Name)):
                    return s
                lst = self.new("lst")
                ren = {v: self.new(v) for v in names}
                for part in [g.target, s.value.elt] + g.ifs:
                    for n in ast.walk(part):
                        if isinstance(n, ast.Name) and n.id in ren:
                            n.id = ren[n.id]
                body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=name(lst), attr="append", ctx=ast.Load()), args=[s.value.elt], keywords=[]))]
                for t in reversed(g.ifs):
                    body = [ast.If(test=t, body=body, orelse=[])]
                loop = ast.For(target=g.target, iter=g.iter, body=body, orelse=[])
                s.value = name(lst)
                return [assign(lst, ast.List(elts=[], ctx=ast.Load())), loop, s]
            return s
    for f in list(functions(tree)):
        V().visit(f)
    return tree


def t_reorder(tree):
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        plain = [k for k, f in enumerate(c.body) if isinstance(f, ast.FunctionDef) and not f.decorator_list]
        names = [c.body[k].name for k in plain]
        if len(set(names)) < len(names) or any(isinstance(c.body[k], ast.Assign) for k in range(plain[0] if plain else 0, len(c.body))):
            continue
        fs = [c.body[k] for k in plain][::-1]
        for k, f in zip(plain, fs):
            c.body[k] = f
    return tree


def t_flip(tree):
    sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in sw:
                return ast.Compare(left=n.comparators[0], ops=[sw[type(n.ops[0])]()], comparators=[n.left])
            return n
    return V().visit(tree)


def t_mult(tree):
    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, float):
                return ast.BinOp(left=n.right, op=ast.Mult(), right=n.left)
            if isinstance(n.op, ast.Add) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (int, float)):
                return ast.BinOp(left=n.right, op=ast.Add(), right=n.left)
            return n
    return V().visit(tree)


def t_elif(tree):
    """if c: return x  else/rest -> explicit else"""
    class V(ast.NodeTransformer):
        def block(self, v):
            for k, s in enumerate(v):
                if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], ast.Return) and k + 1 < len(v):
                    s.orelse = self.block(v[k + 1:])
                    return v[:k + 1]
            return v

        def visit_FunctionDef(self, n):
            n.body = self.block(n.body)
            return n
    return V().visit(tree)


def t_aug(tree):
    """i += const -> i = i + const"""
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
                return assign(s.target.id, ast.BinOp(left=name(s.target.id), op=s.op, right=s.value))
            return s
    return V().visit(tree)


def t_numpy(tree):
    """numpy.f(...) in functions through a local alias of the function"""
    for f in functions(tree):
        used = sorted({n.func.attr for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                       and n.func.value.id == "numpy"})
        if not used or nested(f):
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "numpy":
                n.func = name("np_" + n.func.attr)
        doc = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body[doc:doc] = [assign("np_" + u, ast.Attribute(value=name("numpy"), attr=u, ctx=ast.Load())) for u in used]
    return tree


def t_none(tree):
    """x is None first: `if x is None : A` <-> same with a flag"""
    class V(Blocks):
        def stmt(self, s):
            if isinstance(s, ast.If) and not any(isinstance(n, (ast.NamedExpr, ast.Call)) for n in ast.walk(s.test)):
                t = self.new("flag")
                return [assign(t, s.test), ast.If(test=name(t), body=s.body, orelse=s.orelse)]
            return s
    return V().visit(tree)


KINDS = [k[2:] for k in list(globals()) if k.startswith("t_")]


def main():
    out, kinds = sys.argv[1], sys.argv[2:]
    if kinds == ["all"]:
        kinds = KINDS
    os.makedirs(out, exist_ok=True)
    subprocess.run("git -C " + os.environ.get("BF_REPO", "/repo") + " archive HEAD | tar x -C " + out, shell=True, check=True)
    n = 0
    for d, _, files in os.walk(os.path.join(out, SRC)):
        for f in files:
            if not f.endswith(".py") or f == "__init__.py":
                continue
            p = os.path.join(d, f)
            tree = ast.parse(open(p, encoding="utf-8").read())
            for k in kinds:
                tree = globals()["t_" + k](tree)
                ast.fix_missing_locations(tree)
            open(p, "w", encoding="utf-8").write(ast.unparse(tree) + "\n")
            n += 1
    print(out, kinds, n, "files")


main()
