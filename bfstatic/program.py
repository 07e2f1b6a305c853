"""Parse the analysed repository: modules, classes, method resolution order."""
import ast
import hashlib
import os
import warnings
from .values import Cls, Func, Ext

_TREES = {}
REPO = os.environ.get("BF_REPO", "/repo")
PKG = "BayesicFitting"


class Module(object):
    def __init__(self, name, path, tree, src):
        self.name = name          # dotted, relative to PKG/source, e.g. 'GaussModel' or 'kernels.Gauss'
        self.path = path
        self.tree = tree
        self.src = src
        self.env = None
        self.state = "new"

    def __repr__(self):
        return "<module %s>" % self.name


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, PKG, "source")
        self.modules = {}
        self.errors = []
        self.digest = hashlib.sha256()
        if not os.path.isdir(self.root):
            raise SystemExit("anchor vanished: %s" % self.root)
        for dp, dn, fn in sorted(os.walk(self.root)):
            dn.sort()
            if "__pycache__" in dp:
                continue
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                if rel.endswith("__init__"):
                    rel = rel[:-9] or "__init__"
                src = open(p, encoding="utf-8", errors="replace").read()
                self.digest.update(src.encode())
                tree = _TREES.get((p, src))
                if tree is None:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = _TREES[(p, src)] = ast.parse(src, p)
                self.modules[rel] = Module(rel, os.path.relpath(p, self.repo), tree, src)
        if len(self.modules) < 20:
            raise SystemExit("anchor vanished: only %d modules under %s" % (len(self.modules), self.root))

    # -------- static class table (no interpretation needed)
    def build_classes(self):
        self.classes = {}
        for m in self.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    c = Cls(n.name, m, n)
                    self.classes[(m.name, n.name)] = c
        return self.classes


def c3(cls):
    if cls.mro is not None:
        return cls.mro

    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise TypeError("mro " + cls.name)
            res.append(h)
            seqs = [[x for x in t if x is not h and x != h] for t in seqs]
            seqs = [t for t in seqs if t]
        return res
    parents = []
    for b in cls.bases:
        parents.append(c3(b) if isinstance(b, Cls) else [b])
    cls.mro = [cls] + merge(parents + [list(cls.bases)])
    return cls.mro
