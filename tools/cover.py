#!/usr/bin/env python3-vt
"""cover.py run CHECK... : run the checks and record which statements of /repo they interpret (a development tool)
cover.py report : list the functions, and the statements inside analysed functions, that no check interprets"""
import ast
import glob
import os
import pickle
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
OUT = os.environ.get("BF_COV", "/tmp/cov")


def run(pid):
    from bfstatic import absint, report, registry
    seen = set()
    org = absint.Interp.exec_stmt

    def exec_stmt(self, s, fr):
        f = fr.func
        if f is not None:
            m = getattr(f, "module", None)
            seen.add((getattr(m, "name", str(m)), s.lineno))
        return org(self, s, fr)
    absint.Interp.exec_stmt = exec_stmt
    work = report._work

    def dump():
        pickle.dump(seen, open(os.path.join(OUT, "%s.%d" % (pid, os.getpid())), "wb"))

    def _work(j):
        r = work(j)
        dump()
        return r
    _work.__name__ = _work.__qualname__ = "_work"
    _work.__module__ = report.__name__
    report._work = _work
    try:
        registry.run(pid, "quick")
    finally:
        dump()


def report():
    seen = set()
    for f in glob.glob(os.path.join(OUT, "C*")):
        seen |= pickle.load(open(f, "rb"))
    names = {m for m, _ in seen}
    src = os.path.join(os.environ.get("BF_REPO", "/repo"), "BayesicFitting/source")
    for p in sorted(glob.glob(src + "/*.py") + glob.glob(src + "/kernels/*.py")):
        mod = os.path.basename(p)[:-3]
        lines = {l for m, l in seen if m == mod or m.endswith("." + mod)}
        text = open(p).read().splitlines()
        out = []
        tree = ast.parse("\n".join(text))

        def walk(node, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, ast.ClassDef):
                    walk(ch, qual + [ch.name])
                elif isinstance(ch, ast.FunctionDef):
                    st = [s for s in ast.walk(ch) if isinstance(s, ast.stmt) and s is not ch and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                    miss = sorted({s.lineno for s in st} - lines)
                    if len(miss) == len({s.lineno for s in st}):
                        out.append("  -- %s (%d)" % (".".join(qual + [ch.name]), ch.lineno))
                    elif miss:
                        out.append("  %s:" % ch.name)
                        for l in miss:
                            out.append("      %d %s" % (l, text[l - 1].strip()[:110]))
        walk(tree, [])
        if out:
            print(mod)
            print("\n".join(out))


if sys.argv[1] == "run":
    os.makedirs(OUT, exist_ok=True)
    for c in sys.argv[2:]:
        if os.fork() == 0:
            run(c)
            os._exit(0)
        os.wait()
else:
    report()
