#!/usr/bin/env python3
"""plant.py [ids...]: (re)generate seeded/<id>/ from tools/seeds.py and confirm each change in a scratch copy of /repo:
it applies, compiles, passes the stable tests, and its demo fails with it and passes without.

plant.py --notest skips the test run;  --check also runs the check of the property against the planted change (in /repo, undone)."""
import json
import os
import re
import shutil
import subprocess
import sys
import difflib

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS      # noqa

REPO = os.environ.get("PLANT_REPO", "/repo")
SRC = "BayesicFitting/source/"
DEMO_SH = """#!/bin/bash
# exit 0: the property holds; run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def diff_of(seed):
    out = ""
    files = {}
    for f, old, new in seed["subs"]:
        p = SRC + f
        text = files.setdefault(p, [open(os.path.join(REPO, p)).read()] * 2)
        toks = re.findall(r"\w+|\n|\"[^\"]*\"|'[^']*'|\S", old)
        pat = "".join(r"[ \t]*\n\s*" if t == "\n" else re.escape(t) + r"[ \t]*" for t in toks)
        pat = pat[:-len(r"[ \t]*")] if not old.endswith("\n") else pat
        found = list(re.finditer(pat, text[1]))
        assert len(found) == 1, "%s: %d occurrences in %s of %r" % (seed["id"], len(found), f, old)
        m = found[0]
        files[p] = [text[0], text[1][:m.start()] + new.lstrip(" ") + text[1][m.end():]]
    for p, (a, b) in sorted(files.items()):
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + p, "b/" + p))
    return out


def write(seed):
    d = os.path.join(VERIF, "seeded", seed["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff_of(seed))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(seed["demo"].lstrip("\n"))
    json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d


def tests(copy, out):
    env = dict(os.environ, HOME="/root", LANG="C.UTF-8", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/vp/mplconfig", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=":".join([copy, "/opt/vp/plugins", copy + "/BayesicFitting/test"]))
    T = "BayesicFitting/test"
    ign = ["--ignore=%s/%s.py" % (T, x) for x in ("TestModifiable", "TestNestedSampler", "TestNestedSolver", "TestPhantomSampler")]
    subprocess.run(["timeout", "-k", "10", "840", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:warnings", "-p",
                    "seedrng", "-o", "python_files=Test*.py", "-n", "8", "--dist", "worksteal", "--timeout=400", "--tb=short",
                    "--continue-on-collection-errors"] + ign + ["-o", "junit_family=xunit2", "--junitxml=" + out + ".xml", T],
                   cwd=copy, env=env, stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT)
    subprocess.run(["python3", "/opt/vp/results.py", out + ".json", "junit:" + out + ".xml"], stdout=subprocess.DEVNULL)
    r = json.load(open(out + ".json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = r.get("passed") or r.get("pass") or r
    passed = set(passed)
    return sorted(stable - passed)


def original(patch):
    """does the patch change lines of the original repository?"""
    root = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.split()[0]
    f, n = None, 0
    for line in open(patch):
        if line.startswith("--- a/"):
            f = line[6:].strip()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif f and not line.startswith("+"):
            if line.startswith("-"):
                b = subprocess.run(["git", "-C", REPO, "blame", "-l", "-s", "-L%d,%d" % (n, n), "HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout
                if b.lstrip("^").startswith(root[:30]):
                    return True
            n += 1
    return False


def demo(d, cwd):
    p = subprocess.run(["timeout", "300", "bash", os.path.join(d, "demo.sh")], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout[-300:]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    for seed in SEEDS:
        if args and seed["id"] not in args:
            continue
        try:
            d = write(seed)
            if not original(os.path.join(d, "patch.diff")):
                print(seed["id"], "changes no line of the original repository", flush=True)
        except AssertionError as e:
            print("BAD SPEC", e)
            continue
        if "--write" in sys.argv:
            continue
        w = "/tmp/plant_" + seed["id"]
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.run("git -C %s archive HEAD | tar x -C %s" % (REPO, w), shell=True, check=True)
        c0, o0 = demo(d, w)
        ap = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + w, os.path.join(d, "patch.diff")], cwd="/", capture_output=True, text=True)
        if ap.returncode:
            ap = subprocess.run(["patch", "-p1", "-s", "-i", os.path.join(d, "patch.diff")], cwd=w, capture_output=True, text=True)
        c1, o1 = demo(d, w)
        verdict = []
        if ap.returncode:
            verdict.append("does not apply " + ap.stderr)
        if c0 != 0:
            verdict.append("demo fails on the clean tree: " + o0)
        if c1 == 0:
            verdict.append("demo does not see the change")
        if not verdict and "--notest" not in sys.argv:
            miss = tests(w, "/tmp/plant_out_" + seed["id"])
            if miss:
                verdict.append("tests broken: %s" % miss[:5])
        env = dict(os.environ, BF_REPO=w)
        ck = subprocess.run(["python3-vt", os.path.join(VERIF, "check.py"), seed["property"]], env=env, capture_output=True, text=True)
        line = [l for l in ck.stdout.splitlines() if l.startswith("  ") or "VIOL" in l]
        print(seed["id"], seed["property"], "OK" if not verdict else "BAD " + "; ".join(verdict), "| check exit", ck.returncode,
              (line[0][:160] if line else ck.stderr[-200:]), flush=True)
        shutil.rmtree(w, ignore_errors=True)


main()
