"""Obligation bookkeeping, known findings, evidence and the command-line contract."""
import json
import multiprocessing
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: "):
                f = dict(p.split("=", 1) for p in line[7:].split(" ")[:2] if "=" in p)
                rest = line[7:].split(" ", 2)
                out[(f["property"], f["key"])] = rest[2] if len(rest) > 2 else ""
    return out


class Report(object):
    """collects the obligations of one check run"""

    def __init__(self, pid, tier, rule, floor=1):
        self.pid = pid
        self.tier = tier
        self.rule = rule
        self.floor = floor
        self.t0 = time.time()
        self.ok = []
        self.bad = []
        self.unknown = []
        self.info = {}
        self.assumptions = []
        self.functions = set()
        self.known = load_known()

    def hold(self, key, what=""):
        self.ok.append((key, what))

    def fail(self, key, msg, where="", witness=None):
        for k in self.bad:
            if k["key"] == key:
                return
        self.bad.append({"key": key.replace(" ", "_"), "msg": msg, "where": where, "witness": witness})

    def undecided(self, key, why):
        self.unknown.append((key, str(why)[:300]))

    def decide(self, key, verdict, msg, where=""):
        """verdict of terms.equal"""
        if verdict.status == "eq":
            self.hold(key)
        elif verdict.status == "ne":
            self.fail(key, msg, where, verdict.witness)
        else:
            self.undecided(key, msg)

    def parallel(self, fun, jobs, nproc=None):
        """fun( R, *job ) for all jobs, in worker processes; the results are joined in order"""
        nproc = nproc or min(8, os.cpu_count() or 1)
        jobs = list(jobs)
        if nproc <= 1 or len(jobs) <= 1:
            for j in jobs:
                fun(self, *j)
            return
        ctx = multiprocessing.get_context("fork")
        _JOB.update(fun=fun, jobs=jobs, R=self)
        with ctx.Pool(nproc) as pool:
            for ok, bad, unknown, functions in pool.imap(_work, range(len(jobs)), chunksize=1):
                self.ok += ok
                for b in bad:
                    if not any(k["key"] == b["key"] for k in self.bad):
                        self.bad.append(b)
                self.unknown += unknown
                self.functions |= functions

    def finish(self):
        new, old = [], []
        for b in self.bad:
            (old if (self.pid, b["key"]) in self.known else new).append(b)
        wall = time.time() - self.t0
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": len(self.ok) + len(self.bad) + len(self.unknown),
                "discharged": len(self.ok),
                "violated": len(new),
                "known_findings": len(old),
                "undecided": len(self.unknown),
                "undecided_list": ["%s: %s" % u for u in self.unknown][:60],
                "samples": [k for k, w in self.ok][:400],
                "functions_analysed": sorted(self.functions)[:600],
                "n_functions_analysed": len(self.functions),
            },
            "assumptions": self.assumptions,
            "violations": len(new),
            "wall_s": round(wall, 2),
        }
        ev["coverage"].update(self.info)
        d = os.environ.get("BF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        rep = os.path.join(d, "replay-%s.json" % self.pid)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violated (%.1f s)" % (
            self.pid, ev["coverage"]["obligations"], len(self.ok), len(self.unknown), len(old), len(new), wall))
        for b in old:
            print("KNOWN-FINDING: property=%s %s %s" % (self.pid, b["key"], b["msg"]))
        if new:
            with open(rep, "w") as f:
                json.dump(new, f, indent=1, default=str)
            for b in new:
                print("  %s: %s %s %s" % (b["where"], b["key"], b["msg"], b["witness"] or ""))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        if len(self.ok) < self.floor:
            print("analysis error: only %d obligations decided (floor %d): anchors of %s not found" % (
                len(self.ok), self.floor, self.pid), file=sys.stderr)
            for u in self.unknown[:20]:
                print("   undecided %s: %s" % u, file=sys.stderr)
            return 2
        return 0


_JOB = {}


def _work(k):
    R = _JOB["R"]
    r = Report(R.pid, R.tier, R.rule, R.floor)
    try:
        _JOB["fun"](r, *_JOB["jobs"][k])
    except Exception as e:
        if os.environ.get("BF_DEBUG"):
            raise
        r.undecided("job %d %r" % (k, _JOB["jobs"][k][1:]), "internal " + traceback.format_exc().strip().replace("\n", " | ")[-280:])
    return r.ok, r.bad, r.unknown, r.functions
