"""C19 AnnealingAmoeba keeps its books and its limits, in any landscape.

The source is interpreted with numbers as coordinates; the landscape is a script: the k-th evaluation is lower than all
corners, between them, above them, equal to one of them, infinite. All scripts up to a length are followed."""
import itertools
import math
import numpy as np
from ..absint import *
from ..values import *
from .. import live
from .. import zoo
from .models import setup
from .limits import get

NAME = "AnnealingAmoeba"
#  B below all; E equal to the lowest; M between lowest and next highest; N between next highest and highest; H equal to the highest; W above all; I infinite
CLASSES = "BEMNHWI"
START = [1.0, 2.25, -0.75, 3.5]
SIZE = [0.9, -0.45, 1.6, 0.3]


class Land(object):
    """the landscape; same point, same value"""

    def __init__(self, first, script, tail):
        self.first, self.script, self.tail = first, script, tail
        self.points, self.vals = [], []
        self.rows = []               # in which iteration
        self.turn = 0
        self.values = None           # gives the values at the corners
        self.k = 0

    def __call__(self, I, args, kw):
        p = args[0]
        if not isinstance(p, Arr) or len(args) != 1:
            raise Unsupported("function called with %s" % (args,))
        p = tuple(float(q) for q in p.a.flat)
        v = self.value(p)
        self.points.append(p)
        self.vals.append(v)
        self.rows.append(self.turn)
        return v

    def value(self, p):
        for q, v in zip(self.points, self.vals):
            if near(p, q, 1e-13):
                return v
        n = len(self.points)
        if n < len(self.first):
            return self.first[n]
        c = sorted(v for v in self.values() if not math.isnan(v))
        fin = [v for v in c if math.isfinite(v)] or [0.0]
        lo, hi = fin[0], fin[-1]
        nx = fin[-2] if len(fin) > 1 else lo
        if self.k < len(self.script):
            s = self.script[self.k]
        else:
            s = self.tail
        self.k += 1
        w = 0.37 + 0.01 * (n % 7)
        if s == "t":
            # ever closer to the lowest
            return lo + 1e-7 / (n + 1)
        return {"B": lo - 0.5 - 0.1 * n, "E": lo, "M": lo + w * (nx - lo), "N": nx + w * (hi - nx), "H": hi, "W": hi + 0.7 + 0.03 * n, "I": math.inf}[s]


def near(p, q, tol=1e-9):
    return len(p) == len(q) and all(a == b or abs(a - b) <= tol * (1 + abs(a) + abs(b)) for a, b in zip(p, q))


def rows(v):
    return [tuple(float(q) for q in r) for r in v.a]


def run(R, key, n, first, script, tail="t", size=None, limits=None, temp=0, kw=None, ini=None, geometry=True, salt=0, call=True):
    """one course of the minimization"""
    I = setup()
    live.attach(I, salt)
    I.budget, I.endless = 80000, True
    I.cls(NAME)
    wh = lambda meth: zoo.where(I, NAME, meth) or zoo.where(I, NAME, "minimize")
    W = wh("minimize")
    land = Land(first, script, tail)
    snaps = []
    box = {}

    def corners():
        a = box.get("a")
        if a is None:
            return first
        return [float(v) for v in a.attrs["values"].a.flat]
    land.values = corners

    def snap():
        a = box["a"]
        return rows(a.attrs["simplex"]), [float(v) for v in a.attrs["values"].a.flat]

    def callback(I_, args, kw_):
        land.turn += 1
        if "a" in box:
            snaps.append(snap())
        return args[0]
    ini = list(START[:n] if ini is None else ini)
    size = SIZE[:n] if size is None else size
    own = AList(list(ini)) if isinstance(ini, list) and len(script) % 2 else vec(list(ini))
    osize = vec(list(size)) if isinstance(size, list) else size
    k = dict(kw or {})
    if call:
        k["callback"] = Native("callback", callback)
    lim = None
    if limits is not None:
        lim = [vec(list(q)) if isinstance(q, (list, tuple)) else q for q in limits]
        k["limits"] = AList(list(lim))
    if temp:
        k["temp"] = temp
    lo = [-math.inf] * n if limits is None else list(limits[0]) if isinstance(limits[0], (list, tuple)) else [limits[0]] * n
    hi = [math.inf] * n if limits is None else list(limits[1]) if isinstance(limits[1], (list, tuple)) else [limits[1]] * n
    k.setdefault("maxiter", 40)
    try:
        a = I.instantiate(I.cls(NAME), [Native("func", land), own], dict(k, size=osize))
        box["a"] = a
        start = snap()
    except Budget:
        R.fail(key + ":ends", "it does not end", wh("makeSimplex"))
        return
    except KeyError as e:
        R.fail(key + ":init", "there is no %s" % e, wh("__init__"))
        return
    except AbsRaise as e:
        R.fail(key + ":init", "raises %s (%s)" % (e.name, e.value), wh("__init__"))
        return
    except Unsupported as e:
        R.undecided(key, e)
        return
    ninit = len(land.points)
    ret, ended = None, True
    try:
        ret = I.call(I.getattr_(a, "minimize"), [], {})
    except Budget:
        R.fail(key + ":ends", "it does not end", wh("temperatureStep"))
        return
    except AbsRaise as e:
        ended = False
        if e.name != "ConvergenceError":
            R.fail(key + ":raises", "raises %s (%s)" % (e.name, e.value), W)
            return
    except Unsupported as e:
        R.undecided(key, e)
        return
    try:
        judge(R, I, key, a, n, land, ret, ended, ini, size, own, osize, lim, limits, lo, hi, start, snaps, ninit, temp, k, wh, geometry)
    except (Unsupported, KeyError, TypeError, ValueError, AttributeError) as e:
        R.undecided(key, "%s %s" % (type(e).__name__, e))
    R.steps = max(getattr(R, "steps", 0), I.steps)
    R.functions |= {".".join(v) if isinstance(v, tuple) else v for v in I.visited}


def judge(R, I, key, a, n, land, ret, ended, ini, size, own, osize, lim, limits, lo, hi, start, snaps, ninit, temp, k, wh, geometry):
    W = wh("minimize")

    def say(tag, ok, msg, where=W, witness=None):
        if ok:
            R.hold(key + ":" + tag)
        else:
            R.fail(key + ":" + tag, msg, where, witness)
    # limits
    out = [p for p in land.points if any(not (l <= q <= h) for q, l, h in zip(p, lo, hi))]
    say("limits", not out, "the function is evaluated outside the limits: %s" % (out[:1],), wh("stayInLimits"))
    # the start
    inside = all(l < q < h for q, l, h in zip(ini, lo, hi))
    sz = size if isinstance(size, list) else [size] * n
    if inside and all(math.isfinite(v) for v in land.first[:n + 1]):
        corners = start[0]
        want = []
        for j in range(n):
            q = ini[j] + sz[j]
            if lo[j] <= q <= hi[j]:
                want.append(tuple(ini[i] + (sz[i] if i == j else 0) for i in range(n)))
        want.append(tuple(ini))
        miss = [q for q in want if not any(near(q, c) for c in corners)]
        say("start", not miss and len(corners) == n + 1, "the simplex does not start with corner(s) %s" % (miss,), wh("makeSimplex"))
        flat = np.linalg.matrix_rank(np.array(corners[:-1]) - np.array(corners[-1]), tol=1e-12) < n
        say("startvolume", not flat, "the simplex at the start is degenerate", wh("makeSimplex"))
    # the best
    vals = [v for v in land.vals if not math.isnan(v)]
    best = min(vals)
    fopt = a.attrs.get("fopt")
    xopt = a.attrs.get("xopt")
    say("fopt", not isinstance(fopt, Term) and fopt == best, "fopt is %s, the lowest value found is %s" % (fopt, best))
    xo = tuple(float(q) for q in xopt.a.flat)
    say("xopt", any(near(xo, p) for p, v in zip(land.points, land.vals) if v == best), "xopt %s is not where the lowest value was found" % (xo,))
    if ended:
        r = tuple(float(q) for q in ret.a.flat)
        say("returns", any(near(r, p) for p, v in zip(land.points, land.vals) if v == best), "minimize returns %s, which is not where the lowest value was found" % (r,))
    # no shared memory
    say("own", not np.shares_memory(xopt.a, a.attrs["simplex"].a), "xopt is a part of the simplex")
    # the simplex
    corners, values = rows(a.attrs["simplex"]), [float(v) for v in a.attrs["values"].a.flat]
    for tag, cs, vs in [("start", start[0], start[1]), ("end", corners, values)] + [("it%d" % j, s[0], s[1]) for j, s in enumerate(snaps[:4])]:
        bad = [c for c, v in zip(cs, vs) if not any(near(c, p, 1e-10) and (v == w) for p, w in zip(land.points, land.vals))]
        if bad and len(set(cs)) == len(cs):
            R.fail("%s:values:%s" % (key, tag), "values is not the function at the corner %s" % (bad[:1],), W)
        else:
            R.hold("%s:values:%s" % (key, tag))
        out = [p for p in cs if any(not (l <= q <= h) for q, l, h in zip(p, lo, hi))]
        say("corners:" + tag, not out, "a corner of the simplex is outside the limits: %s" % (out[:1],), wh("stayInLimits"))
    tot = tuple(sum(c[j] for c in corners) for j in range(n))
    say("sum", near(tot, tuple(float(q) for q in a.attrs["sum"].a.flat), 1e-7), "sum is not the sum over the corners of the simplex")
    # the caller
    now = list(own.a.flat) if isinstance(own, Arr) else list(own.items)
    say("xini", now == list(ini), "xini of the caller is changed to %s" % (now,), wh("makeSimplex"))
    if isinstance(osize, Arr):
        say("size", list(osize.a.flat) == list(size), "size of the caller is changed", wh("makeSimplex"))
    if lim is not None:
        for q, w in zip(lim, limits):
            if isinstance(q, Arr):
                say("limarg", list(q.a.flat) == list(w), "limits of the caller are changed", wh("__init__"))
    # when it ends
    it = a.attrs.get("iter")
    maxiter = k["maxiter"]
    if not temp:
        if "callback" in k:
            say("iter", it == land.turn and it <= maxiter, "%s iterations are reported, callback was called %d times, maxiter is %d" % (it, land.turn, maxiter))
        abstol, reltol = k.get("abstol", 0.0001), k.get("reltol", 0.0001)
        d = max(values) - min(values)
        s = abs(max(values)) + abs(min(values))
        if ended:
            say("tolerance", (abstol is None or d < abstol) and (reltol is None or d == 0 or d < reltol * s), "it stops while the values at the corners differ by %g" % d, wh("temperatureStep"))
        else:
            say("maxiter", it >= maxiter, "it gives up after %s of %s iterations" % (it, maxiter))
        if geometry:
            nm(R, key, n, land, start, snaps, ninit, wh, abstol, reltol)
    else:
        down = None
        state = start
        for j, new in enumerate(snaps):
            pts = [(p, v) for p, v, t in zip(land.points[ninit:], land.vals[ninit:], land.rows[ninit:]) if t == j]
            if pts and len(pts) <= 2 and pts[0][1] < min(state[1]) and not any(near(c, p) for c in new[0] for p, v in pts):
                down = (state, pts)
            state = new
        say("down", down is None, "a step to a value lower than all is not taken", wh("trialStep"), down)
    # calls
    if all(math.isfinite(v) for v in land.first[:n + 1]) and not any(math.isnan(v) for v in land.vals):
        say("ncalls", a.attrs.get("ncalls") == len(land.points), "ncalls is %s, the function was called %d times" % (a.attrs.get("ncalls"), len(land.points)))


def nm(R, key, n, land, start, snaps, ninit, wh, abstol, reltol):
    """each iteration follows the downhill simplex method; not where the corners are within tolerance: it may put the best back or expand"""
    W = wh("temperatureStep")
    state = start
    for j, new in enumerate(snaps[:12]):
        pts = [(p, v) for p, v, t in zip(land.points[ninit:], land.vals[ninit:], land.rows[ninit:]) if t == j]
        cs, vs = [np.array(c) for c in state[0]], state[1]
        kk = "%s:nm%d" % (key, j)
        if len(set(vs)) < len(vs) or not all(math.isfinite(v) for v in vs) or not pts or \
                ((abstol is None or max(vs) - min(vs) < abstol) and (reltol is None or max(vs) - min(vs) < reltol * (abs(max(vs)) + abs(min(vs))))):
            state = new
            continue
        order = sorted(range(n + 1), key=lambda q: vs[q])
        b, w, nh = order[0], order[-1], order[-2]
        cen = sum(cs[q] for q in range(n + 1) if q != w) / n
        refl = 2 * cen - cs[w]
        bad = None
        if not near(tuple(refl), pts[0][0]):
            bad = "the worst corner is not reflected over the centre of the others"
        else:
            y = pts[0][1]
            seen = 1
            if y < vs[b]:
                seen = 2
                if len(pts) < 2 or not near(tuple(cen + 2 * (refl - cen)), pts[1][0]):
                    bad = "after a reflection to a lower value it is not extrapolated to twice as far"
            elif y >= vs[nh]:
                seen = 2
                base = refl if y < vs[w] else cs[w]
                if len(pts) < 2 or not near(tuple(cen + 0.5 * (base - cen)), pts[1][0]):
                    bad = "after a bad reflection it is not contracted halfway to the others"
                elif pts[1][1] >= vs[w]:
                    seen = 2 + n
                    mid = new[0]
                    best = cs[b]
                    old = list(cs)
                    if y < vs[w]:
                        old[w] = refl
                    want = [tuple(best + 0.5 * (old[q] - best)) for q in range(n + 1) if q != b]
                    if any(not any(near(q, p) for p, v in pts[2:]) for q in want):
                        bad = "after a bad contraction the simplex is not shrunk on its best corner"
            if bad is None and len(pts) != seen:
                bad = "%d evaluations in a step that needs %d" % (len(pts), seen)
            if bad is None and seen <= 2:
                same = [q for q in range(n + 1) if q != w and not near(state[0][q], new[0][q])]
                if same:
                    bad = "another corner than the worst one is changed"
                elif not new[1][w] < vs[w]:
                    bad = "the worst corner is replaced by one that is not lower"
                elif not any(near(new[0][w], p) and v == new[1][w] for p, v in pts):
                    bad = "the corner is not replaced by one of those tried"
        if bad:
            R.fail(kk, bad, W, {"corners": state, "tried": pts})
        else:
            R.hold(kk)
        state = new


def orders(n, most):
    """values at the corners of the first simplex, in several orders"""
    base = [3.0, 4.25, 5.0, 7.5, 8.0][:n + 1]
    all_ = list(itertools.permutations(base))
    if len(all_) <= most:
        return all_
    step = len(all_) / most
    return [all_[int(k * step)] for k in range(most)]


def plain(R, n, first, scripts):
    for s in scripts:
        run(R, "amoeba:%d:%s:%s" % (n, "".join(str(sorted(first).index(v)) for v in first), s or "-"), n, list(first), s)


LIM = {"none": (-math.inf, math.inf), "low": (0.3, math.inf), "high": (-math.inf, 4.0), "both": (0.3, 4.0)}
INI = {"in": 1.5, "onlow": 0.3, "below": -1.0, "onhigh": 4.0, "above": 5.5, "nearlow": 0.35, "nearhigh": 3.95}


def limited(R, kinds, places, size, scripts, temp):
    n = len(kinds)
    limits = ([LIM[k][0] for k in kinds], [LIM[k][1] for k in kinds])
    ini = [INI[p] for p in places]
    for s in scripts:
        for tail in ("t", "B") if not temp else ("t",):
            run(R, "limits:%s:%s:%s:%s:%s%s" % ("-".join(kinds), "-".join(places), size, s, tail, ":T" if temp else ""), n, [3.0, 5.0, 4.25, 6.0][:n + 1], s, tail=tail,
                size=size, limits=limits, temp=temp, ini=ini, kw=dict(maxiter=6), geometry=False)


def settings(R):
    for kw in (dict(abstol=None, reltol=0.01), dict(abstol=0.3, reltol=None), dict(abstol=1e-9, reltol=1e-9), dict(maxiter=1), dict(maxiter=2), dict(maxiter=7, abstol=0.0, reltol=0.0),
               dict(abstol=2.5, reltol=0.7), dict(abstol=0.5, reltol=1e-6)):
        for s in ("", "B", "WWW", "MNB", "WNM", "BBBB"):
            for tail in ("t", "M", "B"):
                run(R, "set:%s:%s:%s" % (sorted(kw.items()), s, tail), 2, [3.0, 5.0, 4.25], s, tail=tail, kw=dict(dict(maxiter=12), **kw))
    for size in (1, 0.25, -2.0, 3):
        run(R, "size:%s" % size, 3, [3.0, 5.0, 4.25, 6.0], "BMW", size=size)
    for lim in ((0.3, 4.0), (-1.0, 3.5), (0.3, [4.0, 2.5]), ([0.3, -math.inf], 3.5)):
        for s in ("BBBB", "WWWW", "BWNB", "MNWB", "WMEH"):
            run(R, "scalar:%s:%s" % (lim, s), 2, [3.0, 5.0, 4.25], s, limits=lim, geometry=False, kw=dict(maxiter=8))
    # flat at the start: it is blown up until there is something; flat everywhere: it ends
    for s in ("", "EE", "BE", "EB", "MM", "EEB", "EEEEW", "EEEEB", "IIB", "WI"):
        for tail in ("E", "t", "W", "B"):
            run(R, "flat:%s:%s" % (s, tail), 2, [3.0, 3.0, 3.0], s, tail=tail, geometry=False, kw=dict(maxiter=8))
    # infinite at a corner of the start
    for first in ([math.inf, 3.0, 4.0], [3.0, math.inf, 4.0], [3.0, 4.0, math.inf], [math.inf, math.inf, 5.0]):
        for s in ("B", "MM", "W", "IB", "IIM", "WB"):
            run(R, "inf:%s:%s" % (first, s), 2, first, s, geometry=False, kw=dict(maxiter=8))
            run(R, "inf:%s:%s:lim" % (first, s), 2, first, s, geometry=False, limits=([0.0, -math.inf], [1.95, 2.5]), kw=dict(maxiter=8))
    # degenerate only when it is
    for ini in ([1.0, 2.0], [1.0, 1.0], [0.0, 0.0], [2.0, 1.0]):
        run(R, "ini:%s" % ini, 2, [3.0, 5.0, 4.25], "BM", size=1, ini=ini)


def annealing(R, n, temp, salts, scripts):
    for salt in salts:
        for s in scripts:
            run(R, "anneal:%d:%s:%d:%s" % (n, temp, salt, s), n, [3.0, 5.0, 4.25, 6.0][:n + 1], s, tail="t" if salt % 2 else "M", temp=temp, salt=salt, geometry=False,
                kw=dict(maxiter=4, steps=2, cooling=0.5))


def run_amoeba(R):
    jobs = []
    deep = R.tier != "quick"
    scripts = ["".join(s) for d in range(0, 4 if not deep else 5) for s in itertools.product(CLASSES, repeat=d)]
    few = ["".join(s) for s in itertools.product("BMNWI", repeat=2)] + ["BWEHN", "WWWWM", "WNWNB", "IIWMB", "NHNHB"]
    for n in (1, 2, 3):
        for first in orders(n, 6 if n < 3 else 4):
            ss = scripts if (n == 2 and first in orders(n, 6)[:2]) or deep else few
            for k in range(0, len(ss), 40):
                jobs.append((plain, n, first, ss[k:k + 40]))
    for a in LIM:
        for b in LIM:
            for p in INI:
                if (p in ("onlow", "below", "nearlow") and a not in ("low", "both")) or (p in ("onhigh", "above", "nearhigh") and a not in ("high", "both")):
                    continue
                for size in (1, -1.0, 6.0, -6.0):
                    jobs.append((limited, (a, b), (p, "in"), size, ["", "BBBB", "WMWN", "WWWB"], 0))
                jobs.append((limited, (b, a), ("in", p), 1, ["BBBB", "IWNB", "WIW"], 2.0))
    jobs.append((settings,))
    for n in (1, 2, 3):
        for temp in (0.5, 5.0, 100.0):
            jobs.append((annealing, n, temp, range(4 if not deep else 12), ["", "B", "WWB", "BWBW", "IMWNB", "HEHE"]))
    R.parallel(job, jobs)


def job(R, f, *a):
    f(R, *a)
