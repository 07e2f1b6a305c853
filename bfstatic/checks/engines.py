"""C17 engines: what they propose, accept, store and report, for every course of accepted and rejected proposals"""
import math
import os
import itertools
import numpy as np
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from .. import live
from .models import setup
from .limits import get
from .evidence import check, place

NS, PS = "NestedSampler", "PhantomSampler"
STATIC = {"galilean": "GalileanEngine", "chord": "ChordEngine", "gibbs": "GibbsEngine", "step": "StepEngine", "random": "RandomEngine"}
DYN = {"birth": "BirthEngine", "death": "DeathEngine"}
ORDER = {"move": "MoveEngine", "reverse": "ReverseEngine", "shuffle": "ShuffleEngine", "switch": "SwitchEngine", "near": "NearEngine", "loop": "LoopEngine"}


def num(I, v):
    """the numbers in v"""
    v = I.res(v) if hasattr(I, "res") else v
    if isinstance(v, Arr):
        if v.a.size == 0:
            return []
        c = I.np.numeric(v)
        if c is None:
            raise Unsupported("symbolic parameters")
        return [float(x) for x in np.ravel(c)]
    if isinstance(v, AList):
        return [float(x) for x in v.items]
    if not isinstance(v, (int, float, np.integer, np.floating)):
        raise Unsupported("number %r" % (v,))
    return float(v)


def knots(I, m):
    try:
        return tuple(num(I, I.getattr_(m, "knots")))
    except (AbsRaise, Unsupported):
        return ()


def signature(I, problem):
    """the structure of the model"""
    m = I.getattr_(problem, "model")
    if m is None:
        return None
    out = []
    while m is not None:
        out.append((m.cls.name, int(I.getattr_(m, "npbase")), knots(I, m)))
        m = I.getattr_(m, "_next")
    return tuple(out)


class World(object):
    """an ensemble of walkers and an engine in a given landscape"""

    def __init__(self, I, ns, low, script):
        self.I, self.ns, self.low = I, ns, low
        self.script = script
        self.evals = []
        self.grads = []
        self.draws = []
        ed = I.getattr_(ns, "distribution")
        I.raw_setattr(ed, "logLikelihood", Native("logLikelihood", self.logl))
        I.raw_setattr(ed, "partialLogL", Native("partialLogL", self.grad))
        self.walkers = I.getattr_(ns, "walkers")
        self.rs = np.random.RandomState(11)

    def logl(self, I, args, kw):
        a = list(args) + [None, None]
        problem = a[0] if a[0] is not None else kw.get("problem")
        par = a[1] if a[1] is not None else kw.get("allpars")
        k = len(self.evals)
        c = self.script[k] if k < len(self.script) else self.script[-1]
        L = {"a": self.low + 1.0 + k * 0.001, "e": self.low, "r": self.low - 1.0 - 0.001 * k, "n": math.nan, "i": -math.inf}[c]
        self.evals.append(dict(par=num(I, par), problem=problem, sig=signature(I, problem), L=L, ok=c in "ae"))
        return L

    def grad(self, I, args, kw):
        a = list(args) + [None, None, None]
        fi = a[2] if a[2] is not None else kw.get("fitIndex")
        par = a[1] if a[1] is not None else kw.get("allpars")
        g = self.rs.normal(0, 1, len(num(I, fi)))
        self.grads.append(num(I, par))
        return vec([float(x) for x in g])

    def snap(self):
        I = self.I
        out = []
        for w in self.walkers.items.items:
            out.append(self.walker(w))
        return out

    def walker(self, w):
        I = self.I
        return dict(w=w, par=num(I, I.getattr_(w, "allpars")), parr=I.getattr_(w, "allpars"), fi=None if I.getattr_(w, "fitIndex") is None else [int(x) for x in num(I, I.getattr_(w, "fitIndex"))],
                    L=float(I.getattr_(w, "logL")), id=I.getattr_(w, "id"), sig=signature(I, I.getattr_(w, "problem")), start=I.getattr_(w, "start"), parent=I.getattr_(w, "parent"),
                    mpar=num(I, I.getattr_(I.getattr_(I.getattr_(w, "problem"), "model"), "parameters")) if I.getattr_(I.getattr_(w, "problem"), "model") is not None else None)

    def phantoms(self):
        ph = self.I.getattr_(self.I.getattr_(self.ns, "phantoms"), "phantoms")
        if isinstance(ph, ADict):
            return [[w for w in v.items.items] for v in ph.d.values()]
        return [[w for w in ph.items.items]]


def same(a, b):
    return all(a[k] == b[k] for k in ("par", "fi", "L", "id", "sig", "start", "parent", "mpar"))


def position(lo, hi, r):
    return [float(l + (h - l) * r.uniform(0.15, 0.85)) for l, h in zip(lo, hi)]


def static(I, eng, cfg, cls=NS, n=4):
    """sampler with one engine: (sampler, limits of all parameters)"""
    keep, scale, dist = cfg
    m = I.instantiate(I.cls("PolynomialModel"), [2], {})
    lo, hi = [-4.0, 10.0, 0.5], [5.0, 12.0, 0.9]
    I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList(lo), "highLimits": AList(hi)})
    kw = {"xdata": vec([1., 2., 3., 4.]), "model": m, "ydata": vec([0.2, 1.4, 2.2, 2.9]), "ensemble": n, "verbose": 0, "engines": AList([eng])}
    if dist is not None:
        kw["distribution"] = dist
    nh = 0 if dist == "poisson" else 1
    if scale:
        kw["limits"] = AList([0.1, 30.0])
    if keep is not None:
        kw["keep"] = ADict(keep)
    ns = I.instantiate(I.cls(cls), [], kw)
    return ns, lo + [0.1] * nh, hi + [30.0] * nh


def prepare(I, ns, lo, hi, n, seed=5):
    r = np.random.RandomState(seed)
    I.hooks["StartEngine.execute"] = lambda I_, f, a, k, node: 1
    I.call(I.getattr_(ns, "initSample"), [])
    ws = I.getattr_(ns, "walkers").items.items
    for k, w in enumerate(ws):
        old = num(I, I.getattr_(w, "allpars"))
        p = position(lo, hi, r)
        fi = [int(x) for x in num(I, I.getattr_(w, "fitIndex"))]
        for j in fi:
            old[j] = p[j]
        place(I, w, dict(logL=float(10 + k), par=old))
        if I.getattr_(I.getattr_(w, "problem"), "model") is not None:
            I.setattr_(I.getattr_(I.getattr_(w, "problem"), "model"), "parameters", vec(old[:int(I.getattr_(I.getattr_(I.getattr_(w, "problem"), "model"), "npars"))]))
    return ws


def outcome(R, key, W, *a, **k):
    try:
        return outcome_(R, key, W, *a, **k)
    except Unsupported as e:
        R.undecided(key, e)
        return []


def outcome_(R, key, W, before, phb, kw, ret, append, eng, wh, lo=None, hi=None, moved=None, dyn=False):
    """obligations on what an engine did"""
    I = W.I
    bad = lambda name, ok, msg: check(R, key + ":" + name, bool(ok), wh, msg)
    after = W.snap()
    n = len(before)
    # --- the others
    bad("others", len(after) >= n and all(after[k]["w"] is before[k]["w"] and same(after[k], before[k]) for k in range(n) if k != kw or append),
        "another walker is changed")
    bad("source", same(W.walker(before[kw]["w"]), before[kw]), "the walker which is explored is changed in stead of replaced")
    new = after[n:] if append else ([after[kw]] if len(after) > kw and after[kw]["w"] is not before[kw]["w"] else [])
    bad("size", append or len(after) == n, "the number of walkers changed from %d to %d" % (n, len(after)))
    ok = [e for e in W.evals if e["ok"]]
    # --- what is accepted
    for j, w in enumerate(new):
        e = [e for e in W.evals if e["L"] == w["L"] and (not math.isnan(w["L"]))]
        bad("likelihood%d" % j, w["L"] >= W.low, "a walker with logL %g is accepted while the limit is %g" % (w["L"], W.low))
        bad("evaluated%d" % j, any(e_["par"] == w["par"] and e_["sig"] == w["sig"] for e_ in e), "logL of the accepted walker is not that of its parameters")
        bad("index%d" % j, dyn or eng in ORDER or w["fi"] == before[kw]["fi"], "the list of fitted parameters is changed")
        bad("owner%d" % j, sum(w["parr"] is a["parr"] or w["parr"].a is a["parr"].a for a in after) == 1, "two walkers share their parameters")
        if append:
            bad("id%d" % j, w["id"] == n + j, "a new walker does not get the next identification")
        else:
            bad("id%d" % j, w["id"] == before[kw]["id"], "the identification of the walker is changed")
    if eng not in ("galilean", "struct"):
        bad("accepted", [w["L"] for w in new] == [e["L"] for e in (ok if append else ok[-1:])], "not all proposals above the limit are accepted")
    else:
        bad("accepted", all(w["L"] in [e["L"] for e in ok] for w in new), "a walker is stored with another likelihood")
        bad("first", eng == "struct" or not W.evals or not W.evals[0]["ok"] or new, "a proposal above the limit is not accepted")
    # --- phantoms
    for lst in W.phantoms():
        l = [float(I.getattr_(w, "logL")) for w in lst]
        bad("sorted", l == sorted(l), "the phantoms are not sorted")
    flat = [w for lst in W.phantoms() for w in lst]
    acc = [e["L"] for e in ok] if eng != "galilean" else [w["L"] for w in new]
    lf = sorted(float(I.getattr_(w, "logL")) for w in flat)
    bad("phantoms", all(a in lf for a in acc), "an accepted walker is not stored in the phantoms")
    bad("nolost", all(a in lf for a in phb if a > W.low), "a phantom above the limit is lost")
    bad("noextra", all(a in phb or a in [e["L"] for e in ok] for a in lf), "something that was not accepted is stored in the phantoms")
    bad("length", len([a for a in lf if a not in phb]) == len(set(a for a in lf if a not in phb)) or "e" in W.script, "a walker is stored twice in the phantoms")
    # --- what is proposed
    p0, fi = before[kw]["par"], before[kw]["fi"]
    if not dyn and fi is not None:
        idx = [k % len(p0) for k in fi]
        for e in W.evals:
            if any(e["par"][k] != p0[k] for k in range(len(p0)) if k not in idx) or len(e["par"]) != len(p0):
                bad("kept", False, "a parameter that is not fitted is changed")
                break
        else:
            bad("kept", True, "")
        if lo is not None:
            bad("limits", all(lo[k] - 1e-9 * abs(lo[k]) <= e["par"][k] <= hi[k] + 1e-9 * abs(hi[k]) for e in W.evals for k in idx), "a proposal is outside the limits of the priors")
        if eng == "gibbs":
            at, one = p0, True
            for e in W.evals:
                one = one and sum(x != y for x, y in zip(e["par"], at)) <= 1
                at = e["par"] if e["ok"] else at
            bad("one", one, "more than one parameter is changed in one proposal")
        if moved is not None:
            for e in W.evals:
                for k in range(len(p0)):
                    if e["par"][k] != p0[k]:
                        moved.add(k)
    # --- what is returned
    bad("return", isinstance(ret, (int, np.integer)) and (ret > 0) == (len(new) > 0), "the number of moves reported is %s while %d walkers are accepted" % (ret, len(new)))
    return new


SCRIPTS = ["".join(s) for s in itertools.product("ar", repeat=4)]
MORE = ["e", "n", "i", "rrrrrrrrrrrra", "ra", "rrae", "nnarr", "rrrrra"]
CONFIGS = [(None, False, None), (None, True, None), ({0: 0.25}, True, None), ({1: 11.0}, False, None), ({-1: 0.4, 2: 0.6}, True, None), (None, False, "poisson"), ({0: 1.0}, False, "poisson")]


def engine(R, eng, ci, append):
    """a continuous engine in all landscapes"""
    wh = zoo.where(setup(), STATIC[eng], "execute")
    key0 = "engine:%s:%d:%s" % (eng, ci, "append" if append else "replace")
    moved = set()
    scripts = SCRIPTS + MORE
    fi = None
    for si, sc in enumerate(scripts):
        key = key0 + ":" + sc
        I = setup()
        draws = []
        live.attach(I, salt=si, log=draws)

        def run():
            ns, lo, hi = static(I, eng, CONFIGS[ci])
            ws = prepare(I, ns, lo, hi, 4, 7 + si)
            ph = I.getattr_(ns, "phantoms")
            r = np.random.RandomState(si)
            if si % 3:
                # some phantoms, below and above the limit
                for j in range(7):
                    w = I.call(I.getattr_(ws[j % 4], "copy"), [])
                    old = num(I, I.getattr_(w, "allpars"))
                    p = position(lo, hi, r)
                    for q in [int(x) for x in num(I, I.getattr_(w, "fitIndex"))]:
                        old[q] = p[q]
                    place(I, w, dict(logL=float(7 + 1.5 * j), par=old))
                    I.call(I.getattr_(ph, "storeItems"), [w])
            W = World(I, ns, 9.25, sc)
            before, phb = W.snap(), [float(I.getattr_(w, "logL")) for l in W.phantoms() for w in l]
            e = I.getattr_(ns, "engines").items[0]
            kw = si % 4
            del draws[:]
            ret = I.call(I.getattr_(e, "execute"), [kw, 9.25], {"append": append, "iteration": 3})
            return W, before, phb, kw, ret, lo, hi
        out = get(R, key, wh, run)
        R.functions |= I.visited
        if out is None:
            continue
        W, before, phb, kw, ret, lo, hi = out
        fi = before[kw]["fi"]
        outcome(R, key, W, before, phb, kw, ret, append, eng, wh, lo, hi, moved)
        check(R, key + ":tried", len(W.evals) > 0, wh, "no proposal is made")
        w2 = len(W.snap())
    if fi is not None:
        np_ = 3 + (0 if CONFIGS[ci][2] else 1)
        for k in fi:
            check(R, key0 + ":moves%d" % k, k % np_ in moved, wh, "parameter %d is never moved" % k)


def run_engines(R):
    jobs = [("engine", e, c, a) for e in STATIC for c in range(len(CONFIGS)) for a in (False, True)]
    jobs += [("dyn", e, m, p, a) for e in DYN for m in DMODELS for p in PLACES for a in (False, True)]
    jobs += [("order", e, n) for e in ORDER for n in (4, 5, 7)] + [("startorder",)]
    jobs += [("structure", p, a) for p in PLACES for a in (False, True)]
    jobs += [("start", c) for c in range(len(CONFIGS))] + [("startdyn", m, p) for m in DMODELS for p in PLACES]
    jobs += [("box", c) for c in range(len(CONFIGS))]
    jobs += [("explore", c, k) for c in (NS, PS) for k in range(4)] + [("orderexplore",), ("fitlist",), ("fitnoise",), ("basis",)]
    only = os.environ.get("BF_JOBS")
    if only:
        jobs = [j for j in jobs if j[0] in only.split(",")]
    R.parallel(job, sorted(jobs, key=lambda j: -{"fitlist": 4, "fitnoise": 4, "dyn": 3, "engine": 2}.get(j[0], 1)))


def job(R, kind, *a):
    {"engine": engine, "dyn": dyn, "order": order, "startorder": startorder, "structure": structure, "start": start, "startdyn": startdyn, "box": box, "explore": explore, "orderexplore": orderexplore, "fitlist": fitlist, "fitnoise": fitnoise, "basis": basis}[kind](R, *a)


# ------------------------------------------------------------------ dynamic models
def component(I, name):
    """(model, number of parameters of a component, number of parameters of the first one, limits per parameter of component, limits of the parameters)"""
    if name == "poly":
        m = I.instantiate(I.cls("PolynomialDynamicModel"), [1], {"maxDegree": 3})
        lim = ([-4.0], [5.0])
    elif name == "poly0":
        m = I.instantiate(I.cls("PolynomialDynamicModel"), [2], {})
        lim = ([1.5], [5.0])
    elif name == "harm":
        m = I.instantiate(I.cls("HarmonicDynamicModel"), [2], {"maxOrder": 4})
        lim = ([-4.0, 1.0], [5.0, 2.0])
    elif name in ("repeat", "repeat1", "repeat3"):
        g = I.instantiate(I.cls("GaussModel"), [], {})
        I.call(I.getattr_(g, "setLimits"), [], {"lowLimits": AList([1.0, -3.0, 0.2]), "highLimits": AList([2.0, 4.0, 0.6])})
        m = I.instantiate(I.cls("RepeatingModel"), [{"repeat": 2, "repeat1": 1, "repeat3": 3}[name], g], {"minComp": 0 if name == "repeat1" else 1, "maxComp": 4})
        return m, ([1.0, -3.0, 0.2], [2.0, 4.0, 0.6])
    elif name == "same":
        g = I.instantiate(I.cls("GaussModel"), [], {})
        I.call(I.getattr_(g, "setLimits"), [], {"lowLimits": AList([1.0, -3.0, 0.2]), "highLimits": AList([2.0, 4.0, 0.6])})
        m = I.instantiate(I.cls("RepeatingModel"), [3, g], {"minComp": 1, "maxComp": 4, "same": 2})
        return m, ([1.0, -3.0, 0.2], [2.0, 4.0, 0.6])
    elif name == "spline":
        m = I.instantiate(I.cls("SplinesDynamicModel"), [], {"knots": AList([0.0, 1.0, 2.0, 3.0, 5.0]), "order": 2, "maxKnots": 7})
        lim = ([-4.0], [5.0])
    I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList(lim[0]), "highLimits": AList(lim[1])})
    return m, lim


def bound(name, n, lim, low):
    """limits of n parameters"""
    l = lim[0] if low else lim[1]
    if name == "same":
        return [l[k] if k < 3 else l[(k - 3) % 2] for k in range(n)]
    return [l[k % len(l)] for k in range(n)]


def parts(name, par):
    """the components in the parameters of the dynamic model"""
    d = {"poly": 1, "poly0": 1, "harm": 2, "repeat": 3, "repeat1": 3, "repeat3": 3, "same": 2, "spline": 1}[name]
    if name == "same":
        return [tuple(par[:2])] + [tuple(par[k:k + d]) for k in range(3, len(par), d)]
    return [tuple(par[k:k + d]) for k in range(0, len(par), d)]


DMODELS = ["poly", "poly0", "harm", "repeat", "repeat1", "repeat3", "same", "spline"]
PLACES = ["alone", "after", "before", "between"]


def dynamic(I, eng, name, place_, scale, dist, cls=NS, n=4):
    m, lim = component(I, name)
    pre = post = 0

    def stat(deg, lo, hi):
        p = I.instantiate(I.cls("PolynomialModel"), [deg], {})
        I.call(I.getattr_(p, "setLimits"), [], {"lowLimits": AList([lo] * (deg + 1)), "highLimits": AList([hi] * (deg + 1))})
        return p
    model = m
    if place_ in ("after", "between"):
        model = I.binary("Add", stat(1, 20.0, 30.0), m, None)
        pre = 2
    if place_ in ("before", "between"):
        model = I.binary("Add", model, stat(0, 40.0, 50.0), None)
        post = 1
    kw = {"xdata": vec([1., 2., 3., 4.]), "model": model, "ydata": vec([0.2, 1.4, 2.2, 2.9]), "ensemble": n, "verbose": 0, "engines": AList([eng])}
    if dist is not None:
        kw["distribution"] = dist
    if scale:
        kw["limits"] = AList([0.1, 30.0])
    ns = I.instantiate(I.cls(cls), [], kw)
    return ns, pre, post, lim


def limits_of(name, np_, pre, post, lim, nh):
    nd = np_ - pre - post
    lo = [20.0] * pre + bound(name, nd, lim, True) + [40.0] * post + [0.1] * nh
    hi = [30.0] * pre + bound(name, nd, lim, False) + [50.0] * post + [30.0] * nh
    return lo, hi


def dyn(R, eng, name, place_, append):
    """birth and death in all landscapes"""
    wh = zoo.where(setup(), DYN[eng], "execute")
    key0 = "dynamic:%s:%s:%s:%s" % (eng, name, place_, "append" if append else "replace")
    died, done = set(), 0
    for si, sc in enumerate(["a", "ra", "rra", "e", "rrrrrrrrr", "n"] + ["a"] * (20 if place_ == "alone" else 8)):
        scale, dist = [(False, None), (True, None), (False, "poisson")][(si + len(name)) % 3]
        key = key0 + ":%d:%s" % (si, sc)
        I = setup()
        live.attach(I, salt=si)
        nh = 0 if dist == "poisson" else 1

        def run():
            ns, pre, post, lim = dynamic(I, eng, name, place_, scale, dist)
            np_ = int(I.getattr_(I.getattr_(ns, "model"), "npars"))
            lo, hi = limits_of(name, np_, pre, post, lim, nh)
            ws = prepare(I, ns, lo, hi, 4, 7 + si)
            W = World(I, ns, 9.25, sc)
            before, phb = W.snap(), []
            e = I.getattr_(ns, "engines").items[0]
            kw = si % 4
            ret = I.call(I.getattr_(e, "execute"), [kw, 9.25], {"append": append, "iteration": 3})
            return W, before, phb, kw, ret, pre, post, lim
        out = get(R, key, wh, run)
        R.functions |= I.visited
        if out is None:
            continue
        W, before, phb, kw, ret, pre, post, lim = out
        new = outcome(R, key, W, before, phb, kw, ret, append, eng, wh, dyn=True)
        bad = lambda nm, ok, msg: check(R, key + ":" + nm, bool(ok), wh, msg)
        p0 = before[kw]["par"]
        n0 = len(p0) - nh
        for w in new:
            done += 1
            p1 = w["par"]
            n1 = len(p1) - nh
            grown = n1 > n0
            bad("size", (eng == "birth") == grown and n1 != n0, "%d parameters become %d" % (n0, n1))
            bad("model", sum(s[1] for s in w["sig"]) == n1 and len(w["mpar"]) == n1 and int(I.getattr_(I.getattr_(I.getattr_(w["w"], "problem"), "model"), "npars")) == n1,
                "the model of the walker does not have the parameters of the walker")
            fi = list(range(n1)) + ([-1] if scale else [])
            bad("fitindex", w["fi"] == fi, "the list of fitted parameters is %s, not %s" % (w["fi"], fi))
            bad("static", p1[:pre] == p0[:pre] and p1[n1 - post:] == p0[n0 - post:], "a parameter of another model, or of the noise, is changed")
            lo, hi = limits_of(name, n1, pre, post, lim, nh)
            bad("limits", all(l - 1e-9 * abs(l) <= p <= h + 1e-9 * abs(h) for l, h, p in list(zip(lo, hi, p1))[:n1]), "a parameter is outside the limits of its prior")
            c0, c1 = parts(name, p0[pre:n0 - post]), parts(name, p1[pre:n1 - post])
            if name == "spline":
                k0, k1 = [[s[2] for s in q["sig"] if s[2]][0] for q in (before[kw], w)]
                bad("knots", len(k1) - len(k0) == (1 if grown else -1) and list(k1) == sorted(k1) and len(set(k1)) == len(k1) and k0[0] == k1[0] and k0[-1] == k1[-1] and
                    (set(k0) <= set(k1) if grown else set(k1) <= set(k0)), "the knots are changed otherwise than by one")
                continue
            if name == "same":
                bad("same", p1[pre + 2] == p0[pre + 2], "the common parameter is changed")
            if grown:
                bad("components", c1[:len(c0)] == c0 and len(c1) == len(c0) + 1, "the components that were present are changed")
            else:
                bad("components", len(c1) == len(c0) - 1 and all(c in c0 for c in c1) and len(set(c1)) == len(c1), "the components that survive are not those that were present")
                died |= set(k for k, c in enumerate(c0) if c not in c1)
    if place_ == "alone":
        check(R, key0 + ":happens", done > 0, wh, "the number of parameters never changes")
    if eng == "death" and name in ("repeat3", "same") and place_ == "alone":
        check(R, key0 + ":any", len(died) == 3, wh, "not all components can disappear, only %s" % sorted(died))



# ------------------------------------------------------------------ orders
XY = [(0.0, 0.0), (4.0, 1.0), (1.0, 5.0), (6.0, 4.0), (2.5, 2.0), (5.125, 7.5), (0.5, 3.375)]


def salesman(I, n, engines, ens=4):
    x = Arr(np.array([[float(a), float(b)] for a, b in XY[:n]], dtype=object), dtype="float")
    p = I.instantiate(I.cls("SalesmanProblem"), [], {"xdata": x})
    return I.instantiate(I.cls("NestedSolver"), [], {"problem": p, "ensemble": ens, "verbose": 0, "engines": AList(engines)})


def edges(p):
    return set(frozenset((p[k], p[k - 1])) for k in range(len(p)))


CUT = {"move": 3, "reverse": 2, "loop": 2, "switch": 4, "near": 3}


def order(R, eng, n):
    """engines that change the order"""
    wh = zoo.where(setup(), ORDER[eng], "executeOnce")
    done = 0
    seen = set()
    for si, sc in enumerate(["a", "ra", "rra", "e", "r", "rrrra", "i"] + ["a"] * 25 + ["ra"] * 10):
        key = "order:%s:%d:%d:%s" % (eng, n, si, sc)
        I = setup()
        live.attach(I, salt=si)

        def run():
            ns = salesman(I, n, [eng])
            I.hooks["StartOrderEngine.execute"] = lambda I_, f, a, k, node: 1
            I.call(I.getattr_(ns, "initSample"), [])
            r = np.random.RandomState(si)
            for k, w in enumerate(I.getattr_(ns, "walkers").items.items):
                I.raw_setattr(w, "logL", float(10 + k))
                I.raw_setattr(w, "allpars", Arr(np.array([int(q) for q in r.permutation(n)], dtype=object), dtype="int"))
            W = World(I, ns, 9.25, sc)
            before = W.snap()
            e = I.getattr_(ns, "engines").items[0]
            kw = si % 4
            ret = I.call(I.getattr_(e, "execute"), [kw, 9.25], {"append": False, "iteration": 3})
            return W, before, kw, ret
        out = get(R, key, wh, run)
        R.functions |= I.visited
        if out is None:
            continue
        W, before, kw, ret = out
        new = outcome(R, key, W, before, [], kw, ret, False, eng, wh)
        bad = lambda nm, ok, msg: check(R, key + ":" + nm, bool(ok), wh, msg)
        p0 = before[kw]["par"]
        for e in W.evals:
            bad("permutation", sorted(e["par"]) == list(range(n)), "a proposal is not a permutation: %s" % e["par"])
            if eng in CUT and n > 4:
                bad("kind", len(edges(p0) - edges(e["par"])) <= CUT[eng], "%s: %s becomes %s" % (eng, p0, e["par"]))
            if eng == "switch":
                bad("two", sum(a != b for a, b in zip(p0, e["par"])) == 2, "%s becomes %s" % (p0, e["par"]))
            if eng == "near":
                # one city is now next to the one that is nearest to it
                d = lambda a, b: (XY[int(a)][0] - XY[int(b)][0]) ** 2 + (XY[int(a)][1] - XY[int(b)][1]) ** 2
                nn = set(frozenset((c, min((q for q in range(n) if q != c), key=lambda q: d(q, c)))) for c in range(n))
                bad("nearest", edges(e["par"]) == edges(p0) or (edges(e["par"]) - edges(p0)) & nn, "no city is moved next to its nearest: %s %s" % (p0, e["par"]))
            if edges(e["par"]) != edges(p0):
                seen.add(tuple(e["par"]))
        done += len(new)
    check(R, "order:%s:%d:happens" % (eng, n), done > 0, wh, "the order never changes")
    if n > 4:
        check(R, "order:%s:%d:varies" % (eng, n), len(seen) > 3, wh, "the order hardly changes")


def startorder(R):
    wh = zoo.where(setup(), "StartOrderEngine", "execute")
    orders = set()
    for si in range(6):
        key = "startorder:%d" % si
        I = setup()
        live.attach(I, salt=si)

        def run():
            ns = salesman(I, 6, ["move"], 5)
            evals = []

            def logl(I_, args, kw):
                evals.append((num(I, args[1] if len(args) > 1 else kw["allpars"]), -1.5 * len(evals)))
                return evals[-1][1]
            I.raw_setattr(I.getattr_(ns, "distribution"), "logLikelihood", Native("logLikelihood", logl))
            I.call(I.getattr_(ns, "initSample"), [])
            return [(num(I, I.getattr_(w, "allpars")), float(I.getattr_(w, "logL")), I.getattr_(w, "id"), I.getattr_(w, "allpars")) for w in I.getattr_(ns, "walkers").items.items], evals
        out = get(R, key, wh, run)
        R.functions |= I.visited
        if out is None:
            continue
        ws, evals = out
        for k, (p, L, i, arr) in enumerate(ws):
            check(R, key + ":permutation%d" % k, sorted(p) == list(range(6)), wh, "the start is not a permutation: %s" % p)
            check(R, key + ":likelihood%d" % k, (p, L) in evals, wh, "the likelihood is not that of the order")
            check(R, key + ":id%d" % k, i == k, wh, "walker %s at %d" % (i, k))
            check(R, key + ":owner%d" % k, sum(arr is q[3] for q in ws) == 1, wh, "two walkers share their order")
            orders.add(tuple(p))
        check(R, key + ":number", len(ws) == 5, wh, "%d walkers" % len(ws))
    check(R, "startorder:varies", len(orders) > 15, wh, "the walkers start at the same order")


# ------------------------------------------------------------------ structure
def structure(R, place_, append):
    wh = zoo.where(setup(), "StructureEngine", "execute")
    key0 = "structure:%s:%s" % (place_, "append" if append else "replace")
    done, which = 0, set()
    for si, sc in enumerate(["a", "ra", "rra", "e", "r", "n", "rar", "ar"] + ["a"] * 6):
        scale, dist = [(False, None), (True, None), (False, "poisson")][si % 3]
        key = key0 + ":%d:%s" % (si, sc)
        I = setup()
        live.attach(I, salt=si)
        nh = 0 if dist == "poisson" else 1

        def run():
            ns, pre, post, lim = dynamic(I, "struct", "spline", place_, scale, dist)
            np_ = int(I.getattr_(I.getattr_(ns, "model"), "npars"))
            lo, hi = limits_of("spline", np_, pre, post, lim, nh)
            prepare(I, ns, lo, hi, 4, 7 + si)
            W = World(I, ns, 9.25, sc)
            before = W.snap()
            e = I.getattr_(ns, "engines").items[0]
            kw = si % 4
            ret = I.call(I.getattr_(e, "execute"), [kw, 9.25], {"append": append, "iteration": 3})
            return W, before, kw, ret
        out = get(R, key, wh, run)
        R.functions |= I.visited
        if out is None:
            continue
        W, before, kw, ret = out
        new = outcome(R, key, W, before, [], kw, ret, append, "struct", wh, dyn=True)
        bad = lambda nm, ok, msg: check(R, key + ":" + nm, bool(ok), wh, msg)
        k0 = [s[2] for s in before[kw]["sig"] if s[2]][0]
        bad("tried", len(W.evals) == len(k0) - 2, "%d proposals while %d knots can be moved" % (len(W.evals), len(k0) - 2))
        for e in W.evals:
            kk = [s[2] for s in e["sig"] if s[2]][0]
            bad("knots", len(kk) == len(k0) and list(kk) == sorted(set(kk)) and kk[0] == k0[0] and kk[-1] == k0[-1], "the knots %s become %s" % (k0, kk))
            bad("parameters", e["par"] == before[kw]["par"], "the parameters are changed")
            which |= set(j for j in range(len(k0)) if len(kk) == len(k0) and kk[j] != k0[j])
        for w in new:
            done += 1
            bad("changed", w["sig"] != before[kw]["sig"] and [s[:2] for s in w["sig"]] == [s[:2] for s in before[kw]["sig"]], "the structure of the model is not the proposed one")
            bad("index", w["fi"] == before[kw]["fi"], "the list of fitted parameters is changed")
    check(R, key0 + ":happens", done > 0, wh, "the knots never change")
    check(R, key0 + ":all", which == {1, 2, 3}, wh, "the knots that move are %s" % sorted(which))


# ------------------------------------------------------------------ start
def begin(R, key, I, ns, sc, wh, checker):
    """initialise the walkers in a landscape"""
    ev = []

    def logl(I_, args, kw):
        a = list(args) + [None, None]
        k = len(ev)
        c = sc[k % len(sc)]
        L = {"a": 3.0 + 0.25 * k, "n": math.nan, "i": -math.inf}[c]
        problem = a[0] if a[0] is not None else kw.get("problem")
        ev.append(dict(par=num(I, a[1] if a[1] is not None else kw.get("allpars")), sig=signature(I, problem), L=L, ok=c == "a"))
        return L
    I.raw_setattr(I.getattr_(ns, "distribution"), "logLikelihood", Native("logLikelihood", logl))
    I.call(I.getattr_(ns, "initSample"), [])
    out = []
    for w in I.getattr_(ns, "walkers").items.items:
        pr = I.getattr_(w, "problem")
        out.append(dict(par=num(I, I.getattr_(w, "allpars")), arr=I.getattr_(w, "allpars"), fi=[int(x) for x in num(I, I.getattr_(w, "fitIndex"))], L=float(I.getattr_(w, "logL")), id=I.getattr_(w, "id"),
                        sig=signature(I, pr), mpar=num(I, I.getattr_(I.getattr_(pr, "model"), "parameters")), npars=int(I.getattr_(I.getattr_(pr, "model"), "npars")), model=I.getattr_(pr, "model")))
    ok = [e for e in ev if e["ok"]]
    check(R, key + ":number", len(out) == 4 and len(ok) == 4, wh, "%d walkers after %d proper proposals" % (len(out), len(ok)))
    seen = []
    for k, w in enumerate(out):
        kk = key + ":%d" % k
        check(R, kk + ":evaluated", any(e["par"] == w["par"] and e["L"] == w["L"] and e["sig"] == w["sig"] for e in ok), wh, "the likelihood of the walker is not that of its parameters")
        check(R, kk + ":id", w["id"] == k, wh, "walker %s is at %d" % (w["id"], k))
        check(R, kk + ":owner", sum(w["arr"].a is q["arr"].a for q in out) == 1, wh, "two walkers share their parameters")
        checker(kk, w)
        for j in w["fi"]:
            check(R, kk + ":new%d" % j, all(len(s["par"]) != len(w["par"]) or s["par"][j] != w["par"][j] for s in seen), wh, "two walkers start at the same value of parameter %d" % j)
        seen.append(w)


STARTS = ["a", "na", "ia", "nnia", "aan"]


def start(R, ci):
    wh = zoo.where(setup(), "StartEngine", "execute")
    keep, scale, dist = CONFIGS[ci]
    nh = 0 if dist == "poisson" else 1
    for si, sc in enumerate(STARTS * 2):
        key = "start:%d:%d:%s" % (ci, si, sc)
        I = setup()
        live.attach(I, salt=si)

        def run():
            ns, lo, hi = static(I, "gibbs", CONFIGS[ci])
            fixed = dict((k % (3 + nh), v) for k, v in (keep or {}).items())
            if not scale and nh:
                fixed[3] = num(I, I.getattr_(I.getattr_(ns, "distribution"), "scale"))

            def checker(kk, w):
                check(R, kk + ":kept", len(w["par"]) == 3 + nh and all(w["par"][k] == v for k, v in fixed.items()), wh, "the kept parameters %s have the values %s" % (fixed, w["par"]))
                check(R, kk + ":index", sorted(k % (3 + nh) for k in w["fi"]) == [k for k in range(3 + nh) if k not in fixed], wh, "the parameters that are fitted are %s while %s are kept" % (w["fi"], sorted(fixed)))
                check(R, kk + ":limits", all(l - 1e-9 * abs(l) <= p <= h + 1e-9 * abs(h) for k, (l, p, h) in enumerate(zip(lo, w["par"], hi)) if k not in fixed), wh, "a walker starts outside the limits: %s" % w["par"])
            begin(R, key, I, ns, sc, wh, checker)
            return True
        get(R, key, wh, run)
        R.functions |= I.visited
    # a landscape without any solution
    key = "start:%d:hopeless" % ci
    I = setup()
    live.attach(I, salt=3)
    try:
        ns, lo, hi = static(I, "gibbs", CONFIGS[ci])
        begin(R, key, I, ns, "n", wh, lambda *a: None)
        R.fail(key, "walkers are accepted without a proper likelihood", wh)
    except AbsRaise as e:
        check(R, key, e.name == "RuntimeError", wh, "raises %s" % e.name)
    except Unsupported as e:
        R.undecided(key, e)


def startdyn(R, name, place_):
    wh = zoo.where(setup(), "StartEngine", "execute")
    sizes = set()
    for si, sc in enumerate(STARTS + ["a"] * 3):
        scale, dist = [(False, None), (True, None), (False, "poisson")][si % 3]
        nh = 0 if dist == "poisson" else 1
        key = "start:%s:%s:%d:%s" % (name, place_, si, sc)
        I = setup()
        live.attach(I, salt=si)

        def run():
            ns, pre, post, lim = dynamic(I, "gibbs", name, place_, scale, dist)
            n0 = int(I.getattr_(I.getattr_(ns, "model"), "npars"))
            sg0 = signature(I, I.getattr_(ns, "problem"))
            val = num(I, I.getattr_(I.getattr_(ns, "distribution"), "scale")) if nh and not scale else None

            def checker(kk, w):
                n1 = len(w["par"]) - nh
                sizes.add(n1)
                lo, hi = limits_of(name, n1, pre, post, lim, nh)
                check(R, kk + ":model", w["npars"] == n1 and len(w["mpar"]) == n1 and sum(s[1] for s in w["sig"]) == n1 and n1 >= n0, wh, "the model has %d parameters, the walker %d" % (w["npars"], n1))
                check(R, kk + ":index", w["fi"] == list(range(n1)) + ([-1] if scale else []), wh, "the list of fitted parameters is %s" % w["fi"])
                nf = n1 + (1 if scale else 0)
                check(R, kk + ":limits", all(l - 1e-9 * abs(l) <= p <= h + 1e-9 * abs(h) for l, p, h in list(zip(lo, w["par"], hi))[:nf]), wh, "a walker starts outside the limits: %s" % w["par"])
                if val is not None:
                    check(R, kk + ":kept", w["par"][-1] == val, wh, "the fixed scale %s becomes %s" % (val, w["par"][-1]))
                mx = {"poly": 4, "harm": 8 + 1, "repeat": 12, "repeat1": 12, "repeat3": 12, "same": 9, "spline": 8}.get(name)
                if mx:
                    check(R, kk + ":maximum", n1 - pre - post <= mx, wh, "the model has grown over its maximum to %d parameters" % (n1 - pre - post))
            begin(R, key, I, ns, sc, wh, checker)
            check(R, key + ":original", signature(I, I.getattr_(ns, "problem")) == sg0, wh, "the problem of the sampler itself is changed")
            return True
        get(R, key, wh, run)
        R.functions |= I.visited
    if name == "repeat1":
        check(R, "start:%s:%s:grows" % (name, place_), len(sizes) > 1, wh, "the dynamic model never grows")


# ------------------------------------------------------------------ box of RandomEngine
def box(R, ci):
    """the box in which RandomEngine looks holds all walkers above the limit, and shrinks with them"""
    wh = zoo.where(setup(), "RandomEngine", "execute")
    keep, scale, dist = CONFIGS[ci]
    for si, low in enumerate((6.0, 8.25, 9.5)):
        ends = []
        key = "box:%d:%d" % (ci, si)
        data = None
        for end in (0.0, 1.0):
            I = setup()
            live.attach(I, salt=si)
            inner = I.live

            def draw(I_, r, name, args, kw, node, inner=inner, end=end):
                if name == "uniform":
                    a = list(args) + [None] * 3
                    lo_, hi_ = (a[0] if a[0] is not None else kw.get("low", 0.0)), (a[1] if a[1] is not None else kw.get("high", 1.0))
                    return hi_ if end else lo_
                if name in ("rand", "random", "random_sample"):
                    v = inner(I_, r, name, args, kw, node)
                    if isinstance(v, Arr):
                        v.a[...] = end
                        return v
                    return end
                return inner(I_, r, name, args, kw, node)

            def run():
                ns, lo, hi = static(I, "random", CONFIGS[ci], n=20)
                prepare(I, ns, lo, hi, 20, 7 + si)
                ph = I.getattr_(ns, "phantoms")
                ws = I.getattr_(ns, "walkers").items.items
                r = np.random.RandomState(si)
                out = []
                for j in range(14):
                    w = I.call(I.getattr_(ws[j % 4], "copy"), [])
                    old = num(I, I.getattr_(w, "allpars"))
                    for q in [int(x) for x in num(I, I.getattr_(w, "fitIndex"))]:
                        l, h = lo[q], hi[q]
                        c = l + (h - l) * (0.3 + 0.05 * (q % 4))
                        old[q] = float(c + (h - l) * r.uniform(-0.04, 0.04))
                    L = float(7 + 0.5 * ((j * 5) % 14))
                    place(I, w, dict(logL=L, par=old))
                    I.call(I.getattr_(ph, "storeItems"), [w])
                    out.append((L, old))
                W = World(I, ns, low, "r")
                e = I.getattr_(ns, "engines").items[0]
                fi = W.snap()[0]["fi"]
                I.live = draw
                I.call(I.getattr_(e, "execute"), [1, low], {"append": False, "iteration": 3})
                return W, fi, out, lo, hi
            res = get(R, key + ":%g" % end, wh, run)
            R.functions |= I.visited
            if res is None:
                return
            W, fi, out, lo, hi = res
            check(R, key + ":tried%g" % end, len(W.evals) > 0, wh, "no proposal is made")
            if not W.evals:
                return
            ends.append(W.evals[0]["par"])
        for k in fi:
            q = k % len(ends[0])
            a, b = ends[0][q], ends[1][q]
            act = [p[q] for L, p in out if L >= low]
            eps = 1e-7 * (hi[q] - lo[q])
            check(R, key + ":holds%d" % q, a <= min(act) + eps and b >= max(act) - eps, wh, "the box of parameter %d, [%g,%g], does not hold all phantoms, [%g,%g]" % (q, a, b, min(act), max(act)))
            check(R, key + ":inside%d" % q, lo[q] - eps <= a and b <= hi[q] + eps, wh, "the box of parameter %d, [%g,%g], is larger than its domain [%g,%g]" % (q, a, b, lo[q], hi[q]))
            if q < 3:
                check(R, key + ":shrinks%d" % q, b - a < 0.3 * (hi[q] - lo[q]), wh, "the box of parameter %d, [%g,%g], does not shrink to the phantoms [%g,%g]" % (q, a, b, min(act), max(act)))


# ------------------------------------------------------------------ explorer
def explore(R, cls, case):
    """which engines the explorer calls, how often, with what"""
    wh = zoo.where(setup(), "Explorer", "exploreWalker")
    names = ["galilean", "chord", "gibbs", "step"]
    for si, moves in enumerate([[0], [9], [1], [0, 0, 2], [4], [2, 1]]):
        for it in (0, 1, 2, 3, 6):
            key = "explore:%s:%d:%d:%d" % (cls, case, si, it)
            I = setup()
            live.attach(I, salt=si)
            calls = []
            low = 9.25

            def run():
                m = I.instantiate(I.cls("PolynomialModel"), [2], {})
                I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList([-4.0]), "highLimits": AList([5.0])})
                kw = {"xdata": vec([1., 2., 3., 4.]), "model": m, "ydata": vec([0.2, 1.4, 2.2, 2.9]), "ensemble": 6, "verbose": 0, "engines": AList(names)}
                if case == 2:
                    kw["rate"] = 2.0
                ns = I.instantiate(I.cls(cls), [], kw)
                prepare(I, ns, [-4.0] * 3 + [0.1], [5.0] * 3 + [30.0], 6)
                W = World(I, ns, low, "a")
                I.raw_setattr(I.getattr_(ns, "distribution"), "logLikelihood", Native("logLikelihood", lambda I_, a, k: 10.0 + 2))
                engines = I.getattr_(ns, "engines").items
                for j, e in enumerate(engines):
                    if case == 1 and j in (1, 3):
                        I.raw_setattr(e, "slow", j + 1)

                    def ex(I_, a, k, j=j):
                        a = list(a)
                        calls.append(dict(e=j, kw=a[0] if a else k["kw"], low=a[1] if len(a) > 1 else k["lowLhood"], append=a[2] if len(a) > 2 else k.get("append"), it=a[3] if len(a) > 3 else k.get("iteration")))
                        return moves[(len(calls) - 1) % len(moves)]
                    I.raw_setattr(e, "execute", Native("execute", ex))
                exp = I.instantiate(I.cls("Explorer"), [ns], {})
                if case == 3:
                    I.raw_setattr(exp, "maxtrials", 2)
                before = W.snap()
                # walker 2 has the logL that is calculated
                I.call(I.getattr_(exp, "explore"), [AList([2]), low, it])
                return W, before, I.getattr_(exp, "maxtrials"), I.getattr_(I.getattr_(ns, "distribution"), "lowLhood") if case == 0 else low
            out = get(R, key, wh, run)
            R.functions |= I.visited
            if out is None:
                continue
            W, before, maxtrials, lw = out
            rate = 2.0 if case == 2 else 1.0
            sel = [j for j in range(4) if not (case == 1 and j in (1, 3) and it % (j + 1))]
            bad = lambda nm, ok, msg: check(R, key + ":" + nm, bool(ok), wh, msg)
            bad("arguments", all(c["kw"] == 2 and c["low"] == low and c["it"] == it and bool(c["append"]) == (cls == PS) for c in calls), "an engine is called with %s" % [c for c in calls if c][:2])
            rounds = [[c["e"] for c in calls[k:k + len(sel)]] for k in range(0, len(calls), len(sel))]
            bad("rounds", rounds and all(sorted(r) == sel for r in rounds), "the engines that are called are %s while %s are selected" % (rounds[:3], sel))
            tot, need = 0, 0
            while need == 0 or (tot < 4 / rate and need < maxtrials / rate):
                tot += sum(moves[(need * len(sel) + q) % len(moves)] for q in range(len(sel)))
                need += 1
            bad("number", len(rounds) == need, "%d rounds in stead of %d" % (len(rounds), need))
            bad("walkers", [same(a, b) for a, b in zip(before, W.snap())] == [True] * 6, "the explorer changes a walker by itself")
            bad("low", lw == low, "the error distribution does not know the limit")


def orderexplore(R):
    wh = zoo.where(setup(), "Explorer", "logLcheck")
    # no moves on an order problem
    for eng in ORDER:
        key = "explore:order:%s" % eng
        I = setup()
        live.attach(I, salt=1)

        def run():
            ns = salesman(I, 6, [eng], 4)
            I.call(I.getattr_(ns, "initSample"), [])
            low = max(float(I.getattr_(w, "logL")) for w in I.getattr_(ns, "walkers").items.items)
            ws = I.getattr_(ns, "walkers").items.items
            k = [j for j, w in enumerate(ws) if float(I.getattr_(w, "logL")) == low][0]
            e = I.getattr_(ns, "engines").items[0]
            I.raw_setattr(e, "execute", Native("execute", lambda I_, a, q: 0))
            exp = I.instantiate(I.cls("Explorer"), [ns], {})
            I.call(I.getattr_(exp, "explore"), [AList([k]), low, 1])
            return True
        ok = get(R, key, wh, run)
        R.functions |= I.visited
        check(R, key, ok is True, wh, "not done") if ok is not None else None
    # the sanity check
    for kind in ("static", "errors"):
        for wrong in (False, "logL", "limit", "length"):
            key = "explore:sanity:%s:%s" % (kind, wrong)
            I = setup()
            live.attach(I, salt=1)
            try:
                m = I.instantiate(I.cls("PolynomialModel"), [1], {})
                I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList([-4.0]), "highLimits": AList([5.0])})
                kw = {"ensemble": 4, "verbose": 0, "engines": AList(["gibbs"])}
                if kind == "errors":
                    p = I.instantiate(I.cls("ErrorsInXandYProblem"), [m, vec([1., 2., 3.]), vec([0.2, 1.4, 2.2])], {})
                    I.setattr_(p, "prior", I.instantiate(I.cls("UniformPrior"), [], {"limits": AList([-1.0, 1.0])}))
                    kw["problem"] = p
                else:
                    kw.update({"xdata": vec([1., 2., 3.]), "model": m, "ydata": vec([0.2, 1.4, 2.2])})
                ns = I.instantiate(I.cls(NS), [], kw)
                I.call(I.getattr_(ns, "initSample"), [])
                w = I.getattr_(ns, "walkers").items.items[1]
                e = I.getattr_(ns, "engines").items[0]
                I.raw_setattr(e, "execute", Native("execute", lambda I_, a, q: 0))
                L = float(I.getattr_(w, "logL"))
                par = num(I, I.getattr_(w, "allpars"))
                if wrong == "logL":
                    I.raw_setattr(w, "logL", L + 1.0)
                elif wrong == "limit":
                    par[0] = 7.5
                    I.raw_setattr(w, "allpars", vec(par))
                    I.raw_setattr(w, "logL", I.call(I.getattr_(I.getattr_(ns, "distribution"), "logLikelihood"), [I.getattr_(w, "problem"), vec(par)]))
                elif wrong == "length":
                    I.raw_setattr(w, "allpars", vec(par + [1.0]))
                exp = I.instantiate(I.cls("Explorer"), [ns], {})
                I.raw_setattr(exp, "verbose", 0)
                I.call(I.getattr_(exp, "explore"), [AList([1]), -1e300, 1])
                check(R, key, not wrong, wh, "a walker with a wrong %s passes" % wrong)
            except AbsRaise as e:
                check(R, key, bool(wrong), wh, "raises %s (%s)" % (e.name, e.value))
            except Unsupported as e:
                R.undecided(key, e)
            R.functions |= I.visited


# ------------------------------------------------------------------ what is fitted
def fitlist(R):
    """the parameters that are fitted, and the values of the others"""
    wh = zoo.where(setup(), NS, "makeFitlist")
    dists = [(None, 1), ("gauss", 1), ("laplace", 1), ("poisson", 0), ("cauchy", 1), ("uniform", 1), ("exponential", 2)]
    for dist, nh in dists:
        np_ = 3 + nh
        for limits in (False, True) if nh else (False,):
            for route in ("sample", "init", "both"):
                keeps = [None, {0: 0.5}, {2: 0.25}, {0: 0.5, 1: -0.5, 2: 0.75}]
                if nh:
                    keeps += [{3: 2.5}, {-1: 2.25}, {1: 0.5, -1: 2.0}, {-nh: 1.75}]
                if nh == 2:
                    keeps += [{3: 2.5, -1: 1.5}, {4: 1.5}]
                for keep in keeps:
                    key = "fitlist:%s:%s:%s:%s" % (dist, limits, route, keep)
                    I = setup()
                    live.attach(I, salt=1)

                    def run():
                        m = I.instantiate(I.cls("PolynomialModel"), [2], {})
                        I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList([-4.0]), "highLimits": AList([5.0])})
                        kw = {"xdata": vec([1., 2., 3., 4.]), "model": m, "ydata": vec([1, 1, 2, 2] if dist == "poisson" else [0.2, 1.4, 2.2, 2.9]), "ensemble": 4, "verbose": 0, "engines": AList(["gibbs"])}
                        if dist is not None:
                            kw["distribution"] = dist
                        if limits:
                            kw["limits"] = AList([0.1, 30.0]) if nh == 1 else AList([AList([0.1, 0.5]), AList([30.0, 8.0])])
                        if route == "init" and keep is not None:
                            kw["keep"] = ADict(keep)
                        if route == "both":
                            kw["keep"] = ADict({1: 1.125, 2: 3.5})
                        ns = I.instantiate(I.cls(NS), [], kw)
                        I.hooks["StartEngine.execute"] = lambda I_, f, a, k, node: 1
                        hyp = num(I, I.getattr_(I.getattr_(ns, "distribution"), "hypar")) if nh else []
                        if route == "init":
                            I.call(I.getattr_(ns, "initSample"), [])
                        else:
                            I.call(I.getattr_(ns, "initSample"), [], {"keep": None if keep is None else ADict(keep)})
                        w = I.getattr_(ns, "walkers").items.items[2]
                        return [int(x) for x in num(I, I.getattr_(w, "fitIndex"))], num(I, I.getattr_(w, "allpars")), hyp
                    out = get(R, key, wh, run)
                    R.functions |= I.visited
                    if out is None:
                        continue
                    fi, par, hyp = out
                    kept = dict((k % np_, v) for k, v in (keep or ({1: 1.125, 2: 3.5} if route == "both" else {})).items())
                    for j in range(nh):
                        if not limits and 3 + j not in kept:
                            kept[3 + j] = hyp[j]
                    check(R, key + ":index", len(par) == np_ and sorted(k % np_ for k in fi) == [k for k in range(np_) if k not in kept], wh, "fitted are %s while %s are kept" % (fi, sorted(kept)))
                    check(R, key + ":value", len(par) == np_ and all(par[k] == v for k, v in kept.items()), wh, "the kept parameters %s get %s" % (kept, par))


def fitnoise(R):
    """noise parameters that the user fixes at a value are not fitted"""
    wh = zoo.where(setup(), NS, "makeFitlist")
    for cls, nh in (("GaussErrorDistribution", 1), ("LaplaceErrorDistribution", 1), ("CauchyErrorDistribution", 1), ("UniformErrorDistribution", 1), ("ExponentialErrorDistribution", 2)):
        for limits in (False, True):
            for script in ([{0: 2.5}], [{0: 2.5}, None], [{nh - 1: 1.25}], [{0: 2.5}, {nh - 1: 1.5}], [{0: 2.5, nh - 1: 3.5}], [None], [{}]):
                for copy in (False, True):
                    key = "fitnoise:%s:%s:%s:%s" % (cls, limits, script, copy)
                    I = setup()
                    live.attach(I, salt=1)

                    def run():
                        ed = I.instantiate(I.cls(cls), [], {} if not limits else {"limits": AList([0.1, 30.0]) if nh == 1 else AList([AList([0.1, 0.5]), AList([30.0, 8.0])])})
                        org = num(I, I.getattr_(ed, "hypar"))
                        for q in script:
                            I.call(I.getattr_(ed, "keepFixed"), [], {"fixed": None if q is None else ADict(q)})
                        if copy:
                            ed = I.call(I.getattr_(ed, "copy"), [])
                        m = I.instantiate(I.cls("PolynomialModel"), [1], {})
                        I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList([-4.0]), "highLimits": AList([5.0])})
                        kw = {"xdata": vec([1., 2., 3., 4.]), "model": m, "ydata": vec([0.2, 1.4, 2.2, 2.9]), "ensemble": 4, "verbose": 0, "engines": AList(["gibbs"]), "distribution": ed}
                        ns = I.instantiate(I.cls(NS), [], kw)
                        I.hooks["StartEngine.execute"] = lambda I_, f, a, k, node: 1
                        I.call(I.getattr_(ns, "initSample"), [])
                        w = I.getattr_(ns, "walkers").items.items[2]
                        return [int(x) for x in num(I, I.getattr_(w, "fitIndex"))], num(I, I.getattr_(w, "allpars")), org
                    out = get(R, key, wh, run)
                    R.functions |= I.visited
                    if out is None:
                        continue
                    fi, par, val = out
                    for q in script:
                        for k, v in (q or {}).items():
                            val[k] = v
                    last = script[-1] or {}
                    free = [j for j in range(nh) if limits and j not in last]
                    np_ = 2 + nh
                    check(R, key + ":index", len(par) == np_ and sorted(k % np_ for k in fi) == [0, 1] + [2 + j for j in free], wh, "fitted are %s while %s of the noise is fixed" % (fi, sorted(last)))
                    check(R, key + ":value", len(par) == np_ and all(par[2 + j] == val[j] for j in range(nh) if j not in free), wh, "the noise parameters are fixed at %s, not at %s" % (par[2:], val))


def basis(R):
    """the directions of the chords: a new one is orthogonal to the earlier ones, until the space is full"""
    from ..expr import E, sqrt
    wh = zoo.where(setup(), "OrthonormalBasis", "normalise")
    for nd in (1, 2, 3):
        for script in ("f" * (2 * nd + 1), "r" + "f" * nd, "r" * 3, "ff"[:nd] + "r" + "f" * (nd - 1), "rfr" + "f" * nd):
            key = "basis:%d:%s" % (nd, script)
            I = setup()
            onb = get(R, key, wh, lambda: I.instantiate(I.cls("OrthonormalBasis"), [], {}))
            if onb is None:
                continue
            ref = []
            for n, c in enumerate(script):
                if c == "r" or len(ref) == nd:
                    ref = []
                v = [E(T.sym("v%d_%d" % (n, k))) for k in range(nd)]
                got = get(R, "%s:%d" % (key, n), wh, lambda: I.call(I.getattr_(onb, "normalise"), [vec([q.t for q in v])], {"reset": True} if c == "r" else {}))
                if got is None:
                    break
                w = list(v)
                for u in ref:
                    d = sum((a * b for a, b in zip(u, v)), E(0))
                    w = [a - d * b for a, b in zip(w, u)]
                norm = sqrt(sum((a * a for a in w), E(0)))
                ref.append([a / norm for a in w])
                if not isinstance(got, Arr) or got.a.shape != (nd,):
                    R.fail("%s:%d" % (key, n), "the direction is %r" % (got,), wh)
                    break
                for k in range(nd):
                    R.decide("%s:%d:%d" % (key, n, k), T.equal(got.a[k], ref[-1][k].t, seed=key), "the direction is not the unit vector orthogonal to the earlier ones", wh)
            R.functions |= I.visited
