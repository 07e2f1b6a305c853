"""C08 priors: unit/domain maps are inverse, density is their derivative, limits and circularity honoured"""
import math
import numpy as np
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup, crash

S = T.sym
FINITE = True


def lims(kind, pos):
    """(limits argument, low, high); low/high None when absent"""
    lo = E(S("lo", "pospar" if pos else "param"))
    hi = lo + E(S("width", "pospar"))
    return {"none": (None, None, None), "both": (AList([lo.t, hi.t]), lo, hi), "low": (AList([lo.t, None]), lo, None),
            "high": (AList([None, hi.t]), None, hi)}[kind]


# class -> (has center, has scale, positive domain, circular possible, needs limits)
PRIORS = {
    "UniformPrior": (False, False, False, True, True),
    "JeffreysPrior": (False, False, True, False, True),
    "GaussPrior": (True, True, False, True, False),
    "LaplacePrior": (True, True, False, True, False),
    "CauchyPrior": (True, True, False, True, False),
}


def density(name, x, c, s):
    """documented density, up to normalisation on the limits"""
    if name in ("UniformPrior", "CircularUniformPrior"):
        return E(1)
    if name == "JeffreysPrior":
        return 1 / x
    if name == "GaussPrior":
        return exp(-0.5 * ((x - c) / s) ** 2) / (s * math.sqrt(2 * math.pi))
    if name in ("LaplacePrior",):
        return exp(-fabs(x - c) / s) / (2 * s)
    if name == "ExponentialPrior":
        return exp(-x / s) / s
    if name == "CauchyPrior":
        return s / (E(math.pi) * (s * s + (x - c) ** 2))
    raise KeyError(name)


def cdf(name, x, c, s):
    """an indefinite integral of the density"""
    if name in ("UniformPrior", "CircularUniformPrior"):
        return x
    if name == "JeffreysPrior":
        return log(x)
    if name == "GaussPrior":
        return 0.5 * erf((x - c) / (s * math.sqrt(2.0)))
    if name == "LaplacePrior":
        d = (x - c) / s
        return where(d < 0, 0.5 * exp(d), 1 - 0.5 * exp(-d))
    if name == "ExponentialPrior":
        return 1 - exp(-x / s)
    if name == "CauchyPrior":
        return atan((x - c) / s) / math.pi
    raise KeyError(name)


ENDS = {"GaussPrior": (-0.5, 0.5), "LaplacePrior": (0.0, 1.0), "CauchyPrior": (-0.5, 0.5), "ExponentialPrior": (0.0, 1.0)}


class Case(object):
    pass


def make(I, name, kind, route, circ=None):
    """a prior built along a route; circ: None, 'limits', 'period'"""
    c = Case()
    hasc, hass, pos = PRIORS.get(name, (False, name == "ExponentialPrior", name == "ExponentialPrior"))[:3]
    c.cen = E(S("cen")) if hasc else E(0)
    c.scl = E(S("scl", "pospar")) if hass else E(1)
    kw = {}
    if hasc:
        kw["center"] = c.cen.t
    if hass:
        kw["scale"] = c.scl.t
    cls = I.cls(name)
    if name == "ExponentialPrior":
        c.lo = E(0)
        c.hi = None
        if kind == "high":
            c.hi = E(S("width", "pospar"))
            kw["hilimit"] = c.hi.t
        c.p = I.instantiate(cls, [], kw)
    elif circ == "period":
        per = E(S("width", "pospar"))
        kw["circular"] = per.t
        if hasc:
            c.lo, c.hi = c.cen - per / 2, c.cen + per / 2
        else:
            c.lo, c.hi = E(0), per
        c.p = I.instantiate(cls, [], kw)
    elif circ == "limits":
        arg, c.lo, c.hi = lims("both", pos)
        kw["circular"] = True
        if hasc:            # symmetric around the center
            w = c.hi - c.lo
            c.cen = (c.lo + c.hi) / 2
            kw["center"] = c.cen.t
        kw["limits"] = arg
        if name == "CircularUniformPrior":
            del kw["circular"]
        if route == "reset":
            lo = E(S("lo1"))
            kw["limits"] = AList([lo.t, (lo + E(S("w1", "pospar"))).t])
        c.p = I.instantiate(cls, [], kw)
        if route == "reset":
            I.call(I.getattr_(c.p, "setLimits"), [], {"limits": arg})
    else:
        arg, c.lo, c.hi = lims(kind, pos)
        if route == "set":
            c.p = I.instantiate(cls, [], kw)
            I.call(I.getattr_(c.p, "setLimits"), [], {"limits": arg})
        elif route == "attr":
            c.p = I.instantiate(cls, [], kw)
            I.call(I.getattr_(c.p, "setAttributes"), [], {"limits": arg})
        elif route == "scale":          # only the scale is changed, with limits in place
            kw["limits"] = arg
            c.p = I.instantiate(cls, [], kw)
            c.scl = E(S("scl2", "pospar"))
            I.call(I.getattr_(c.p, "setAttributes"), [], {"scale": c.scl.t})
        elif route == "attrs":
            c.p = I.instantiate(cls, [], kw)
            c.scl = E(S("scl2", "pospar"))
            I.call(I.getattr_(c.p, "setAttributes"), [], {"limits": arg, "scale": c.scl.t})
        elif route == "unset":
            kw["limits"] = arg
            c.p = I.instantiate(cls, [], kw)
            I.call(I.getattr_(c.p, "unsetLimits"), [])
            c.lo = c.hi = None
        elif route == "reset":
            lo = E(S("lo1", "pospar" if pos else "param"))
            kw["limits"] = AList([lo.t, (lo + E(S("w1", "pospar"))).t])
            c.p = I.instantiate(cls, [], kw)
            I.call(I.getattr_(c.p, "setLimits"), [], {"limits": arg})
        else:
            if arg is not None:
                kw["limits"] = arg
            c.p = I.instantiate(cls, [], kw)
    if route == "copy":
        c.p = I.call(I.getattr_(c.p, "copy"), [])
    # a point inside the limits, as a function of t
    c.t = S("t", "unit")
    t = E(c.t)
    if c.lo is not None and c.hi is not None:
        c.x = c.lo + t * (c.hi - c.lo)
        c.out = [c.hi + E(S("beyond", "pospar"))]
        if not pos:
            c.out.append(c.lo - E(S("beyond", "pospar")))
    elif c.lo is not None:
        c.x = c.lo + 3 * t
        c.out = [] if name == "ExponentialPrior" else [c.lo - E(S("beyond", "pospar"))]
    elif c.hi is not None:
        c.x = c.hi - 3 * t
        c.out = [c.hi + E(S("beyond", "pospar"))]
    else:
        c.x = E(S("off")) + 4 * t
        c.out = []
    return c


def cases():
    for name in PRIORS:
        hasc, hass, pos, circ, need = PRIORS[name]
        for kind in (("both",) if need else ("none", "both", "low", "high")):
            for route in ("init", "copy", "set", "reset", "attr"):
                if kind == "none" and route != "init" and route != "copy":
                    continue
                yield name, kind, route, None
        if not need:
            for kind in ("both", "low", "high"):
                for route in ("unset", "scale", "attrs"):
                    yield name, kind, route, None
        if circ:
            for route in ("init", "copy", "reset"):
                yield name, "both", route, "limits"
                if route != "reset":
                    yield name, "both", route, "period"
    for route in ("init", "copy"):
        yield "ExponentialPrior", "none", route, None
        yield "ExponentialPrior", "high", route, None
        yield "CircularUniformPrior", "both", route, "limits"
        yield "CircularUniformPrior", "both", route, "period"


def call(I, p, meth, arg):
    v = I.call(I.getattr_(p, meth), [arg])
    if isinstance(v, Arr) and v.a.size == 1:
        v = v.a.flat[0]
    return v


def hasc(name):
    return name in PRIORS and PRIORS[name][0]


def run_priors(R):
    for name, kind, route, circ in cases():
        I = setup()
        key = "prior:%s:%s:%s%s" % (name, kind, route, ":" + circ if circ else "")
        wh = lambda meth: zoo.where(I, I.cls(name), meth)
        try:
            c = make(I, name, kind, route, circ)
        except AbsRaise as e:
            if crash(e):
                R.fail(key + ":raises", "constructing the prior raises %s (%s)" % (e.name, e.value), wh("__init__"))
            else:
                R.undecided(key, "raises %s %s" % (e, e.value))
            continue
        except Unsupported as e:
            R.undecided(key, e)
            continue
        x, t = c.x, E(c.t)
        lo, hi = ENDS.get(name, (None, None))
        F = lambda q: cdf(name, q, c.cen, c.scl)
        flo = F(c.lo) if c.lo is not None else E(lo)
        fhi = F(c.hi) if c.hi is not None else E(hi)
        norm = fhi - flo
        span = 3 if circ else 1
        want_u = (F(x) - flo) / norm
        if circ:
            want_u = (want_u + 1) / 3
        near = (x - c.cen) / c.scl < 5 if hasc(name) else None
        if near is not None:
            near = T.land(near.t, ((x - c.cen) / c.scl > -5).t)
        want_d = density(name, x, c.cen, c.scl) / norm

        def one(sub, meth, arg, want, msg, assume=None):
            kk = key + ":" + sub
            try:
                got = call(I, c.p, meth, arg)
            except AbsRaise as e:
                if crash(e):
                    R.fail(kk + ":raises", "%s raises %s (%s)" % (meth, e.name, e.value), wh(meth))
                else:
                    R.undecided(kk, "raises %s %s" % (e, e.value))
                return None
            except Unsupported as e:
                R.undecided(kk, e)
                return None
            R.functions |= I.visited
            if isinstance(got, Top) or isinstance(got, (Arr, AList)):
                R.undecided(kk, "%r %s" % (got, I.notes[-2:]))
                return None
            if want is not None:
                R.decide(kk, T.equal(got, want.t, seed=kk, assume=assume, inf=True), msg, wh(meth))
            return got

        u = one("domain2Unit", "domain2Unit", x.t, want_u, "domain2Unit is not the cumulative distribution of the documented density on its limits")
        # the inverse
        if u is not None:
            one("inverse", "unit2Domain", u, x, "unit2Domain( domain2Unit( x ) ) != x", near)
        un = S("u", "unit")
        if circ:
            un = ((E(un) + 1) / 3).t
        try:
            d = call(I, c.p, "unit2Domain", un)
            if isinstance(d, Term):
                one("inverse2", "domain2Unit", d, E(un), "domain2Unit( unit2Domain( u ) ) != u")
                if circ:
                    for k in (-1, 1):
                        one("period%d" % k, "unit2Domain", (E(un) + k / E(3)).t, E(d), "unit2Domain is not periodic")
        except (AbsRaise, Unsupported) as e:
            R.undecided(key + ":inverse2", "%s" % e)
        one("density", "result", x.t, want_d, "result is not the normalised density")
        for i, o in enumerate(c.out):
            one("outside%d" % i, "result", o.t, E(0), "the density is not 0 outside the limits")
            one("outside-test%d" % i, "isOutOfLimits", o.t, E(True), "isOutOfLimits of a value beyond the limit")
        one("inside-test", "isOutOfLimits", x.t, E(False), "isOutOfLimits of a value within the limits")
        one("log", "logResult", x.t, log(want_d), "logResult is not the log of the density")
        try:
            dl = T.diff(log(want_d).t, c.t)
            dx = T.diff(x.t, c.t)
            one("partiallog", "partialLog", x.t, E(dl) / E(dx), "partialLog is not the derivative of the log density")
        except T.NotDifferentiable:
            pass
        if circ or route in ("init", "copy"):
            arrays(R, I, c, name, key, wh, near)


def arrays(R, I, c, name, key, wh, near):
    """the methods accept arrays and treat every element alike"""
    pts = [c.x, T.subst(c.x.t, {c.t: S("t2", "unit")})] + c.out
    pts = [E(q) for q in pts]
    for meth in ("domain2Unit", "result", "logResult", "isOutOfLimits", "unit2Domain"):
        kk = "%s:array:%s" % (key, meth)
        args = [E(S("u", "unit")), E(S("u2", "unit"))] if meth == "unit2Domain" else pts[:2] if meth == "domain2Unit" else pts
        try:
            got = I.call(I.getattr_(c.p, meth), [vec([q.t for q in args])])
            want = [call(I, c.p, meth, q.t) for q in args]
        except AbsRaise as e:
            if crash(e):
                R.fail(kk + ":raises", "%s of an array raises %s (%s)" % (meth, e.name, e.value), wh(meth))
            else:
                R.undecided(kk, "raises %s %s" % (e, e.value))
            continue
        except Unsupported as e:
            R.undecided(kk, e)
            continue
        if isinstance(got, Arr) and got.a.size == 1:
            got = Arr(np.array([got.a.flat[0]] * len(args), dtype=object))
        if not isinstance(got, Arr) or got.a.size != len(args) or any(not isinstance(w, Term) and not T.isnum(w) and not T.isbool(w) for w in want):
            R.undecided(kk, "%r" % (got,))
            continue
        for i, (g, w) in enumerate(zip(got.a.flat, want)):
            R.decide("%s:%d" % (kk, i), T.equal(g, w, seed=kk, inf=True), "%s treats arrays and single values differently" % meth, wh(meth))
