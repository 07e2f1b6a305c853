"""C18 the iterative fitters hand the right problem to the minimizer and report its answer.

The minimizer (scipy.optimize.minimize, scipy.optimize.curve_fit, AnnealingAmoeba) is replaced by a recorder: at generic
(symbolic) parameters it evaluates the functions it gets; the value graphs are compared with those of the documented cost.
What it returns are fresh symbols: these have to come back, in place, from the fit."""
import math
import random
import numpy as np
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup
from .limits import get
from .fitters import cmp, data, flat, npar
from . import likelihood as L
from . import scale

S = T.sym

SCIPY = {"NelderMeadFitter": ("NELDER-MEAD", 0, 0, 0), "PowellFitter": ("POWELL", 0, 0, 0), "ConjugateGradientFitter": ("CG", 1, 0, 0),
         "BfgsFitter": ("BFGS", 1, 0, 0), "NewtonCgFitter": ("NEWTON-CG", 1, 1, 0), "LbfgsbFitter": ("L-BFGS-B", 1, 0, 1),
         "TncFitter": ("TNC", 1, 0, 1), "CobylaFitter": ("COBYLA", 0, 0, 0), "SlsqpFitter": ("SLSQP", 1, 0, 1),
         "DoglegFitter": ("DOGLEG", 1, 1, 0), "TrustNcgFitter": ("TRUST-NCG", 1, 1, 0)}
ERRDIS = {"gauss": ("GaussErrorDistribution", True), "laplace": ("LaplaceErrorDistribution", True), "cauchy": ("CauchyErrorDistribution", False),
          "uniform": ("UniformErrorDistribution", True), "exponential": ("ExponentialErrorDistribution", True), "poisson": ("PoissonErrorDistribution", False)}
TOLS = ("xatol", "fatol", "xtol", "ftol", "gtol", "tol", "catol")


def model(I, kind):
    if kind == "lin":
        return I.instantiate(I.cls("PolynomialModel"), [2], {})
    e = I.instantiate(I.cls("ExpModel"), [], {})
    if kind == "exp":
        return e
    return I.binary("Add", e, I.instantiate(I.cls("PolynomialModel"), [0], {}), None)


class Sc(object):
    """one scenario: what is asked of the fitter"""

    def __init__(self, **kw):
        self.__dict__.update(dict(kind="nl", ed=None, w=False, a=None, k0=None, k1=None, par0=None, lim=None, maxiter=None, tol=None,
                                  scale=None, power=None, gradient=True, prior=None, ini=None, cons=None, callback=None), **kw)

    def label(self):
        d = self.__dict__
        return ",".join("%s=%s" % (k, d[k]) for k in sorted(d) if d[k] not in (None, False, "nl") and not (k == "gradient" and d[k] is True)) or "-"


class Ref(object):
    def __init__(self, I, m, sc, x, pre, keep):
        self.I, self.m, self.sc, self.x = I, m, sc, x
        self.n = npar(I, m)
        self.keep = keep
        self.fit = [k for k in range(self.n) if k not in keep]
        self.y, self.w, self.acc, self.kw = data(pre, sc.w, sc.a)
        if sc.ed == "poisson":
            self.y = S(pre + "y", "intdatum")
        self.W = (E(1) if self.w is None else E(self.w)) / (E(1) if self.acc is None else E(self.acc) ** 2)

    def full(self, p):
        r = [None] * self.n
        for k in self.keep:
            r[k] = self.keep[k]
        for i, k in enumerate(self.fit):
            r[k] = p[i]
        return r

    def f(self, full):
        return E(self.I.call(self.I.getattr_(self.m, "result"), [self.x, vec(list(full))]).a.flat[0])

    def chisq(self, full):
        return total(self.W * (E(self.y) - self.f(full)) ** 2)

    def cost(self, full):
        if self.sc.ed is None:
            return self.chisq(full)
        name = ERRDIS[self.sc.ed.lower()][0]
        hyp = [E(1.0 if self.sc.scale is None else self.sc.scale)]
        if self.sc.ed == "exponential":
            hyp.append(E(2.0 if self.sc.power is None else self.sc.power))
        return -total(L.density(name, E(self.y), self.f(full), hyp, None, None if self.w is None else E(self.w)))

    def ydata(self):
        return datum(self.y, dtype="int") if self.sc.ed == "poisson" else datum(self.y)


def fcls(I, name):
    return I.cls(name, "ScipyFitter") if name in SCIPY else I.cls(name)


def syms(pre, n, first=None):
    return [S("%s%d" % (pre, k), first if first and k == 0 else "param") for k in range(n)]


def first(v):
    while isinstance(v, Arr) and v.a.size == 1 and not any(v.sym):
        v = v.a.flat[0]
    return v


def landscape(R, I, key, wh, func, jac, hess, ref, pars):
    """func and its derivatives as given to the minimizer, at generic parameters"""
    for tag, p in pars:
        kk = "%s:func%s" % (key, tag)
        arg = vec(list(p))
        v = get(R, kk, wh("makeFuncs"), lambda: I.call(func, [arg]))
        if v is None:
            continue
        cmp(R, I, kk, first(v), [ref.cost(ref.full(p))], (), "the function to be minimized is not %s of data and model" %
            ("chisq" if ref.sc.ed is None else "-log likelihood"), wh("makeFuncs"))
        if any(a is not b for a, b in zip(arg.a.flat, p)):
            R.fail(kk + ":arg", "the function to be minimized changes its argument", wh("makeFuncs"))
        else:
            R.hold(kk + ":arg")
    tag, p = pars[0]
    c = ref.cost(ref.full(p)).t
    if jac:
        kk = key + ":grad"
        v = get(R, kk, wh("makeFuncs"), lambda: I.call(jac, [vec(list(p))]))
        cmp(R, I, kk, v, [E(T.diff(c, q)) for q in p], (len(p),), "the gradient is not the derivative of the function to be minimized", wh("makeFuncs"))
    if hess:
        kk = key + ":hess"
        v = get(R, kk, wh("makeFuncs"), lambda: I.call(hess, [vec(list(p))]))
        if ref.sc.kind == "lin":
            cmp(R, I, kk, v, [E(T.diff(T.diff(c, q), r)) for q in p for r in p], (len(p), len(p)),
                "the Hessian is not the second derivative of the function to be minimized", wh("makeFuncs"))
        elif v is not None:
            f = ref.f(ref.full(p)).t
            W = ref.W if ref.sc.ed is None else ref.W / (2 * E(1.0 if ref.sc.scale is None else ref.sc.scale) ** 2)
            cmp(R, I, kk, v, [total(2 * W * E(T.diff(f, q)) * E(T.diff(f, r))) for q in p for r in p], (len(p), len(p)),
                "the Hessian is not the product of the derivatives of the model", wh("makeFuncs"))


def boundlist(I, b, n):
    """list of n pairs (low, high); None when it is something else"""
    def num(v):
        v = first(v)
        return E(float("nan")) if v is None else E(v)
    if isinstance(b, ExtObj) and "lb" in b.attrs:
        lo, hi = b.attrs["lb"], b.attrs["ub"]
        lo, hi = [list(q.a.flat) if isinstance(q, Arr) else list(q.items) if isinstance(q, AList) else [q] * n for q in (lo, hi)]
        return [(num(u), num(v)) for u, v in zip(lo, hi)]
    rows = [row for row in I.iterate(b)]
    out = []
    for r in rows:
        r = [num(q) for q in I.iterate(r)]
        if len(r) != 2:
            return None
        out.append((r[0], r[1]))
    return out


def limits_of(sc, n):
    """(argument, low, high) """
    if sc.lim == "pair":
        return AList([S("llo"), T.add(S("llo"), S("lwid", "pospar"))]), [S("llo")] * n, [T.add(S("llo"), S("lwid", "pospar"))] * n
    if sc.lim == "arrays":
        lo, hi = syms("llo", n), [T.add(S("llo%d" % k), S("lwid%d" % k, "pospar")) for k in range(n)]
        return AList([vec(lo), vec(hi)]), lo, hi
    if sc.lim == "lists":
        lo, hi = syms("llo", n), [T.add(S("llo%d" % k), S("lwid%d" % k, "pospar")) for k in range(n)]
        return AList([AList(list(lo)), AList(list(hi))]), lo, hi
    if sc.lim == "mixed":
        lo, hi = syms("llo", n), [T.add(S("hhi"), 0)] * n
        return AList([vec(lo), S("hhi")]), lo, hi
    return None, None, None


def check_bounds(R, I, kk, b, lo, hi, ref, wh):
    try:
        got = boundlist(I, b, len(ref.fit))
    except (Unsupported, AbsRaise) as e:
        R.undecided(kk, e)
        return
    if got is None or len(got) != len(ref.fit):
        R.fail(kk, "the limits are not passed on as a pair of (low, high) for each parameter to be fitted", wh)
        return
    for (u, v), k in zip(got, ref.fit):
        R.decide("%s:lo%d" % (kk, k), T.equal(u.t, lo[k], seed=kk), "the low limit of parameter %d is not what was set" % k, wh)
        R.decide("%s:hi%d" % (kk, k), T.equal(v.t, hi[k], seed=kk), "the high limit of parameter %d is not what was set" % k, wh)


def untouched(R, kk, a, before, what, wh):
    now = list(a.a.flat) if isinstance(a, Arr) else list(a.items)
    if len(now) == len(before) and all(p is q or p == q for p, q in zip(now, before)):
        R.hold(kk)
    else:
        R.fail(kk, "%s of the caller is changed" % what, wh)


def one(R, name, args, sc, two):
    """two fits: the second one without whatever was special in the first"""
    I = setup()
    fcls(I, name)
    key = "fit:%s%s:%s" % (name, "" if not args else ":" + str(args), sc.label())
    wh = lambda meth: zoo.where(I, fcls(I, name), meth) or zoo.where(I, fcls(I, name), "fit")
    W = wh("fit")
    m = get(R, key, W, lambda: model(I, sc.kind))
    if m is None:
        return
    n = npar(I, m)
    pos = "pospar" if sc.ed == "poisson" else None
    ini = syms("ini", n, pos)
    I.setattr_(m, "parameters", vec(list(ini)))
    x = datum(S("x", "datum"))
    kw = {}
    if sc.k0:
        kw["keep"] = ADict(dict(sc.k0))
    if sc.ed:
        kw["errdis"] = sc.ed
        if sc.scale:
            kw["scale"] = sc.scale
        if sc.power:
            kw["power"] = sc.power
    seen = []
    if sc.gradient == "user":
        def usergrad(I_, a, k):
            q = list(a[0].a.flat) if len(a) == 1 and not k and isinstance(a[0], Arr) else None
            seen.append(q)
            return vec([T.fn("abs", T.add(v, 0.25)) for v in q]) if q is not None else 0.0
        kw["gradient"] = Native("usergradient", usergrad)
    elif sc.gradient is not True:
        kw["gradient"] = sc.gradient
    cons = [Native("constraint%d" % k, lambda I_, a, k_: 1.0) for k in range(sc.cons or 0)]
    callback = Native("callback", lambda I_, a, k_: None) if sc.callback else None
    if args:
        kw["method"] = args[0]
    if sc.ini:
        kw["maxIter"], kw["tolerance"] = sc.ini
    f = get(R, key, W, lambda: I.instantiate(fcls(I, name), [x, m], kw))
    if f is None:
        return
    rec = []
    state = {}

    def minimizer(I_, func, jac, hess, info):
        """evaluate, return the optimum"""
        rec.append(info)
        ref, kk = state["ref"], state["key"]
        nf = len(ref.fit)
        p = syms(state["pre"] + "p", nf, pos)
        q = syms(state["pre"] + "q", nf, pos)
        if not isinstance(func, (Func, Bound, Native)):
            R.fail(kk + ":func", "what is to be minimized is not a function", W)
            return None
        landscape(R, I, kk, wh, func, jac if isinstance(jac, (Func, Bound)) and sc.gradient is True else None, hess if isinstance(hess, (Func, Bound)) else None, ref,
                  [("", p), (":other", q), (":again", p)])
        if sc.gradient == "user" and isinstance(jac, (Func, Bound, Native)):
            del seen[:]
            v = get(R, kk + ":usergrad", W, lambda: I.call(jac, [vec(list(p))]))
            if len(seen) == 1 and seen[0] is not None and len(seen[0]) == nf and all(a_ is b_ for a_, b_ in zip(seen[0], p)):
                R.hold(kk + ":usergrad:arg")
            else:
                R.fail(kk + ":usergrad:arg", "the gradient function of the user is not called with the parameters", W)
            cmp(R, I, kk + ":usergrad", v, [E(T.fn("abs", T.add(v_, 0.25))) for v_ in p], (nf,), "the minimizer does not get the gradient of the user", W)
        opt = syms(state["pre"] + "opt", nf, pos)
        state["opt"] = opt
        fopt = ref.cost(ref.full(opt)).t
        state["fopt"] = fopt
        for v in (opt, q):
            I.call(func, [vec(list(v))])
            for g in (jac, hess):
                if isinstance(g, (Func, Bound)):
                    I.call(g, [vec(list(v))])
        return vec(list(opt)), fopt

    def minimize(I_, a, k):
        names = ["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds", "constraints", "tol", "callback", "options"]
        d = dict(zip(names, a))
        d.update(k)
        r = minimizer(I_, d.get("fun"), d.get("jac"), d.get("hess"), d)
        if r is None:
            raise Unsupported("no function")
        res = ADict({"x": r[0], "fun": r[1], "nfev": 17, "nit": 9, "njev": 11, "nhev": 3, "status": 0, "success": True, "message": "ok"})
        res.fields = True
        return res

    I.ext["scipy.optimize.minimize"] = minimize
    I.ext["scipy.optimize.Bounds"] = lambda I_, a, k: ExtObj("Bounds", dict(zip(("lb", "ub"), a), **k))

    def amoeba_init(I_, fn, a, k, node):
        names = ["func", "xini", "size", "seed", "temp", "limits", "maxiter", "reltol", "abstol", "cooling", "steps", "verbose", "callback"]
        d = dict(zip(names, a[1:]))
        d.update(k)
        a[0].attrs["__rec"] = d
        a[0].attrs.update(d)
        return None

    def amoeba_min(I_, fn, a, k, node):
        d = a[0].attrs["__rec"]
        d = dict(d, x0=d.get("xini"), amoeba=True)
        r = minimizer(I_, d.get("func"), None, None, d)
        if r is None:
            raise Unsupported("no function")
        a[0].attrs.update(xopt=r[0], fopt=r[1], iter=9, ncalls=17, simplex=vec([0.0]), values=vec([0.0]))
        return a[0].attrs["xopt"]
    if name == "AmoebaFitter":
        I.hooks["AnnealingAmoeba.__init__"] = amoeba_init
        I.hooks["AnnealingAmoeba.minimize"] = amoeba_min

    for turn in range(2 if two else 1):
        kk = key + (":second" if turn else "")
        cur = sc if turn == 0 else Sc(kind=sc.kind, ed=sc.ed, scale=sc.scale, power=sc.power, w=not sc.w and (sc.ed is None or ERRDIS[sc.ed][1]),
                                      a=None if sc.a or sc.ed else "array", k0=sc.k0, gradient=sc.gradient)
        keep = dict(sc.k0 or {})
        if turn == 0 and sc.k1:
            keep.update(sc.k1)
        ref = Ref(I, m, cur, x, "2" if turn else "", keep)
        state.update(ref=ref, key=kk, pre="s" if turn else "")
        fkw = dict(ref.kw)
        if turn == 0 and sc.k1:
            fkw["keep"] = ADict(dict(keep))
        start = ini if turn == 0 else ref_last
        x0 = [start[k] for k in ref.fit]
        par0 = None
        if turn == 0 and sc.par0:
            own = syms("own", n, pos)
            par0 = AList(list(own)) if sc.par0 == "list" else vec(list(own))
            fkw["par0"] = par0
            x0 = [own[k] for k in ref.fit]
        la, lo, hi = limits_of(cur, n)
        if la is not None:
            fkw["limits"] = la
        if turn == 0 and sc.maxiter:
            fkw["maxiter"] = sc.maxiter
        if turn == 0 and sc.tol:
            fkw["tolerance"] = sc.tol
        if turn == 0 and cons:
            fkw["constraints"] = AList(list(cons))
        if turn == 0 and callback:
            fkw["callback"] = callback
        yd = ref.ydata()
        before = {"y": list(yd.a.flat)}
        held = {q: fkw[q] for q in ("weights", "accuracy") if isinstance(fkw.get(q), Arr)}
        hb = {q: list(v.a.flat) for q, v in held.items()}
        rec.clear()
        ret = get(R, kk + ":fit", W, lambda: I.call(I.getattr_(f, "fit"), [yd], fkw))
        if ret is None:
            return
        if not rec:
            R.fail(kk + ":minimizer", "the minimizer is not called", W)
            return
        if len(rec) > 1:
            R.undecided(kk, "more than one minimization")
            return
        d = rec[0]
        # the start
        v = d.get("x0")
        cmp(R, I, kk + ":x0", v, [E(q) for q in x0], (len(x0),), "the minimization does not start at the initial values of the parameters to be fitted", W)
        # settings
        if la is not None:
            if d.get("amoeba"):
                b = d.get("limits")
                if isinstance(b, (AList, tuple)):
                    b = list(I.iterate(b))
                if not isinstance(b, list) or len(b) != 2:
                    R.fail(kk + ":limits", "the limits are not passed to the minimizer", W)
                else:
                    for q, want, lab in ((b[0], lo, "low"), (b[1], hi, "high")):
                        q = first(q)
                        got = list(q.a.flat) if isinstance(q, Arr) else list(q.items) if isinstance(q, AList) else [q]
                        if len(got) == 1:
                            got = got * len(ref.fit)
                        cmp(R, I, "%s:%s" % (kk, lab), vec(got), [E(want[k]) for k in ref.fit], (len(ref.fit),), "the %s limits are not those of the parameters to be fitted" % lab, W)
            else:
                if d.get("bounds") is None:
                    R.fail(kk + ":limits", "the limits are not passed to the minimizer", W)
                else:
                    check_bounds(R, I, kk + ":limits", d["bounds"], lo, hi, ref, W)
        elif not d.get("amoeba"):
            if d.get("bounds") is None:
                R.hold(kk + ":nolimits")
            else:
                R.fail(kk + ":nolimits", "limits are passed to the minimizer while there are none", W)
        mi, to = (sc.maxiter, sc.tol) if turn == 0 else (None, None)
        if sc.ini and not d.get("amoeba"):
            mi = sc.ini[0] if mi is None else mi
            to = sc.ini[1] if to is None else to
        if d.get("amoeba"):
            given = {"maxiter": d.get("maxiter"), "reltol": d.get("reltol"), "abstol": d.get("abstol")}
            tols = [given["reltol"], given["abstol"]]
            its = [given["maxiter"]]
        else:
            o = d.get("options")
            o = dict(o.d) if isinstance(o, ADict) else {}
            if d.get("tol") is not None:
                o["tol"] = d["tol"]
            tols = [o[q] for q in TOLS if q in o]
            its = [o[q] for q in ("maxiter", "maxfun") if q in o]
        if mi is not None:
            if its and all(q == mi for q in its):
                R.hold(kk + ":maxiter")
            else:
                R.fail(kk + ":maxiter", "the maximum number of iterations asked for is %s, the minimizer gets %s" % (mi, its or None), W)
        if to is not None:
            if tols and all(T.isnum(q) and q == to for q in tols):
                R.hold(kk + ":tolerance")
            else:
                R.fail(kk + ":tolerance", "the tolerance asked for is %s, the minimizer gets %s" % (to, tols or None), W)
        if not d.get("amoeba"):
            meth, g, h, b = SCIPY[name] if name in SCIPY else [q for q in SCIPY.values() if args and args[0] is not None and q[0] == args[0].upper()][0] \
                if args and args[0] is not None else ("SLSQP" if cons and turn == 0 else "L-BFGS-B" if la is not None else "BFGS", 1, 0, 0)
            got = d.get("method")
            if isinstance(got, str) and got.upper() == meth:
                R.hold(kk + ":method")
            else:
                R.fail(kk + ":method", "the method of the minimizer is %s" % (got,), W)
            jac = d.get("jac")
            given = isinstance(jac, (Func, Bound, Native))
            if g and sc.gradient and not given:
                R.fail(kk + ":jac", "the gradient is not passed to the minimizer", W)
            elif (not g or not sc.gradient) and given:
                R.fail(kk + ":jac", "a gradient is passed to the minimizer when there should not be one", W)
            else:
                R.hold(kk + ":jac")
            if h and not isinstance(d.get("hess"), (Func, Bound)):
                R.fail(kk + ":hess", "the Hessian is not passed to the minimizer", W)
            handed(R, I, kk + ":constraints", d.get("constraints"), cons if turn == 0 else [], W)
        if callback:
            if d.get("callback") is (callback if turn == 0 else None):
                R.hold(kk + ":callback")
            else:
                R.fail(kk + ":callback", "the callback is not passed to the minimizer", W)
        # the answer
        full = ref.full(state["opt"])
        ref_last = full
        answer(R, I, kk, f, m, ref, full, ret, wh)
        untouched(R, kk + ":ydata", yd, before["y"], "ydata", W)
        for q, v in held.items():
            untouched(R, "%s:%s" % (kk, q), v, hb[q], q, W)
        if par0 is not None:
            untouched(R, kk + ":par0", par0, own, "par0", W)
    R.functions |= {".".join(v) if isinstance(v, tuple) else v for v in I.visited}


def handed(R, I, kk, got, cons, wh):
    """the constraints: dictionaries with the functions of the user, to be >= 0"""
    if got is None:
        items = []
    elif isinstance(got, ADict):
        items = [got]
    else:
        items = list(I.iterate(got))
    funs = []
    for c in items:
        if not isinstance(c, ADict) or c.d.get("type") != "ineq":
            R.fail(kk, "the constraints are not passed as the minimizer wants them", wh)
            return
        funs.append(c.d.get("fun"))
    if len(funs) == len(cons) and all(a is b for a, b in zip(funs, cons)):
        R.hold(kk)
    else:
        R.fail(kk, "the constraint functions are not passed to the minimizer", wh)


def answer(R, I, kk, f, m, ref, full, ret, wh, hessian=True):
    W = wh("fit")
    n = ref.n
    cmp(R, I, kk + ":params", ret, [E(q) for q in full], (n,), "the parameters returned are not those of the minimizer with the fixed ones in place", W)
    cmp(R, I, kk + ":model", get(R, kk, W, lambda: I.getattr_(m, "parameters")), [E(q) for q in full], (n,), "the parameters of the model are not those found by the fit", W)
    cmp(R, I, kk + ":npfit", get(R, kk, W, lambda: I.getattr_(f, "npfit")), [len(ref.fit)], (), "npfit is not the number of fitted parameters", wh("fitprolog"))
    if ref.sc.ed is None:
        chi = ref.chisq(full)
        cmp(R, I, kk + ":chisq", first(get(R, kk + ":chisq", W, lambda: I.getattr_(f, "chisq"))), [chi], (), "chisq is not that of the parameters found", W)
        sw = total(E(1) if ref.w is None else E(ref.w))
        cmp(R, I, kk + ":scale", first(get(R, kk + ":scale", W, lambda: I.getattr_(f, "scale"))), [sqrt(chi / (sw - len(ref.fit)))], (),
            "scale is not sqrt( chisq / degrees of freedom )", wh("getScale"))
    else:
        cmp(R, I, kk + ":logLikelihood", first(get(R, kk + ":logLikelihood", W, lambda: I.getattr_(f, "logLikelihood"))), [-ref.cost(full)], (),
            "logLikelihood is not that of the parameters found", W)
        name = ERRDIS[ref.sc.ed.lower()][0]
        if name != "CauchyErrorDistribution":
            fx, ww = ref.f(full), E(1) if ref.w is None else E(ref.w)
            hyp = [None, 2.0 if ref.sc.power is None else ref.sc.power]
            want = scale.reference(name, E(ref.y) - fx, ww, hyp)
            want = scale.expsigma(want, E(hyp[1])) if name == "ExponentialErrorDistribution" else scale.SIGMA[name](want)
            cmp(R, I, kk + ":scale", first(get(R, kk + ":scale", W, lambda: I.getattr_(f, "scale"))), [want], (),
                "scale is not the standard deviation of the error distribution at the scale of the residuals", wh("getScale"))
    fx = ref.f(full)
    cmp(R, I, kk + ":yfit", get(R, kk + ":yfit", W, lambda: I.getattr_(f, "yfit")), [fx], (1,), "yfit is not the model at the parameters found", W)
    if hessian:
        ss = [S("D%d" % k) for k in ref.fit]
        g = ref.f([ss[ref.fit.index(k)] if k in ref.fit else full[k] for k in range(n)]).t
        back = {s: full[k] for s, k in zip(ss, ref.fit)}
        D = [E(T.subst(T.diff(g, s), back)) if not T.isnum(T.diff(g, s)) else E(T.diff(g, s)) for s in ss]
        cmp(R, I, kk + ":hessian", get(R, kk + ":hessian", W, lambda: I.getattr_(f, "hessian")), [total(ref.W * p * q) for p in D for q in D],
            (len(D), len(D)), "hessian is not that of the parameters found", wh("getHessian"))


# -------------------------------------------------------------------------------- CurveFitter
def curve(R, sc, two):
    name = "CurveFitter"
    I = setup()
    I.cls(name)
    key = "fit:%s:%s" % (name, sc.label())
    wh = lambda meth: zoo.where(I, name, meth) or zoo.where(I, name, "fit")
    W = wh("fit")
    m = get(R, key, W, lambda: model(I, sc.kind))
    if m is None:
        return
    n = npar(I, m)
    ini = syms("ini", n)
    I.setattr_(m, "parameters", vec(list(ini)))
    plo, phi = syms("plo", n), [T.add(S("plo%d" % k), S("pwid%d" % k, "pospar")) for k in range(n)]
    if sc.prior:
        if get(R, key + ":setLimits", W, lambda: I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": vec(plo), "highLimits": vec(phi)}) or True) is None:
            return
    x = datum(S("x", "datum"))
    kw = {"keep": ADict(dict(sc.k0))} if sc.k0 else {}
    if sc.scale:
        kw["fixedScale"] = sc.scale
    f = get(R, key, W, lambda: I.instantiate(I.cls(name), [x, m], kw))
    if f is None:
        return
    rec, state = [], {}

    def curve_fit(I_, a, k):
        d = dict(zip(["f", "xdata", "ydata", "p0", "sigma", "absolute_sigma", "check_finite", "bounds", "method", "jac"], a))
        d.update(k)
        rec.append(d)
        ref, kk = state["ref"], state["key"]
        nf = len(ref.fit)
        for tag in ("p", "q", "p"):
            p = syms(state["pre"] + tag, nf)
            v = get(R, kk + ":f" + tag, wh("result"), lambda: I.call(d["f"], [d["xdata"]] + list(p)))
            sg = d.get("sigma")
            res = None
            if isinstance(v, Arr) and v.sym == (True,) and v.a.shape == (1,):
                r = (E(d["ydata"].a.flat[0]) - E(v.a.flat[0])) / (E(1) if sg is None else E(sg.a.flat[0]))
                res = total(r * r)
                cmp(R, I, kk + ":func:" + tag, res.t, [ref.cost(ref.full(p))], (), "the sum of squares which curve_fit minimizes is not chisq of data and model", wh("result"))
            elif v is not None:
                R.fail(kk + ":func:" + tag, "the function given to curve_fit yields %s" % (v,), wh("result"))
            if isinstance(d.get("jac"), (Func, Bound)):
                g = get(R, kk + ":jac" + tag, wh("jacobian"), lambda: I.call(d["jac"], [d["xdata"]] + list(p)))
                fx = ref.f(ref.full(p)).t
                cmp(R, I, kk + ":jac:" + tag, g, [E(T.diff(fx, q)) for q in p], (1, nf), "the jacobian given to curve_fit is not the derivative of the model", wh("jacobian"))
        opt = syms(state["pre"] + "opt", nf)
        state["opt"] = opt
        cov = np.empty((nf, nf), dtype=object)
        for i in np.ndindex(cov.shape):
            cov[i] = S("cov%d%d" % i)
        return (vec(list(opt)), Arr(cov))
    I.ext["scipy.optimize.curve_fit"] = curve_fit
    for turn in range(2 if two else 1):
        kk = key + (":second" if turn else "")
        cur = sc if turn == 0 else Sc(kind=sc.kind, w=not sc.w, a=None if sc.a else "array", k0=sc.k0, prior=sc.prior)
        keep = dict(sc.k0 or {})
        if turn == 0 and sc.k1:
            keep.update(sc.k1)
        ref = Ref(I, m, cur, x, "2" if turn else "", keep)
        state.update(ref=ref, key=kk, pre="s" if turn else "")
        fkw = dict(ref.kw)
        if turn == 0 and sc.k1:
            fkw["keep"] = ADict(dict(keep))
        start = ini if turn == 0 else ref_last
        x0 = [start[k] for k in ref.fit]
        par0 = None
        if turn == 0 and sc.par0:
            own = syms("own", n)
            par0 = fkw["inipar"] = AList(list(own)) if sc.par0 == "list" else vec(list(own))
            x0 = [own[k] for k in ref.fit]
        la, lo, hi = limits_of(cur, n)
        if la is not None:
            fkw["limits"] = la
        elif sc.prior:
            lo, hi = plo, phi
        yd = ref.ydata()
        yb = list(yd.a.flat)
        rec.clear()
        ret = get(R, kk + ":fit", W, lambda: I.call(I.getattr_(f, "fit"), [yd], fkw))
        if ret is None:
            return
        if len(rec) != 1:
            R.undecided(kk, "%d calls of curve_fit" % len(rec))
            return
        d = rec[0]
        cmp(R, I, kk + ":x0", d.get("p0"), [E(q) for q in x0], (len(x0),), "the fit does not start at the initial values of the parameters to be fitted", W)
        b = d.get("bounds")
        b = list(I.iterate(b)) if isinstance(b, (AList, tuple, Arr)) else None
        if b is None or len(b) != 2:
            if b is None and lo is None and d.get("bounds") is None:
                R.hold(kk + ":bounds")
            else:
                R.fail(kk + ":bounds", "the bounds are %s" % (d.get("bounds"),), W)
        else:
            for q, want, lab, inf in ((b[0], lo, "low", -math.inf), (b[1], hi, "high", math.inf)):
                q = first(q)
                got = list(q.a.flat) if isinstance(q, Arr) else list(q.items) if isinstance(q, AList) else [q]
                if len(got) == 1:
                    got = got * len(ref.fit)
                if want is None:
                    if all(T.isnum(v) and v == inf for v in got) and len(got) == len(ref.fit):
                        R.hold("%s:%s" % (kk, lab))
                    else:
                        R.fail("%s:%s" % (kk, lab), "the %s bounds are %s while there are no limits" % (lab, got), W)
                else:
                    cmp(R, I, "%s:%s" % (kk, lab), vec(got), [E(want[k]) for k in ref.fit], (len(ref.fit),), "the %s bounds are not the limits of the parameters to be fitted" % lab, W)
        full = ref.full(state["opt"])
        ref_last = full
        answer(R, I, kk, f, m, ref, full, ret, wh)
        untouched(R, kk + ":ydata", yd, yb, "ydata", W)
        if par0 is not None:
            untouched(R, kk + ":inipar", par0, own, "inipar", W)
    R.functions |= {".".join(v) if isinstance(v, tuple) else v for v in I.visited}


def curve_norm(R, w, k1, nn):
    """curve_fit with normalisations; four concrete data points"""
    name = "CurveFitter"
    key = "fit:CurveFitter:normalize:%s:%s:%d" % ("w" if w else "-", "k" if k1 else "-", nn)
    I = setup()
    I.cls(name)
    W = zoo.where(I, name, "fit")
    N = 4
    x, y = vec([S("x%d" % i) for i in range(N)]), vec([S("y%d" % i) for i in range(N)])
    wt = [S("w%d" % i, "pospar") for i in range(N)]
    n = 3 if k1 else 2
    m = I.instantiate(I.cls("PolynomialModel"), [n - 1], {})
    f = get(R, key, W, lambda: I.instantiate(I.cls(name), [x, m], {}))
    if f is None:
        return
    norms = []
    for q in range(nn):
        row = [S("r%d%d" % (q, k)) for k in range(n)]
        norms.append((row, S("d%d" % q), S("nw%d" % q, "pospar")))
        if get(R, key + ":normalize", W, lambda: I.call(I.getattr_(f, "normalize"), [vec(row), norms[-1][1]], {"weight": norms[-1][2]}) or True) is None:
            return
    keep = {1: 0.7} if k1 else {}
    fit = [k for k in range(n) if k not in keep]
    seen = []

    def curve_fit(I_, a, k):
        d = dict(zip(["f", "xdata", "ydata", "p0", "sigma", "absolute_sigma", "check_finite", "bounds", "method", "jac"], a))
        d.update(k)
        seen.append(1)
        p = syms("p", len(fit))
        full = [keep.get(k) for k in range(n)]
        for i, k in enumerate(fit):
            full[k] = p[i]
        v = I.call(d["f"], [d["xdata"]] + list(p))
        sg = d.get("sigma")
        g = list(v.a.flat)
        yy = list(d["ydata"].a.flat)
        if len(g) != N + nn or len(yy) != N + nn:
            R.fail(key + ":length", "%d values for %d data and %d normalisations" % (len(g), N, nn), W)
        else:
            got = sum((((E(yy[i]) - E(g[i])) / (E(1) if sg is None else E(sg.a.flat[i]))) ** 2 for i in range(N + nn)), E(0))
            want = sum(((E(1) if not w else E(wt[i])) * (E(y.a[i]) - sum((E(full[k]) * E(x.a[i]) ** k for k in range(n)), E(0))) ** 2 for i in range(N)), E(0))
            want = want + sum((E(nw) * (E(dd) - sum((E(r) * E(q) for r, q in zip(row, full)), E(0))) ** 2 for row, dd, nw in norms), E(0))
            R.decide(key + ":func", T.equal(got.t, want.t, seed=key), "the sum of squares is not that of the data and the normalisations", W)
            if isinstance(d.get("jac"), (Func, Bound)):
                j = I.call(d["jac"], [d["xdata"]] + list(p))
                cmp(R, I, key + ":jac", j, [E(T.diff(q, s)) for q in g for s in p], (N + nn, len(p)), "the jacobian is not the derivative of data and normalisations", W)
        return (vec(syms("opt", len(fit))), vec([0.0]))
    I.ext["scipy.optimize.curve_fit"] = curve_fit
    kw = {"keep": ADict(keep)} if k1 else {}
    if w:
        kw["weights"] = vec(wt)
    get(R, key + ":fit", W, lambda: I.call(I.getattr_(f, "fit"), [y.copy()], kw))
    if not seen:
        R.undecided(key, "curve_fit is not called")


# -------------------------------------------------------------------------------- Levenberg-Marquardt
class Stop(Exception):
    pass


def levmar(R, sc, depth, maxsteps):
    """all sequences of at most `depth` outcomes of the comparisons the fitter makes in the landscape of chisq"""
    todo = [()]
    seen = 0
    while todo and seen < 400:
        script = todo.pop()
        seen += 1
        used = levmar_path(R, sc, script, maxsteps)
        if used is None:
            return
        for k in range(len(script), min(used, depth)):
            todo.append(tuple(script) + (False,) * (k - len(script)) + (True,))


def levmar_path(R, sc, script, maxsteps):
    name = "LevenbergMarquardtFitter"
    I = setup()
    I.cls(name)
    key = "lm:%s:%s" % (sc.label(), "".join("01"[q] for q in script) or "-")
    wh = lambda meth: zoo.where(I, name, meth) or zoo.where(I, name, "fit")
    W = wh("fit")
    m = get(R, key, W, lambda: model(I, sc.kind))
    if m is None:
        return None
    n = npar(I, m)
    ini = syms("ini", n)
    I.setattr_(m, "parameters", vec(list(ini)))
    x = datum(S("x", "datum"))
    kw = {"keep": ADict(dict(sc.k0))} if sc.k0 else {}
    f = get(R, key, W, lambda: I.instantiate(I.cls(name), [x, m], kw))
    if f is None:
        return None
    asked, facts = [], []

    def oracle(t):
        if t.op != "cmp" or t.args[0] not in ("<", "<=", ">", ">=") or any(str(a) == "0" for a in t.args[1:]):
            return None                  # data are finite, chisq is positive
        asked.append(t)
        k = len(asked) - 1
        ans = script[k] if k < len(script) else False
        op, a, b = t.args
        if op[0] == ">":
            a, b = b, a
        facts.append((a, b) if ans else (b, a))
        return ans
    I.oracle = oracle
    keep = dict(sc.k0 or {})
    keep.update(sc.k1 or {})
    ref = Ref(I, m, sc, x, "", keep)
    fkw = dict(ref.kw, maxiter=maxsteps, verbose=0)
    if sc.k1:
        fkw["keep"] = ADict(dict(keep))
    if sc.tol:
        fkw["tolerance"] = sc.tol
    start = ini
    par0 = None
    if sc.par0:
        start = syms("own", n)
        par0 = fkw["par0"] = AList(list(start)) if sc.par0 == "list" else vec(list(start))
    start = ref.full([start[k] for k in ref.fit])
    points, turns = [], []
    topp = I.getattr_(m, "partial").func
    top = I.getattr_(m, "result").func

    def watch(I_, fn, args, kwargs, node):
        if fn is top and len(args) == 3 and args[0] is m and isinstance(args[2], Arr):
            points.append(list(args[2].a.flat))
        if fn is topp and len(args) == 3 and args[0] is m and isinstance(args[2], Arr):
            turns.append(list(args[2].a.flat))
    I.watch_call.append(watch)
    yd = ref.ydata()
    yb = list(yd.a.flat)
    try:
        ret = I.call(I.getattr_(f, "fit"), [yd], fkw)
        done = True
    except AbsRaise as e:
        if e.name != "ConvergenceError":
            R.fail(key + ":raises", "raises %s (%s)" % (e.name, e.value), W)
            return len(asked)
        done = False
        ret = None
    except Unsupported as e:
        R.undecided(key, e)
        return len(asked)
    I.watch_call.remove(watch)
    I.oracle = None
    if par0 is not None:
        untouched(R, key + ":par0", par0, ref_start(sc, n), "par0", W)
    untouched(R, key + ":ydata", yd, yb, "ydata", W)
    # where chisq is calculated
    bad = [p for p in points if len(p) != n or any(not eq(p[k], keep[k], key) for k in keep)]
    if bad:
        R.fail(key + ":keep", "chisq is calculated at parameters where those that are to be kept are not at their value", W)
    else:
        R.hold(key + ":keep")
    if points:
        cmp(R, I, key + ":start", vec(points[0]), [E(q) for q in start], (n,), "the fit does not start at the initial values of the parameters", W)
    # each step taken was found to be no worse than where it comes from; the first chisq is that of the start plus 1
    path = []
    for v in turns:
        if len(v) == n and not (path and all(eq(a, b, key) for a, b in zip(path[-1], v))):
            path.append(v)
    for k in range(1, len(path)):
        u, v = path[k - 1], path[k]
        cu, cv = ref.chisq(u).t, ref.chisq(v).t
        more = [0, 1] if k == 1 else [0]
        if any(eq(a, cv, key) and any(eq(b, T.add(cu, q), key) for q in more) for a, b in facts):
            R.hold("%s:accept%d" % (key, k))
        else:
            R.fail("%s:accept%d" % (key, k), "a step is taken while chisq was not found to be less than it was", wh("trialfit"))
    # the first step that is tried goes downhill and vanishes at a stationary point
    step = next((p for p in points if any(a is not b for a, b in zip(p, start))), None)
    if step is not None and not script:
        c = ref.chisq(start).t
        ss = syms("D", len(ref.fit))
        c = ref.chisq(ref.full(ss)).t
        back = {s: start[k] for s, k in zip(ss, ref.fit)}
        grad = [T.subst(T.diff(c, s), back) for s in ss]
        d = [T.sub(step[k], start[k]) for k in ref.fit]
        downhill(R, key, grad, d, W)
        # zero when the data are on the model
        on = {ref.y: ref.f(start).t}
        for k, q in zip(ref.fit, d):
            R.decide("%s:stationary%d" % (key, k), T.equal(T.subst(q, on), 0, seed=key), "a step is made when the model equals the data", W)
    if done:
        full = list(ret.a.flat) if isinstance(ret, Arr) else []
        if len(full) != n:
            R.fail(key + ":params", "returns %s" % (ret,), W)
            return len(asked)
        if not any(len(p) == n and all(eq(a, b, key) for a, b in zip(p, full)) for p in points):
            R.fail(key + ":visited", "the parameters returned are not among those for which chisq was calculated", W)
        else:
            R.hold(key + ":visited")
        for k in keep:
            R.decide("%s:kept%d" % (key, k), T.equal(full[k], keep[k], seed=key), "parameter %d is not kept at its value" % k, W)
        turns.append(full)
        if len(points) < 12:
            answer(R, I, key, f, m, ref, full, ret, wh, hessian=sum(script[:6]) <= 2)
    R.functions |= {".".join(v) if isinstance(v, tuple) else v for v in I.visited}
    return len(asked)


def levmar_norm(R, w, k1, nn):
    """what is compared when there are normalisations; four data points"""
    name = "LevenbergMarquardtFitter"
    key = "lm:normalize:%s:%s:%d" % ("w" if w else "-", "k" if k1 else "-", nn)
    I = setup()
    I.cls(name)
    W = zoo.where(I, name, "fit")
    N = 4
    x, y = [S("x%d" % i) for i in range(N)], [S("y%d" % i) for i in range(N)]
    wt = [S("w%d" % i, "pospar") for i in range(N)]
    m = I.instantiate(I.cls("PolynomialModel"), [1], {})
    n = 2
    ini = syms("ini", n)
    I.setattr_(m, "parameters", vec(list(ini)))
    f = get(R, key, W, lambda: I.instantiate(I.cls(name), [vec(list(x)), m], {}))
    if f is None:
        return
    norms = []
    for q in range(nn):
        row = [S("r%d%d" % (q, k)) for k in range(n)]
        norms.append((row, S("d%d" % q), S("nw%d" % q, "pospar")))
        if get(R, key + ":normalize", W, lambda: I.call(I.getattr_(f, "normalize"), [vec(list(row)), norms[-1][1]], {"weight": norms[-1][2]}) or True) is None:
            return
    keep = {1: 0.7} if k1 else {}

    def chisq(p):
        c = sum(((E(1) if not w else E(wt[i])) * (E(y[i]) - E(p[0]) - E(p[1]) * E(x[i])) ** 2 for i in range(N)), E(0))
        return c + sum((E(nw) * (E(dd) - E(row[0]) * E(p[0]) - E(row[1]) * E(p[1])) ** 2 for row, dd, nw in norms), E(0))
    facts, points = [], []

    def oracle(t):
        if t.op != "cmp" or t.args[0] not in ("<", "<=", ">", ">=") or any(str(a) == "0" for a in t.args[1:]):
            return None
        op, a, b = t.args
        facts.append((b, a) if op[0] == ">" else (a, b))
        return False
    I.oracle = oracle
    top = I.getattr_(m, "result").func

    def watch(I_, fn, args, kwargs, node):
        if fn is top and len(args) == 3 and args[0] is m and isinstance(args[2], Arr):
            points.append(list(args[2].a.flat))
    I.watch_call.append(watch)
    kw = {"keep": ADict(dict(keep))} if k1 else {}
    if w:
        kw["weights"] = vec(list(wt))
    try:
        I.call(I.getattr_(f, "fit"), [vec(list(y))], dict(kw, maxiter=2, verbose=0))
    except AbsRaise as e:
        if e.name != "ConvergenceError":
            R.fail(key + ":raises", "raises %s (%s)" % (e.name, e.value), W)
            return
    except Unsupported as e:
        R.undecided(key, e)
        return
    I.oracle = None
    start = [keep.get(k, ini[k]) for k in range(n)]
    tried = [p for p in points if not all(eq(a, b, key) for a, b in zip(p, start))]
    if len(facts) != 2 or not tried:
        R.undecided(key, "%d comparisons at %d points" % (len(facts), len(tried)))
        return
    for k, (a, b) in enumerate(facts):
        R.decide("%s:chisq%d" % (key, k), T.equal(b, (chisq(start) + 1).t, seed=key), "the chisq at the start is not that of data and normalisations", W)
        if any(T.equal(a, chisq(p).t, seed=key).status == "eq" for p in tried):
            R.hold("%s:trial%d" % (key, k))
        else:
            R.fail("%s:trial%d" % (key, k), "the chisq of a trial step is not that of data and normalisations", W)
    c = chisq([keep[k] if k in keep else q for k, q in enumerate(syms("D", n))]).t
    fit = [k for k in range(n) if k not in keep]
    back = {S("D%d" % k, "param"): ini[k] for k in fit}
    grad = [T.subst(T.diff(c, S("D%d" % k, "param")), back) for k in fit]
    downhill(R, key, grad, [T.sub(tried[0][k], ini[k]) for k in fit], W)
    # Gauss-Newton: no step at the least squares solution of data and normalisations; here where all are fitted exactly
    on = {y[i]: (E(start[0]) + E(start[1]) * E(x[i])).t for i in range(N)}
    on.update({dd: (E(row[0]) * E(start[0]) + E(row[1]) * E(start[1])).t for row, dd, nw in norms})
    for k in fit:
        R.decide("%s:stationary%d" % (key, k), T.equal(T.subst(T.sub(tried[0][k], ini[k]), on), 0, seed=key), "a step is made when the model equals data and normalisations", W)
    R.functions |= {".".join(v) if isinstance(v, tuple) else v for v in I.visited}


def ref_start(sc, n):
    return syms("own", n)


def eq(a, b, seed):
    return a is b or T.equal(a, b, seed=seed).status == "eq"


def downhill(R, key, grad, d, W):
    """grad . d < 0 for a number of data"""
    dot = sum((E(g) * E(q) for g, q in zip(grad, d)), E(0))
    R.decide(key + ":downhill", T.equal(dot.t, (-fabs(dot)).t, seed=key), "the first step goes uphill", W)


# -------------------------------------------------------------------------------- jobs
def run_nlfit(R):
    T.ND = 6
    jobs = []
    K0, K1 = {1: 0.7}, {2: -0.3}

    def add(name, args=None, two=True, **kw):
        jobs.append((one, name, args, Sc(**kw), two))
    for name in list(SCIPY) + ["AmoebaFitter"]:
        hs = name in SCIPY and SCIPY[name][2]
        add(name)
        add(name, w=True, k0=K0)
        add(name, a="scalar", k1=K1)
        add(name, w=True, a="array", k1=K1, k0=K0, two=True) if name != "AmoebaFitter" else None
        add(name, par0="array", k1=K0)
        add(name, par0="list", two=False)
        add(name, maxiter=321, tol=0.003)
        if name != "AmoebaFitter":
            add(name, ini=(77, 0.02))
            add(name, ini=(77, 0.02), maxiter=55, tol=0.5)
        add(name, kind="lin", w=True, k1=K0)
        if name == "AmoebaFitter" or SCIPY[name][3]:
            for lim in ("pair", "arrays", "lists", "mixed"):
                add(name, lim=lim)
                add(name, lim=lim, k1=K0, w=True)
        if name in SCIPY and SCIPY[name][1] and not SCIPY[name][2]:
            add(name, gradient=False, w=True)
        if name in SCIPY and SCIPY[name][1]:
            add(name, gradient="user", w=True)
            add(name, gradient="user", k1=K0)
        if name in ("SlsqpFitter", "CobylaFitter"):
            add(name, cons=2, w=True)
            add(name, cons=1, k1=K0, callback=name == "SlsqpFitter")
        elif name in SCIPY or name == "AmoebaFitter":
            add(name, callback=True)
    for ed in ERRDIS:
        for name in ("BfgsFitter", "AmoebaFitter", "PowellFitter") if R.tier == "quick" else ("BfgsFitter", "AmoebaFitter", "PowellFitter", "SlsqpFitter", "NelderMeadFitter", "TncFitter"):
            k = "exp" if ed == "poisson" else "nl"
            for keep in (None, {1: 0.7}):
                for sc_ in (None, 1.7):
                    if ed == "poisson" and sc_:
                        continue
                    if not (sc_ and keep):
                        add(name, kind=k, ed=ed, k1=keep, scale=sc_, power=1.4 if ed == "exponential" and sc_ else None)
                    if ERRDIS[ed][1] and (sc_ or keep):
                        add(name, kind=k, ed=ed, k0=keep, scale=sc_, w=True, power=3.2 if ed == "exponential" else None)
    add("BfgsFitter", ed="Gauss", two=False)
    for name in ("NewtonCgFitter", "DoglegFitter", "TrustNcgFitter"):
        for kind in ("lin", "nl"):
            for w in (False, True):
                for k1 in (None, K0):
                    add(name, kind=kind, ed="gauss", w=w, k1=k1, scale=1.7 if w else None)
    for meth in [v[0] for v in SCIPY.values()] + ["bfgs", "Nelder-Mead", None]:
        add("ScipyFitter", args=(meth,), w=True)
    add("ScipyFitter", args=(None,), lim="arrays")
    add("ScipyFitter", args=(None,), cons=2)
    add("ScipyFitter", args=(None,), cons=1, lim="arrays", callback=True)
    add("ScipyFitter", args=(None,), lim="pair", k1=K0)
    for sc in (dict(), dict(w=True, k0=K0), dict(a="scalar", k1=K1), dict(w=True, a="array", k0=K0, k1=K1), dict(a="array"), dict(par0="array", k1=K0), dict(par0="list"),
               dict(lim="pair"), dict(lim="arrays", k1=K0), dict(lim="lists", w=True), dict(lim="mixed"), dict(prior=True), dict(prior=True, k0=K0), dict(prior=True, k1=K0, w=True),
               dict(prior=True, lim="arrays"), dict(scale=0.8), dict(scale=0.8, w=True), dict(kind="lin", w=True, k1=K1)):
        jobs.append((curve, Sc(**sc), True))
    for w in (False, True):
        for k1 in (False, True):
            for nn in (1, 2):
                jobs.append((curve_norm, w, k1, nn))
                jobs.append((levmar_norm, w, k1, nn))
    deep = (4, 3) if R.tier == "quick" else (6, 4)
    for sc in (dict(), dict(w=True, k0=K0), dict(a="scalar", k1=K1), dict(w=True, a="array", k0=K0, k1=K1), dict(par0="array", k1=K0), dict(par0="list"),
               dict(par0="array"), dict(kind="lin", w=True, k1=K0), dict(kind="exp", k1={0: 0.7}), dict(kind="exp", k1={1: 0.7}, par0="array", w=True)):
        jobs.append((levmar, Sc(**sc)) + deep)
    R.parallel(job, jobs)


def job(R, f, *a):
    f(R, *a)
