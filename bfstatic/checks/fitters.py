"""C11 the linear fitters return the least squares optimum, and every derived quantity belongs to the latest fit"""
import math
import numpy as np
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup, crash
from .limits import get

S = T.sym

MODELS = {
    "poly1": ("PolynomialModel", [1], {}),
    "poly2": ("PolynomialModel", [2], {}),
    "fixed": ("PolynomialModel", [2], {"fixed": {0: 1.5}}),
    "harm": ("HarmonicModel", [1], {}),
    "sum": None,
}


def model(I, name):
    if name == "sum":
        return I.binary("Add", I.instantiate(I.cls("PolynomialModel"), [0], {}), I.instantiate(I.cls("HarmonicModel"), [1], {}), None)
    if name == "surf":
        return I.instantiate(I.cls("PolySurfaceModel"), [1], {})
    cls, a, k = MODELS[name]
    k = {q: ADict(v) if isinstance(v, dict) else v for q, v in k.items()}
    return I.instantiate(I.cls(cls), list(a), k)


def det(m):
    k = len(m)
    if k == 0:
        return E(1)
    if k == 1:
        return m[0][0]
    r = E(0)
    for j in range(k):
        r = r + (-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]])
    return r


def inverse(m):
    k = len(m)
    d = det(m)
    return [[(-1) ** (i + j) * det([r[:i] + r[i + 1:] for q, r in enumerate(m) if q != j]) / d for j in range(k)] for i in range(k)]


class Ref(object):
    """what a fit has to yield"""

    def __init__(self, I, m, x, y, w, acc, keep, norm):
        np_ = I.call(I.getattr_(m, "result"), [x, vec([E(0).t] * npar(I, m))])
        n = npar(I, m)
        self.n = n
        self.fit = [k for k in range(n) if k not in keep]
        self.w = E(1) if w is None else E(w)
        self.acc = acc
        W = self.w if acc is None else self.w / (E(acc) * E(acc))
        off = E(np_.a.flat[0])
        cols = []
        for k in range(n):
            u = [E(0).t] * n
            u[k] = 1
            cols.append(E(I.call(I.getattr_(m, "result"), [x, vec(u)]).a.flat[0]) - off)
        self.off, self.cols = off, cols
        for k in keep:
            off = off + E(keep[k]) * cols[k]
        H = [[total(W * cols[k] * cols[l]) for l in self.fit] for k in self.fit]
        b = [total(W * (E(y) - off) * cols[k]) for k in self.fit]
        for row, dat, wt in norm:
            r = E(dat)
            for k in keep:
                r = r - E(keep[k]) * E(row[k])
            for i, k in enumerate(self.fit):
                b[i] = b[i] + E(wt) * r * E(row[k])
                for j, l in enumerate(self.fit):
                    H[i][j] = H[i][j] + E(wt) * E(row[k]) * E(row[l])
        self.H = H
        inv = inverse(H)
        sol = [sum((inv[i][j] * b[j] for j in range(len(b))), E(0)) for i in range(len(b))]
        self.inv = inv
        self.par = [None] * n
        for k in keep:
            self.par[k] = E(keep[k])
        for i, k in enumerate(self.fit):
            self.par[k] = sol[i]
        self.yfit = self.off + sum((self.par[k] * cols[k] for k in range(n)), E(0))
        self.chisq = total(W * (E(y) - self.yfit) ** 2)
        self.sumwgt = total(self.w)
        self.dof = self.sumwgt - len(self.fit)
        self.var = self.chisq / self.dof


def npar(I, m):
    return int(I.getattr_(m, "npchain"))


def flat(v):
    if isinstance(v, Arr):
        return list(v.a.flat), v.a.shape, v.sym
    if isinstance(v, AList):
        return list(v.items), (len(v.items),), (False,)
    return [v], (), ()


def cmp(R, I, kk, got, want, shape, msg, wh, sym=None):
    if got is None:
        return
    f, sh, sy = flat(got)
    if any(isinstance(v, Top) or not (T.isnum(v) or isinstance(v, Term)) for v in f):
        R.undecided(kk, "%r" % (got,))
        return
    if sym is not None and sy != sym or sh != shape:
        R.fail(kk, "%s: has shape %s in stead of %s" % (msg, sh, shape), wh)
        return
    for k, (g, w) in enumerate(zip(f, want)):
        R.decide("%s:%d" % (kk, k) if len(want) > 1 else kk, T.equal(g, E(w).t, seed=kk, assume=None), msg, wh)


def after(R, I, key, name, f, ref, ret):
    """all quantities of the fitter after a fit"""
    wh = lambda meth: zoo.where(I, name, meth)
    n = ref.n
    cmp(R, I, key + ":params", ret, ref.par, (n,), "the parameters returned are not the least squares solution", wh("fit"))
    m = I.getattr_(f, "model")
    cmp(R, I, key + ":model", get(R, key + ":model", wh("fit"), lambda: I.getattr_(m, "parameters")), ref.par, (n,),
        "the parameters of the model are not the least squares solution", wh("fit"))
    A = lambda a: get(R, "%s:%s" % (key, a), wh("__getattr__"), lambda: I.getattr_(f, a))
    cmp(R, I, key + ":chisq", A("chisq"), [ref.chisq], (), "chisq is not the weighted sum of the squared residuals", wh("chiSquared"))
    cmp(R, I, key + ":sumwgt", A("sumwgt"), [ref.sumwgt], (), "sumwgt is not the sum of the weights", wh("fitprolog"))
    cmp(R, I, key + ":npfit", A("npfit"), [len(ref.fit)], (), "npfit is not the number of fitted parameters", wh("fitprolog"))
    cmp(R, I, key + ":scale", A("scale"), [sqrt(ref.var)], (), "scale is not sqrt( chisq / degrees of freedom )", wh("getScale"))
    yf = A("yfit")
    cmp(R, I, key + ":yfit", yf, [ref.yfit], (1,), "yfit is not the result at the fitted parameters", wh("__getattr__"))
    k = len(ref.fit)
    H = [ref.H[i][j] for i in range(k) for j in range(k)]
    C = [ref.inv[i][j] * ref.var for i in range(k) for j in range(k)]
    cmp(R, I, key + ":hessian", A("hessian"), H, (k, k), "hessian is not that of the latest fit", wh("getHessian"))
    for q in ("all", "one", "priors", "noise", "again"):
        if q == "all" and k < n:
            continue          # it is not said whether the list has an item for a kept parameter
        kw = {}
        rng = [E(S("wid%d" % j, "pospar")) for j in range(n)]
        if q == "all":
            kw = {"limits": LIM(n)}
        elif q in ("one", "noise", "again"):
            kw = {"limits": AList([S("lo0"), T.add(S("lo0"), S("wid0", "pospar"))])}
            rng = [rng[0]] * n
        else:
            lo, hi = LIM(n).items
            if get(R, key + ":setLimits", wh("getLogZ"), lambda: I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": lo, "highLimits": hi}) or True) is None:
                continue
        occ, s2 = E(0), E(1)
        if q == "noise":
            kw["noiseLimits"] = AList([S("nlo", "pospar"), T.mul(S("nlo", "pospar"), T.add(1, S("nwid", "pospar")))])
            s2 = ref.var
            occ = 0.5 * log(math.pi / ref.dof) - log(log(1 + E(S("nwid", "pospar"))))
        lz = get(R, "%s:logZ:%s" % (key, q), wh("getLogZ"), lambda: I.call(I.getattr_(f, "getLogZ"), [], kw))
        ll = -0.5 * (ref.sumwgt * log(2 * math.pi * s2) + ref.chisq / s2)
        if ref.acc is not None:
            ll = ll - total(ref.w * log(ref.acc))
        if k:
            occ = occ + 0.5 * k * log(2 * math.pi * s2) - 0.5 * log(det(ref.H)) - sum((log(rng[j]) for j in ref.fit), E(0))
        kk = "%s:%s:%%s" % (key, q)
        cmp(R, I, kk % "logLikelihood", A("logLikelihood"), [ll], (), "logLikelihood is not that of the data", wh("getLogLikelihood"))
        cmp(R, I, kk % "logZ", lz, [ll + occ], (), "logZ is not the evidence integral of the linear model", wh("getLogZ"))
        cmp(R, I, kk % "logOccam", A("logOccam"), [occ], (), "logOccam is not logZ - logLikelihood", wh("getLogZ"))
        if q == "one" and k:
            cmp(R, I, key + ":covariance", A("covariance"), C, (k, k), "covariance is not inverse hessian * scale^2", wh("getCovarianceMatrix"))
            sd = [E(0)] * n
            for i, j in enumerate(ref.fit):
                sd[j] = sqrt(ref.inv[i][i] * ref.var)
            cmp(R, I, key + ":stdevs", A("stdevs"), sd, (n,), "stdevs are not the square roots of the covariance of the fitted parameters, zero when kept", wh("getStandardDeviations"))


def LIM(n):
    return AList([vec([S("lo%d" % k) for k in range(n)]), vec([T.add(S("lo%d" % k), S("wid%d" % k, "pospar")) for k in range(n)])])


#   label, weights, accuracy
DATA = [("", False, None), ("w", True, None), ("a", False, "scalar"), ("A", False, "array"), ("wA", True, "array")]
KEEP = [("", None, None), ("k", {0: 0.7}, None), ("f", None, {1: -0.3}), ("kf", {0: 0.7}, {1: -0.3})]


def data(pre, w, a):
    y = S(pre + "y", "datum")
    kw = {}
    wt = S(pre + "w", "posdatum") if w else None
    acc = None if a is None else S(pre + "acc", "pospar") if a == "scalar" else S(pre + "acc", "posdatum")
    if w:
        kw["weights"] = datum(wt)
    if a == "scalar":
        kw["accuracy"] = acc
    elif a:
        kw["accuracy"] = datum(acc)
    return y, wt, acc, kw


def xdata():
    return datum(S("x", "datum"))


def run_linear(R):
    T.ND = 6
    jobs = []
    for name in ("Fitter", "QRFitter"):
        for mn in ("poly1", "fixed", "harm", "poly2", "sum"):
            if mn in ("poly2", "sum") and R.tier == "quick" and name == "QRFitter":
                continue
            for lab, w, a in DATA:
                for kl, k0, k1 in KEEP:
                    if mn != "poly1" and lab not in ("", "wA") or mn not in ("poly2", "sum") and kl == "kf":
                        continue
                    jobs.append((one, name, mn, lab, w, a, kl, k0, k1))
        for nn in (1, 2):
            for k0, k1 in ((None, None), ({1: 0.7}, None), (None, {0: -0.4})):
                for w in (False, True):
                    if not (w and (nn == 2 or k1)):
                        jobs.append((normalised, name, nn, k0, k1, w, w))
        for w, a in ((False, False), (True, False), (True, True)):
            jobs.append((null, name, w, a))
            jobs.append((mapped, name, w, a))
        jobs.append((rejects, name))
        for how in ("fitter", "xdata", "class"):
            for k0, k1 in ((None, None), ({1: 0.7}, None), (None, {0: -0.4})):
                jobs.append((errorbars, name, how, k0, k1))
    R.parallel(job, jobs)


def job(R, f, *a):
    f(R, *a)


def one(R, name, mn, lab, w, a, kl, k0, k1):
    key = "linear:%s:%s:%s:%s" % (name, mn, lab or "-", kl or "-")
    I = setup()
    I.cls(name)
    wh = zoo.where(I, name, "fit")
    m = get(R, key, wh, lambda: model(I, mn))
    if m is None:
        return
    n = npar(I, m)
    k0 = {k: v for k, v in (k0 or {}).items() if k < n} or None
    k1 = {k: v for k, v in (k1 or {}).items() if k < n} or None
    kw = {} if k0 is None else {"keep": ADict(k0)}
    x = xdata()
    f = get(R, key, wh, lambda: I.instantiate(I.cls(name), [x, m], kw))
    if f is None:
        return
    y, wt, acc, fkw = data("", w, a)
    if k1 is not None:
        k1 = {**(k0 or {}), **k1}     # the indices kept in this fit
        fkw["keep"] = ADict(k1)
    ret = get(R, key + ":fit", wh, lambda: I.call(I.getattr_(f, "fit"), [datum(y)], fkw))
    if ret is None:
        return
    ref = Ref(I, m, x, y, wt, acc, k1 if k1 is not None else (k0 or {}), [])
    after(R, I, key, name, f, ref, ret)
    # a second fit, to other data with other weights; afterwards everything has to belong to that one
    y, wt, acc, fkw = data("2", not w, None if a == "array" else "array")
    ret = get(R, key + ":refit", wh, lambda: I.call(I.getattr_(f, "fit"), [datum(y)], fkw))
    if ret is None:
        return
    ref = Ref(I, m, x, y, wt, acc, k0 or {}, [])
    after(R, I, key + ":refit", name, f, ref, ret)
    R.functions |= I.visited


def normalised(R, name, nn, k0, k1, w, a):
    """a dummy measurement of combinations of the parameters; three concrete data points"""
    key = "normalize:%s:%d:%s:%s" % (name, nn, "k" if k0 else "f" if k1 else "-", "wA" if w else "-")
    I = setup()
    I.cls(name)
    wh = zoo.where(I, name, "fit")
    N = 4
    x = vec([S("x%d" % i) for i in range(N)])
    y = vec([S("y%d" % i) for i in range(N)])
    wt = [S("w%d" % i, "pospar") for i in range(N)]
    ac = [S("a%d" % i, "pospar") for i in range(N)]
    n = 3 if k0 or k1 else 2
    m = model(I, "poly%d" % (n - 1))
    f = get(R, key, wh, lambda: I.instantiate(I.cls(name), [x, m], {"keep": ADict(k0)} if k0 else {}))
    if f is None:
        return
    norms = []
    for q in range(nn):
        row = [S("r%d%d" % (q, k)) for k in range(n)]
        norms.append((row, S("d%d" % q), S("nw%d" % q, "pospar")))
        ok = get(R, key + ":normalize", wh, lambda: I.call(I.getattr_(f, "normalize"), [vec(row), norms[-1][1]], {"weight": norms[-1][2]}) or True)
        if ok is None:
            return
    kw = {}
    if w:
        kw["weights"] = vec(wt)
    if a:
        kw["accuracy"] = vec(ac)
    if k1:
        kw["keep"] = ADict(k1)
    ret = get(R, key + ":fit", wh, lambda: I.call(I.getattr_(f, "fit"), [y.copy()], kw))
    if ret is None:
        return
    keep = k1 or k0 or {}
    fit = [k for k in range(n) if k not in keep]
    W = [(E(wt[i]) if w else E(1)) / (E(ac[i]) ** 2 if a else E(1)) for i in range(N)]
    if not isinstance(ret, Arr):
        R.undecided(key, "%r" % (ret,))
        return
    fx, sh, sy = flat(ret)
    if sh != (n,):
        R.fail(key + ":params", "parameters have shape %s" % (sh,), wh)
        return
    p = [E(v) for v in fx]
    res = []
    for i in range(N):
        res.append(E(y.a[i]) - sum((p[k] * E(x.a[i]) ** k for k in range(n)), E(0)))
    for k in range(n):
        kk = "%s:p%d" % (key, k)
        if k in keep:
            R.decide(kk, T.equal(p[k].t, keep[k], seed=kk), "a kept parameter is not at its value", wh)
            continue
        g = sum((W[i] * res[i] * E(x.a[i]) ** k for i in range(N)), E(0))
        for row, d, nw in norms:
            g = g + E(nw) * (E(d) - sum((E(row[j]) * p[j] for j in range(n)), E(0))) * E(row[k])
        R.decide(kk, T.equal(g.t, 0, seed=kk), "the sum of the weighted squared residuals of data and normalisations is not stationary in parameter %d" % k, wh)
    chi = sum((W[i] * res[i] ** 2 for i in range(N)), E(0))
    A = lambda a_: get(R, "%s:%s" % (key, a_), wh, lambda: I.getattr_(f, a_))
    cmp(R, I, key + ":chisq", A("chisq"), [chi], (), "chisq is not that of the data", zoo.where(I, name, "chiSquared"))
    H = [[sum((W[i] * E(x.a[i]) ** (k + l) for i in range(N)), E(0)) + sum((E(nw) * E(row[k]) * E(row[l]) for row, d, nw in norms), E(0)) for l in fit] for k in fit]
    cmp(R, I, key + ":hessian", A("hessian"), [h for r in H for h in r], (len(fit), len(fit)), "hessian is not that of the data and the normalisations", zoo.where(I, name, "getHessian"))
    R.functions |= I.visited


def errorbars(R, name, how, k0, k1):
    """error bars on a fit of a straight line or parabola: the expected variance is that of the covariance.
    The variance is a quadratic form in the (independent, normal) random numbers; its expectation is the trace"""
    key = "errorbar:%s:%s:%s" % (name, how, "k" if k0 else "f" if k1 else "-")
    I = setup()
    I.cls(name)
    wh = zoo.where(I, "MonteCarlo", "getError") if I.cls("MonteCarlo") else None
    n = 3 if k0 or k1 else 2
    m = model(I, "poly%d" % (n - 1))
    xs = [-1.0, 0.25, 1.5, 2.0, 3.25]
    f = get(R, key, wh, lambda: I.instantiate(I.cls(name), [vec(xs), m], {"keep": ADict(k0)} if k0 else {}))
    if f is None:
        return
    keep = k1 or k0 or {}
    fit = [k for k in range(n) if k not in keep]
    if get(R, key + ":fit", wh, lambda: I.call(I.getattr_(f, "fit"), [vec([0.3, -1.25, 2.0, 0.75, 1.5])], {"keep": ADict(k1)} if k1 else {})) is None:
        return
    zs = []

    def script(I_, meth, args, kw):
        if meth in ("standard_normal", "normal", "randn"):
            size = kw.get("size")
            if size is None:
                size = tuple(args) if meth == "randn" else args[0] if meth == "standard_normal" and args else args[2] if len(args) > 2 else None
            sc = (kw.get("loc", args[0] if args else 0), kw.get("scale", args[1] if len(args) > 1 else 1)) if meth == "normal" else (0, 1)

            def one_():
                zs.append(S("z%d" % len(zs)))
                return (E(sc[0]) + E(sc[1]) * E(zs[-1])).t
            if size is None or size == ():
                return one_()
            r = I_.np.filled(size, 0, "float")
            for i in np.ndindex(r.a.shape):
                r.a[i] = one_()
            return r
        return NotImplemented
    I.draw_script = script
    at = [-2.0, 0.5, 4.0]
    cov = get(R, key + ":cov", wh, lambda: I.getattr_(f, "covariance"))
    if how == "fitter":
        err = get(R, key, wh, lambda: I.call(I.getattr_(f, "monteCarloError"), [], {"xdata": vec(at)}))
    elif how == "xdata":
        at = xs
        err = get(R, key, wh, lambda: I.call(I.getattr_(f, "monteCarloError"), []))
    else:
        mc = get(R, key, wh, lambda: I.instantiate(I.cls("MonteCarlo"), [vec(xs), m, cov], {"index": AList(fit), "mcycles": 7, "seed": 11} if k0 or k1 else {"mcycles": 7}))
        err = None if mc is None else get(R, key, wh, lambda: I.call(I.getattr_(mc, "getError"), [vec(at)]))
    if err is None or cov is None:
        return
    if not isinstance(err, Arr) or err.a.shape != (len(at),) or I.np.numeric(cov) is None:
        R.undecided(key, "%r" % (err,))
        return
    cov = I.np.numeric(cov)
    cycles = len(zs) // len(fit)
    if len(zs) != cycles * len(fit) or cycles < 2 or how == "class" and cycles != 7:
        R.fail(key + ":draws", "%d random numbers are drawn for %d parameters" % (len(zs), len(fit)), wh)
        return
    for i, xx in enumerate(at):
        tr = 0.0
        t2 = T.mul(err.a[i], err.a[i])
        for z in zs:
            v = T.subst(t2, {q: (1.0 if q is z else 0.0) for q in zs})
            if not T.isnum(v):
                R.undecided("%s:%d" % (key, i), "%r" % (v,))
                break
            tr += float(v)
        else:
            row = np.array([xx ** k for k in fit])
            want = float(row @ cov @ row) * (1 - 1.0 / cycles)
            kk = "%s:%d" % (key, i)
            if abs(tr - want) <= 1e-8 * max(abs(want), 1e-12):
                R.hold(kk)
            else:
                R.fail(kk, "the error bar at %g has an expected variance of %g, while the covariance of the fit yields %g" % (xx, tr, want), wh)
    cmp(R, I, key + ":pars", I.getattr_(m, "parameters"), [v for v in I.getattr_(f, "parameters").a.flat] if "parameters" in f.attrs else list(I.getattr_(m, "parameters").a.flat), (n,), "the parameters of the model are changed", wh)
    R.functions |= I.visited


def null(R, name, w, a):
    key = "null:%s:%s%s" % (name, "w" if w else "", "a" if a else "")
    I = setup()
    I.cls(name)
    wh = zoo.where(I, name, "fit")
    m = get(R, key, wh, lambda: I.instantiate(I.cls("ConstantModel"), [], {"values": 1.5}))
    if m is None:
        return
    f = get(R, key, wh, lambda: I.instantiate(I.cls(name), [xdata(), m], {}))
    if f is None:
        return
    y, wt, acc, fkw = data("", w, "array" if a else None)
    ret = get(R, key + ":fit", wh, lambda: I.call(I.getattr_(f, "fit"), [datum(y)], fkw))
    if ret is None:
        return
    W = E(1)
    if w:
        W = W * E(wt)
    if a:
        W = W / (E(acc) ** 2)
    cmp(R, I, key + ":chisq", get(R, key + ":chisq", wh, lambda: I.getattr_(f, "chisq")), [total(W * (E(y) - 1.5) ** 2)], (),
        "chisq is not the weighted sum of the squared residuals", wh)


def mapped(R, name, w, a):
    """a map (2-d image) of data: the same as its pixels"""
    key = "map:%s:%s%s" % (name, "w" if w else "", "a" if a else "")
    I = setup()
    I.cls(name)
    wh = zoo.where(I, name, "fit")
    sh = (3, 2)
    def img(pre, kind="param"):
        b = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            b[i] = S("%s%d%d" % ((pre,) + i), kind)
        return Arr(b)
    y, wt, ac = img("y"), img("w", "pospar"), img("a", "pospar")
    m = model(I, "surf")
    f = get(R, key, wh, lambda: I.instantiate(I.cls(name), [y.copy(), m], {"map": True}))
    if f is None:
        return
    kw = {}
    if w:
        kw["weights"] = wt.copy()
    if a:
        kw["accuracy"] = ac.copy()
    ret = get(R, key + ":fit", wh, lambda: I.call(I.getattr_(f, "fit"), [y.copy()], kw))
    if ret is None:
        return
    if not isinstance(ret, Arr):
        R.undecided(key, "%r" % (ret,))
        return
    fx, s, sy = flat(ret)
    if s != (3,):
        R.fail(key + ":params", "parameters have shape %s" % (s,), wh)
        return
    p = [E(v) for v in fx]
    W = {i: (E(wt.a[i]) if w else E(1)) / (E(ac.a[i]) ** 2 if a else E(1)) for i in np.ndindex(sh)}
    fit = {i: p[0] + p[1] * i[0] + p[2] * i[1] for i in np.ndindex(sh)}
    alt = {i: p[0] + p[1] * i[1] + p[2] * i[0] for i in np.ndindex(sh)}
    yf = get(R, key + ":yfit", wh, lambda: I.getattr_(f, "yfit"))
    fy, s2, _ = flat(yf)
    if s2 != sh:
        R.fail(key + ":yfit", "yfit has shape %s, the map has %s" % (s2, sh), wh)
        return
    for g, d in (("0", lambda i: 1), ("1", lambda i: i[0]), ("2", lambda i: i[1])):
        tot = sum((W[i] * (E(y.a[i]) - E(yf.a[i])) * d(i) for i in np.ndindex(sh)), E(0))
        kk = "%s:stationary%s" % (key, g)
        R.decide(kk, T.equal(tot.t, 0, seed=kk), "the residuals of the map are not orthogonal to the model", wh)
    chi = sum((W[i] * (E(y.a[i]) - E(yf.a[i])) ** 2 for i in np.ndindex(sh)), E(0))
    sw = sum((E(wt.a[i]) for i in np.ndindex(sh)), E(0)) if w else E(6)
    A = lambda a_: get(R, "%s:%s" % (key, a_), wh, lambda: I.getattr_(f, a_))
    cmp(R, I, key + ":chisq", A("chisq"), [chi], (), "chisq is not that of the map", zoo.where(I, name, "chiSquared"))
    cmp(R, I, key + ":sumwgt", A("sumwgt"), [sw], (), "sumwgt is not that of the map", zoo.where(I, name, "fitprolog"))
    cmp(R, I, key + ":scale", A("scale"), [sqrt(chi / (sw - 3))], (), "scale is not that of the map", zoo.where(I, name, "getScale"))
    R.functions |= I.visited


def rejects(R, name):
    """data which are not finite are refused"""
    for what in ("xdata", "ydata", "weights", "accuracy", "zero"):
        for bad in (float("nan"), float("inf"), float("-inf")):
            if what == "xdata" and bad != bad or what == "zero" and bad != bad or what not in ("xdata", "zero"):
                pass
            elif bad == bad:
                continue
            key = "reject:%s:%s:%s" % (name, what, bad)
            I = setup()
            I.cls(name)
            wh = zoo.where(I, "BaseFitter", "checkNan")
            v = {"xdata": [0.0, 1.0, 2.0, 3.0], "ydata": [0.5, 0.2, 0.9, 0.7], "weights": [1.0, 2.0, 1.0, 0.5], "accuracy": [0.5, 1.0, 0.3, 0.2]}
            if what == "zero":
                v["accuracy"][2] = 0.0
            else:
                v[what][2] = bad
            try:
                m = model(I, "poly1")
                f = I.instantiate(I.cls(name), [vec(v["xdata"]), m], {})
                kw = {k: vec(v[k]) for k in ("weights", "accuracy")}
                I.call(I.getattr_(f, "fit"), [vec(v["ydata"])], kw)
                R.fail(key, "%s with %s is accepted" % (what, 0.0 if what == "zero" else bad), wh)
            except AbsRaise as e:
                if e.name == "ValueError":
                    R.hold(key)
                else:
                    R.fail(key, "%s with %s raises %s" % (what, bad, e.name), wh)
            except Unsupported as e:
                R.undecided(key, e)
