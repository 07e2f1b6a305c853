"""C01 partial = d result / d param ; C02 derivative = d result / d x"""
import mpmath
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo


def numeric(I, f, args, kw, node):
    return Top("numeric approximation")


def kepler(I, f, args, kw, node):
    """the iterative solution of Kepler's equation is taken as exact: E - e sin(E) = M.
    The program's sign convention is M + e sin(E) = E."""
    self, xdata, params = args[:3]
    M = I.call(I.getattr_(self, "meanAnomaly"), [xdata, params])
    e = I.np.getitem(params, 0)
    E = I.np.elementwise(lambda m: T.fn("kepler", e, m), M)
    I.raw_setattr(self, "iter", 1)
    I.raw_setattr(self, "sinE", I.np.elementwise(lambda t: T.fn("sin", t), E))
    I.raw_setattr(self, "cosE", I.np.elementwise(lambda t: T.fn("cos", t), E))
    return E


def setup():
    I = Interp()
    I.hooks["Kepplers2ndLaw.eccentricAnomaly"] = kepler
    I.hooks["FixedModel.numPartial"] = numeric
    I.hooks["FixedModel.numDerivative"] = numeric
    I.hooks["FixedModel.basePartial"] = numeric
    I.hooks["FixedModel.baseDerivative"] = numeric
    return I


def columns(v):
    """[(key, term)] of an (N,k) or (N,) array"""
    return v


CRASH = ("NameError", "UnboundLocalError", "AttributeError", "TypeError")


def crash(e):
    """an abstract exception that is a defect whatever the values are"""
    return e.name in CRASH or (e.name == "ValueError" and str(e.value).startswith("broadcast"))


def run_partial(R):
    I0 = setup()
    for lab, name, mod, build in list(zoo.instances(I0, big=True)):
        I = setup()
        key = "partial:" + lab
        try:
            m = build(I)
            x = zoo.xdata_of(m)
            p = zoo.model_params(I, m)
            p0 = p.copy()
            x0 = x.copy()
            res = I.call(I.getattr_(m, "result"), [x, p])
            par = I.call(I.getattr_(m, "partial"), [x, p])
        except AbsRaise as e:
            wh = zoo.where(I, name, "basePartial")
            if crash(e):
                R.fail(key + ":raises", "evaluating result or partial on valid input raises %s (%s)" % (e.name, e.value), wh)
            else:
                R.undecided(key, "raises %s" % e.name)
            continue
        except Unsupported as e:
            R.undecided(key, "unsupported %s" % e)
            continue
        R.functions |= I.visited
        compare_partial(R, I, m, name, key, res, par, p0, xs=list(x0.a.flat) if name not in ("FootballModel",) else None)


def special(R, kk, got, want, xs, ps, what, wh):
    """at points where a formula may be singular (the center, the origin, a knot): where the exact derivative has a limit,
    the value has to be that limit"""
    pts = [("0", {x: lambda ip, i: mpmath.mpf(0) for x in xs})]
    if len(ps) > len(xs):
        pts.append(("center", {x: (lambda ip, i, q=ps[1 + k]: ip.num(q, i)) for k, x in enumerate(xs)}))
    if len(xs) == 1:
        pts.append(("knot", {xs[0]: lambda ip, i: mpmath.mpf(float(0.2))}))
    got, want = T.lift(got), T.lift(want)
    EPS = mpmath.mpf(10) ** -8

    def at(t, over, eps, reg):
        ip = T.Interp(kk, reg)
        for n, (s, f) in enumerate(over.items()):
            ip.over[s] = lambda ip, i, f=f, e=eps * (1 + n): f(ip, i) + e
        v = ip.num(t, 0)
        if not mpmath.isfinite(v):
            raise T.DomainError("infinite")
        return v
    ERR = (T.DomainError, ZeroDivisionError, OverflowError, ValueError)
    for lab, over in pts:
        seen = False
        for reg in (0, 1):
            try:
                w = [at(want, over, e, reg) for e in (EPS, -EPS, EPS / 64, -EPS / 64)]
                if any(abs(v - w[0]) > mpmath.mpf(10) ** -5 * (1 + abs(w[0])) for v in w):
                    continue
            except ERR:
                continue
            seen = True
            try:
                v = at(got, over, 0, reg)
                bad = abs(v - w[0]) > mpmath.mpf(10) ** -4 * (1 + abs(w[0]))
            except ERR:
                v, bad = "undefined", True
            if bad:
                R.fail("%s@%s" % (kk, lab), "%s at the %s is %s, while the exact value is %s" % (
                    what, "origin" if lab == "0" else lab, v if isinstance(v, str) else mpmath.nstr(v, 8), mpmath.nstr(w[0], 8)), wh)
                return
        if seen:
            R.hold("%s@%s" % (kk, lab))


def compare_partial(R, I, m, name, key, res, par, p, xs=None):
    wh = zoo.where(I, name, "basePartial")
    if isinstance(par, Top) or isinstance(res, Top):
        R.undecided(key, "partial %r result %r %s" % (par, res, I.notes[-2:]))
        return
    npar = p.a.size
    outs = []
    multi = isinstance(res, Arr) and res.a.ndim == 2
    if isinstance(par, (AList, tuple)):
        for j, q in enumerate(I.iterate(par)):
            if multi and j < res.a.shape[1]:
                outs.append(("[%d]" % j, res.a[:, j], q))
    elif isinstance(par, Arr) and isinstance(res, Arr) and res.a.ndim == 1:
        outs.append(("", res.a, par))
    elif isinstance(par, Arr) and multi and par.a.ndim == 2 and res.a.shape[1] == 1:
        outs.append(("", res.a[:, 0], par))
    if not outs:
        R.undecided(key, "shapes %r %r" % (res, par))
        return
    for sub, r, q in outs:
        if not isinstance(q, Arr) or q.a.ndim != 2:
            R.undecided(key + sub, "no matrix %r" % (q,))
            continue
        if q.a.shape[1] != npar:
            R.fail(key + sub + ":shape", "partial has %d columns for %d parameters" % (q.a.shape[1], npar), wh)
            continue
        if q.a.shape[0] != r.shape[0]:
            R.undecided(key + sub, "rows %r %r" % (q.a.shape, r.shape))
            continue
        for row in range(r.shape[0]):
            for k in range(npar):
                kk = "%s%s:p%d" % (key, sub, k) + (":row%d" % row if r.shape[0] > 1 else "")
                try:
                    d = T.diff(r[row], p.a[k])
                except T.NotDifferentiable as e:
                    R.undecided(kk, "not differentiable %s" % e)
                    continue
                v = T.equal(q.a[row, k], d, seed=kk)
                R.decide(kk, v, "partial to parameter %d is not the derivative of the result" % k, wh)
                if xs is not None and v.status == "eq":
                    special(R, kk, q.a[row, k], d, xs, list(p.a.flat), "partial to parameter %d" % k, wh)


def run_derivative(R):
    I0 = setup()
    for lab, name, mod, build in list(zoo.instances(I0, big=True)):
        I = setup()
        key = "derivative:" + lab
        wh = zoo.where(I, name, "baseDerivative")
        try:
            m = build(I)
            x = zoo.xdata_of(m)
            x0 = x.copy()
            p = zoo.model_params(I, m)
            if I.find(m.cls, "baseDerivative") is None:
                R.undecided(key, "no derivative provided")
                continue
            res = I.call(I.getattr_(m, "result"), [x, p])
            der = I.call(I.getattr_(m, "derivative"), [x, p])
        except AbsRaise as e:
            wh = zoo.where(I, name, "baseDerivative")
            if crash(e):
                R.fail(key + ":raises", "evaluating result or derivative on valid input raises %s (%s)" % (e.name, e.value), wh)
            else:
                R.undecided(key, "raises %s" % e.name)
            continue
        except Unsupported as e:
            R.undecided(key, "unsupported %s" % e)
            continue
        R.functions |= I.visited
        wh = zoo.where(I, name, "baseDerivative")
        compare_derivative(R, I, key, wh, res, der, x0, ps=list(p.a.flat))


def compare_derivative(R, I, key, wh, res, der, x, ps=None):
    if isinstance(res, Top) or isinstance(der, Top):
        R.undecided(key, "result %r derivative %r %s" % (res, der, I.notes[-2:]))
        return
    pairs = []
    nd = x.a.shape[1] if x.a.ndim == 2 else 1
    xs = list(x.a.flat)

    def one(sub, r, d):
        if d is None:
            R.fail(key + sub + ":none", "derivative returns None", wh)
            return
        if not isinstance(d, Arr):
            R.undecided(key + sub, "derivative %r" % (d,))
            return
        if x.a.ndim == 1:
            if d.a.size != 1:
                R.fail(key + sub + ":shape", "derivative has shape %s for N inputs" % (d.a.shape,), wh)
                return
            pairs.append((key + sub, r, d.a.flat[0], xs[0]))
        else:
            if d.a.ndim != 2 or d.a.shape[1] != nd:
                R.fail(key + sub + ":shape", "derivative has shape %s for %d-dimensional input" % (d.a.shape, nd), wh)
                return
            for i in range(nd):
                pairs.append(("%s%s:x%d" % (key, sub, i), r, d.a[0, i], xs[i]))
    if isinstance(der, (AList, tuple)):
        der = AList(I.iterate(der))
        if isinstance(res, Arr) and res.a.ndim == 2:
            for j in range(min(len(der.items), res.a.shape[1])):
                one("[%d]" % j, res.a[0, j], der.items[j])
        else:
            R.fail(key + ":shape", "derivative is a list for a single-valued result", wh)
            return
    elif isinstance(res, Arr) and res.a.ndim == 2 and res.a.shape[1] > 1:
        if x.a.ndim == 1 and isinstance(der, Arr) and der.a.ndim == 2 and der.a.shape[1] == res.a.shape[1]:
            for j in range(res.a.shape[1]):
                one("[%d]" % j, res.a[0, j], Arr(der.a[:, j]))
        else:
            R.undecided(key, "multi output %r" % (der,))
            return
    elif isinstance(res, Arr):
        one("", res.a.flat[0], der)
    else:
        R.undecided(key, "result %r" % (res,))
        return
    for kk, r, d, xx in pairs:
        try:
            t = T.diff(r, xx)
        except T.NotDifferentiable as e:
            R.undecided(kk, "not differentiable %s" % e)
            continue
        v = T.equal(d, t, seed=kk)
        R.decide(kk, v, "derivative is not the derivative of the result to the input", wh)
        if ps is not None and v.status == "eq":
            special(R, kk, d, t, xs, ps, "derivative", wh)
