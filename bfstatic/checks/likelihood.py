"""C06 log-likelihood = sum of the log of the documented density;  C07 its gradient"""
import math
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup, crash

L2PI = E(T.fn("log", 2 * math.pi))


class Case(object):
    pass


def S(name, kind="param"):
    return T.sym(name, kind)


def data(which):
    """abstract problem data: (ydata, weights, accuracy)"""


# (label, weights?, accuracy: None | 'scalar' | 'array')
VARIANTS = [("", False, None), ("w", True, None), ("a", False, "scalar"), ("A", False, "array"), ("i", False, "int"), ("wi", True, "int"), ("wa", True, "scalar"), ("wA", True, "array")]

#  name: (number of hyperparameters, weights honoured, uses accuracy, model)
DISTS = {
    "GaussErrorDistribution": (1, True, True),
    "LaplaceErrorDistribution": (1, True, True),
    "CauchyErrorDistribution": (1, False, True),
    "UniformErrorDistribution": (1, True, True),
    "ExponentialErrorDistribution": (2, True, True),
    "PoissonErrorDistribution": (0, False, False),
    "BernoulliErrorDistribution": (0, False, False),
}


def density(name, y, f, hyp, acc, w):
    """documented log density of one datum; acc is None or the accuracy"""
    r = y - f
    one = E(1)
    w = one if w is None else w
    if name == "GaussErrorDistribution":
        s2 = hyp[0] ** 2 + (E(0) if acc is None else acc ** 2)
        return w * (-0.5 * r * r / s2 - 0.5 * (L2PI + log(s2)))
    if name == "LaplaceErrorDistribution":
        s = hyp[0] if acc is None else acc
        return w * (-fabs(r) / s - log(2 * s))
    if name == "CauchyErrorDistribution":
        s = hyp[0] if acc is None else acc
        return log(s) - log(E(math.pi)) - log(s * s + r * r)
    if name == "UniformErrorDistribution":
        s = hyp[0] if acc is None else acc
        return w * where(fabs(r) < s, -log(2 * s), E(float("-inf")))
    if name == "ExponentialErrorDistribution":
        s = hyp[0] if acc is None else acc
        q = hyp[1]
        return w * (log(q / (2 * s)) - lgamma(1 / q) - (fabs(r) / s) ** q)
    if name == "PoissonErrorDistribution":
        return y * log(f) - f - logfact(y)
    raise KeyError(name)


HYP = {0: [], 1: ["scale"], 2: ["scale", "power"]}


def make_model(I, name):
    """(model, parameters)"""
    if name == "PoissonErrorDistribution":
        m = I.instantiate(I.cls("ExpModel"), [], {})
        return m, [S("p0", "pospar"), S("p1")]
    if name == "BernoulliErrorDistribution":
        m = I.instantiate(I.cls("LogisticModel"), [], {})
        return m, [S("p0", "unit"), S("p1"), S("p2")]
    m = I.instantiate(I.cls("ExpModel"), [], {})
    return m, [S("p0"), S("p1")]


def problem(I, model, wgt, acc, cls="ClassicProblem", y=None, x=None):
    kw = {"model": model, "xdata": x if x is not None else zoo.xdata_of(model),
          "ydata": y if y is not None else datum(S("y", "datum"))}
    if wgt:
        kw["weights"] = datum(S("w", "posdatum"))
    if acc == "scalar":
        kw["accuracy"] = S("acc", "pospar")
    elif acc == "int":
        kw["accuracy"] = 2
    elif acc == "array":
        kw["accuracy"] = datum(S("acc", "posdatum"))
    return I.instantiate(I.cls(cls), [], kw)


def cases(tier):
    for name in DISTS:
        nh, hw, ha = DISTS[name]
        for lab, w, a in VARIANTS:
            if (w and not hw and tier == "quick") or (a and not ha):
                continue
            if w and not hw:
                continue
            yield name, lab, w, a


def evaluate(I, name, w, a, big=False):
    c = Case()
    nh = DISTS[name][0]
    c.model, c.pars = make_model(I, name)
    y = datum(S("y", "intdatum"), dtype="int") if name == "PoissonErrorDistribution" else None
    c.problem = problem(I, c.model, w, a, y=y)
    if nh:
        kw = {"limits": AList([0.1, 10.0])}
        if nh == 2:
            kw["limits"] = AList([AList([0.1, 0.5]), AList([10.0, 9.0])])
    else:
        kw = {}
    c.ed = I.instantiate(I.cls(name), [], kw)
    c.hyp = [S(h, "bigpar" if big else "pospar") for h in HYP[nh]]
    c.all = vec(c.pars + c.hyp)
    c.y = y.a.flat[0] if y is not None else S("y", "datum")
    c.w = S("w", "posdatum") if w else None
    c.acc = None if a is None else 2 if a == "int" else S("acc", "pospar") if a == "scalar" else S("acc", "posdatum")
    c.f = I.call(I.getattr_(c.model, "result"), [zoo.xdata_of(c.model), vec(c.pars)]).a.flat[0]
    return c


def want_of(name, c):
    return total(density(name, E(c.y), E(c.f), [E(h) for h in c.hyp], None if c.acc is None else E(c.acc),
                         None if c.w is None else E(c.w))).t


def run_logl(R):
    for name, lab, w, a in cases(R.tier):
        I = setup()
        I.cls(name)
        wh = zoo.where(I, name, "logLdata")
        key = "logL:%s:%s" % (name, lab or "-")
        try:
            c = evaluate(I, name, w, a)
        except (AbsRaise, Unsupported) as e:
            R.undecided(key, "construction: %s" % e)
            continue
        for meth in ("logLhood", "logLikelihood_alt"):
            one_logl(R, I, name, c, key, meth, wh)
        if name == "BernoulliErrorDistribution":
            continue
    multi(R)
    mixed(R)
    xy(R)
    sigma(R)


def one_logl(R, I, name, c, key, meth, wh, want=None):
    key = key + ":" + meth
    try:
        got = I.call(I.getattr_(c.ed, meth), [c.problem, c.all.copy()])
    except AbsRaise as e:
        if crash(e):
            R.fail(key + ":raises", "the log-likelihood raises %s (%s)" % (e.name, e.value), wh)
        else:
            R.undecided(key, "raises %s %s" % (e.name, e.value))
        return
    except Unsupported as e:
        R.undecided(key, e)
        return
    R.functions |= I.visited
    if isinstance(got, Arr) and got.a.size == 1:
        got = got.a.flat[0]
    if not (isinstance(got, Term) or T.isnum(got)):
        R.undecided(key, "log-likelihood %r" % (got,))
        return
    if want is None:
        if name == "BernoulliErrorDistribution":
            # category 0: success with probability f
            for cat, dens in ((0, log(E(c.f))), (1, log(1 - E(c.f)))):
                g = T.subst(got, {c.y: cat})
                R.decide(key + ":cat%d" % cat, T.equal(g, total(dens).t, seed=key), "the log-likelihood of category %d" % cat, wh)
            return
        want = want_of(name, c)
    R.decide(key, T.equal(got, want, seed=key, inf=True), "the log-likelihood is not the sum of the documented log density", wh)


def multi_case(I, name, wlab, big=False):
    c = Case()
    c.model = I.instantiate(I.cls("SoftMaxModel"), [], {"ndim": 2, "ndout": 2, "normed": False})
    n = c.model.attrs["npbase"]
    c.pars = [S("p%d" % k) for k in range(n)]
    ys = [S("y0", "datum"), S("y1", "datum")]
    kw = {"model": c.model, "xdata": zoo.xdata_of(c.model), "ydata": datum2(list(ys))}
    c.w = None
    if wlab == "w1":
        kw["weights"] = datum(S("w", "posdatum"))
        c.w = [S("w", "posdatum")] * 2
    elif wlab == "w2":
        c.w = [S("w0", "posdatum"), S("w1", "posdatum")]
        kw["weights"] = datum2(list(c.w))
    c.acc = None
    if wlab == "A":
        kw["accuracy"] = datum(S("acc", "posdatum"))
        c.acc = [S("acc", "posdatum")] * 2
    if wlab == "a":
        kw["accuracy"] = S("acc", "pospar")
        c.acc = [S("acc", "pospar")] * 2
    if wlab == "A2":
        c.acc = [S("a0", "posdatum"), S("a1", "posdatum")]
        kw["accuracy"] = datum2(list(c.acc))
    c.problem = I.instantiate(I.cls("MultipleOutputProblem"), [], kw)
    nh = DISTS[name][0]
    lim = AList([0.1, 10.0]) if nh == 1 else AList([AList([0.1, 0.5]), AList([10.0, 9.0])])
    c.ed = I.instantiate(I.cls(name), [], {"limits": lim})
    c.hyp = [S(h, "bigpar" if big else "pospar") for h in HYP[nh]]
    c.all = vec(c.pars + c.hyp)
    res = I.call(I.getattr_(c.model, "result"), [zoo.xdata_of(c.model), vec(c.pars)])
    c.f = list(res.a.flat)
    want = 0
    for j in range(2):
        want = want + total(density(name, E(ys[j]), E(c.f[j]), [E(h) for h in c.hyp], E(c.acc[j]) if c.acc else None,
                                    E(c.w[j]) if c.w else None))
    c.want = want.t
    return c


MULTI = [(n, w) for n in ("GaussErrorDistribution", "LaplaceErrorDistribution", "CauchyErrorDistribution",
                          "UniformErrorDistribution", "ExponentialErrorDistribution")
         for w in ("", "w1", "w2", "a", "A", "A2") if not (n.startswith("Cauchy") and w.startswith("w"))]


def multi(R):
    """model with two outputs: data, weights and accuracies of every output count once"""
    for name, w in MULTI:
        I = setup()
        key = "multi:%s:%s" % (name, w or "-")
        wh = zoo.where(I, I.cls(name), "logLdata")
        try:
            c = multi_case(I, name, w)
        except AbsRaise as e:
            if crash(e):
                R.fail(key + ":problem", "a problem with two outputs raises %s (%s)" % (e.name, e.value), wh)
            else:
                R.undecided(key, "construction: %s" % e)
            continue
        except Unsupported as e:
            R.undecided(key, "construction: %s" % e)
            continue
        for meth in ("logLhood", "logLikelihood_alt"):
            one_logl(R, I, name, c, key, meth, wh, c.want)


MIXED = [("GaussErrorDistribution", "LaplaceErrorDistribution"), ("LaplaceErrorDistribution", "GaussErrorDistribution"),
         ("GaussErrorDistribution", "GaussErrorDistribution"),
         ("GaussErrorDistribution", "CauchyErrorDistribution"), ("GaussErrorDistribution", "UniformErrorDistribution"),
         ("ExponentialErrorDistribution", "GaussErrorDistribution"), ("GaussErrorDistribution", "ExponentialErrorDistribution")]


def mixed_case(I, n1, n2, w=False, a=None):
    c = Case()
    c.model, c.pars = make_model(I, n1)
    c.problem = problem(I, c.model, w, a)
    eds = []
    c.hyp = []
    hs = []
    for j, nm in enumerate((n1, n2)):
        nh = DISTS[nm][0]
        lim = AList([0.1, 10.0]) if nh == 1 else AList([AList([0.1, 0.5]), AList([10.0, 9.0])])
        eds.append(I.instantiate(I.cls(nm), [], {"limits": lim}))
        hh = [S("%s%d" % (h, j), "pospar") for h in HYP[nh]]
        hs.append(hh)
        c.hyp += hh
    c.frac = S("frac", "unit")
    c.ed = I.instantiate(I.cls("MixedErrorDistribution"), eds, {"limits": AList([0, 1])})
    c.all = vec(c.pars + c.hyp + [c.frac])
    c.f = I.call(I.getattr_(c.model, "result"), [zoo.xdata_of(c.model), vec(c.pars)]).a.flat[0]
    y = E(S("y", "datum"))
    acc = None if a is None else E(S("acc", "pospar") if a == "scalar" else S("acc", "posdatum"))
    d = [density(nm, y, E(c.f), [E(h) for h in hh], acc, E(S("w", "posdatum")) if w else None) for nm, hh in zip((n1, n2), hs)]
    c.want = total(log(E(c.frac) * exp(d[0]) + (1 - E(c.frac)) * exp(d[1]))).t
    c.assume = T.land(T.cmp("<", 0, c.frac), T.cmp("<", c.frac, 1))
    return c


def mixed(R):
    for n1, n2 in MIXED:
        I = setup()
        key = "mixed:%s+%s" % (n1, n2)
        wh = zoo.where(I, I.cls("MixedErrorDistribution"), "logLdata")
        try:
            c = mixed_case(I, n1, n2)
        except (AbsRaise, Unsupported) as e:
            R.undecided(key, "construction: %s" % e)
            continue
        one_logl(R, I, "MixedErrorDistribution", c, key, "logLhood", wh, c.want)


XY = [(w, a) for w in (False, True) for a in (None, "acc1", "acc2", "acc3", "accN2", "accN3", "cov", "covN")]


NXY = 3


def xy_case(I, w, a):
    """NXY generic data points; the parameter list holds those of the model, one abscissa per datum, and the scale"""
    c = Case()
    c.model = I.instantiate(I.cls("ExpModel"), [], {})
    c.pars = [S("p0"), S("p1")]
    rn = range(NXY)
    x, y, t = [[S("%s%d" % (q, k)) for k in rn] for q in "xyt"]
    kw = {"model": c.model, "xdata": vec(x), "ydata": vec(y)}
    ww = [E(S("w%d" % k, "pospar")) if w else E(1) for k in rn]
    if w:
        kw["weights"] = vec([q.t for q in ww])
    per = a in ("accN2", "accN3", "covN")

    def cons(q, kind="pospar"):
        return [E(S("%s%d" % (q, k if per else 0), kind)) for k in rn]

    sy, sx, rho = cons("sy"), cons("sx"), cons("rho", "unit")
    vyy = vxx = vxy = [E(0)] * NXY
    if a == "acc1":
        kw["accuracy"] = sy[0].t
        sx = sy
    elif a in ("acc2", "acc3"):
        kw["accuracy"] = AList([sy[0].t, sx[0].t] + ([rho[0].t] if a == "acc3" else []))
    elif a in ("accN2", "accN3"):
        kw["accuracy"] = arr2([[sy[k].t, sx[k].t] + ([rho[k].t] if a == "accN3" else []) for k in rn])
    if a in ("acc1", "acc2", "acc3", "accN2", "accN3"):
        vyy, vxx = [q * q for q in sy], [q * q for q in sx]
        if a in ("acc3", "accN3"):
            vxy = [p * q * r for p, q, r in zip(sy, sx, rho)]
    if a in ("cov", "covN"):
        vyy, vxx, vxy = cons("vyy"), cons("vxx"), cons("vxy")
        if a == "cov":
            kw["covar"] = AList([AList([vyy[0].t, vxy[0].t]), AList([vxy[0].t, vxx[0].t])])
        else:
            arr = np.empty((NXY, 2, 2), dtype=object)
            for k in rn:
                arr[k, 0, 0], arr[k, 0, 1], arr[k, 1, 0], arr[k, 1, 1] = vyy[k].t, vxy[k].t, vxy[k].t, vxx[k].t
            kw["covar"] = Arr(arr)
    c.kw = kw
    c.before = {k: v.copy() for k, v in kw.items() if isinstance(v, Arr)}
    c.vyy, c.vxx, c.vxy, c.ww = vyy, vxx, vxy, ww
    c.scalar = sy[0] if a == "acc1" else None
    c.problem = I.instantiate(I.cls("ErrorsInXandYProblem"), [], kw)
    c.ed = I.instantiate(I.cls("Gauss2dErrorDistribution"), [], {"limits": AList([0.1, 10.0])})
    c.scale = S("scale", "pospar")
    s2 = E(c.scale) ** 2
    f = list(I.call(I.getattr_(c.model, "result"), [vec(t), vec(c.pars)]).a.flat)
    c.want = E(0)
    for k in rn:
        ry, rx = E(y[k]) - E(f[k]), E(x[k]) - E(t[k])
        yy, xx = vyy[k] + s2, vxx[k] + s2
        det = yy * xx - vxy[k] * vxy[k]
        chi = (ry * ry * xx + rx * rx * yy - 2 * rx * ry * vxy[k]) / det
        c.want = c.want + ww[k] * (-0.5) * (chi + 2 * L2PI + log(det))
    c.want = c.want.t
    c.all = vec(c.pars + t + [c.scale])
    return c


def arr2(rows):
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            a[i, j] = v
    return Arr(a)


def xy(R):
    """errors in both variables: bivariate normal density of the two residuals"""
    for w, a in XY:
        I = setup()
        key = "xy:%s:%s" % ("w" if w else "-", a or "-")
        wh = zoo.where(I, I.cls("Gauss2dErrorDistribution"), "logLdata")
        try:
            c = xy_case(I, w, a)
        except AbsRaise as e:
            if crash(e):
                R.fail(key + ":problem", "a problem with errors in x and y raises %s (%s)" % (e.name, e.value), wh)
            else:
                R.undecided(key, "construction: %s %s" % (e, e.value))
            continue
        except Unsupported as e:
            R.undecided(key, "construction: %s" % e)
            continue
        for meth in ("logLhood", "logLikelihood_alt"):
            one_logl(R, I, "Gauss2dErrorDistribution", c, key, meth, wh, c.want)


def sigma(R):
    """the documented standard deviation of every error distribution"""
    s, q = S("scale", "pospar"), S("power", "pospar")
    want = {"GaussErrorDistribution": (s, E(s)), "LaplaceErrorDistribution": (s, E(s) * math.sqrt(2)),
            "UniformErrorDistribution": (s, E(s) / math.sqrt(3)),
            "ExponentialErrorDistribution": (vec([s, q]), E(s) * sqrt(exp(lgamma(3 / E(q)) - lgamma(1 / E(q)))))}
    for name, (arg, ref) in want.items():
        I = setup()
        key = "sigma:" + name
        wh = zoo.where(I, I.cls(name), "toSigma")
        try:
            ed = I.instantiate(I.cls(name), [], {})
            got = I.call(I.getattr_(ed, "toSigma"), [arg])
        except (AbsRaise, Unsupported) as e:
            R.undecided(key, e)
            continue
        R.functions |= I.visited
        if isinstance(got, Term):
            R.decide(key, T.equal(got, ref.t, seed=key), "toSigma is not the standard deviation of the distribution", wh)
        else:
            R.undecided(key, "toSigma %r" % (got,))
    # factorials of the Poisson distribution
    I = setup()
    f = I.module("LogFactorial").env.v["logFactorial"]
    wh = "LogFactorial"
    try:
        got = I.call(f, [vec(list(range(0, 140)), "int")])
    except (AbsRaise, Unsupported) as e:
        R.undecided("logfactorial", e)
        return
    for k, v in enumerate(got.a.flat):
        R.decide("logfactorial:%d" % k, T.equal(v, math.lgamma(k + 1)), "log( %d! )" % k, wh)


# ---------------------------------------------------------------------------- C07
def numgrad(I, f, args, kw, node):
    return Top("numeric approximation")


def gsetup():
    I = setup()
    I.hooks["ErrorDistribution.numPartialLogL"] = numgrad
    I.hooks["formatter"] = lambda I, f, args, kw, node: "text"
    return I


def fitlists(npar, nh):
    """index lists: all, reversed subsets, only parameters, only hyperparameters"""
    hy = list(range(-nh, 0))
    out = [("all", list(range(npar)) + hy)]
    if npar > 1:
        out.append(("last", [npar - 1] + hy[:1]))
        out.append(("pars", list(range(npar))))
    if nh > 1:
        out.append(("hyp1", [0] + hy[1:]))
        out.append(("hyp0", [npar - 1] + hy[:1]))
    if nh:
        out.append(("hyp", hy))
    return out


def one_grad(R, I, c, key, meths, wh, lists, skip=()):
    """c.logl : the log-likelihood of the program"""
    for lab, fi in lists:
        fi = [k for k in fi if k not in skip]
        if not fi:
            continue
        for meth in meths:
            if lab != "all" and meth != "partialLogL":
                continue
            kk = "%s:%s:%s" % (key, meth, lab)
            try:
                got = I.call(I.getattr_(c.ed, meth), [c.problem, c.all.copy(), vec(list(fi), "int")])
            except AbsRaise as e:
                if crash(e):
                    R.fail(kk + ":raises", "the gradient raises %s (%s)" % (e.name, e.value), wh)
                else:
                    R.undecided(kk, "raises %s %s" % (e.name, e.value))
                continue
            except Unsupported as e:
                R.undecided(kk, e)
                continue
            R.functions |= I.visited
            if isinstance(got, Top):
                R.undecided(kk, "%r %s" % (got, I.notes[-2:]))
                continue
            if not isinstance(got, Arr) or got.a.ndim != 1:
                R.undecided(kk, "gradient %r" % (got,))
                continue
            if got.a.size != len(fi):
                R.fail(kk + ":size", "%d derivatives for %d fitted parameters" % (got.a.size, len(fi)), wh)
                continue
            for j, k in enumerate(fi):
                p = c.all.a[k]
                try:
                    d = T.diff(c.logl, p)
                except T.NotDifferentiable as e:
                    R.undecided("%s:%d" % (kk, k), "not differentiable %s" % e)
                    continue
                v = T.equal(got.a[j], d, seed=kk + str(k), assume=getattr(c, "assume", None))
                R.decide("%s:%d" % (kk, k), v, "the derivative of the log-likelihood to %s" % (
                    "parameter %d" % k if k >= 0 else "hyperparameter %d from the end" % -k), wh)


def prepare(R, I, key, build):
    try:
        c = build()
        c.logl = I.call(I.getattr_(c.ed, "logLhood"), [c.problem, c.all.copy()])
        if isinstance(c.logl, Arr) and c.logl.a.size == 1:
            c.logl = c.logl.a.flat[0]
        if not isinstance(c.logl, Term):
            raise Unsupported("log-likelihood %r" % (c.logl,))
        if key.split(":")[1] == UED:
            c.assume = T.cmp("<", -1e300, c.logl)
        if key.startswith("gradmixed"):
            c.assume = T.cmp("<", -400.0, c.logl)       # no underflow
        return c
    except AbsRaise as e:
        R.undecided(key, "log-likelihood raises %s %s" % (e, e.value))
    except Unsupported as e:
        R.undecided(key, e)
    return None


BOTH = ("partialLogL", "partialLogL_alt")
UED = "UniformErrorDistribution"        # differentiable where the likelihood is not zero


def run_grad(R):
    for name, lab, w, a in cases(R.tier):
        I = gsetup()
        wh = zoo.where(I, I.cls(name), "nextPartialData")
        key = "grad:%s:%s" % (name, lab or "-")
        c = prepare(R, I, key, lambda: evaluate(I, name, w, a, name == UED))
        if c is None:
            continue
        if name == "BernoulliErrorDistribution":
            for cat in (0, 1):
                c2 = Case()
                c2.__dict__.update(c.__dict__)
                c2.logl = T.subst(c.logl, {c.y: cat})
                c2.problem = problem(I, c.model, w, a, y=datum(cat, dtype="int"))
                one_grad(R, I, c2, key + ":cat%d" % cat, BOTH, wh, fitlists(len(c.pars), 0))
            continue
        # documented: the derivative to the scale is not implemented for problems with accuracy
        skip = () if a is None or name == "GaussErrorDistribution" else (-len(c.hyp),)
        one_grad(R, I, c, key, BOTH, wh, fitlists(len(c.pars), len(c.hyp)), skip)
    for name, w in MULTI:
        I = gsetup()
        wh = zoo.where(I, I.cls(name), "nextPartialData")
        key = "gradmulti:%s:%s" % (name, w or "-")
        c = prepare(R, I, key, lambda: multi_case(I, name, w, name == UED))
        if c is not None:
            skip = () if w[:1] not in ("a", "A") or name == "GaussErrorDistribution" else (-len(c.hyp),)
            one_grad(R, I, c, key, ("partialLogL",), wh, fitlists(len(c.pars), len(c.hyp))[:2], skip)
    for n1, n2 in MIXED:
        I = gsetup()
        wh = zoo.where(I, I.cls("MixedErrorDistribution"), "nextPartialData")
        key = "gradmixed:%s+%s" % (n1, n2)
        c = prepare(R, I, key, lambda: mixed_case(I, n1, n2))
        if c is not None:
            one_grad(R, I, c, key, ("partialLogL",), wh, fitlists(len(c.pars), len(c.hyp) + 1))
    for w, a in XY:
        I = gsetup()
        wh = zoo.where(I, I.cls("Gauss2dErrorDistribution"), "nextPartialData")
        key = "gradxy:%s:%s" % ("w" if w else "-", a or "-")
        c = prepare(R, I, key, lambda: xy_case(I, w, a))
        if c is not None:
            one_grad(R, I, c, key, BOTH, wh, fitlists(len(c.pars) + NXY, 1))
