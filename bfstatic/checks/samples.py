"""C14 posterior samples: averages, deviations, indices and evolutions of weighted samples; walkers and walker lists"""
import math
import numpy as np
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup, crash
from .limits import get
from .fitters import cmp
from . import likelihood as L

S = T.sym
LIST, SMP, WLK, WLS, SMPL = "SampleList", "Sample", "Walker", "WalkerList", "NestedSampler"


class Truth(object):
    """what the samples are made of"""

    def __init__(self, n, npar, nhyp, nnuis, concrete=None):
        self.n, self.npar, self.nhyp, self.nnuis = n, npar, nhyp, nnuis
        v = [E(S("v%d" % k, "pospar")) for k in range(n)] if concrete is None else [E(c) for c in concrete]
        tot = sum(v, E(0.0))
        self.w = [q / tot for q in v]
        self.logw = [log(q) for q in self.w]
        self.par = [[E(S("p%d_%d" % (k, j))) for j in range(npar)] for k in range(n)]
        self.hyp = [[E(S("h%d_%d" % (k, j), "pospar")) for j in range(nhyp)] for k in range(n)]
        self.nui = [[E(S("q%d_%d" % (k, j))) for j in range(nnuis)] for k in range(n)]
        self.logl = [1.5, -2.25, 3.0, 0.5, -7.0, 2.0][:n]

    def mean(self, vals):
        return sum((w * E(v) for w, v in zip(self.w, vals)), E(0.0))

    def dev(self, vals):
        m = self.mean(vals)
        return sqrt(sum((w * (E(v) - m) * (E(v) - m) for w, v in zip(self.w, vals)), E(0.0)))

    def col(self, what, j):
        return [r[j] for r in getattr(self, what)]


def terms(v):
    return vec([q.t for q in v])


def build(I, t, model, weights=None):
    sl = I.instantiate(I.cls(LIST), [model, 0], {"ndata": 7})
    for k in range(t.n):
        s = I.instantiate(I.cls(SMP), [10 + k, 20 + k, 30 + k, model], {"parameters": terms(t.par[k])})
        if t.nhyp:
            I.setattr_(s, "hyper", terms(t.hyp[k]))
        if t.nnuis:
            I.setattr_(s, "nuisance", terms(t.nui[k]))
        I.raw_setattr(s, "logW", (t.logw[k] if weights is None else E(weights[k])).t)
        I.raw_setattr(s, "logL", t.logl[k])
        I.call(I.getattr_(sl, "add"), [s])
    return sl


def poly(I, n, limits=None):
    m = I.instantiate(I.cls("PolynomialModel"), [n - 1], {})
    if limits:
        I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList([-4.0] * n), "highLimits": AList([5.0] * n)})
    return m


def averages(R, n, npar, nhyp, nnuis, priors):
    key = "average:%d:%d%d%d:%s" % (n, npar, nhyp, nnuis, "priors" if priors else "-")
    t = Truth(n, npar, nhyp, nnuis)
    wh = lambda m: zoo.where(setup(), LIST, m)

    def fresh():
        I = setup()
        return I, build(I, t, poly(I, npar, priors))

    def q(name, f, want, shape, msg, meth):
        I, sl = fresh()
        kk = "%s:%s" % (key, name)
        cmp(R, I, kk, get(R, kk, wh(meth), lambda: f(I, sl)), want, shape, msg, wh(meth))
        R.functions |= I.visited
    A = lambda a: (lambda I, sl: I.getattr_(sl, a))
    M = lambda m, *a: (lambda I, sl: I.call(I.getattr_(sl, m), list(a)))
    pm = [t.mean(t.col("par", j)) for j in range(npar)]
    pd = [t.dev(t.col("par", j)) for j in range(npar)]
    q("parameters", A("parameters"), pm, (npar,), "parameters is not the weighted average of the samples", "getParameters")
    q("getParameters", M("getParameters"), pm, (npar,), "getParameters is not the weighted average of the samples", "getParameters")
    for a in ("stdevs", "standardDeviations"):
        q(a, A(a), pd, (npar,), "%s is not the weighted standard deviation of the samples" % a, "getParameters")
    if nhyp:
        hm = [t.mean(t.col("hyp", j)) for j in range(nhyp)]
        hd = [t.dev(t.col("hyp", j)) for j in range(nhyp)]
        q("hypars", A("hypars"), hm, (nhyp,), "hypars is not the weighted average of the hyperparameters", "getHypars")
        q("stdevHypar", A("stdevHypar"), hd, (nhyp,), "stdevHypar is not the weighted standard deviation of the hyperparameters", "getHypars")
        q("stdevHypars", A("stdevHypars"), hd, (nhyp,), "stdevHypars is not the weighted standard deviation of the hyperparameters", "getHypars")
        q("scale", A("scale"), hm[:1], (), "scale is not the weighted average of the first hyperparameter", "__getattr__")
        q("stdevScale", A("stdevScale"), hd[:1], (), "stdevScale is not the weighted standard deviation of the scale", "__getattr__")
        q("scaleEvolution", M("getScaleEvolution"), [v for r in t.hyp for v in r], (n, nhyp), "getScaleEvolution is not the list of hyperparameters", "getScaleEvolution")
    if nnuis:
        q("nuisance", A("nuisance"), [t.mean(t.col("nui", j)) for j in range(nnuis)], (nnuis,), "nuisance is not the weighted average", "getNuisance")
        q("stdevNuis", A("stdevNuis"), [t.dev(t.col("nui", j)) for j in range(nnuis)], (nnuis,), "stdevNuis is not the weighted standard deviation", "getNuisance")
    q("pe", M("getParameterEvolution"), [v for r in t.par for v in r], (n, npar), "getParameterEvolution is not the list of parameters", "getParameterEvolution")
    for j in range(npar):
        q("pe%d" % j, M("getParameterEvolution", j), t.col("par", j), (n,), "getParameterEvolution of one parameter is not that of the samples", "getParameterEvolution")
    q("pw0", lambda I, sl: I.call(I.getattr_(sl, "getParAndWgtEvolution"), [])[0], [v for r in t.par for v in r], (n, npar), "getParAndWgtEvolution has other parameters", "getParAndWgtEvolution")
    q("pw1", lambda I, sl: I.call(I.getattr_(sl, "getParAndWgtEvolution"), [])[1], t.w, (n,), "getParAndWgtEvolution has other weights", "getParAndWgtEvolution")
    q("npe", M("getNumberOfParametersEvolution"), [npar] * n, (n,), "getNumberOfParametersEvolution is not that of the samples", "getNumberOfParametersEvolution")
    q("maxnp", M("getMaximumNumberOfParameters"), [npar], (), "getMaximumNumberOfParameters is not that of the samples", "getMaximumNumberOfParameters")
    q("logl", M("getLogLikelihoodEvolution"), t.logl, (n,), "getLogLikelihoodEvolution is not that of the samples", "getLogLikelihoodEvolution")
    q("logw", M("getLogWeightEvolution"), t.logw, (n,), "getLogWeightEvolution is not that of the samples", "getLogWeightEvolution")
    q("w", M("getWeightEvolution"), t.w, (n,), "getWeightEvolution is not that of the samples", "getWeightEvolution")
    q("generation", M("getGeneration"), list(range(n)), (n,), "samples added are not numbered in order", "add")
    q("parent", M("getParentEvolution"), [10 + k for k in range(n)], (n,), "the parent of an added sample is not the id of the walker", "add")
    q("start", M("getStartEvolution"), [30 + k for k in range(n)], (n,), "getStartEvolution is not that of the samples", "getStartEvolution")
    lo = min(t.logl)
    q("low0", lambda I, sl: I.call(I.getattr_(sl, "getLowLogL"), [])[0], [lo], (), "getLowLogL is not the lowest logL", "getLowLogL")
    q("low1", lambda I, sl: I.call(I.getattr_(sl, "getLowLogL"), [])[1], [t.logl.index(lo)], (), "getLowLogL is not the index of the lowest logL", "getLowLogL")
    q("maxpar", A("maxLikelihoodParameters"), t.par[-1], (npar,), "maxLikelihoodParameters are not those of the last sample", "__getattr__")
    if nhyp:
        q("maxscale", A("maxLikelihoodScale"), t.hyp[-1][:1], (), "maxLikelihoodScale is not that of the last sample", "__getattr__")
    for k in range(n):
        q("weight%d" % k, lambda I, sl: I.getattr_(sl.items.items[k], "weight"), [t.w[k]], (), "weight of a sample is not exp( logW )", "getWeightEvolution")
        q("allpars%d" % k, lambda I, sl: I.getattr_(sl.items.items[k], "allpars"), t.par[k] + t.nui[k] + t.hyp[k], (npar + nnuis + nhyp,),
          "allpars of a sample is not parameters, nuisance and hyperparameters", "getWeightEvolution")
        q("sample%d" % k, lambda I, sl: I.getattr_(I.call(I.getattr_(sl, "sample"), [k]), "parameters"), t.par[k], (npar,), "sample( k ) is not the k-th", "sample")
    # the average result of the models, and its error, at one and at other points
    x = S("x", "datum")
    y = S("z", "datum")
    f = lambda at: [sum((p[j] * E(at) ** j for j in range(npar)), E(0.0)) for p in t.par]
    for a in (x, y):
        vals = f(a)
        q("result:%s" % a, M("average", datum(a)), [t.mean(vals)], (1,), "average is not the weighted average of the results", "average")
        q("error:%s" % a, M("monteCarloError", datum(a)), [t.dev(vals)], (1,), "monteCarloError is not the weighted deviation of the results", "monteCarloError")

    def second(I, sl):
        I.call(I.getattr_(sl, "average"), [datum(x)])
        return I.call(I.getattr_(sl, "monteCarloError"), [datum(y)])
    q("error:second", second, [t.dev(f(y))], (1,), "monteCarloError after another average is not the weighted deviation of the results", "monteCarloError")

    # normalize
    raw = [E(S("g%d" % k)) for k in range(n)]
    I = setup()
    sl = build(I, t, poly(I, npar), raw)
    kk = key + ":normalize"
    if get(R, kk, wh("normalize"), lambda: (I.call(I.getattr_(sl, "normalize"), []), 1)):
        tot = sum((exp(g) for g in raw), E(0.0))
        cmp(R, I, kk, get(R, kk, wh("normalize"), lambda: I.call(I.getattr_(sl, "getWeightEvolution"), [])), [exp(g) / tot for g in raw], (n,),
            "normalized weights are not the weights divided by their sum", wh("normalize"))
    R.functions |= I.visited

    # the same, as given by the sampler
    I = setup()
    ns = Obj(I.cls(SMPL))
    sl = build(I, t, poly(I, npar, priors))
    prob = L.problem(I, I.getattr_(sl.items.items[0], "model"), False, None)
    for a, v in (("samples", sl), ("problem", prob), ("logZ", S("logZ")), ("info", S("info", "pospar")), ("walkers", I.instantiate(I.cls(WLS), [], {}))):
        I.raw_setattr(ns, a, v)
    wn = lambda m: zoo.where(I, SMPL, m)

    def s(name, want, shape, msg):
        kk = "%s:sampler:%s" % (key, name)
        cmp(R, I, kk, get(R, kk, wn("__getattr__"), lambda: I.getattr_(ns, name)), want, shape, msg, wn("__getattr__"))
    s("parameters", pm, (npar,), "parameters of the sampler are not the weighted average of the samples")
    s("stdevs", pd, (npar,), "stdevs of the sampler are not the weighted deviations of the samples")
    s("standardDeviations", pd, (npar,), "standardDeviations of the sampler are not the weighted deviations of the samples")
    if nhyp:
        s("stdevScale", hd[:1], (), "stdevScale of the sampler is not the weighted deviation of the scale")
        s("scale", hm[:1], (), "scale of the sampler is not the weighted average")
        s("hypars", hm, (nhyp,), "hypars of the sampler is not the weighted average")
        s("stdevHypars", hd, (nhyp,), "stdevHypars of the sampler is not the weighted deviation")
    s("evidence", [E(S("logZ")) / math.log(10.0)], (), "evidence is not the 10log of Z")
    s("information", [E(S("info", "pospar"))], (), "information is not the information")
    xs = zoo.xdata_of(I.getattr_(prob, "model"))
    vals = f(xs.a.flat[0])
    for a in ("modelfit", "yfit"):
        s(a, [t.mean(vals)], (1,), "%s is not the weighted average of the results" % a)
    I.raw_setattr(sl, "logZ", S("logZ"))
    cmp(R, I, key + ":evidence", get(R, key + ":evidence", wh("__getattr__"), lambda: I.getattr_(sl, "evidence")), [E(S("logZ")) / math.log(10.0)], (), "evidence is not the 10log of Z", wh("__getattr__"))
    R.functions |= I.visited


def order(R):
    """indices which depend on the sizes of the weights"""
    wh = lambda m: zoo.where(setup(), LIST, m)
    for c in ([1.0, 2.0, 6.0, 3.0], [9.0, 2.0, 1.0], [1.0, 1.0, 5.0, 1.0, 4.0], [1.0], [1.0, 3.0], [3.0, 1.0], [2.0, 3.0, 4.0, 5.0, 6.0]):
        key = "index:" + ",".join("%g" % q for q in c)
        t = Truth(len(c), 2, 1, 0)
        tot = sum(c)
        lw = [math.log(q / tot) for q in c]
        cum, med = 0.0, None
        for k, q in enumerate(c):
            cum += q / tot
            if cum >= 0.5 and med is None:
                med = k
        mod = c.index(max(c))
        for name, want, shape in (("medianIndex", [med], ()), ("medianParameters", t.par[med], (2,)), ("medianScale", t.hyp[med], ()), ("modusIndex", [mod], ()),
                                  ("modusParameters", t.par[mod], (2,)), ("modusScale", t.hyp[mod], ())):
            I = setup()
            sl = build(I, t, poly(I, 2), lw)
            kk = key + ":" + name
            m = "getMedianIndex" if name.startswith("median") else "__getattr__"
            cmp(R, I, kk, get(R, kk, wh(m), lambda: I.getattr_(sl, name)), want, shape, "%s is not that of the %s of the weights" % (name, name[:6].replace("mediaI", "median")), wh(m))
            R.functions |= I.visited
        for size in range(1, len(c) + 2):
            I = setup()
            sl = build(I, t, poly(I, 2), lw)
            kk = "%s:weed%d" % (key, size)
            if not get(R, kk, wh("weed"), lambda: (I.call(I.getattr_(sl, "weed"), [size]), 1)):
                continue
            left = list(zip(c, range(len(c))))
            while len(left) > size:
                left.pop(0 if left[0][0] < left[-1][0] else -1)
            cmp(R, I, kk, get(R, kk, wh("weed"), lambda: I.call(I.getattr_(sl, "getParameterEvolution"), [])), [p for _, k in left for p in t.par[k]], (len(left), 2),
                "weed does not keep the samples with the largest weights", wh("weed"))
            R.functions |= I.visited


def circular(R, n):
    """parameters with a circular prior are averaged over the circle"""
    key = "circular:%d" % n
    I = setup()
    m = poly(I, 2)
    pri = [I.instantiate(I.cls("UniformPrior"), [], {"limits": AList([-1.0, 3.0]), "circular": True}), I.instantiate(I.cls("UniformPrior"), [], {"limits": AList([-4.0, 4.0])})]
    I.call(I.getattr_(m, "setPrior"), [0, pri[0]])
    I.call(I.getattr_(m, "setPrior"), [1, pri[1]])
    t = Truth(n, 2, 0, 0)
    sl = build(I, t, m)
    wh = zoo.where(I, LIST, "getParameters")
    par = get(R, key, wh, lambda: I.getattr_(sl, "parameters"))
    std = get(R, key, wh, lambda: I.getattr_(sl, "stdevs"))
    if not isinstance(par, Arr) or not isinstance(std, Arr):
        R.undecided(key, "%r %r" % (par, std))
        return
    cmp(R, I, key + ":other", par.a.flat[1], [t.mean(t.col("par", 1))], (), "a parameter next to a circular one is not the weighted average", wh)
    cmp(R, I, key + ":otherdev", std.a.flat[1], [t.dev(t.col("par", 1))], (), "the deviation of a parameter next to a circular one is not the weighted deviation", wh)
    d2r = 2 * math.pi / 4.0
    ang = [(p + 1.0) * d2r for p in t.col("par", 0)]
    sn, cs = t.mean([sin(a) for a in ang]), t.mean([cos(a) for a in ang])
    got = (E(par.a.flat[0]) + 1.0) * d2r
    cmp(R, I, key + ":direction", (sin(got) * cs - cos(got) * sn).t, [0.0], (), "the average of a circular parameter is not in the average direction", wh)
    cmp(R, I, key + ":sense", T.cmp("<", 0.0, (sin(got) * sn + cos(got) * cs).t), [True], (), "the average of a circular parameter is opposite to the average direction", wh) if False else None
    R.functions |= I.visited


def dynamic(R):
    """samples with different numbers of parameters"""
    key = "dynamic"
    wh = lambda m: zoo.where(setup(), LIST, m)
    for ns in ((1, 2, 3), (3, 1, 2), (2, 2), (2,)):
        t = Truth(len(ns), 3, 1, 0)

        def fresh():
            I = setup()
            sl = None
            for k, q in enumerate(ns):
                m = I.instantiate(I.cls("PolynomialDynamicModel"), [q - 1], {})
                if sl is None:
                    sl = I.instantiate(I.cls(LIST), [m, 0], {})
                s = I.instantiate(I.cls(SMP), [k, -1, 0, m], {"parameters": terms(t.par[k][:q])})
                I.setattr_(s, "hyper", terms(t.hyp[k]))
                I.raw_setattr(s, "logW", t.logw[k].t)
                I.call(I.getattr_(sl, "add"), [s])
            return I, sl
        mx = max(ns)
        pad = [t.par[k][j] if j < q else E(0.0) for k, q in enumerate(ns) for j in range(mx)]
        kk = "%s:%s" % (key, "".join(map(str, ns)))
        for name, f, want, shape in (("pe", lambda: I.call(I.getattr_(sl, "getParameterEvolution"), []), pad, (len(ns), mx)),
                                     ("pe0", lambda: I.call(I.getattr_(sl, "getParameterEvolution"), [0]), pad[::mx], (len(ns),)),
                                     ("pw", lambda: I.call(I.getattr_(sl, "getParAndWgtEvolution"), [])[0], pad, (len(ns), mx)),
                                     ("npe", lambda: I.call(I.getattr_(sl, "getNumberOfParametersEvolution"), []), list(ns), (len(ns),)),
                                     ("maxnp", lambda: I.call(I.getattr_(sl, "getMaximumNumberOfParameters"), []), [mx], ()),
                                     ("hypars", lambda: I.getattr_(sl, "hypars"), [t.mean(t.col("hyp", 0))], (1,))):
            I, sl = fresh()
            m = {"pe": "getParameterEvolution", "pe0": "getParameterEvolution", "pw": "getParAndWgtEvolution", "npe": "getNumberOfParametersEvolution", "hypars": "getHypars"}.get(name, "getMaximumNumberOfParameters")
            cmp(R, I, "%s:%s" % (kk, name), get(R, "%s:%s" % (kk, name), wh(m), f), want, shape, "%s of samples of a dynamic model is not that of the samples, zero-padded" % m, wh(m))
            R.functions |= I.visited
        I, sl = fresh()
        x = S("x", "datum")
        vals = [sum((t.par[k][j] * E(x) ** j for j in range(q)), E(0.0)) for k, q in enumerate(ns)]
        for meth, want in (("average", t.mean(vals)), ("monteCarloError", t.dev(vals))):
            cmp(R, I, "%s:%s" % (kk, meth), get(R, kk, wh(meth), lambda: I.call(I.getattr_(sl, meth), [datum(x)])), [want], (1,), "%s is not that of the results of the samples" % meth, wh(meth))


# ------------------------------------------------------------------------------ walkers
def walker(I, prob, k, allp, logl, fi=None):
    return I.instantiate(I.cls(WLK), [k, prob, vec(allp), fi], {"logL": logl, "parent": 40 + k, "start": 50 + k})


def tosample(R):
    """a walker as a sample: the parameters are distributed over parameters, nuisance and hyperparameters"""
    for lab in ("classic:0", "classic:1", "classic:2", "xy:0", "xy:1", "order"):
        kind, nh = (lab.split(":") + ["0"])[:2]
        nh = int(nh)
        key = "sample:" + lab
        I = setup()
        if kind == "classic":
            m = poly(I, 3)
            prob = L.problem(I, m, False, None)
            nm, nn = 3, 0
        elif kind == "xy":
            m = poly(I, 2)
            prob = I.instantiate(I.cls("ErrorsInXandYProblem"), [], {"model": m, "xdata": vec([1.0, 2.0, 3.0]), "ydata": vec([S("y%d" % k) for k in range(3)]), "accuracy": vec([0.5, 0.25])})
            nm, nn = 2, 3
        else:
            prob = I.instantiate(I.cls("SalesmanProblem"), [], {"xdata": L.arr2([[S("x%d%d" % (i, j)) for j in range(2)] for i in range(4)]), "scale": 1.0})
            m = None
            nm, nn = 4, 0
        n = nm + nn + nh
        allp = [S("a%d" % k, "pospar") for k in range(n)] if kind != "order" else [2, 0, 3, 1]
        if kind == "order":
            prob_arr = vec(allp, dtype="int")
            w = I.instantiate(I.cls(WLK), [7, prob, prob_arr, vec([0, 1, 2, 3], dtype="int")], {"logL": S("logL"), "parent": 41, "start": 51})
        else:
            w = I.instantiate(I.cls(WLK), [7, prob, vec(allp), vec([0, 2], dtype="int")], {"logL": S("logL"), "parent": 41, "start": 51})
        I.raw_setattr(w, "logPrior", S("logPrior"))
        wh = zoo.where(I, WLK, "toSample")
        wc = zoo.where(I, WLK, "copy")
        parts = [("parameters", allp[:nm]), ("nuisance", allp[nm:nm + nn]), ("hyper", allp[nm + nn:]), ("allpars", allp)]
        for who, src in (("walker", w), ("copy", get(R, key + ":copy", wc, lambda: I.call(I.getattr_(w, "copy"), [])))):
            if src is None:
                continue
            kk = "%s:%s" % (key, who)
            for a, v in (("id", 7), ("parent", 41), ("start", 51), ("logL", S("logL")), ("logPrior", S("logPrior"))):
                cmp(R, I, "%s:own:%s" % (kk, a), get(R, kk, wc, lambda: I.getattr_(src, a)), [v], (), "%s of the %s is not that of the walker" % (a, who), wc)
            cmp(R, I, kk + ":own:allpars", get(R, kk, wc, lambda: I.getattr_(src, "allpars")), allp, (n,), "allpars of the %s is not that of the walker" % who, wc)
            fi = [0, 2] if kind != "order" else [0, 1, 2, 3]
            cmp(R, I, kk + ":own:fitIndex", get(R, kk, wc, lambda: I.getattr_(src, "fitIndex")), fi, (len(fi),), "fitIndex of the %s is not that of the walker" % who, wc)
            if kind != "order":
                cmp(R, I, kk + ":own:parameters", get(R, kk, wc, lambda: I.getattr_(src, "parameters")), allp[:nm], (nm,), "parameters of the walker are not those of the model", wc)
                hyp = get(R, kk, wc, lambda: (I.getattr_(src, "hypars"),))
                if hyp and nh:
                    cmp(R, I, kk + ":own:hypars", hyp[0], allp[nm + nn:], (nh,), "hypars of the walker are not the hyperparameters", wc)
                elif hyp:
                    (R.hold if hyp[0] is None else lambda k: R.fail(k, "hypars of a walker without hyperparameters is not None", wc))(kk + ":own:hypars")
            s = get(R, kk, wh, lambda: I.call(I.getattr_(src, "toSample"), [S("logW")]))
            if s is None:
                continue
            for who2, smp in (("sample", s), ("samplecopy", get(R, kk, wh, lambda: I.call(I.getattr_(s, "copy"), [])))):
                if smp is None:
                    continue
                for a, v in parts:
                    k2 = "%s:%s:%s" % (kk, who2, a)
                    if not v:
                        (R.fail(k2, "the %s has %s, which the walker has not" % (who2, a), wh) if a in smp.attrs else R.hold(k2))
                        continue
                    cmp(R, I, k2, get(R, k2, wh, lambda: I.getattr_(smp, a)), v, (len(v),), "%s of the %s are not those of the walker" % (a, who2), wh)
                for a, v in (("id", 7), ("parent", 41), ("start", 51), ("logL", T.add(S("logL"), S("logPrior"))), ("logW", S("logW"))):
                    k2 = "%s:%s:%s" % (kk, who2, a)
                    cmp(R, I, k2, get(R, k2, wh, lambda: I.getattr_(smp, a)), [v], (), "%s of the %s is not that of the walker" % (a, who2), wh)
                k2 = "%s:%s:model" % (kk, who2)
                mm = smp.attrs.get("model")
                if m is None:
                    (R.hold if mm is None else lambda k: R.fail(k, "the sample of a problem without model has a model", wh))(k2)
                else:
                    (R.hold if isinstance(mm, Obj) and mm.cls is m.cls else lambda k: R.fail(k, "the sample has no model", wh))(k2)
        # independence of the copy
        c = get(R, key + ":copy", wc, lambda: I.call(I.getattr_(w, "copy"), []))
        if c is not None:
            I.np.setitem(I.getattr_(c, "allpars"), 0, 3 if kind == "order" else 123.5)
            cmp(R, I, key + ":independent", I.getattr_(w, "allpars"), allp, (n,), "changing the parameters of a copy changes the walker", wc)
            if I.getattr_(c, "problem") is prob:
                R.fail(key + ":problem", "the copy of a walker has the same problem", wc)
            else:
                R.hold(key + ":problem")
            I.raw_setattr(c, "logL", 5.5)
            cmp(R, I, key + ":independentL", I.getattr_(w, "logL"), [S("logL")], (), "changing the logL of a copy changes the walker", wc)
        R.functions |= I.visited


def wlist(R):
    """lists of walkers, ordered in logL"""
    base = [1.0, 2.5, 4.0, 7.0]

    def fresh(logs=base):
        I = setup()
        m = poly(I, 2)
        prob = L.problem(I, m, False, None)
        wl = I.instantiate(I.cls(WLS), [], {})
        for k, q in enumerate(logs):
            I.call(I.getattr_(wl, "setWalker"), [walker(I, prob, 77, [S("p%d_%d" % (k, j)) for j in range(2)], q), k])
        return I, wl, prob
    W = lambda m: zoo.where(setup(), WLS, m)

    def logs(wl):
        return [q.attrs["logL"] for q in wl.items.items]

    def check(key, got, want, msg, wh):
        if got == want:
            R.hold(key)
        else:
            R.fail(key, "%s: %s in stead of %s" % (msg, got, want), wh)
    for n in range(5):
        I, wl, prob = fresh(base[:n])
        check("wlist:ids:%d" % n, [q.attrs["id"] for q in wl.items.items], list(range(n)), "walkers appended are not numbered in order", W("setWalker"))
        for low in (0.5, 1.0, 2.0, 2.5, 5.0, 7.0, 9.0):
            key = "wlist:%d:%g" % (n, low)
            I, wl, prob = fresh(base[:n])
            want = next((k for k, q in enumerate(base[:n]) if q > low), None if n == 0 else n)
            got = get(R, key + ":first", W("firstIndex"), lambda: (I.call(I.getattr_(wl, "firstIndex"), [low]),))
            if got:
                check(key + ":first", got[0], want, "firstIndex is not the index of the first walker above", W("firstIndex"))
            got = get(R, key + ":crop", W("cropOnLow"), lambda: I.call(I.getattr_(wl, "cropOnLow"), [low]))
            if got is not None:
                check(key + ":crop", logs(got), [q for q in base[:n] if q > low], "cropOnLow does not keep the walkers above", W("cropOnLow"))
                check(key + ":cropcls", got.cls.name, WLS, "cropOnLow is not a WalkerList", W("cropOnLow"))
            I, wl, prob = fresh(base[:n])
            got = get(R, key + ":insert", W("insertWalker"), lambda: I.call(I.getattr_(wl, "insertWalker"), [walker(I, prob, 5, [1.0, 2.0], low)]))
            if got is not None:
                check(key + ":insert", logs(got), sorted(base[:n] + [low]), "insertWalker does not keep the list ordered", W("insertWalker"))
            R.functions |= I.visited
        if n:
            I, wl, prob = fresh(base[:n])
            for name, want in (("getLogL", base[:n]), ("getLogLikelihoodEvolution", base[:n])):
                cmp(R, I, "wlist:%d:%s" % (n, name), get(R, name, W(name), lambda: I.call(I.getattr_(wl, name), [])), want, (n,), "%s is not that of the walkers" % name, W(name))
            pars = [S("p%d_%d" % (k, j)) for k in range(n) for j in range(2)]
            for name in ("allPars", "getParameterEvolution"):
                cmp(R, I, "wlist:%d:%s" % (n, name), get(R, name, W(name), lambda: I.call(I.getattr_(wl, name), [])), pars, (n, 2), "%s is not that of the walkers" % name, W(name))
            cmp(R, I, "wlist:%d:pe1" % n, get(R, "pe1", W("getParameterEvolution"), lambda: I.call(I.getattr_(wl, "getParameterEvolution"), [1])), pars[1::2], (n,), "getParameterEvolution is not that of the walkers", W("getParameterEvolution"))
            # with hyperparameters
            for nh in (1, 2):
                wl = I.instantiate(I.cls(WLS), [], {})
                for k in range(n):
                    I.call(I.getattr_(wl, "setWalker"), [walker(I, prob, 77, [S("p%d_%d" % (k, j)) for j in range(2 + nh)], base[k]), k])
                cmp(R, I, "wlist:%d:scale%d" % (n, nh), get(R, "wlist:scale", W("getScaleEvolution"), lambda: I.call(I.getattr_(wl, "getScaleEvolution"), [])),
                    [S("p%d_%d" % (k, 2 + j)) for k in range(n) for j in range(nh)], (n, nh), "getScaleEvolution is not that of the walkers", W("getScaleEvolution"))
                cmp(R, I, "wlist:%d:pars%d" % (n, nh), get(R, "wlist:pars", W("getParameterEvolution"), lambda: I.call(I.getattr_(wl, "getParameterEvolution"), [])),
                    pars, (n, 2), "getParameterEvolution is not that of the walkers", W("getParameterEvolution"))
                cmp(R, I, "wlist:%d:all%d" % (n, nh), get(R, "wlist:all", W("allPars"), lambda: I.call(I.getattr_(wl, "allPars"), [])),
                    [S("p%d_%d" % (k, j)) for k in range(n) for j in range(2 + nh)], (n, 2 + nh), "allPars is not that of the walkers", W("allPars"))
            for shuffled in (base[:n], base[:n][::-1], base[1:n] + base[:1]):
                I, wl, prob = fresh(shuffled)
                got = get(R, "wlist:low", W("getLowLogL"), lambda: I.call(I.getattr_(wl, "getLowLogL"), []))
                if isinstance(got, tuple):
                    check("wlist:low:%s" % shuffled, tuple(got), (min(shuffled), shuffled.index(min(shuffled))), "getLowLogL is not the lowest", W("getLowLogL"))
            for src in range(n):
                for des in range(n):
                    I, wl, prob = fresh(base[:n])
                    o = list(wl.items.items)
                    k2 = "wlist:%d:copy%d%d" % (n, src, des)
                    if not get(R, k2, W("copy"), lambda: (I.call(I.getattr_(wl, "copy"), [src, des], {"start": 9}), 1)):
                        continue
                    it = wl.items.items
                    check(k2 + ":logs", logs(wl), [base[src] if k == des else base[k] for k in range(n)], "copy does not overwrite one walker", W("copy"))
                    check(k2 + ":others", [it[k] is o[k] for k in range(n) if k != des], [True] * (n - 1), "copy changes other walkers", W("copy"))
                    check(k2 + ":book", (it[des].attrs["id"], it[des].attrs["parent"], it[des].attrs["start"]), (des, src, 9), "copy does not set id, parent and start", W("copy"))
                    if src != des:
                        I.np.setitem(I.getattr_(it[des], "allpars"), 0, 123.5)
                        cmp(R, I, k2 + ":independent", I.getattr_(it[src], "allpars"), pars[2 * src:2 * src + 2], (2,), "a copied walker shares its parameters", W("copy"))
                    R.functions |= I.visited
            # an ensemble of copies of one walker
            I, wl, prob = fresh(base[:1])
            got = get(R, "wlist:ensemble", W("__init__"), lambda: I.instantiate(I.cls(WLS), [], {"problem": prob, "ensemble": n, "allpars": vec([S("a0"), S("a1")]), "fitIndex": vec([0, 1], dtype="int")}))
            if got is not None:
                it = got.items.items
                check("wlist:ensemble:%d" % n, [q.attrs["id"] for q in it], list(range(n)), "the walkers of an ensemble are not numbered", W("addWalkers"))
                for k in range(n):
                    cmp(R, I, "wlist:ensemble:%d:%d" % (n, k), I.getattr_(it[k], "allpars"), [S("a0"), S("a1")], (2,), "the walkers do not have the parameters given", W("addWalkers"))
                if n > 1:
                    I.np.setitem(I.getattr_(it[0], "allpars"), 0, 123.5)
                    cmp(R, I, "wlist:ensemble:%d:own" % n, I.getattr_(it[1], "allpars"), [S("a0"), S("a1")], (2,), "the walkers share their parameters", W("addWalkers"))


def weighted(R):
    """Tools.average"""
    wh = "BayesicFitting/source/Tools.py average"
    for n in (1, 2, 4):
        for w in (False, True):
            I = setup()
            f = I.module("Tools").env.v.get("average")
            if f is None:
                R.undecided("tools.average", "not found")
                return
            t = Truth(n, 1, 0, 0)
            x = terms(t.col("par", 0))
            kw = {"weights": terms([E(S("v%d" % k, "pospar")) for k in range(n)])} if w else {}
            if not w:
                t.w = [E(1.0 / n)] * n
            key = "average:%d:%s" % (n, w)
            got = get(R, key, wh, lambda: I.call(f, [x], kw))
            if isinstance(got, tuple) and len(got) == 2:
                cmp(R, I, key + ":mean", got[0], [t.mean(t.col("par", 0))], (), "the average is not the weighted average", wh)
                cmp(R, I, key + ":dev", got[1], [t.dev(t.col("par", 0))], (), "the deviation is not the weighted deviation", wh)
            R.functions |= I.visited


def run_samples(R):
    jobs = []
    for n in (1, 2, 3, 4):
        for npar, nhyp, nnuis in ((1, 0, 0), (2, 1, 0), (3, 2, 2)):
            for pri in (False, True):
                jobs.append((averages, n, npar, nhyp, nnuis, pri))
    jobs += [(order,), (circular, 1), (circular, 2), (circular, 3), (dynamic,), (tosample,), (wlist,), (weighted,)]
    R.parallel(job, jobs)


def job(R, f, *a):
    f(R, *a)
