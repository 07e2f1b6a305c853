"""C15 bookkeeping of the nested samplers: weights, evidence, information and the list of posterior samples"""
import math
import numpy as np
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup
from .limits import get
from .fitters import cmp
from .samples import poly

S = T.sym
NS, PS = "NestedSampler", "PhantomSampler"
NPAR = 2


def check(R, key, ok, where, msg):
    if ok:
        R.hold(key)
    else:
        R.fail(key, msg, where)


def finish(I):
    """starting positions and explorations are those of the test, not of the engines"""
    I.state = dict(calls=[], events=[], ids=[], nextl=None, start=None)

    def start(I, f, args, kw, node):
        eng, kw_ = args[0], args[1]
        w = I.iterate(I.getattr_(eng, "walkers"))[kw_]
        place(I, w, I.state["start"](kw_))
        return 2

    def explore(I, f, args, kw, node):
        ex = args[0]
        wl = I.iterate(args[1])
        walkers = I.iterate(I.getattr_(ex, "walkers"))
        I.state["calls"].append(dict(wlist=list(wl), low=args[2], before=[(w, I.getattr_(w, "logL")) for w in walkers],
                                     lineage=[dict(k=k, logL=I.getattr_(w, "logL"), id=I.getattr_(w, "id"), parent=I.getattr_(w, "parent"), start=I.getattr_(w, "start")) for k, w in enumerate(walkers)], iteration=args[3] if len(args) > 3 else kw.get("iteration")))
        for k in wl:
            if I.state.get("append"):
                # an engine that keeps its phantoms makes new walkers
                for j in range(I.state["append"]):
                    w = I.call(I.getattr_(walkers[k], "copy"), [])
                    place(I, w, I.state["nextl"](args[2]))
                    I.call(I.getattr_(I.getattr_(ex, "walkers"), "append"), [w])
            else:
                place(I, walkers[k], I.state["nextl"](args[2]))
        return None
    I.hooks["StartEngine.execute"] = start
    I.hooks["Explorer.explore"] = explore
    return I


def place(I, w, d):
    I.raw_setattr(w, "logL", d["logL"])
    I.raw_setattr(w, "logPrior", d.get("logPrior", 0))
    I.raw_setattr(w, "allpars", vec([q for q in d["par"]]))


def sampler(I, cls, n, discard=1, maxsize=None, concrete=False, linear=True, rngval=None, **opts):
    """an ensemble of n walkers, initialised"""
    if linear:
        m = poly(I, NPAR, True)
    else:
        m = I.instantiate(I.cls("ExpModel"), [], {})
        I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList([-4.0] * 2), "highLimits": AList([5.0] * 2)})
    kw = {"xdata": vec([1., 2., 3.]), "model": m, "ydata": vec([S("y%d" % k) for k in range(3)]), "ensemble": n, "verbose": 0}
    kw["discard" if cls == NS else "step"] = discard
    if maxsize is not None:
        kw["maxsize"] = maxsize
    kw.update(opts)
    ns = I.instantiate(I.cls(cls), [], kw)
    I.model_ = m
    return ns


def mkstart(vals):
    return lambda k: dict(logL=vals[k], par=[S("s%d_%d" % (k, j)) for j in range(NPAR)] + [1.0])


def step(R, n, worst, symbolic):
    """one call of updateEvidence"""
    key = "step:%d:%d:%s" % (n, worst, symbolic)
    wh = zoo.where(setup(), NS, "updateEvidence")
    I = finish(setup())
    I.state["start"] = mkstart([float(k) for k in range(n)])

    def run():
        ns = sampler(I, NS, n, worst)
        I.call(I.getattr_(ns, "initSample"), [])
        ws = I.getattr_(ns, "walkers").items.items
        for k, w in enumerate(ws):
            place(I, w, dict(logL=S("L%d" % k), logPrior=S("P%d" % k) if symbolic else 0,
                             par=[S("t%d_%d" % (k, j)) for j in range(NPAR)] + [S("h%d" % k, "pospar")]))
            I.raw_setattr(w, "parent", 20 + k)
            I.raw_setattr(w, "start", 40 + k)
        I.setattr_(ns, "logZ", S("Z"))
        I.setattr_(ns, "info", S("H"))
        I.setattr_(ns, "logWidth", S("W"))
        I.setattr_(ns, "lowLhood", S("L%d" % (worst - 1)))
        I.setattr_(ns, "logdZ", 0.0)
        I.call(I.getattr_(ns, "updateEvidence"), [worst])
        return ns
    ns = get(R, key, wh, run)
    R.functions |= I.visited
    if ns is None:
        return
    Z, H, W = E(S("Z")), E(S("H")), E(S("W"))
    L = [E(S("L%d" % k)) for k in range(n)]
    P = [E(S("P%d" % k)) if symbolic else E(0.0) for k in range(n)]
    wts = []
    for k in range(worst):
        wts.append(W + L[k] + P[k])
        W = W - 1.0 / (n - k)
    Zn = exp(Z)
    for w in wts:
        Zn = Zn + exp(w)
    logZ = log(Zn)
    info = ((H + Z) * exp(Z) + sum((exp(w) * L[k] for k, w in enumerate(wts)), E(0.0))) / Zn - logZ
    A = lambda o, a: (lambda: I.getattr_(o, a))
    c = lambda name, f, want, shape, msg: cmp(R, I, key + ":" + name, get(R, key + ":" + name, wh, f), want, shape, msg, wh)
    c("logZ", A(ns, "logZ"), [logZ], (), "logZ is not increased by the weights of the discarded walkers")
    c("info", A(ns, "info"), [info], (), "the information is not the average log likelihood minus logZ")
    c("width", A(ns, "logWidth"), [W], (), "the log width is not decreased by 1 over the number of remaining walkers")
    c("logdZ", A(ns, "logdZ"), [wts[-1] - logZ], (), "logdZ is not the relative contribution of the last discarded walker")
    c("evidence", A(ns, "evidence"), [logZ / math.log(10)], (), "evidence is not the 10-log of Z")
    c("precision", A(ns, "logZprecision"), [sqrt(where(info > 0, info, E(0.0)) / float(n))], (), "precision of logZ is not sqrt( H / ensemble )")
    c("precision10", A(ns, "precision"), [sqrt(where(info > 0, info, E(0.0)) / float(n)) / math.log(10)], (), "precision is not that of the evidence")
    c("information", A(ns, "information"), [info], (), "information is not H")
    sl = I.getattr_(ns, "samples")
    c("count", lambda: len(sl.items.items), [worst], (), "not every discarded walker becomes one sample")
    for k, s in enumerate(sl.items.items[:worst]):
        kk = "sample%d:" % k
        c(kk + "logW", A(s, "logW"), [wts[k]], (), "weight of the sample is not width * likelihood * prior")
        c(kk + "logL", A(s, "logL"), [L[k] + P[k]], (), "logL of the sample is not that of the walker")
        c(kk + "parameters", A(s, "parameters"), [E(S("t%d_%d" % (k, j))) for j in range(NPAR)], (NPAR,), "parameters of the sample are not those of the walker")
        c(kk + "hypars", A(s, "hypars"), [E(S("h%d" % k, "pospar"))], (1,), "hyperparameters of the sample are not those of the walker")
        c(kk + "id", A(s, "id"), [k], (), "the samples are not numbered in order")
        c(kk + "parent", A(s, "parent"), [k], (), "the parent of the sample is not the walker it came from")
        c(kk + "start", A(s, "start"), [40 + k], (), "the start of the sample is not that of the walker")
        check(R, key + ":" + kk + "model", I.getattr_(s, "model") is not None and I.getattr_(I.getattr_(s, "model"), "npars") == NPAR, wh, "the sample has no model")


def fullrun(R, cls, n, discard, iters, seed, linear=True, maxsize=None, draw=None):
    """a complete run with given likelihoods"""
    key = "run:%s:%d:%d:%d:%d:%s:%s:%s" % (cls, n, discard, iters, seed, "linear" if linear else "other", maxsize, draw)
    wh = zoo.where(setup(), cls if cls == PS else NS, "sample" if cls == NS else "updateWalkers")
    whs = zoo.where(setup(), NS, "sample")
    I = finish(setup())
    r = np.random.RandomState(100 + seed)
    new = []
    cnt = [0]
    begin = [float(v) for v in r.normal(-3.0, 2.0, n)]

    def nextl(low):
        low = float(low)
        v = (low if low > -1e100 else -6.0) + float(abs(r.normal(0.0, 1.5))) + 1e-3
        cnt[0] += 1
        d = dict(logL=v, par=[float(v) * 3 + 0.25, -float(v) + 1.5, 1.0])
        new.append(d)
        return d

    def startl(k):
        return dict(logL=begin[k], par=[begin[k] * 3 + 0.25, -begin[k] + 1.5, 1.0])
    I.state["start"], I.state["nextl"] = startl, nextl
    if cls == PS:
        I.state["append"] = 3

    def script(I_, name, args, kw):
        if name == "randint":
            lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
            if not (isinstance(lo, (int, np.integer)) and isinstance(hi, (int, np.integer))) or hi <= lo:
                raise Unsupported("randint %s %s" % (lo, hi))
            return int(r.randint(lo, hi)) if draw is None else int(lo) if draw == "low" else int(hi - 1)
        return NotImplemented

    def watch(I_, f, args, kw, node):
        if f.qname == "NestedSampler.updateEvidence":
            ws = I.getattr_(args[0], "walkers").items.items
            upd.append((args[1], [I.getattr_(w, "logL") for w in ws]))
    upd = []

    upd = []
    I.watch_call.append(watch)

    def run():
        ns = sampler(I, cls, n, discard, linear=linear, maxsize=maxsize)
        I.setattr_(ns, "rng", RngObj("RandomState", script=script))
        I.setattr_(ns, "minimumIterations", iters)
        I.setattr_(ns, "maxIterations", iters - 1)
        return ns, I.call(I.getattr_(ns, "sample"), [])
    out = get(R, key, whs, run)
    R.functions |= I.visited
    if out is None:
        return
    ns, ev = out
    bad = lambda name, ok, msg, w=whs: check(R, key + ":" + name, bool(ok), w, msg)
    # --- the course of the run
    bad("updates", len(upd) == iters + 1, "the evidence is updated %d times in %d iterations" % (len(upd), iters))
    if len(upd) != iters + 1:
        return
    calls = I.state["calls"]
    extra = 0 if linear else 1
    if not linear:
        bad("burnin", bool(calls) and sorted(calls[0]["wlist"]) == list(range(n)) and calls[0]["low"] < -1e300, "the walkers of a non-linear model are not all explored before the start")
        calls = calls[1:]
    logl = [list(map(float, u[1])) for u in upd]
    for j, l in enumerate(logl):
        bad("sorted%d" % j, l == sorted(l), "the walkers are not ordered in likelihood when the evidence is updated")
    want = []
    step = discard
    if cls == PS:
        discard = n * step // 100
    for j in range(iters):
        want += logl[j][:discard]
    want += logl[-1]
    Z, H, W = -1.7e308, 0.0, math.log(1.0 - math.exp(-1.0 / n))
    ws = []
    for j, (worst, l) in enumerate(zip([u[0] for u in upd], logl)):
        bad("worst%d" % j, worst == (discard if j < iters else len(l)), "the number of discarded walkers is not the one asked for")
        for k in range(worst):
            w = W + l[k]
            Zn = float(np.logaddexp(Z, w))
            H = math.exp(w - Zn) * l[k] + math.exp(Z - Zn) * (H + Z) - Zn
            Z = Zn
            ws.append(w)
            W -= 1.0 / (len(l) - k)
    sl = I.getattr_(ns, "samples")
    got = sl.items.items
    gl = [float(I.getattr_(s, "logL")) for s in got]
    nw = np.array(ws)
    keepw = list(range(len(ws)))
    if maxsize is None:
        bad("number", len(gl) == len(want), "%d samples are collected, not %d" % (len(gl), len(want)))
        if len(gl) != len(want):
            return
        bad("likelihoods", len(gl) == len(want) and np.allclose(gl, want, rtol=1e-12, atol=1e-12), "the samples are not the discarded walkers in order, followed by the last ensemble")
        lse = float(np.max(nw) + math.log(np.sum(np.exp(nw - np.max(nw)))))
        gw = [float(I.getattr_(s, "logW")) for s in got]
        bad("weights", len(gw) == len(nw) and np.allclose(gw, nw - lse, rtol=1e-9, atol=1e-9), "the weights of the samples are not the normalised width * likelihood")
        wn = np.exp(nw - lse)
        pars = np.array([[q * 3 + 0.25, -q + 1.5] for q in want])
        mean = np.sum(wn[:, None] * pars, axis=0)
        dev = np.sqrt(np.sum(wn[:, None] * (pars - mean) ** 2, axis=0))
        c = lambda name, f, w, shape, msg: cmp(R, I, key + ":" + name, get(R, key + ":" + name, whs, f), [float(x) for x in w], shape, msg, whs)
        c("parameters", lambda: I.getattr_(ns, "parameters"), mean, (NPAR,), "parameters are not the weighted average of the samples")
        c("stdevs", lambda: I.getattr_(ns, "stdevs"), dev, (NPAR,), "stdevs are not the weighted deviation of the samples")
        c("model", lambda: I.getattr_(I.model_, "parameters"), mean, (NPAR,), "the model does not get the average parameters")
        c("modelstdevs", lambda: I.getattr_(I.model_, "stdevs"), dev, (NPAR,), "the model does not get the standard deviations")
    else:
        bad("weed", len(gl) <= maxsize + len(logl[-1]), "more samples are kept than asked for")
    num = lambda a, w, msg: bad(a, np.isclose(float(w[0]), float(w[1]), rtol=1e-9, atol=1e-9), msg)
    num("logZ", (I.getattr_(ns, "logZ"), Z), "logZ is not the sum of the weights of all discarded walkers")
    num("info", (I.getattr_(ns, "info"), H), "the information is not the average of logL minus logZ")
    num("result", (ev, Z / math.log(10)), "the evidence returned is not logZ / ln( 10 )")
    num("samplesZ", (I.getattr_(sl, "logZ"), Z), "logZ of the samples is not that of the sampler")
    num("samplesE", (I.getattr_(sl, "evidence"), Z / math.log(10)), "the evidence of the samples is not that of the sampler")
    num("samplesH", (I.getattr_(sl, "info"), H), "the information of the samples is not that of the sampler")
    num("last", (gl[-1], max(logl[-1])), "the last sample is not the one with the maximum likelihood")
    # --- exploring
    if cls == NS:
        bad("explored", len(calls) == iters, "the discarded walkers are not explored once in every iteration")
        for j, cc in enumerate(calls[:iters]):
            bad("explore%d" % j, sorted(cc["wlist"]) == list(range(discard)) and float(cc["low"]) == logl[j][discard - 1],
                "the explorer does not get the discarded walkers and the likelihood of the worst of them", zoo.where(setup(), NS, "updateWalkers"))
            bad("alive%d" % j, all(float(l) > float(cc["low"]) for (w, l) in cc["before"]),
                "a discarded walker is not replaced by one of the survivors before it is explored", zoo.where(setup(), NS, "copyWalker"))
            bad("own%d" % j, len(set(id(w) for w, l in cc["before"])) == n and len(set(id(w.attrs["allpars"]) for w, l in cc["before"])) == n and
                len(set(id(w.attrs["problem"]) for w, l in cc["before"])) == n,
                "two walkers are the same object", zoo.where(setup(), NS, "copyWalker"))
        src = set(logl[j].index(float(l)) for j, cc in enumerate(calls[:iters]) for w, l in cc["before"][:discard] if float(l) in logl[j])
        for j, cc in enumerate(calls[:iters]):
            whc = zoo.where(setup(), "WalkerList", "copy")
            bad("ids%d" % j, sorted(d["id"] for d in cc["lineage"]) == list(range(n)), "the walkers do not keep their identifications", whc)
            for d in cc["lineage"][:discard]:
                bad("parent%d:%d" % (j, d["k"]), float(d["logL"]) in logl[j] and d["parent"] == logl[j].index(float(d["logL"])) and d["start"] == j + 1,
                    "the parent and start of a copied walker are not those of its source and the iteration", whc)
    else:
        src = None
        lows = [l[discard - 1] for l in logl]
        for j, cc in enumerate(calls):
            bad("low%d" % j, float(cc["low"]) in lows[:-1], "the explorer does not get the likelihood of the discarded walkers", wh)
            bad("alive%d" % j, all(float(l) > float(cc["low"]) for (w, l) in cc["before"]), "the discarded walkers are not removed from the ensemble before it is explored", wh)
        for j, l in enumerate(logl):
            bad("size%d" % j, len(l) == n, "the ensemble has %d walkers, not %d" % (len(l), n), wh)
    return src


def sources(R, n, discard):
    """every survivor can be the source of a copy"""
    wh = zoo.where(setup(), NS, "copyWalker")
    src = [fullrun(R, NS, n, discard, 2, 9, True, None, d) for d in ("low", "high")]
    if None in src:
        return
    check(R, "sources:%d:%d" % (n, discard), src[0] | src[1] == {discard, n - 1}, wh,
          "the walkers that can be copied are not the %d survivors: first and last are %s" % (n - discard, sorted(src[0] | src[1])))


def phantoms(R, dynamic, mode):
    """copies of phantoms are above the likelihood of the discarded walkers"""
    name = "copyWalkerFromDynamicPhantoms" if dynamic else "copyWalkerFromPhantoms"
    key = "phantomcopy:%s:%s" % ("dynamic" if dynamic else "static", mode)
    wh = zoo.where(setup(), NS, name)
    I = finish(setup())
    I.state["start"] = mkstart([float(k) for k in range(4)])
    logs = [-3.0, 0.5, 1.0, 1.5, 1.75, 4.0, 7.0]
    cnt = [0]

    def script(I_, name_, args, kw):
        if name_ != "randint":
            return NotImplemented
        lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
        cnt[0] += 1
        return int(lo + (cnt[0] if mode == "up" else -cnt[0]) % (hi - lo))

    def run():
        if dynamic:
            m = I.instantiate(I.cls("PolynomialDynamicModel"), [1], {})
            I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList([-4.0]), "highLimits": AList([5.0])})
            ns = I.instantiate(I.cls(NS), [], {"xdata": vec([1., 2., 3.]), "model": m, "ydata": vec([S("y%d" % k) for k in range(3)]), "ensemble": 4, "discard": 2, "verbose": 0})
        else:
            ns = sampler(I, NS, 4, 2)
        I.call(I.getattr_(ns, "initSample"), [])
        I.setattr_(ns, "rng", RngObj("RandomState", script=script))
        I.setattr_(ns, "copymode", 1)
        ws = I.getattr_(ns, "walkers").items.items
        ph = I.getattr_(ns, "phantoms")
        for k, l in enumerate(logs):
            w = I.call(I.getattr_(ws[0], "copy"), [])
            place(I, w, dict(logL=l, par=[S("p%d_%d" % (k, j)) for j in range(NPAR)] + [1.0]))
            if dynamic and k % 2:
                I.call(I.getattr_(I.getattr_(I.getattr_(w, "problem"), "model"), "grow"), [], {"rng": RngObj("RandomState", seed=3)})
                place(I, w, dict(logL=l, par=[S("p%d_%d" % (k, j)) for j in range(NPAR + 1)] + [1.0]))
            I.call(I.getattr_(ph, "storeItems"), [w])
        I.setattr_(ns, "lowLhood", 1.25)
        I.call(I.getattr_(ns, "copyWalker"), [2])
        return ns
    ns = get(R, key, wh, run)
    R.functions |= I.visited
    if ns is None:
        return
    ws = I.getattr_(ns, "walkers").items.items
    check(R, key + ":number", len(ws) == 4, wh, "the number of walkers changed")
    for k in range(2):
        l = I.getattr_(ws[k], "logL")
        check(R, key + ":low%d" % k, l in logs and l > 1.25, wh, "a discarded walker gets the phantom with logL %s while the limit is 1.25" % l)
        if l not in logs:
            continue
        j = logs.index(l)
        np_ = NPAR + (1 if dynamic and j % 2 else 0)
        cmp(R, I, key + ":par%d" % k, I.getattr_(ws[k], "allpars"), [S("p%d_%d" % (j, i)) for i in range(np_)] + [1.0], (np_ + 1,), "the walker does not have the parameters of the phantom", wh)
        check(R, key + ":npar%d" % k, I.getattr_(I.getattr_(ws[k], "problem"), "npars") == np_, wh, "the walker does not have the model of the phantom")


def options(R):
    """when to stop"""
    wh = zoo.where(setup(), NS, "nextIteration")
    I = finish(setup())
    I.state["start"] = mkstart([float(k) for k in range(4)])
    ns = get(R, "stop", wh, lambda: sampler(I, NS, 4, 2))
    if ns is None:
        return
    r = np.random.RandomState(3)
    for t in range(60):
        it, mn = int(r.randint(0, 30)), int(r.randint(0, 20))
        mx = None if t % 3 == 0 else int(r.randint(0, 30))
        ldz, tol = float(r.choice([-20.0, -11.0, -3.0])), float(r.choice([-12, -5]))
        info, end = float(r.choice([0.3, 2.0, 10.0])), float(r.choice([1, 2, 4]))
        for a, v in dict(iteration=it, minimumIterations=mn, maxIterations=mx, logdZ=ldz, tolerance=tol, info=info, end=end).items():
            I.setattr_(ns, a, v)
        want = it < mn or not (ldz < tol or (mx is not None and it > mx) or it > end * 4 * info / 2)
        got = get(R, "stop:%d" % t, wh, lambda: I.call(I.getattr_(ns, "nextIteration"), []))
        check(R, "stop:%d" % t, got is want, wh, "iteration %d (minimum %d, maximum %s, logdZ %g, tolerance %g, H %g, end %g) is %s" % (it, mn, mx, ldz, tol, info, end, got))
    R.functions |= I.visited


def run_evidence(R):
    jobs = []
    for n, worst in ((2, 1), (3, 2), (4, 1), (4, 4), (5, 3)):
        for s in (True, False):
            jobs.append((n, worst, s))
    R.parallel(step, jobs)
    runs = [(NS, 4, 1, 5, 0), (NS, 4, 1, 3, 1, False), (NS, 5, 2, 4, 2), (NS, 3, 1, 1, 3), (NS, 6, 3, 3, 4), (NS, 5, 1, 6, 5, True, 8), (NS, 6, 5, 2, 6),
            (PS, 50, 4, 2, 7), (PS, 30, 7, 3, 8), (PS, 20, 10, 2, 9)]
    R.parallel(fullrun, runs)
    R.parallel(sources, [(4, 1), (5, 2), (6, 4)])
    R.parallel(phantoms, [(d, m) for d in (False, True) for m in ("up", "down")])
    options(R)
