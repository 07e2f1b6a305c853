"""C12 problems: residuals, weighted squares, design matrices and distances"""
import math
import numpy as np
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup, crash
from .limits import get
from .fitters import cmp
from . import likelihood as L

S = T.sym


def run_problems(R):
    jobs = []
    for w in (False, True):
        jobs.append((classic, w))
        for a in (None, "acc1", "acc2", "acc3", "accN2", "accN3", "cov", "covN"):
            jobs.append((errxy, w, a))
    for w in (None, "w1", "w2", "l1", "l2"):
        jobs.append((multi, w))
    jobs += [(cyclic,), (evidence,)]
    for cont in ("list", "tuple", "array"):
        for w in (False, True):
            for a in (None, "each", "one"):
                jobs.append((concrete, cont, w, a))
    for n, nd in ((3, 2), (4, 2), (5, 3)):
        for dist in ("euclid", "manhattan", "spherical", "table", "user"):
            if dist == "spherical" and nd != 2:
                continue
            for w in (False, True):
                for oneway in (False, True):
                    jobs.append((salesman, n, nd, dist, w, oneway))
    jobs.append((minimum,))
    R.parallel(job, jobs)


def job(R, f, *a):
    f(R, *a)


def wres(R, I, key, p, allp, rr, ww, wh, sym, shape, mock=None, mres=None):
    """weightedResSq with and without extra"""
    sq = [w * r * r for w, r in zip(ww, rr)]
    lin = [w * r for w, r in zip(ww, rr)]
    call = lambda kw: I.call(I.getattr_(p, "weightedResSq"), [allp.copy()], kw)
    cmp(R, I, key + ":wresq", get(R, key + ":wresq", wh, lambda: call({})), sq, shape, "weightedResSq is not the weight times the squared residual", wh, sym)
    v = get(R, key + ":wresqx", wh, lambda: call({"extra": True}))
    if isinstance(v, tuple) and len(v) == 2:
        cmp(R, I, key + ":wresqx", v[0], sq, shape, "weightedResSq is not the weight times the squared residual", wh, sym)
        cmp(R, I, key + ":wresl", v[1], lin, shape, "the second item of weightedResSq is not the weight times the residual", wh, sym)
    elif v is not None:
        R.undecided(key + ":wresqx", v)
    if mock is not None:
        v = get(R, key + ":wresmock", wh, lambda: call({"mockdata": mock.copy()}))
        cmp(R, I, key + ":wresmock", v, [w * r * r for w, r in zip(ww, mres)], shape, "weightedResSq does not use the mock data", wh, sym)


def classic(R, w):
    key = "classic:%s" % ("w" if w else "-")
    I = setup()
    I.cls("ClassicProblem")
    wh = lambda m: zoo.where(I, "ClassicProblem", m)
    m, pars = L.make_model(I, "Gauss")
    p = L.problem(I, m, w, None)
    x = zoo.xdata_of(m)
    f = lambda meth: I.call(I.getattr_(m, meth), [x, vec(pars)])
    want = f("result")
    y, wt = S("y", "datum"), [E(S("w", "posdatum")) if w else E(1)]
    G = lambda kk, meth, a, kw={}: get(R, key + ":" + kk, wh(meth), lambda: I.call(I.getattr_(p, meth), a, dict(kw)))
    A = lambda a: get(R, key + ":" + a, wh("__getattr__"), lambda: I.getattr_(p, a))
    cmp(R, I, key + ":result", G("result", "result", [vec(pars)]), [E(v) for v in want.a.flat], want.a.shape, "result is not that of the model at the xdata", wh("result"), want.sym)
    r = [E(y) - E(want.a.flat[0])]
    cmp(R, I, key + ":res", G("res", "residuals", [vec(pars)]), r, (1,), "residuals are not ydata - result", wh("residuals"), (True,))
    mock = datum(S("mock", "datum"))
    mr = [E(y) - E(S("mock", "datum"))]
    cmp(R, I, key + ":mock", G("mock", "residuals", [vec(pars)], {"mockdata": mock.copy()}), mr, (1,), "residuals are not ydata - mockdata", wh("residuals"), (True,))
    wres(R, I, key, p, vec(pars + [S("scale", "pospar")]), r, wt, wh("weightedResSq"), (True,), (1,), mock, mr)
    for meth in ("partial", "derivative"):
        want = f(meth)
        cmp(R, I, "%s:%s" % (key, meth), G(meth, meth, [vec(pars)]), [E(v) for v in want.a.flat], want.a.shape, "%s is not that of the model at the xdata" % meth, wh(meth), want.sym)
    n = total(E(1)) 
    sw = total(E(S("w", "posdatum"))) if w else n
    cmp(R, I, key + ":sumweight", A("sumweight"), [sw], (), "sumweight is not the sum of the weights", wh("__getattr__"))
    cmp(R, I, key + ":npars", A("npars"), [2], (), "npars is not that of the model", wh("__getattr__"))
    # other weights, none
    get(R, key + ":setweights", wh("__setattr__"), lambda: I.setattr_(p, "weights", datum(S("w2", "posdatum"))) or True)
    cmp(R, I, key + ":sumweight2", A("sumweight"), [total(E(S("w2", "posdatum")))], (), "sumweight is not that of the new weights", wh("__setattr__"))
    wres(R, I, key + ":2", p, vec(pars + [S("scale", "pospar")]), r, [E(S("w2", "posdatum"))], wh("weightedResSq"), (True,), (1,))
    get(R, key + ":setweights", wh("__setattr__"), lambda: I.setattr_(p, "weights", None) or True)
    cmp(R, I, key + ":sumweight3", A("sumweight"), [n], (), "sumweight is not the number of data when the weights are taken away", wh("__setattr__"))
    R.functions |= I.visited


def concrete(R, cont, w, a):
    """three data as list, tuple or array"""
    key = "classic:%s:%s:%s" % (cont, "w" if w else "-", a or "-")
    I = setup()
    I.cls("ClassicProblem")
    wh = lambda m: zoo.where(I, "ClassicProblem", m)
    C = {"list": lambda v: AList(list(v)), "tuple": tuple, "array": lambda v: vec(list(v))}[cont]
    m = get(R, key, wh("__init__"), lambda: I.instantiate(I.cls("PolynomialModel"), [1], {}))
    pars = [S("p0"), S("p1")]
    x, y, wt, acc = [[S("%s%d" % (q, k), "posdatum" if q in "wa" else "datum") for k in range(3)] for q in "xywa"]
    one = S("a", "pospar")
    given = {"xdata": C(x), "ydata": C(y)}
    if w:
        given["weights"] = C(wt)
    if a:
        given["accuracy"] = C(acc) if a == "each" else one
    p = get(R, key, wh("__init__"), lambda: I.instantiate(I.cls("ClassicProblem"), [m], dict(given)))
    if p is None:
        return
    G = lambda kk, meth, args: get(R, key + ":" + kk, wh(meth), lambda: I.call(I.getattr_(p, meth), args))
    A = lambda q: get(R, key + ":" + q, wh("__getattr__"), lambda: I.getattr_(p, q))
    f = [E(pars[0]) + E(pars[1]) * E(q) for q in x]
    r = [E(u) - v for u, v in zip(y, f)]
    cmp(R, I, key + ":result", G("result", "result", [vec(pars)]), f, (3,), "result is not that of the model at the xdata", wh("result"))
    cmp(R, I, key + ":res", G("res", "residuals", [vec(pars)]), r, (3,), "residuals are not ydata - result", wh("residuals"))
    cmp(R, I, key + ":wres", G("wres", "weightedResSq", [vec(pars + [S("scale", "pospar")])]), [(E(u) if w else E(1)) * v * v for u, v in zip(wt, r)], (3,),
        "weightedResSq is not the weight times the squared residual", wh("weightedResSq"))
    cmp(R, I, key + ":sumweight", A("sumweight"), [E(wt[0]) + E(wt[1]) + E(wt[2]) if w else E(3)], (), "sumweight is not the sum of the weights", wh("__getattr__"))
    av = {None: ([E(0)], ()), "each": ([E(q) for q in acc], (3,)), "one": ([E(one)], ())}[a]
    cmp(R, I, key + ":accuracy", A("accuracy"), av[0], av[1], "accuracy is not what was given", wh("setAccuracy"))
    cmp(R, I, key + ":varyy", A("varyy"), [q * q for q in av[0]], av[1], "varyy is not the square of the accuracy", wh("setAccuracy"))
    has = A("hasAccuracy")
    if has is bool(a):
        R.hold(key + ":hasAccuracy")
    else:
        R.fail(key + ":hasAccuracy", "hasAccuracy is %s" % (has,), wh("setAccuracy"))
    for q, v in given.items():
        now = list(v.a.flat) if isinstance(v, Arr) else list(v.items) if isinstance(v, AList) else v
        was = {"xdata": x, "ydata": y, "weights": wt, "accuracy": acc}[q]
        if v is not one and not (len(now) == 3 and all(i is j for i, j in zip(now, was))):
            R.fail("%s:own:%s" % (key, q), "%s of the caller is changed" % q, wh("__init__"))
        else:
            R.hold("%s:own:%s" % (key, q))
    R.functions |= I.visited


def evidence(R):
    key = "evidence"
    I = setup()
    I.cls("EvidenceProblem")
    wh = lambda m: zoo.where(I, "EvidenceProblem", m)
    m = get(R, key, wh("__init__"), lambda: I.instantiate(I.cls("PolynomialDynamicModel"), [2], {}))
    pars = [S("p%d" % k) for k in range(3)]
    p = get(R, key, wh("__init__"), lambda: L.problem(I, m, True, None, cls="EvidenceProblem"))
    if p is None:
        return
    x = zoo.xdata_of(m)
    want = I.call(I.getattr_(m, "result"), [x, vec(pars)])
    got = get(R, key + ":result", wh("result"), lambda: I.call(I.getattr_(p, "result"), [vec(pars)]))
    cmp(R, I, key + ":result", got, [E(v) for v in want.a.flat], want.a.shape, "result is not that of the model at the xdata", wh("result"), want.sym)
    r = [E(S("y", "datum")) - E(want.a.flat[0])]
    wres(R, I, key, p, vec(pars + [S("scale", "pospar")]), r, [E(S("w", "posdatum"))], wh("weightedResSq"), (True,), (1,))
    R.functions |= I.visited


def tolist(v):
    return AList([tolist(q) for q in v.a] if v.a.ndim == 2 else list(v.a)) if isinstance(v, Arr) else AList(list(v))


def multi(R, w):
    key = "multi:%s" % (w or "-")
    I = setup()
    I.cls("MultipleOutputProblem")
    wh = lambda m: zoo.where(I, "MultipleOutputProblem", m)
    N, K = 3, 2
    m = I.instantiate(I.cls("SoftMaxModel"), [], {"ndim": 2, "ndout": K, "normed": False})
    n = m.attrs["npbase"]
    pars = [S("p%d" % k) for k in range(n)]
    x = L.arr2([[S("x%d%d" % (i, j)) for j in range(2)] for i in range(N)])
    y = L.arr2([[S("y%d%d" % (i, j)) for j in range(K)] for i in range(N)])
    kw = {"model": m, "xdata": x, "ydata": y.copy()}
    W = [[E(1)] * K for i in range(N)]
    if w in ("w1", "l1"):
        W = [[E(S("w%d" % i, "pospar"))] * K for i in range(N)]
        kw["weights"] = vec([q[0].t for q in W])
    elif w in ("w2", "l2"):
        W = [[E(S("w%d%d" % (i, j), "pospar")) for j in range(K)] for i in range(N)]
        kw["weights"] = L.arr2([[q.t for q in r] for r in W])
    if w and w[0] == "l":
        kw["weights"] = tolist(kw["weights"])
    p = get(R, key, wh("__init__"), lambda: I.instantiate(I.cls("MultipleOutputProblem"), [], kw))
    if p is None:
        return
    f = I.call(I.getattr_(m, "result"), [x, vec(pars)])
    got = get(R, key + ":result", wh("result"), lambda: I.call(I.getattr_(p, "result"), [vec(pars)]))
    cmp(R, I, key + ":result", got, [E(v) for v in f.a.flat], (N, K), "result is not that of the model at the xdata", wh("result"))
    rr = [E(a) - E(b) for a, b in zip(y.a.flat, f.a.flat)]
    ww = [q for r in W for q in r]
    got = get(R, key + ":res", wh("residuals"), lambda: I.call(I.getattr_(p, "residuals"), [vec(pars)]))
    cmp(R, I, key + ":res", got, rr, (N * K,), "residuals are not ydata - result, one output after the other for each datum", wh("residuals"))
    wres(R, I, key, p, vec(pars + [S("scale", "pospar")]), rr, ww, wh("weightedResSq"), (False,), (N * K,))
    got = get(R, key + ":partial", wh("partial"), lambda: I.call(I.getattr_(p, "partial"), [vec(pars)]))
    if isinstance(got, Arr):
        want = [E(T.diff(v, q)) for v in f.a.flat for q in pars]
        cmp(R, I, key + ":partial", got, want, (N * K, n), "partial is not the derivative of the (flattened) result to the parameters", wh("partial"))
    elif got is not None:
        R.undecided(key + ":partial", got)
    sw = sum(ww, E(0)) 
    got = get(R, key + ":sumweight", wh("__getattr__"), lambda: I.getattr_(p, "sumweight"))
    cmp(R, I, key + ":sumweight", got, [sw], (), "sumweight is not the sum of the weights of all outputs", wh("__getattr__"))
    R.functions |= I.visited


def wrapped(r, P):
    return where(r > P / 2, r - P, where(r < -P / 2, r + P, r))


def cyclic(R):
    """a stub model with a cyclic result; data and results within one period"""
    for kind in ("scalar", "dict", "dict2"):
        key = "cyclic:" + kind
        I = setup()
        I.cls("ClassicProblem")
        wh = zoo.where(I, "Problem", "cyclicCorrection")
        P, P2 = E(S("period", "pospar")), E(S("period2", "pospar"))
        if kind == "scalar":
            m = I.instantiate(I.cls("ExpModel"), [], {})
            pars = [S("p0"), S("p1")]
            I.raw_setattr(m, "cyclic", P.t)
            y = datum(S("y", "datum"))
            x = zoo.xdata_of(m)
        else:
            m = I.instantiate(I.cls("SoftMaxModel"), [], {"ndim": 2, "ndout": 3, "normed": False})
            pars = [S("p%d" % k) for k in range(m.attrs["npbase"])]
            I.raw_setattr(m, "cyclic", ADict({1: P.t} if kind == "dict" else {1: P.t, 2: P2.t}))
            y = datum2([S("y0", "datum"), S("y1", "datum"), S("y2", "datum")])
            x = zoo.xdata_of(m)
        cls = "ClassicProblem" if kind == "scalar" else "MultipleOutputProblem"
        p = get(R, key, wh, lambda: I.instantiate(I.cls(cls), [], {"model": m, "xdata": x, "ydata": y.copy()}))
        if p is None:
            continue
        f = I.call(I.getattr_(m, "result"), [x, vec(pars)])
        got = get(R, key, wh, lambda: I.call(I.getattr_(p, "residuals"), [vec(pars)]))
        if not isinstance(got, Arr):
            if got is not None:
                R.undecided(key, got)
            continue
        per = {0: P} if kind == "scalar" else {1: P} if kind == "dict" else {1: P, 2: P2}
        gf, wf = list(got.a.flat), list(f.a.flat)
        if len(gf) != len(wf):
            R.fail(key, "the residuals have shape %s" % (got.a.shape,), wh)
            continue
        for k, (a, b, g) in enumerate(zip(y.a.flat, wf, gf)):
            r = E(a) - E(b)
            kk = "%s:%d" % (key, k)
            if k not in per:
                R.decide(kk, T.equal(g, r.t, seed=kk), "the residual of a result which is not cyclic is changed", wh)
                continue
            Q = per[k]
            ok = T.land(T.cmp("<", r.t, Q.t), T.cmp("<", (-Q).t, r.t))
            edge = T.lnot(T.lor(T.cmp("==", r.t, (Q / 2).t), T.cmp("==", r.t, (-Q / 2).t))) if hasattr(T, "lnot") else ok
            R.decide(kk, T.equal(g, wrapped(r, Q).t, seed=kk, assume=T.land(ok, edge)), "the residual of a cyclic result is not the shortest way round", wh)
        R.functions |= I.visited


def errxy(R, w, a):
    key = "xy:%s:%s" % ("w" if w else "-", a or "-")
    I = setup()
    I.cls("ErrorsInXandYProblem")
    wh = lambda m: zoo.where(I, "ErrorsInXandYProblem", m)
    c = get(R, key, wh("setAccuracy"), lambda: L.xy_case(I, w, a))
    if c is None:
        return
    p, m = c.problem, c.model
    n, N = 2, L.NXY
    x, y, t = [[E(S("%s%d" % (q, k))) for k in range(N)] for q in "xyt"]
    f = [E(v) for v in I.call(I.getattr_(m, "result"), [vec([v.t for v in t]), vec(c.pars)]).a.flat]
    par = lambda: vec(c.pars + [v.t for v in t])
    G = lambda kk, meth, args, kw={}: get(R, key + ":" + kk, wh(meth), lambda: I.call(I.getattr_(p, meth), args, dict(kw)))
    cmp(R, I, key + ":npars", get(R, key + ":npars", wh("__init__"), lambda: I.getattr_(p, "npars")), [n + N], (), "npars is not the number of model parameters plus the number of data", wh("__init__"))
    cmp(R, I, key + ":result", G("result", "result", [par()]), f, (N,), "result is not that of the model at the target abscissae", wh("result"))
    ry, rx = [b - q for b, q in zip(y, f)], [b - q for b, q in zip(x, t)]
    v = G("residuals", "getXYresiduals", [par()])
    if isinstance(v, tuple) and len(v) == 2:
        cmp(R, I, key + ":yres", v[0], ry, (N,), "the residuals in y are not ydata - result", wh("getXYresiduals"))
        cmp(R, I, key + ":xres", v[1], rx, (N,), "the residuals in x are not xdata - target", wh("getXYresiduals"))
    elif v is not None:
        R.undecided(key + ":residuals", v)
    part = G("partial", "partial", [par()])
    want = [E(T.diff(q.t, s)) for q in f for s in list(c.pars) + [v.t for v in t]]
    want += [E(1 if i == j - n else 0) for i in range(N) for j in range(n + N)]
    cmp(R, I, key + ":partial", part, want, (2 * N, n + N), "partial is not the derivative of [ result, target ] to all parameters", wh("partial"))
    s2 = E(c.scale) ** 2
    lin, sq, raw = [E(0)] * (2 * N), [], []
    for k in range(N):
        yy, xx, xy = c.vyy[k] + s2, c.vxx[k] + s2, c.vxy[k]
        det = yy * xx - xy * xy
        wk = c.ww[k]
        lin[k] = wk * (ry[k] * xx - rx[k] * xy) / det
        lin[N + k] = wk * (rx[k] * yy - ry[k] * xy) / det
        sq.append(ry[k] * lin[k] + rx[k] * lin[N + k])
        raw.append(wk * (ry[k] ** 2 + rx[k] ** 2))
    whw = wh("weightedResSq")
    cmp(R, I, key + ":wresq", G("wresq", "weightedResSq", [c.all.copy()]), sq, (N,), "weightedResSq is not the squared residual in units of the (co)variances", whw)
    v = G("wresqx", "weightedResSq", [c.all.copy()], {"extra": True})
    if isinstance(v, tuple) and len(v) == 3:
        cmp(R, I, key + ":wresqx", v[0], sq, (N,), "weightedResSq is not the squared residual in units of the (co)variances", whw)
        cmp(R, I, key + ":wresl", v[1], lin, (2 * N,), "the second item of weightedResSq is not half the derivative of the first to the residuals", whw)
        cmp(R, I, key + ":wresraw", v[2], raw, (N,), "the third item of weightedResSq is not the weighted sum of the squared residuals in x and y", whw)
    elif v is not None:
        R.undecided(key + ":wresqx", v)
    if c.scalar is not None:
        R.hold(key)
    # the arrays of the caller
    for nm, b in c.before.items():
        now = c.kw[nm]
        if isinstance(now, Arr):
            for k, (g, q) in enumerate(zip(now.a.flat, b.a.flat)):
                R.decide("%s:input:%s:%d" % (key, nm, k), T.equal(g, q, seed=key), "%s of the caller is changed" % nm, wh("setAccuracy"))
    R.functions |= I.visited


ORD = {3: [[0, 1, 2], [2, 0, 1], [1, 0, 2]], 4: [[0, 1, 2, 3], [2, 0, 3, 1]], 5: [[3, 1, 4, 0, 2]]}


def separation(dist, x, a, b, tab):
    if dist == "euclid":
        return sqrt(sum(((p - q) ** 2 for p, q in zip(x[a], x[b])), E(0)))
    if dist == "manhattan":
        return sum((fabs(p - q) for p, q in zip(x[a], x[b])), E(0))
    if dist == "table":
        return E(tab.a[a, b])
    if dist == "user":
        return sum(((p - q) ** 4 for p, q in zip(x[a], x[b])), E(0)) + x[a][0]
    # cosine of the angle between two directions
    r = math.pi / 180
    la, ba, lb, bb = x[a][0] * r, x[a][1] * r, x[b][0] * r, x[b][1] * r
    return E(T.fn("sin", ba.t)) * E(T.fn("sin", bb.t)) + E(T.fn("cos", ba.t)) * E(T.fn("cos", bb.t)) * E(T.fn("cos", (la - lb).t))


def nodes(n, nd):
    return [[S("x%d%d" % (i, j)) for j in range(nd)] for i in range(n)]


def userdist(I, args, kw):
    x, pars = args[0], args[1]
    roll = kw.get("roll", args[2] if len(args) > 2 else 1)
    p = [int(v) for v in (pars.a.flat if isinstance(pars, Arr) else I.iterate(pars))]
    n = len(p)
    X = [[E(v) for v in r] for r in x.a]
    return vec([separation("user", X, p[k], p[(k + roll) % n], None).t for k in range(n)])


def salesman(R, n, nd, dist, w, oneway):
    key = "salesman:%d:%d:%s:%s%s" % (n, nd, dist, "w" if w else "", "o" if oneway else "")
    I = setup()
    I.cls("SalesmanProblem")
    wh = zoo.where(I, "SalesmanProblem", "result")
    nod = nodes(n, nd)
    x = L.arr2(nod)
    X = [[E(v) for v in r] for r in nod]
    tab = L.arr2([[S("d%d%d" % (i, j), "pospar") for j in range(n)] for i in range(n)])
    sc = S("scale", "pospar")
    kw = {"xdata": x, "scale": sc, "oneway": oneway, "distance": Native("user", lambda i, a, k: userdist(I, a, k)) if dist == "user" else dist}
    if dist == "table":
        kw["table"] = tab
    wt = [E(S("w%d" % i, "pospar")) if w else E(1) for i in range(n)]
    if w:
        kw["weights"] = vec([v.t for v in wt])
    p = get(R, key, wh, lambda: I.instantiate(I.cls("SalesmanProblem"), [], kw))
    if p is None:
        return
    cmp(R, I, key + ":npars", get(R, key + ":npars", wh, lambda: I.getattr_(p, "npars")), [n], (), "npars is not the number of nodes", wh)
    ed = get(R, key, wh, lambda: I.instantiate(I.cls("DistanceCostFunction"), [], {}))
    for q, order in enumerate(ORD[n]):
        kk = "%s:%d" % (key, q)
        got = get(R, kk, wh, lambda: I.call(I.getattr_(p, "result"), [vec(order, dtype="int")]))
        if got is None:
            continue
        if not isinstance(got, Arr) or got.a.shape != (n,):
            R.fail(kk + ":shape", "result is %r" % (got,), wh)
            continue
        tot = E(0)
        for k, g in enumerate(got.a.flat):
            a, b = order[k], order[(k + 1) % n]
            kq = "%s:%d" % (kk, k)
            sep = separation(dist, X, a, b, tab)
            if oneway and k == n - 1:
                R.decide(kq, T.equal(g, 0, seed=kq), "the way home is counted in a oneway trip", wh)
                continue
            fac = wt[a] / E(sc)
            if dist == "spherical":
                ang = E(g) / fac
                R.decide(kq, T.equal(T.fn("cos", ang.t), sep.t, seed=kq), "the distance is not that over the sphere between subsequent nodes", wh)
            else:
                R.decide(kq, T.equal(g, (sep * fac).t, seed=kq), "the distance is not the documented one between subsequent nodes", wh)
            tot = tot + E(g)
        for meth in ("logLhood", "logLikelihood_alt"):
            if ed is None or (meth == "logLhood" and I.find(ed.cls, meth) is None):
                continue
            v = get(R, "%s:%s" % (kk, meth), wh, lambda: I.call(I.getattr_(ed, meth), [p, vec(order, dtype="int")]))
            cmp(R, I, "%s:%s" % (kk, meth), v, [-tot], (), "the cost is not minus the sum of the distances", zoo.where(I, "DistanceCostFunction", "logLdata"))
    R.functions |= I.visited


def minimum(R):
    """without scale: in units of the smallest distance between two nodes"""
    for n in (3, 4):
        for dist in ("euclid", "manhattan"):
            key = "minimum:%d:%s" % (n, dist)
            I = setup()
            I.cls("SalesmanProblem")
            wh = zoo.where(I, "SalesmanProblem", "minimumDistance")
            nod = nodes(n, 2)
            X = [[E(v) for v in r] for r in nod]
            p = get(R, key, wh, lambda: I.instantiate(I.cls("SalesmanProblem"), [], {"xdata": L.arr2(nod), "scale": 1.0, "distance": dist}))
            if p is None:
                continue
            got = get(R, key, wh, lambda: I.call(I.getattr_(p, "minimumDistance"), []))
            d = [separation(dist, X, a, b, None) for a in range(n) for b in range(a)]
            want = d[0]
            for q in d[1:]:
                want = where(q < want, q, want)
            if isinstance(got, Arr) and got.a.size == 1:
                got = got.a.flat[0]
            cmp(R, I, key, got, [want], (), "minimumDistance is not the smallest distance between two nodes", wh)
            R.functions |= I.visited
