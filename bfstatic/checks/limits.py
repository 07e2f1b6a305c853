"""C09 limits and priors reach the (hyper)parameters they are set for"""
import numpy as np
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup, crash
from . import compound as C
from . import likelihood as L

S = T.sym


def structures():
    """(label, build, base index of every parameter, number of settable parameters)"""
    def tree(t):
        n = C.npar(t)
        return (C.show(t), lambda I: C.build(I, t), list(range(n)), n)
    for t in ("G", "P", ("+", "G", "X"), ("*", "P", ("+", "X", "A")), ("*", ("+", "G", "P"), "X"), ("+", ("*", "P", ("-", "X", "A")), "G"),
              ("|", "P", "G"), ("/", "X", ("+", "P", ("*", "X", "A"))), ("*", ("+", "P", "X"), ("+", "A", "G")), ("+", "G", "C"), ("*", ("+", "C", "P"), "G")):
        yield tree(t)

    def fixed(I, t, f):
        cls, a, k = C.LEAF[t][:3]
        return I.instantiate(I.cls(cls), list(a), dict(k, fixed=ADict(f)))
    yield "fixed(G,1)", lambda I: fixed(I, "G", {1: 0.5}), [0, 1], 2
    yield "fixed(A,0)+P", lambda I: I.binary("Add", fixed(I, "A", {0: 1.5}), C.build(I, "P"), None), [0, 1, 2, 3], 4

    def rep(I, n, t, same):
        return I.instantiate(I.cls("RepeatingModel"), [n, C.build(I, t)], {"same": AList(list(same))} if same else {})
    for n, t, same in ((1, "G", []), (2, "G", []), (3, "A", [0]), (3, "A", [1]), (2, "X", [0])):
        nm = C.npar(t)
        own = [k for k in range(nm) if k not in same]
        idx = list(range(nm)) + own * (n - 1)
        yield "rep(%d,%s,%s)" % (n, t, same), lambda I, n=n, t=t, same=same: rep(I, n, t, same), idx, nm
    yield ("P+rep(2,A,[0])", lambda I: I.binary("Add", C.build(I, "P"), rep(I, 2, "A", [0]), None), [0, 1, 2, 3, 4, 3, 4], 5)

    def combi(I, n, t, add):
        return I.instantiate(I.cls("CombiModel"), [C.build(I, t), n], {"addCombi": ADict({add: AList([0.0, 1.5, 2.5][:n])})} if add is not None else {})
    for n, t, add in ((2, "G", 1), (3, "X", 0), (2, ("+", "G", "X"), 4), (2, "A", None)):
        k = C.npar(t) * n - (n - 1 if add is not None else 0)
        yield "combi(%d,%s,%s)" % (n, C.show(t), add), lambda I, n=n, t=t, add=add: combi(I, n, t, add), list(range(k)), k
        yield "combi(%d,%s,%s)+P" % (n, C.show(t), add), lambda I, n=n, t=t, add=add: I.binary("Add", combi(I, n, t, add), C.build(I, "P"), None), list(range(k + 2)), k + 2
        yield "X*combi(%d,%s,%s)" % (n, C.show(t), add), lambda I, n=n, t=t, add=add: I.binary("Mult", C.build(I, "X"), combi(I, n, t, add), None), list(range(k + 2)), k + 2
    brk = lambda I, t: I.instantiate(I.cls("BracketModel"), [C.build(I, t)], {})
    yield "bracket(G)", lambda I: brk(I, "G"), [0, 1, 2], 3
    yield "bracket(G+X)*P", lambda I: I.binary("Mult", brk(I, ("+", "G", "X")), C.build(I, "P"), None), list(range(7)), 7
    yield "P*bracket(G+X)+A", lambda I: I.binary("Add", I.binary("Mult", C.build(I, "P"), brk(I, ("+", "G", "X")), None), C.build(I, "A"), None), list(range(10)), 10


def modes(n):
    """(label, which limits are given: per parameter (low?, high?)), as lists"""
    yield "both", [True] * n, [True] * n
    yield "low", [True] * n, None
    yield "high", None, [True] * n
    if n > 1:
        yield "nones", [k % 2 == 0 for k in range(n)], [True] * n
        yield "short", [True] * n, [True] * (n - 1)


def lim(k):
    lo = E(S("lo%d" % k))
    return lo, lo + E(S("wid%d" % k, "pospar"))


def run_limits(R):
    for lab, bld, idx, nset in structures():
        for mode, lows, highs in modes(nset):
            one(R, lab, bld, idx, nset, mode, lows, highs)
        setprior(R, lab, bld, idx, nset)
    before(R)
    incomplete(R)
    engines(R)
    hyper(R)


def hyper(R):
    """limits and priors of the hyperparameters of the error distributions"""
    G1 = ("GaussErrorDistribution", "LaplaceErrorDistribution", "CauchyErrorDistribution", "UniformErrorDistribution", "Gauss2dErrorDistribution")
    hl = [(E(S("hlo%d" % k, "pospar")), E(S("hlo%d" % k, "pospar")) + E(S("hw%d" % k, "pospar"))) for k in range(3)]
    jef = lambda k: exp(log(hl[k][0]) + E(S("u", "unit")) * (log(hl[k][1]) - log(hl[k][0])))
    uni = lambda k: hl[k][0] + E(S("u", "unit")) * (hl[k][1] - hl[k][0])
    L1 = lambda k: AList([hl[k][0].t, hl[k][1].t])
    L2 = lambda n: AList([AList([hl[k][0].t for k in range(n)]), AList([hl[k][1].t for k in range(n)])])
    rows = [(n, 1, how) for n in G1 for how in ("init", "set", "set2", "prior", "priors")]
    rows += [("ExponentialErrorDistribution", 2, how) for how in ("init", "set2", "priors")]
    rows += [("MixedErrorDistribution", 3, how) for how in ("init", "set2", "priors")]
    for name, nh, how in rows:
        key = "hyper:%s:%s" % (name, how)
        I = setup()
        I.cls(name)
        wh = zoo.where(I, name, "setPriors" if how.startswith("prior") else "setLimits")

        def go():
            arg = L1(0) if nh == 1 else L2(nh)
            old = AList([0.5, 1.5]) if nh == 1 else AList([AList([0.5] * nh), AList([1.5] * nh)])
            if name.startswith("Mixed"):
                first = (lambda k: L1(k)) if how == "init" else (lambda k: AList([0.5, 1.5]))
                eds = [I.instantiate(I.cls(c), [], {"limits": first(k)}) for k, c in enumerate(G1[:2])]
                ed = I.instantiate(I.cls(name), eds, {"limits": first(2)})
            else:
                ed = I.instantiate(I.cls(name), [], {"limits": arg} if how == "init" else {"limits": old} if how == "set2" else {})
            if how in ("set", "set2"):
                I.call(I.getattr_(ed, "setLimits"), [arg])
            if how.startswith("prior"):
                pr = AList([I.instantiate(I.cls("UniformPrior"), [], {"limits": L1(k)}) for k in range(nh)])
                I.call(I.getattr_(ed, "setPriors"), [pr.items[0] if how == "prior" else pr])
            return ed
        ed = get(R, key, wh, go)
        if ed is None:
            continue
        for k in range(nh):
            u = how.startswith("prior") or (name.startswith("Mixed") and k == 2)
            want = (uni if u else jef)(k).t
            got = get(R, "%s:unit%d" % (key, k), wh, lambda: I.call(I.getattr_(ed, "unit2Domain"), [S("u", "unit"), k]))
            if got is not None:
                same(R, "%s:unit%d" % (key, k), got, want, "the prior or the limits of hyperparameter %d are not those set" % k, wh)
            got = get(R, "%s:domain%d" % (key, k), wh, lambda: I.call(I.getattr_(ed, "domain2Unit"), [want, k]))
            if got is not None:
                same(R, "%s:domain%d" % (key, k), got, S("u", "unit"), "the prior or the limits of hyperparameter %d are not those set" % k, wh)
            got = get(R, "%s:fixed%d" % (key, k), wh, lambda: I.getattr_(list(I.iterate(I.getattr_(ed, "hyperpar")))[k], "isFixed"))
            if got is not None:
                same(R, "%s:fixed%d" % (key, k), got, False, "hyperparameter %d is fixed although it has a prior and limits" % k, wh)
        got = get(R, key + ":isBound", wh, lambda: I.call(I.getattr_(ed, "isBound"), []))
        if got is not None:
            same(R, key + ":isBound", got, True, "isBound is not true when all hyperparameters have limits", wh)
        R.functions |= I.visited


def get(R, kk, wh, f):
    try:
        return f()
    except AbsRaise as e:
        if crash(e) or e.name in ("IndexError", "ValueError", "StopIteration", "RuntimeError"):
            R.fail(kk + ":raises", "raises %s (%s)" % (e.name, e.value), wh)
        else:
            R.undecided(kk, "raises %s %s" % (e, e.value))
    except Unsupported as e:
        R.undecided(kk, e)
    return None


def same(R, kk, got, want, msg, wh):
    if isinstance(got, Arr) and got.a.size == 1:
        got = got.a.flat[0]
    if isinstance(got, Term) or T.isnum(got) or T.isbool(got):
        R.decide(kk, T.equal(got, want, seed=kk, inf=True), msg, wh)
    else:
        R.undecided(kk, "%r" % (got,))


def one(R, lab, bld, idx, nset, mode, lows, highs):
    key = "limits:%s:%s" % (lab, mode)
    I = setup()
    wh = lambda meth: zoo.where(I, "Model", meth)
    m = get(R, key, wh("__init__"), lambda: bld(I))
    if m is None:
        return
    lo = [lim(k)[0] if lows and k < len(lows) and lows[k] else None for k in range(nset)]
    hi = [lim(k)[1] if highs and k < len(highs) and highs[k] else None for k in range(nset)]
    kw = {}
    if lows:
        kw["lowLimits"] = AList([None if q is None else q.t for q in lo[:len(lows)]])
    if highs:
        kw["highLimits"] = AList([None if q is None else q.t for q in hi[:len(highs)]])
    if get(R, key + ":setLimits", wh("setLimits"), lambda: I.call(I.getattr_(m, "setLimits"), [], kw) or True) is None:
        return
    full = mode == "both"
    n = len(idx)
    if full:
        for meth, want in (("hasPriors", True), ("hasLimits", True)):
            got = get(R, "%s:%s" % (key, meth), wh(meth), lambda: I.call(I.getattr_(m, meth), []))
            if got is not None:
                same(R, "%s:%s" % (key, meth), got, want, "%s is not true when all parameters have limits" % meth, wh(meth))
        uv = [S("u%d" % k, "unit") for k in range(n)]
        dv = [(lim(i)[0] + E(uv[k]) * (lim(i)[1] - lim(i)[0])) for k, i in enumerate(idx)]
        vals = {"unit2Domain": (vec(list(uv)), [q.t for q in dv]), "domain2Unit": (vec([q.t for q in dv]), uv),
                "partialDomain2Unit": (vec([q.t for q in dv]), [(1 / (lim(i)[1] - lim(i)[0])).t for i in idx])}
        for meth, (arg, want) in vals.items():
            kk = "%s:%s" % (key, meth)
            got = get(R, kk, wh(meth), lambda: I.call(I.getattr_(m, meth), [arg.copy()]))
            if got is None:
                continue
            if not isinstance(got, Arr) or got.a.size != n:
                R.undecided(kk, "%r" % (got,))
                continue
            for k in range(n):
                same(R, "%s:%d" % (kk, k), got.a.flat[k], want[k], "%s of all parameters does not use the prior of parameter %d" % (meth, k), wh("nextPrior"))
        for k in range(n):
            for meth, a, w in (("unit2Domain", uv[k], dv[k].t), ("domain2Unit", dv[k].t, uv[k])):
                kk = "%s:%s(%d)" % (key, meth, k)
                got = get(R, kk, wh(meth), lambda: I.call(I.getattr_(m, meth), [a], {"kpar": k}))
                if got is not None:
                    same(R, kk, got, w, "%s of one parameter does not use its prior" % meth, wh(meth))
    got = get(R, key + ":getLimits", wh("getLimits"), lambda: I.call(I.getattr_(m, "getLimits"), []))
    if got is not None:
        try:
            a, b = I.iterate(got)
            a, b = list(I.iterate(a)), list(I.iterate(b))
            if len(a) != n or len(b) != n:
                raise ValueError
        except Exception:
            R.undecided(key + ":getLimits", "%r" % (got,))
            a = None
        if a is not None:
            for k, i in enumerate(idx):
                same(R, "%s:low%d" % (key, k), a[k], lo[i].t if lo[i] is not None else float("-inf"), "the low limit of parameter %d is not the one that was set" % k, wh("setLimits"))
                same(R, "%s:high%d" % (key, k), b[k], hi[i].t if hi[i] is not None else float("inf"), "the high limit of parameter %d is not the one that was set" % k, wh("setLimits"))
    R.functions |= I.visited


def setprior(R, lab, bld, idx, nset):
    """one prior of a different kind per parameter, set in order"""
    key = "setprior:" + lab
    I = setup()
    wh = lambda meth: zoo.where(I, "Model", meth)
    m = get(R, key, wh("__init__"), lambda: bld(I))
    if m is None:
        return
    ps = []
    for k in range(nset):
        c = E(S("cen%d" % k))
        p = I.instantiate(I.cls("CauchyPrior"), [], {"center": c.t})
        ps.append(p)
        if get(R, "%s:%d" % (key, k), wh("setPrior"), lambda: I.call(I.getattr_(m, "setPrior"), [k], {"prior": p}) or True) is None:
            return
    # replace the first
    q = I.instantiate(I.cls("CauchyPrior"), [], {"center": S("again")})
    if get(R, key + ":again", wh("setPrior"), lambda: I.call(I.getattr_(m, "setPrior"), [0], {"prior": q}) or True) is None:
        return
    ps[0] = q
    for k, i in enumerate(idx):
        got = get(R, "%s:get%d" % (key, k), wh("getPrior"), lambda: I.call(I.getattr_(m, "getPrior"), [k]))
        if got is None:
            continue
        if got is ps[i]:
            R.hold("%s:get%d" % (key, k))
        elif isinstance(got, Obj):
            same(R, "%s:get%d" % (key, k), got.attrs.get("center"), ps[i].attrs.get("center"), "getPrior( %d ) is not the prior set for that parameter" % k, wh("getPrior"))
        else:
            R.undecided("%s:get%d" % (key, k), "%r" % (got,))
    R.functions |= I.visited


def incomplete(R):
    """limits for the first component only: the compound does not have all its priors"""
    for t, k in ((("+", "G", "X"), 3), (("*", ("+", "C", "P"), "G"), 2), (("*", ("+", "P", "X"), ("+", "A", "G")), 4), (("+", ("*", "P", ("-", "X", "A")), "G"), 2),
                 (("+", ("*", "P", ("-", "X", "A")), "G"), 7), (("|", "P", "G"), 2), (("*", "P", ("+", "X", "A")), 4)):
        I = setup()
        key = "incomplete:%s:%d" % (C.show(t), k)
        m = C.build(I, t)
        for meth in ("hasPriors", "hasLimits"):
            wh = zoo.where(I, "Model", meth)
            got = get(R, "%s:%s:none" % (key, meth), wh, lambda: I.call(I.getattr_(m, meth), []))
            if got is not None:
                same(R, "%s:%s:none" % (key, meth), got, False, "%s of a model without priors" % meth, wh)
        I.call(I.getattr_(m, "setLimits"), [AList([lim(i)[0].t for i in range(k)]), AList([lim(i)[1].t for i in range(k)])])
        for meth in ("hasPriors", "hasLimits"):
            wh = zoo.where(I, "Model", meth)
            got = get(R, "%s:%s" % (key, meth), wh, lambda: I.call(I.getattr_(m, meth), []))
            if got is not None:
                same(R, "%s:%s" % (key, meth), got, False, "%s when one of the components has no priors" % meth, wh)
        R.functions |= I.visited
    # a model added to a repeating model
    I = setup()
    key = "rep(2,A)+P"
    wh = zoo.where(I, "RepeatingModel", "setPrior")
    m = I.binary("Add", I.instantiate(I.cls("RepeatingModel"), [2, C.build(I, "A")], {}), C.build(I, "P"), None)
    for k in (0, 1, 2, 6, 7):
        kk = "%s:%d" % (key, k)
        p = I.instantiate(I.cls("CauchyPrior"), [], {"center": S("c%d" % k)})
        if get(R, kk, wh, lambda: I.call(I.getattr_(m, "setPrior"), [k], {"prior": p}) or True) is None:
            continue
        for j in ([k] if k > 2 else [k, k + 3]):
            q = get(R, kk, wh, lambda: I.call(I.getattr_(m, "getPrior"), [j]))
            if isinstance(q, Obj):
                same(R, "%s:get%d" % (kk, j), q.attrs.get("center"), S("c%d" % k), "getPrior( %d ) is not the prior set for that parameter" % j, wh)
    R.functions |= I.visited


def before(R):
    """limits set on the components before they are combined; setting them later on the compound does not touch the components"""
    for o in ("Add", "Sub", "Mult", "Div", "BitOr"):
        I = setup()
        key = "before:" + o
        wh = zoo.where(I, "Model", "setLimits")

        def go():
            a, b = C.build(I, "P"), C.build(I, "X")
            for m, k0 in ((a, 0), (b, 2)):
                I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList([lim(k0)[0].t, lim(k0 + 1)[0].t]),
                                                       "highLimits": AList([lim(k0)[1].t, lim(k0 + 1)[1].t])})
            return a, b, I.binary(o, a, b, None)
        got = get(R, key, wh, go)
        if got is None:
            continue
        a, b, m = got

        def check(key, m, k0, n):
            for k in range(n):
                p = get(R, "%s:%d" % (key, k), wh, lambda: I.call(I.getattr_(m, "getPrior"), [k]))
                if isinstance(p, Obj):
                    same(R, "%s:low%d" % (key, k), I.getattr_(p, "lowLimit"), lim(k0 + k)[0].t, "low limit of parameter %d" % k, wh)
                    same(R, "%s:high%d" % (key, k), I.getattr_(p, "highLimit"), lim(k0 + k)[1].t, "high limit of parameter %d" % k, wh)
        check(key, m, 0, 4)
        if get(R, key + ":reset", wh, lambda: I.call(I.getattr_(m, "setLimits"), [], {
                "lowLimits": AList([lim(9 + k)[0].t for k in range(4)]), "highLimits": AList([lim(9 + k)[1].t for k in range(4)])}) or True) is None:
            continue
        check(key + ":compound", m, 9, 4)
        check(key + ":first", a, 0, 2)
        check(key + ":second", b, 2, 2)
        R.functions |= I.visited


def engines(R):
    """the maps used by the sampler: model parameters and (negative index) hyperparameters"""
    rows = [("GaussErrorDistribution", 1), ("LaplaceErrorDistribution", 1), ("CauchyErrorDistribution", 1), ("UniformErrorDistribution", 1),
            ("ExponentialErrorDistribution", 2), ("PoissonErrorDistribution", 0), ("Mixed", 3)]
    for name, nh in rows:
        I = setup()
        key = "engine:" + name
        wh = lambda meth: zoo.where(I, I.cls("Engine"), meth)
        hl = [lim(20 + k) for k in range(nh)]
        hl = [(E(S("hlo%d" % k, "pospar")), E(S("hlo%d" % k, "pospar")) + E(S("hw%d" % k, "pospar"))) for k in range(nh)]

        def go():
            m = C.build(I, ("*", "P", ("+", "X", "P")))
            I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList([lim(k)[0].t for k in range(6)]), "highLimits": AList([lim(k)[1].t for k in range(6)])})
            pr = L.problem(I, m, False, None)
            if name == "Mixed":
                eds = [I.instantiate(I.cls(c), [], {"limits": AList([hl[k][0].t, hl[k][1].t])}) for k, c in enumerate(("GaussErrorDistribution", "LaplaceErrorDistribution"))]
                ed = I.instantiate(I.cls("MixedErrorDistribution"), eds, {"limits": AList([hl[2][0].t, hl[2][1].t])})
            elif nh == 0:
                ed = I.instantiate(I.cls(name), [], {})
            elif nh == 1:
                ed = I.instantiate(I.cls(name), [], {})
                I.call(I.getattr_(ed, "setLimits"), [AList([hl[0][0].t, hl[0][1].t])])
            else:
                ed = I.instantiate(I.cls(name), [], {"limits": AList([AList([h[0].t for h in hl]), AList([h[1].t for h in hl])])})
            eng = I.instantiate(I.cls("Engine"), [AList([]), ed], {"phantoms": None})
            return m, pr, ed, eng
        got = get(R, key, wh("__init__"), go)
        if got is None:
            continue
        m, pr, ed, eng = got
        n = 6
        u = [S("u%d" % k, "unit") for k in range(n + nh)]
        want = [(lim(k)[0] + E(u[k]) * (lim(k)[1] - lim(k)[0])).t for k in range(n)]
        for k in range(nh):
            a, b = hl[k]
            if name == "Mixed" and k == 2:
                want.append((a + E(u[n + k]) * (b - a)).t)
            else:
                want.append(exp(log(a) + E(u[n + k]) * (log(b) - log(a))).t)
        subsets = [None, [0, n - 1] + list(range(-nh, 0)), list(range(n))]
        if nh > 1:
            subsets.append([1, -1])
            subsets.append([1, -nh])
        for si, sub in enumerate(subsets):
            pos = list(range(n + nh)) if sub is None else [k if k >= 0 else n + nh + k for k in sub]
            for meth, src, dst in (("unit2Domain", u, want), ("domain2Unit", want, u)):
                kk = "%s:%s:%d" % (key, meth, si)
                args = [pr, vec([src[k] for k in pos])]
                if sub is not None:
                    args.append(AList(list(sub)))
                got = get(R, kk, wh(meth), lambda: I.call(I.getattr_(eng, meth), args))
                if got is None:
                    continue
                if not isinstance(got, Arr) or got.a.size != len(pos):
                    R.undecided(kk, "%r" % (got,))
                    continue
                for j, k in enumerate(pos):
                    same(R, "%s:%d" % (kk, k), got.a.flat[j], dst[k], "%s does not use the prior of the %s" % (
                        meth, "parameter" if k < n else "hyperparameter"), wh(meth))
        for k in list(range(n)) + list(range(-nh, 0)):
            kp = k if k >= 0 else n + nh + k
            for meth, src, dst in (("unit2Domain", u, want), ("domain2Unit", want, u)):
                kk = "%s:%s(%d)" % (key, meth, k)
                got = get(R, kk, wh(meth), lambda: I.call(I.getattr_(eng, meth), [pr, src[kp], k]))
                if got is not None:
                    same(R, kk, got, dst[kp], "%s of one (hyper)parameter" % meth, wh(meth))
        R.functions |= I.visited
