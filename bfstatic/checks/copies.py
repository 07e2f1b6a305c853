"""C13 copies behave as the original and are independent of it; the operands of model arithmetic are left alone"""
import numpy as np
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from ..report import Report
from .models import setup, crash
from . import compound as C
from . import likelihood as L
from . import priors as P

S = T.sym


class Missing(Exception):
    pass


def flatten(v, out, pre):
    """the leaves of a value"""
    if isinstance(v, Arr):
        out[pre + ":shape"] = (v.a.shape, v.sym)
        for k, q in enumerate(v.a.flat):
            flatten(q, out, "%s[%d]" % (pre, k))
    elif isinstance(v, (AList, tuple, list)):
        it = v.items if isinstance(v, AList) else v
        out[pre + ":len"] = len(it)
        for k, q in enumerate(it):
            flatten(q, out, "%s[%d]" % (pre, k))
    elif isinstance(v, ADict):
        for k, q in v.d.items():
            flatten(q, out, "%s{%s}" % (pre, k))
    elif v is None or isinstance(v, (str, bool)) or T.isnum(v) or isinstance(v, Term):
        out[pre] = v
    elif isinstance(v, Obj):
        out[pre] = "<" + v.cls.name + ">"
    else:
        out[pre] = Top("?")


def ask(d, pre, f):
    try:
        flatten(f(), d, pre)
    except AbsRaise as e:
        d[pre] = "raises " + e.name
    except Unsupported as e:
        d[pre] = Top(str(e))


def prior_state(I, p, d, pre, partial=True):
    if not isinstance(p, Obj):
        d[pre] = Top("?") if p is not None else None
        return
    d[pre + ":class"] = p.cls.name
    u = S("u", "unit")
    for a in ("lowLimit", "highLimit"):
        ask(d, pre + ":" + a, lambda: I.getattr_(p, a))
    ask(d, pre + ":unit2Domain", lambda: I.call(I.getattr_(p, "unit2Domain"), [u]))
    ask(d, pre + ":isBound", lambda: I.call(I.getattr_(p, "isBound"), []))
    if partial:
        ask(d, pre + ":logResult", lambda: I.call(I.getattr_(p, "logResult"), [S("dv")]))
        ask(d, pre + ":domain2Unit", lambda: I.call(I.getattr_(p, "domain2Unit"), [S("dv")]))
        ask(d, pre + ":integral", lambda: I.call(I.getattr_(p, "getIntegral"), []))


def model_state(I, m):
    d = {}
    n = I.getattr_(m, "npchain")
    ask(d, "npchain", lambda: n)
    ask(d, "parameters", lambda: I.getattr_(m, "parameters"))
    ask(d, "stdevs", lambda: I.getattr_(m, "stdevs"))
    for a in ("deltaP", "posIndex", "nonZero"):
        ask(d, a, lambda: I.getattr_(m, a))
    n = int(n) if isinstance(n, int) else 0
    kinds = zoo.PARKINDS.get(m.cls.name, {})
    p = [S("q%d" % k, kinds.get(k, "pospar")) for k in range(n)]
    x = zoo.xdata_of(m)
    for meth in ("result", "partial", "derivative"):
        ask(d, meth, lambda: I.call(I.getattr_(m, meth), [x.copy(), vec(p)]))
    for a in ("npbase", "ndim", "ndout", "ncomp", "minComp", "maxComp", "deltaNpar", "depth", "minDepth", "maxDepth"):
        if any(a in (q.attrs if isinstance(q, Obj) else {}) for q in (m,)):
            ask(d, a, lambda: I.getattr_(m, a))
    for f in ("isDynamic", "isModifiable", "hasPriors", "hasLimits", "chainLength", "isNullModel"):
        ask(d, f, lambda: I.call(I.getattr_(m, f), []))
    ask(d, "name", lambda: I.call(I.getattr_(m, "__str__"), []))
    if "growPrior" in m.attrs:
        prior_state(I, m.attrs["growPrior"], d, "growPrior", False)
    u = S("u", "unit")
    for k in range(n):
        ask(d, "parameterName%d" % k, lambda: I.call(I.getattr_(m, "getParameterName"), [k]))
        try:
            pr = I.call(I.getattr_(m, "getPrior"), [k])
            prior_state(I, pr, d, "prior%d" % k, False)
        except AbsRaise as e:
            d["prior%d" % k] = "raises " + e.name
        except Unsupported as e:
            d["prior%d" % k] = Top(str(e))
        ask(d, "unit2Domain%d" % k, lambda: I.call(I.getattr_(m, "unit2Domain"), [u], {"kpar": k}))
    return d


def same(R, key, a, b, msg, wh):
    """two states are equal"""
    bad = []
    unk = 0
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k, "(absent)"), b.get(k, "(absent)")
        if isinstance(x, Top) or isinstance(y, Top):
            unk += 1
            continue
        if isinstance(x, Term) or isinstance(y, Term):
            if not all(isinstance(q, Term) or T.isnum(q) for q in (x, y)):
                bad.append(k)
                continue
            if x is y:
                continue
            v = T.equal(x, y, seed=key + k, inf=True)
            if v.status == "ne":
                bad.append(k)
            elif v.status != "eq":
                unk += 1
        elif T.isnum(x) and T.isnum(y):
            if T.equal(x, y, seed=k, inf=True).status != "eq" and not (x != x and y != y):
                bad.append(k)
        elif x != y:
            bad.append(k)
    if bad:
        k = bad[0]
        R.fail(key, "%s: %s is %s, was %s" % (msg, ", ".join(bad[:4]), show(b.get(k, "absent")), show(a.get(k, "absent"))), wh)
    else:
        R.hold(key)
    return not bad


def show(v):
    return T.show(v, 4)[:60] if isinstance(v, Term) else str(v)[:60]


# ------------------------------------------------------------------------------- models
def RNG():
    """a fixed sequence of draws, as long as they are numbers"""
    k = [0]

    def draw(I, name, args, kw):
        if name in ("rand", "random", "random_sample") and not args and not kw:
            k[0] += 1
            return (0.3 + 0.6180339887 * (k[0] - 1)) % 1.0
        if name == "randint" and args and not kw and all(isinstance(a, int) for a in args):
            return args[0] if len(args) > 1 else 0
        return NotImplemented
    return RngObj("RandomState", script=draw)


def prior0(I, m, k):
    try:
        I.call(I.getattr_(m, "getPrior"), [k])
        return True
    except AbsRaise:
        return False


def ops(I, m, compound):
    """what can be done with a model, in order: (label, function)"""
    n = int(I.getattr_(m, "npchain"))
    call = lambda meth, *a, **k: I.call(I.getattr_(m, meth), list(a), k)
    np_ = lambda: int(I.getattr_(m, "npchain"))
    out = []
    for k in range(n):
        if "priors" not in m.attrs or prior0(I, m, k):
            out.append(("limits of the present getPrior(%d)" % k, lambda k=k: I.call(I.getattr_(call("getPrior", k), "setLimits"), [AList([0.25, 0.75])])))
            break
    out.append(("element of deltaP", lambda: I.np.setitem(I.getattr_(m, "deltaP"), 0, 0.5)))
    if n:
        out.append(("element of parameters", lambda: I.np.setitem(I.getattr_(m, "parameters"), 0, 7.5)))
        out.append(("element of stdevs", lambda: I.np.setitem(I.getattr_(m, "stdevs"), 0, 8.5)))
        out.append(("parameters", lambda: I.setattr_(m, "parameters", vec([9.5 + k for k in range(n)]))))
        lims = lambda a, b: (AList([a + k for k in range(nl)]), AList([b + k for k in range(nl)]))
        nl = int(I.getattr_(m.attrs["model"], "npchain")) if m.cls.name == "RepeatingModel" else n
        out.append(("setLimits", lambda: call("setLimits", lowLimits=lims(-5.0, 4.0)[0], highLimits=lims(-5.0, 4.0)[1])))
        out.append(("setPrior attributes", lambda: call("setPrior", 0, zeroLimit=-4.25) if False else call("setPrior", 0, limits=AList([-1.25, 3.75]))))
        out.append(("setPrior", lambda: call("setPrior", 0, prior=I.instantiate(I.cls("CauchyPrior"), [], {}))))
        out.append(("limits of getPrior()", lambda: I.call(I.getattr_(call("getPrior", n - 1), "setLimits"), [AList([0.125, 0.875])])))
    if I.call(I.getattr_(m, "isDynamic"), []) is True:
        dyn, off = m, 0
        while "growPrior" not in dyn.attrs and isinstance(dyn.attrs.get("_next"), Obj):
            off += dyn.attrs["npbase"]
            dyn = dyn.attrs["_next"]
        dcall = lambda meth, *a, **k: I.call(I.getattr_(dyn, meth), list(a), k)
        for k in range(2):
            out.append(("grow", lambda: dcall("grow", offset=off, rng=RNG())))
            if not compound:
                out.append(("shuffle", lambda: call("shuffle", I.getattr_(m, "parameters"), 0, np_(), RNG())))
        for k in range(2):
            out.append(("shrink", lambda: dcall("shrink", offset=off, rng=RNG())))
        if "growPrior" in m.attrs:
            out.append(("limits of growPrior", lambda: I.call(I.getattr_(m.attrs["growPrior"], "setLimits"), [AList([0.0, 17.0])])))
    if I.call(I.getattr_(m, "isModifiable"), []) is True:
        for k in range(2):
            out.append(("vary", lambda: call("vary", rng=RNG(), location=0)))
    nd = m.attrs.get("ndim", 1)
    out.append(("addModel", lambda: call("addModel", I.instantiate(I.cls("PolynomialModel"), [0], {}) if nd == 1 else I.instantiate(I.cls("PolySurfaceModel"), [1], {}))))
    if n:
        out.append(("parameters of the chain", lambda: I.np.setitem(I.getattr_(m, "parameters"), 0, 11.5)))
    return out


def prepare(I, m, limits):
    n = int(I.getattr_(m, "npchain"))
    if n:
        I.setattr_(m, "parameters", vec([1.0 + 0.25 * k for k in range(n)]))
        I.setattr_(m, "stdevs", vec([0.5 + 0.125 * k for k in range(n)]))
        if limits:
            if m.cls.name == "RepeatingModel":
                n = int(I.getattr_(m.attrs["model"], "npchain"))
            I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList([-1.0 - k for k in range(n)]), "highLimits": AList([3.0 + k for k in range(n)])})


def model_cases():
    I0 = setup()
    for lab, name, mod, build in list(zoo.instances(I0)):
        yield lab, name, build, False
    fixed = lambda t, f: (lambda I: I.instantiate(I.cls(C.LEAF[t][0]), list(C.LEAF[t][1]), dict(C.LEAF[t][2], fixed=ADict({k: (C.build(I, v) if not isinstance(v, (int, float)) else v) for k, v in f.items()}))))
    for t, f in (("G", {0: 1.5}), ("G", {1: "P"}), ("G", {0: ("+", "P", "X"), 2: 0.5}), ("A", {2: "X", 0: "P"})):
        yield "fixed(%s,%s)" % (t, ",".join("%s=%s" % (k, C.show(v) if not isinstance(v, (int, float)) else v) for k, v in f.items())), "FixedModel", fixed(t, f), False
    for t in (("+", "G", "P"), ("*", "P", ("+", "X", "A")), ("+", ("*", "P", ("-", "X", "A")), "G"), ("|", "P", "G"), ("/", "X", ("+", "P", ("*", "X", "A"))),
              ("|", "P", "Y"), ("+", "S", "E"), ("|", ("+", "G", "P"), "X"), ("*", ("|", "P", "X"), ("-", "A", "P"))):
        yield C.show(t), "Model", (lambda I, t=t: C.build(I, t)), True
    rep = lambda n, t, kw: (lambda I: I.instantiate(I.cls("RepeatingModel"), [n, C.build(I, t)], {k: (AList(v) if isinstance(v, list) else v) for k, v in kw.items()}))
    for n, t, kw in ((1, "G", {}), (2, "G", {}), (3, "A", {"same": [0]}), (2, "X", {"same": [0], "minComp": 1, "maxComp": 4}), (2, "X", {"dynamic": False}), (2, "A", {"same": [0, 2]})):
        yield "rep(%d,%s,%s)" % (n, t, ",".join("%s=%s" % q for q in kw.items())), "RepeatingModel", rep(n, t, kw), False
    yield "bracket(G)", "BracketModel", lambda I: I.instantiate(I.cls("BracketModel"), [C.build(I, "G")], {}), False
    yield "bracket(G+P)", "BracketModel", lambda I: I.instantiate(I.cls("BracketModel"), [C.build(I, ("+", "G", "P"))], {}), False
    yield "P*bracket(G+P)", "BracketModel", lambda I: I.binary("Mult", C.build(I, "P"), I.instantiate(I.cls("BracketModel"), [C.build(I, ("+", "G", "P"))], {}), None), True
    combi = lambda n, t, kw: (lambda I: I.instantiate(I.cls("CombiModel"), [C.build(I, t), n], {k: (ADict({q: AList(list(w)) for q, w in v.items()}) if isinstance(v, dict) else v) for k, v in kw.items()}))
    yield "bracket(G)*P", "BracketModel", lambda I: I.binary("Mult", I.instantiate(I.cls("BracketModel"), [C.build(I, "G")], {}), C.build(I, "P"), None), True
    yield "combi(2,G+A)+X", "CombiModel", lambda I: I.binary("Add", I.instantiate(I.cls("CombiModel"), [C.build(I, ("+", "G", "A")), 2], {"addCombi": ADict({1: AList([0.0, 1.5])})}), C.build(I, "X"), None), True
    yield "P+combi(2,X)", "CombiModel", lambda I: I.binary("Add", C.build(I, "P"), I.instantiate(I.cls("CombiModel"), [C.build(I, "X"), 2], {"mulCombi": ADict({0: AList([1.0, 0.5])})}), None), True
    yield "rep(2,G)+P", "RepeatingModel", lambda I: I.binary("Add", I.instantiate(I.cls("RepeatingModel"), [2, C.build(I, "G")], {}), C.build(I, "P"), None), True
    yield "static tree", "DecisionTreeModel", lambda I: I.instantiate(I.cls("DecisionTreeModel"), [], {"dynamic": False, "modifiable": False}), False
    for n, t, kw in ((2, "G", {}), (2, ("*", "G", "X"), {}), (3, "G", {"addCombi": {1: (0.0, 1.5, 3.0)}}), (2, "X", {"mulCombi": {0: (1.0, 0.5)}, "addCombi": {1: (0.0, 2.0)}}), (2, "G", {"oper": "mul"})):
        yield "combi(%d,%s,%s)" % (n, t, ",".join(sorted(kw))), "CombiModel", combi(n, t, kw), False
    yield "dynamic+P", "Dynamic", lambda I: I.binary("Add", I.instantiate(I.cls("PolynomialDynamicModel"), [1], {}), C.build(I, "P"), None), True
    yield "P+harmonic", "Dynamic", lambda I: I.binary("Add", C.build(I, "P"), I.instantiate(I.cls("HarmonicDynamicModel"), [1], {"period": 1.3}), None), True


def batch(R, key, make, ops_, state, msg, wh):
    """all operations on one of the two; the other one must stay what it is.  The operations are taken one by one only when it does not"""
    I, v, o = make()
    s0 = state(I, o)
    done = []
    for k, (what, f) in enumerate(ops_(I, v)):
        kk = "%s:%d:%s" % (key, k, what)
        try:
            f()
            done.append(kk)
        except (AbsRaise, Unsupported) as e:
            R.undecided(kk, "%s" % e)
    R.functions |= I.visited
    if quietly(R, s0, state(I, o)):
        for kk in done:
            R.hold(kk)
        return
    I, v, o = make()
    s0 = state(I, o)
    for k, (what, f) in enumerate(ops_(I, v)):
        kk = "%s:%d:%s" % (key, k, what)
        try:
            f()
        except (AbsRaise, Unsupported) as e:
            continue
        if not same(R, kk, s0, state(I, o), "'%s' %s" % (what, msg), wh):
            s0 = state(I, o)


def quietly(R, a, b):
    """same(), without a report"""
    q = Report(R.pid, R.tier, "")
    return same(q, "q", a, b, "", "") and not q.unknown and not q.bad


def one_model(R, lab, name, build, comp, limits):
    key = "model:%s:%s" % (lab, "limits" if limits else "-")
    wh = None
    def make():
        I = setup()
        m = build(I)
        prepare(I, m, limits)
        return I, m
    try:
        I, m = make()
    except (AbsRaise, Unsupported) as e:
        R.undecided(key, "construction %s" % e)
        return
    wh = zoo.where(I, m.cls, "copy")
    s0 = model_state(I, m)
    try:
        c = I.call(I.getattr_(m, "copy"), [])
    except AbsRaise as e:
        R.fail(key + ":copy", "copy raises %s (%s)" % (e.name, e.value), wh)
        return
    except Unsupported as e:
        R.undecided(key, e)
        return
    same(R, key + ":equal", s0, model_state(I, c), "the copy differs from the original", wh)
    if not same(R, key + ":source", s0, model_state(I, m), "copying changes the original", wh):
        return

    def pair(victim):
        I, m = make()
        c = I.call(I.getattr_(m, "copy"), [])
        return (I, c, m) if victim == "copy" else (I, m, c)
    for victim in ("copy", "original"):
        batch(R, "%s:%s" % (key, victim), lambda: pair(victim), lambda I, v: ops(I, v, comp), model_state,
              "on the %s changes the %s" % (victim, "original" if victim == "copy" else "copy"), wh)
    R.functions |= I.visited


def operands(R, o, t1, t2, limits):
    """a op b leaves a and b alone, and stays what it is when a or b is changed"""
    key = "operands:(%s%s%s):%s" % (C.show(t1), o, C.show(t2), "limits" if limits else "-")
    I = setup()
    a, b = C.build(I, t1), C.build(I, t2)
    prepare(I, a, limits)
    prepare(I, b, limits)
    wh = zoo.where(I, "Model", {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "|": "__or__"}[o])
    sa, sb = model_state(I, a), model_state(I, b)
    try:
        c = I.binary(C.OPS[o], a, b, None)
    except (AbsRaise, Unsupported) as e:
        R.undecided(key, "construction %s" % e)
        return
    same(R, key + ":left", sa, model_state(I, a), "the left operand is changed by the operation", wh)
    same(R, key + ":right", sb, model_state(I, b), "the right operand is changed by the operation", wh)
    sc = model_state(I, c)
    for v, nm in ((a, "left"), (b, "right")):
        for k, (what, f) in enumerate(ops(I, v, True)):
            kk = "%s:%s:%d:%s" % (key, nm, k, what)
            try:
                f()
            except (AbsRaise, Unsupported) as e:
                R.undecided(kk, "%s" % e)
                continue
            if not same(R, kk, sc, model_state(I, c), "'%s' on the %s operand changes the compound model" % (what, nm), wh):
                sc = model_state(I, c)
    sa, sb = model_state(I, a), model_state(I, b)
    for k, (what, f) in enumerate(ops(I, c, True)):
        kk = "%s:compound:%d:%s" % (key, k, what)
        try:
            f()
        except (AbsRaise, Unsupported) as e:
            R.undecided(kk, "%s" % e)
            continue
        if not (same(R, kk, sa, model_state(I, a), "'%s' on the compound model changes the left operand" % what, wh) and
                same(R, kk, sb, model_state(I, b), "'%s' on the compound model changes the right operand" % what, wh)):
            break
    R.functions |= I.visited


# ------------------------------------------------------------------------------- priors
def full_prior(I, p, xs):
    d = {"class": p.cls.name}
    u = S("u", "unit")
    for a in ("lowLimit", "highLimit", "center", "scale", "circular", "limint", "deltaP"):
        if a in p.attrs or a in ("lowLimit", "highLimit", "circular"):
            ask(d, a, lambda: I.getattr_(p, a))
    for meth in ("isBound", "isCircular", "hasLimits", "hasLowLimit", "hasHighLimit", "getIntegral", "getRange", "getLimits"):
        ask(d, meth, lambda: I.call(I.getattr_(p, meth), []))
    ask(d, "unit2Domain", lambda: I.call(I.getattr_(p, "unit2Domain"), [u]))
    for k, x in enumerate(xs):
        for meth in ("domain2Unit", "result", "logResult", "partialLog", "partialDomain2Unit", "isOutOfLimits"):
            ask(d, "%s(%d)" % (meth, k), lambda: I.call(I.getattr_(p, meth), [x]))
    return d


def prior_ops(I, p, c, pos):
    call = lambda meth, *a, **k: I.call(I.getattr_(p, meth), list(a), k)
    out = [("setLimits", lambda: call("setLimits", limits=AList([0.25, 0.75]))),
           ("deltaP", lambda: I.setattr_(p, "deltaP", 0.125)),
           ("setAttributes", lambda: call("setAttributes", limits=AList([0.5, None])))]
    if "scale" in p.attrs:
        out.append(("setAttributes scale", lambda: call("setAttributes", scale=4.5)))
        out.append(("scale", lambda: I.setattr_(p, "scale", 3.5)))
    if "center" in p.attrs:
        out.append(("center", lambda: I.setattr_(p, "center", 1.5)))
    out.append(("unsetLimits", lambda: call("unsetLimits")))
    return out


def one_prior(R, name, kind, route, circ):
    key = "prior:%s:%s:%s:%s" % (name, kind, route, circ)
    def make():
        I = setup()
        if name == "ExponentialPrior" and route in ("set", "attr"):
            c = P.make(I, name, "none", "init", None)
            w = E(S("width", "pospar"))
            lo = E(S("lo", "pospar"))
            arg = {"both": [lo.t, (lo + w).t], "low": [lo.t, None], "high": [None, w.t]}[kind]
            I.call(I.getattr_(c.p, "setLimits" if route == "set" else "setAttributes"), [], {"limits": AList(arg)})
        else:
            c = P.make(I, name, kind, route, circ)
        if circ and route == "later":
            I.call(I.getattr_(c.p, "setLimits"), [], {"limits": AList([S("lo"), (E(S("lo")) + E(S("width2", "pospar"))).t])})
        xs = [c.x.t] + [q.t for q in c.out]
        return I, c, xs
    try:
        I, c, xs = make()
    except (AbsRaise, Unsupported) as e:
        R.undecided(key, "construction %s" % e)
        return
    wh = zoo.where(I, c.p.cls, "copy")
    s0 = full_prior(I, c.p, xs)
    try:
        q = I.call(I.getattr_(c.p, "copy"), [])
    except AbsRaise as e:
        R.fail(key + ":copy", "copy raises %s (%s)" % (e.name, e.value), wh)
        return
    except Unsupported as e:
        R.undecided(key, e)
        return
    same(R, key + ":equal", s0, full_prior(I, q, xs), "the copy differs from the original", wh)
    same(R, key + ":source", s0, full_prior(I, c.p, xs), "copying changes the original", wh)
    for victim in ("copy", "original"):
        I, c, xs = make()
        q = I.call(I.getattr_(c.p, "copy"), [])
        v, o = (q, c.p) if victim == "copy" else (c.p, q)
        s0 = full_prior(I, o, xs)
        for k, (what, f) in enumerate(prior_ops(I, v, c, name == "JeffreysPrior")):
            kk = "%s:%s:%d:%s" % (key, victim, k, what)
            try:
                f()
            except (AbsRaise, Unsupported) as e:
                R.undecided(kk, "%s" % e)
                continue
            if not same(R, kk, s0, full_prior(I, o, xs), "'%s' on the %s changes the %s" % (what, victim, "copy" if o is q else "original"), wh):
                s0 = full_prior(I, o, xs)
    R.functions |= I.visited


def prior_cases():
    for c in P.cases():
        if c[2] != "copy":
            yield c
    for kind in ("both", "low", "high"):
        for route in ("set", "attr"):
            yield "ExponentialPrior", kind, route, None


# ------------------------------------------------------------------------------- error distributions
def errdis_state(I, ed, c, full=True):
    d = {"class": ed.cls.name}
    for a in ("hypar", "nphypar", "deltaP", "fixed"):
        ask(d, a, lambda: I.getattr_(ed, a))
    ask(d, "constrain", lambda: "none" if I.getattr_(ed, "constrain") is None else "set")
    call = lambda meth, *a, **k: I.call(I.getattr_(ed, meth), list(a), k)
    for meth in ("isBound", "acceptWeight"):
        ask(d, meth, lambda: call(meth))
    ask(d, "logLikelihood", lambda: call("logLikelihood", c.problem, c.all.copy()))
    n = len(I.iterate(I.getattr_(ed, "hyperpar")))
    for k in range(n):
        h = list(I.iterate(I.getattr_(ed, "hyperpar")))[k]
        ask(d, "isFixed%d" % k, lambda: I.getattr_(h, "isFixed"))
        ask(d, "hypar%d" % k, lambda: I.getattr_(h, "hypar"))
        ask(d, "minimum%d" % k, lambda: I.getattr_(h, "minimum") if h.cls.name == "NoiseScale" else None)
        prior_state(I, h.attrs.get("prior"), d, "prior%d" % k, False)
        ask(d, "unit2Domain%d" % k, lambda: call("unit2Domain", S("u", "unit"), k))
    return d


def errdis_ops(I, ed, nh):
    call = lambda meth, *a, **k: I.call(I.getattr_(ed, meth), list(a), k)
    hp = lambda k: list(I.iterate(I.getattr_(ed, "hyperpar")))[k]
    out = [("deltaP", lambda: I.setattr_(ed, "deltaP", 0.125))]
    if nh == 1:
        out.append(("scale", lambda: I.setattr_(ed, "scale", 3.25)))
        out.append(("setLimits", lambda: call("setLimits", AList([0.25, 0.75]))))
    elif nh:
        out.append(("setLimits", lambda: call("setLimits", AList([AList([0.25] * nh), AList([0.75] * nh)]))))
    for k in range(nh):
        out.append(("hypar of %d" % k, lambda k=k: I.setattr_(hp(k), "hypar", 7.25)))
        out.append(("isFixed of %d" % k, lambda k=k: I.setattr_(hp(k), "isFixed", not I.getattr_(hp(k), "isFixed"))))
        out.append(("limits of the prior of %d" % k, lambda k=k: I.call(I.getattr_(hp(k), "setLimits"), [AList([0.375, 0.625])])))
        out.append(("prior of %d" % k, lambda k=k: I.setattr_(hp(k), "prior", I.instantiate(I.cls("UniformPrior"), [], {"limits": AList([0.5, 1.5])}))))
    out.append(("setPriors", lambda: call("setPriors", AList([I.instantiate(I.cls("GaussPrior"), [], {}) for k in range(nh)]))))
    out.append(("keepFixed", lambda: call("keepFixed", ADict({k: 1.75 for k in range(nh)}))))
    out.append(("constrain", lambda: I.setattr_(ed, "constrain", Native("constrain", lambda I, a, k: T.mul(2, a[0])))))
    return out


def one_errdis(R, name, how):
    key = "errdis:%s:%s" % (name, how)
    def make():
        I = setup()
        if name == "MixedErrorDistribution":
            c = L.mixed_case(I, "GaussErrorDistribution", "LaplaceErrorDistribution")
            nh = 3
        else:
            c = L.evaluate(I, name, False, None)
            nh = L.DISTS[name][0]
            if how != "limits":
                c.ed = I.instantiate(I.cls(name), [], {"scale": 0.25} if nh == 1 else {"scale": 0.25, "power": 1.5} if nh else {})
        if how == "later":
            I.setattr_(c.ed, "scale", 0.375)
        if how == "constrained":
            I.setattr_(c.ed, "constrain", Native("constrain", lambda I, a, k: T.mul(3, a[0])))
            I.setattr_(c.ed, "lowLhood", -1000.0)
        return I, c, nh
    try:
        I, c, nh = make()
    except (AbsRaise, Unsupported) as e:
        R.undecided(key, "construction %s" % e)
        return
    wh = zoo.where(I, c.ed.cls, "copy")
    s0 = errdis_state(I, c.ed, c)
    try:
        q = I.call(I.getattr_(c.ed, "copy"), [])
    except AbsRaise as e:
        R.fail(key + ":copy", "copy raises %s (%s)" % (e.name, e.value), wh)
        return
    except Unsupported as e:
        R.undecided(key, e)
        return
    if how == "constrained":
        I.setattr_(q, "lowLhood", -1000.0)
    same(R, key + ":equal", s0, errdis_state(I, q, c), "the copy differs from the original", wh)
    same(R, key + ":source", s0, errdis_state(I, c.ed, c), "copying changes the original", wh)
    for victim in ("copy", "original"):
        I, c, nh = make()
        q = I.call(I.getattr_(c.ed, "copy"), [])
        v, o = (q, c.ed) if victim == "copy" else (c.ed, q)
        if how == "constrained":
            I.setattr_(q, "lowLhood", -1000.0)
        s0 = errdis_state(I, o, c)
        for k, (what, f) in enumerate(errdis_ops(I, v, nh)):
            kk = "%s:%s:%d:%s" % (key, victim, k, what)
            try:
                f()
            except (AbsRaise, Unsupported) as e:
                if e.__class__ is AbsRaise and e.name == "ValueError":
                    continue            # refused, e.g. no prior to set limits to
                R.undecided(kk, "%s" % e)
                continue
            if not same(R, kk, s0, errdis_state(I, o, c), "'%s' on the %s changes the %s" % (what, victim, "copy" if o is q else "original"), wh):
                s0 = errdis_state(I, o, c)
    R.functions |= I.visited


def errdis_cases():
    for name in list(L.DISTS) + ["MixedErrorDistribution"]:
        nh = L.DISTS.get(name, (3,))[0]
        for how in ("limits", "fixed", "later", "constrained"):
            if how != "limits" and (nh == 3 or (nh == 0 and how != "constrained")) or (how == "later" and nh != 1):
                continue
            yield name, how


def noise(R):
    """copies of the hyperparameters"""
    for cls, kw in (("NoiseScale", {}), ("NoiseScale", {"limits": [0.5, 2.5]}), ("NoiseScale", {"prior": "UniformPrior", "limits": [0.5, 2.5]}),
                    ("NoiseScale", {"isFixed": False}), ("HyperParameter", {"hypar": 2.5}), ("HyperParameter", {"hypar": 2.5, "limits": [0.5, 3.5]})):
        key = "hyper:%s:%s" % (cls, ",".join(sorted(kw)))
        def make():
            I = setup()
            k = {a: AList(v) if isinstance(v, list) else I.instantiate(I.cls(v), [], {}) if isinstance(v, str) else v for a, v in kw.items()}
            h = I.instantiate(I.cls(cls), [], k)
            I.setattr_(h, "hypar", 1.625)
            I.setattr_(h, "stdev", 0.875)
            if cls == "NoiseScale":
                I.call(I.getattr_(h, "minimumScale"), [0.125])
            return I, h
        def state(I, h):
            d = {"class": h.cls.name}
            for a in ("hypar", "stdev", "isFixed", "scale", "stdevScale", "minimum"):
                if a in ("hypar", "stdev", "isFixed") or cls == "NoiseScale":
                    ask(d, a, lambda: I.getattr_(h, a))
            prior_state(I, h.attrs.get("prior"), d, "prior", False)
            ask(d, "isBound", lambda: I.call(I.getattr_(h, "isBound"), []))
            ask(d, "getLimits", lambda: I.call(I.getattr_(h, "getLimits"), []))
            return d
        try:
            I, h = make()
            wh = zoo.where(I, h.cls, "copy")
            s0 = state(I, h)
            q = I.call(I.getattr_(h, "copy"), [])
            same(R, key + ":equal", s0, state(I, q), "the copy differs from the original", wh)
            same(R, key + ":source", s0, state(I, h), "copying changes the original", wh)
            for j, (what, f) in enumerate((("hypar", lambda: I.setattr_(q, "hypar", 9.5)), ("stdev", lambda: I.setattr_(q, "stdev", 8.5)), ("isFixed", lambda: I.setattr_(q, "isFixed", "x")),
                                           ("setLimits", lambda: I.call(I.getattr_(q, "setLimits"), [AList([0.75, 1.75])])))):
                try:
                    f()
                except AbsRaise:
                    continue
                same(R, "%s:%s" % (key, what), s0, state(I, h), "'%s' on the copy changes the original" % what, wh)
        except (AbsRaise, Unsupported) as e:
            R.undecided(key, "%s" % e)
            continue
        R.functions |= I.visited


# ------------------------------------------------------------------------------- problems
def problem_state(I, p, par, orders=None):
    d = {"class": p.cls.name}
    for a in ("npars", "ndata", "sumweight", "accuracy", "hasAccuracy", "varyy", "weights", "xdata", "ydata", "scale", "oneway", "disname", "varxx", "varxy", "determinant", "parameters", "table"):
        if a == "accuracy" and "varxx" in p.attrs:
            continue                            # an xy problem works with varxx, varyy and varxy; accuracy is only the last input
        if a in ("npars", "ndata", "sumweight") or a in p.attrs:
            ask(d, a, lambda: I.getattr_(p, a))
    for k, q in enumerate(par):
        ask(d, "result%d" % k, lambda: I.call(I.getattr_(p, "result"), [q.copy()]))
        if orders is None:
            ask(d, "partial%d" % k, lambda: I.call(I.getattr_(p, "partial"), [q.copy()]))
            ask(d, "weightedResSq%d" % k, lambda: I.call(I.getattr_(p, "weightedResSq"), [q.copy()], {"extra": True}))
    for meth in ("isDynamic", "hasWeights", "acceptWeight", "myEngines", "myStartEngine"):
        if I.find(p.cls, meth):
            ask(d, meth, lambda: I.call(I.getattr_(p, meth), []))
    return d


def one_problem(R, lab, make):
    key = "problem:" + lab
    try:
        I, p, par, orders, ops_ = make()
    except (AbsRaise, Unsupported) as e:
        R.undecided(key, "construction %s" % e)
        return
    wh = zoo.where(I, p.cls, "copy")
    s0 = problem_state(I, p, par, orders)
    try:
        q = I.call(I.getattr_(p, "copy"), [])
    except AbsRaise as e:
        R.fail(key + ":copy", "copy raises %s (%s)" % (e.name, e.value), wh)
        return
    except Unsupported as e:
        R.undecided(key, e)
        return
    same(R, key + ":equal", s0, problem_state(I, q, par, orders), "the copy differs from the original", wh)
    same(R, key + ":source", s0, problem_state(I, p, par, orders), "copying changes the original", wh)
    for victim in ("copy", "original"):
        I, p, par, orders, ops_ = make()
        q = I.call(I.getattr_(p, "copy"), [])
        v, o = (q, p) if victim == "copy" else (p, q)
        s0 = problem_state(I, o, par, orders)
        for k, (what, f) in enumerate(ops_):
            kk = "%s:%s:%d:%s" % (key, victim, k, what)
            try:
                f(v)
            except (AbsRaise, Unsupported) as e:
                R.undecided(kk, "%s" % e)
                continue
            if not same(R, kk, s0, problem_state(I, o, par, orders), "'%s' on the %s changes the %s" % (what, victim, "copy" if o is q else "original"), wh):
                s0 = problem_state(I, o, par, orders)
    R.functions |= I.visited


def mk_problem(kind, *a):
    I = setup()
    setw = ("weights", lambda p: I.setattr_(p, "weights", datum(S("w9", "posdatum"))))
    if kind == "classic":
        m, pars = L.make_model(I, "Gauss")
        if len(a) > 2 and a[2] == "cyclic":
            m = I.instantiate(I.cls("PolynomialModel"), [1], {})
            I.raw_setattr(m, "cyclic", 6.25)
            pars = [S("p0"), S("p1")]
        p = L.problem(I, m, a[0], a[1])
        return I, p, [vec(pars)], None, [setw, ("no weights", lambda p: I.setattr_(p, "weights", None)), ("setAccuracy", lambda p: I.call(I.getattr_(p, "setAccuracy"), [], {"accuracy": 0.125}))]
    if kind == "dynamic":
        m = I.instantiate(I.cls("PolynomialDynamicModel"), [1], {})
        I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList([-4.0]), "highLimits": AList([5.0])})
        p = L.problem(I, m, True, None, cls=a[0])
        grow = lambda p: I.call(I.getattr_(I.getattr_(p, "model"), "grow"), [], {"offset": 0, "rng": RNG()})
        return I, p, [vec([S("p0"), S("p1")])], None, [("grow of the model", grow), ("parameters of the model", lambda p: I.np.setitem(I.getattr_(I.getattr_(p, "model"), "parameters"), 0, 4.5)), setw]
    if kind == "modifiable":
        m = I.instantiate(I.cls("SplinesDynamicModel"), [], {"knots": AList([0.0, 1.0, 2.0, 3.0]), "order": 2, "dynamic": False})
        n = m.attrs["npbase"]
        p = L.problem(I, m, False, None, cls="EvidenceProblem")
        return I, p, [vec([S("p%d" % k) for k in range(n)])], None, [("knots", lambda p: I.np.setitem(I.getattr_(I.getattr_(p, "model"), "knots"), 1, 1.5)), setw]
    if kind == "multi":
        c = L.multi_case(I, "GaussErrorDistribution", a[0])
        return I, c.problem, [vec(c.pars)], None, [("no weights", lambda p: I.setattr_(p, "weights", None))]
    if kind == "xy":
        c = L.xy_case(I, a[0], a[1])
        n = len(c.all.a) - 1
        return I, c.problem, [vec(list(c.all.a.flat)[:n])], None, [("setAccuracy", lambda p: I.call(I.getattr_(p, "setAccuracy"), [], {"accuracy": vec([0.125, 0.25])})), ("no weights", lambda p: I.setattr_(p, "weights", None))]
    n = 4
    kw = {"xdata": L.arr2([[S("x%d%d" % (i, j)) for j in range(2)] for i in range(n)]), "oneway": a[1], "distance": a[0], "scale": S("scale", "pospar")}
    if a[0] == "table":
        kw["table"] = L.arr2([[S("d%d%d" % (i, j), "pospar") for j in range(n)] for i in range(n)])
    if a[2]:
        kw["weights"] = vec([S("w%d" % i, "pospar") for i in range(n)])
    p = I.instantiate(I.cls("SalesmanProblem"), [], kw)
    perm = [vec(list(o), dtype="int") for o in ((0, 1, 2, 3), (2, 0, 3, 1))]
    ops_ = [("scale", lambda p: I.setattr_(p, "scale", 2.5)), ("oneway", lambda p: I.setattr_(p, "oneway", not I.getattr_(p, "oneway"))), ("weights", lambda p: I.setattr_(p, "weights", None)),
            ("parameters", lambda p: I.np.setitem(I.getattr_(p, "parameters"), 0, 3))]
    return I, p, perm, True, ops_


def problem_cases():
    for w in (False, True):
        for a in (None, "scalar", "array"):
            yield ("classic", w, a)
    yield ("classic", True, None, "cyclic")
    for c in ("ClassicProblem", "EvidenceProblem"):
        yield ("dynamic", c)
    yield ("modifiable",)
    for w in ("", "w1", "w2", "a", "A", "A2"):
        yield ("multi", w)
    for w in (False, True):
        for a in (None, "acc1", "acc2", "acc3", "accN2", "accN3", "cov", "covN"):
            yield ("xy", w, a)
    for d in ("euclid", "manhattan", "spherical", "table"):
        for o in (False, True):
            yield ("salesman", d, o, o)


# ------------------------------------------------------------------------------- compound parts
def isolate(R, t):
    """isolateModel(k): the k-th model of the chain, with its parameters, apart from the chain"""
    key = "isolate:" + C.show(t)
    def make():
        I = setup()
        m = C.build(I, t)
        prepare(I, m, False)
        return I, m
    I, m = make()
    n = I.call(I.getattr_(m, "chainLength"), [])
    wh = zoo.where(I, m.cls, "isolateModel")
    for k in range(n):
        I, m = make()
        s0 = model_state(I, m)
        nodes = [m]
        while isinstance(nodes[-1].attrs.get("_next"), Obj):
            nodes.append(nodes[-1].attrs["_next"])
        at = sum(int(q.attrs["npbase"]) for q in nodes[:k])
        np_ = int(nodes[k].attrs["npbase"])
        kk = "%s:%d" % (key, k)
        try:
            q = I.call(I.getattr_(m, "isolateModel"), [k])
        except (AbsRaise, Unsupported) as e:
            R.undecided(kk, "%s" % e)
            continue
        same(R, kk + ":source", s0, model_state(I, m), "isolating a model changes the compound model", wh)
        st = model_state(I, q)
        want = {"npchain": np_, "parameters:shape": ((np_,), (False,)), "stdevs:shape": ((np_,), (False,)), "class": nodes[k].cls.name}
        for j in range(np_):
            want["parameters[%d]" % j] = 1.0 + 0.25 * (at + j)
            want["stdevs[%d]" % j] = 0.5 + 0.125 * (at + j)
        p = [S("q%d" % j, "pospar") for j in range(np_)]
        try:
            flatten(I.call(I.getattr_(nodes[k], "baseResult"), [zoo.xdata_of(nodes[k]), vec(p)]), want, "result")
            st = {w: st.get(w) for w in want}
            st["class"] = q.cls.name
            same(R, kk + ":equal", want, st, "the isolated model is not the model in the chain", wh)
        except (AbsRaise, Unsupported) as e:
            R.undecided(kk + ":equal", "%s" % e)
        for j, (what, f) in enumerate(ops(I, q, False)):
            try:
                f()
            except (AbsRaise, Unsupported) as e:
                R.undecided("%s:%d:%s" % (kk, j, what), "%s" % e)
                continue
            same(R, "%s:%d:%s" % (kk, j, what), s0, model_state(I, m), "'%s' on the isolated model changes the compound model" % what, wh)
    R.functions |= I.visited


def run_copies(R):
    jobs = []
    for lab, name, build, comp in model_cases():
        for limits in (False, True):
            jobs.append((one_model, lab, name, build, comp, limits))
    for o in "+-*/|":
        for t1, t2 in (("G", "P"), (("+", "G", "P"), "X"), ("P", ("*", "X", "A"))):
            for limits in (False, True):
                jobs.append((operands, o, t1, t2, limits))
    for c in prior_cases():
        jobs.append((one_prior,) + tuple(c))
    for t in (("+", "G", "P"), ("*", "P", ("+", "X", "A")), ("+", ("*", "P", ("-", "X", "A")), "G"), ("|", "P", "G"), ("/", "X", ("+", "P", ("*", "X", "A")))):
        jobs.append((isolate, t))
    for c in errdis_cases():
        jobs.append((one_errdis,) + tuple(c))
    jobs.append((noise,))
    for c in problem_cases():
        jobs.append((one_problem, ":".join(str(q) for q in c), lambda c=c: mk_problem(*c)))
    R.parallel(job, jobs)


def job(R, f, *a):
    f(R, *a)
