"""C05: fixed parameters - a model with parameters fixed is the unfixed model at the fixed values"""
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from .models import setup, crash, compare_partial, compare_derivative, CRASH

VAL = 0.75
DYNAMIC = ("DecisionTreeModel",)       # number of parameters changes: no parameter can be fixed


def run_fixed(R):
    I0 = setup()
    for lab, name, mod, build in list(zoo.instances(I0)):
        spec = None
        for l, b in zoo.SPEC.get(name) or [("", lambda I: ([], {}))]:
            if lab == name + ("(%s)" % l if l else ""):
                spec = b
        I = setup()
        try:
            m0 = build(I)
            n = m0.attrs["npmax"]
            x = zoo.xdata_of(m0)
        except (AbsRaise, Unsupported) as e:
            R.undecided("fixed:" + lab, "construction %s" % e)
            continue
        if m0.attrs.get("fixed") is not None or name == "FootballModel":
            R.undecided("fixed:" + lab, "has built-in fixed parameters")
            continue
        sets = [{k: VAL} for k in range(n)]
        if n > 2:
            sets.append({0: 0.5, n - 1: VAL})
            sets.append({1: VAL, n - 1: 0.5})
            sets.append({-1: VAL})
            sets.append({n - 1: 0.5, 0: VAL})
        if R.tier == "thorough" and n > 3:
            import itertools
            sets += [{a: VAL, b: 0.5} for a, b in itertools.combinations(range(n), 2)]
        elif n > 8:
            sets = sets[:3] + sets[-4:]
        for fx in sets:
            if not one(R, lab, name, mod, spec, n, fx):
                break
        pos = set()
        pi = m0.attrs.get("posIndex")
        if isinstance(pi, Arr) and pi.concrete():
            pos = set(pi.a.flat)
        elif isinstance(pi, AList):
            pos = set(pi.items)
        kinds = zoo.PARKINDS.get(name, {})
        for k in range(n):
            if k in pos or k in kinds:
                continue
            if (n > 5 or R.tier == "quick") and k not in (0, 1):
                continue
            withmodel(R, lab, name, mod, spec, n, {k: "P"})
        if n > 2:
            ks = [k for k in range(n) if k not in pos and k not in kinds]
            if len(ks) > 1:
                withmodel(R, lab, name, mod, spec, n, {ks[0]: "P", ks[-1]: VAL})
                withmodel(R, lab, name, mod, spec, n, {ks[0]: VAL, ks[-1]: "P"})
                withmodel(R, lab, name, mod, spec, n, {ks[-1]: "P", ks[0]: VAL})
                withmodel(R, lab, name, mod, spec, n, {ks[0]: "Q", ks[-1]: "E"})
                withmodel(R, lab, name, mod, spec, n, {ks[0]: "E", ks[-1]: "E"})
                withmodel(R, lab, name, mod, spec, n, {ks[0]: "PE", ks[-1]: "E"})
                withmodel(R, lab, name, mod, spec, n, {ks[-1]: "E", ks[0]: "Q"})


# models that replace a parameter: number of parameters, constructor, function
BYMODEL = {
    "P": (2, lambda I: I.instantiate(I.cls("PolynomialModel"), [1], {}), lambda q, x: T.add(q[0], T.mul(q[1], x))),
    "Q": (3, lambda I: I.instantiate(I.cls("PolynomialModel"), [2], {}),
          lambda q, x: T.add(q[0], T.add(T.mul(q[1], x), T.mul(q[2], T.mul(x, x))))),
    "PE": (4, lambda I: I.binary("Mult", I.instantiate(I.cls("PolynomialModel"), [1], {}), I.instantiate(I.cls("ExpModel"), [], {}), None),
           lambda q, x: T.mul(T.add(q[0], T.mul(q[1], x)), T.mul(q[2], T.fn("exp", T.mul(q[3], x))))),
    "E": (2, lambda I: I.instantiate(I.cls("ExpModel"), [], {}), lambda q, x: T.mul(q[0], T.fn("exp", T.mul(q[1], x)))),
}


def construct(I, name, mod, spec, fx):
    a, k = spec(I)
    k = dict(k)
    d = {}
    for kk, v in fx.items():
        d[kk] = BYMODEL[v][1](I) if v in BYMODEL else v
    k["fixed"] = ADict(d)
    return I.instantiate(I.cls(name, mod), list(a), k)


def one(R, lab, name, mod, spec, n, fx):
    """constants"""
    key = "fixed:%s:%s" % (lab, ",".join("%d" % k for k in fx))
    I = setup()
    wh = zoo.where(I, name, "basePartial")
    try:
        m = construct(I, name, mod, spec, fx)
    except AbsRaise as e:
        if (e.name == "AttributeError" and "cannot have fixed" in src(e)) or name in DYNAMIC:
            R.hold(key, "rejects fixed parameters")
            return False
        bad(R, key, "construction", e, wh)
        return False
    except Unsupported as e:
        R.undecided(key, e)
        return True
    fxn = {k % n: v for k, v in fx.items()}
    try:
        m0 = I.instantiate(I.cls(name, mod), *[f for f in spec(I)])
        full = zoo.model_params(I, m0)
        free = [k for k in range(n) if k not in fxn]
        for k, v in fxn.items():
            full.a[k] = v
        p = vec([full.a[k] for k in free])
        np_ = I.getattr_(m, "npchain")
        if np_ != len(free):
            R.fail(key + ":npars", "%r free parameters for %d parameters of which %d fixed" % (np_, n, len(fxn)), wh)
            return True
        x = zoo.xdata_of(m0)
        want = I.call(I.getattr_(m0, "result"), [zoo.xdata_of(m0), full.copy()])
    except AbsRaise as e:
        R.undecided(key, "reference raises %s" % e)
        return True
    except Unsupported as e:
        R.undecided(key, e)
        return True
    return body(R, I, m, name, key, wh, x, p, want)


def body(R, I, m, name, key, wh, x, p, want):
    try:
        res = I.call(I.getattr_(m, "result"), [x.copy(), p.copy()])
    except AbsRaise as e:
        bad(R, key, "result", e, wh)
        return True
    except Unsupported as e:
        R.undecided(key, e)
        return True
    if not isinstance(res, Arr) or not isinstance(want, Arr) or res.a.shape != want.a.shape:
        R.undecided(key, "result %r want %r" % (res, want))
        return True
    ok = True
    for i, (a, b) in enumerate(zip(res.a.flat, want.a.flat)):
        v = T.equal(a, b, seed=key)
        ok = ok and v.status == "eq"
        R.decide(key + ":result%d" % i, v, "with fixed parameters the result is not that of the full model at the fixed values", wh)
    if not ok:
        return True
    try:
        par = I.call(I.getattr_(m, "partial"), [x.copy(), p.copy()])
        compare_partial(R, I, m, name, key + ":partial", want, par, p)
    except AbsRaise as e:
        bad(R, key, "partial", e, wh)
    except Unsupported as e:
        R.undecided(key + ":partial", e)
    try:
        if I.find(m.cls, "baseDerivative") is not None:
            der = I.call(I.getattr_(m, "derivative"), [x.copy(), p.copy()])
            if isinstance(der, Top) and "numeric" in str(der):
                return True
            compare_derivative(R, I, key + ":derivative", zoo.where(I, name, "baseDerivative"), want, der, x)
    except AbsRaise as e:
        bad(R, key, "derivative", e, wh)
    except Unsupported as e:
        R.undecided(key + ":derivative", e)
    R.functions |= I.visited
    return True


def src(e):
    import ast
    v = e.value
    return ast.unparse(v) if isinstance(v, ast.AST) else str(v)


def bad(R, key, step, e, wh):
    if crash(e) or e.name in ("IndexError", "KeyError", "ValueError"):
        R.fail("%s:%s:raises" % (key, step), "%s of a model with fixed parameters raises %s (%s)" % (step, e.name, src(e)), wh)
    else:
        R.undecided("%s:%s" % (key, step), "raises %s" % e.name)


def withmodel(R, lab, name, mod, spec, n, fx):
    key = "fixedmodel:%s:%s" % (lab, ",".join("%d%s" % (k, "=" + v if v in BYMODEL else "") for k, v in fx.items()))
    I = setup()
    wh = zoo.where(I, name, "basePartial")
    try:
        m = construct(I, name, mod, spec, fx)
    except AbsRaise as e:
        if e.name == "AttributeError" and "cannot have fixed" in src(e):
            return
        bad(R, key, "construction", e, wh)
        return
    except Unsupported as e:
        R.undecided(key, e)
        return
    try:
        m0 = I.instantiate(I.cls(name, mod), *[f for f in spec(I)])
        full = zoo.model_params(I, m0)
        free = [k for k in range(n) if k not in fx]
        p = [full.a[k] for k in free]
        x = zoo.xdata_of(m0)
        sub = {}
        for k, v in fx.items():
            if v in BYMODEL:
                if m0.attrs.get("ndim", 1) != 1:
                    return
                q = [T.sym("q%d_%d" % (k, i)) for i in range(BYMODEL[v][0])]
                p += q
                sub[full.a[k]] = BYMODEL[v][2](q, x.a.flat[0])
            else:
                sub[full.a[k]] = v
        np_ = I.getattr_(m, "npchain")
        st = I.getattr_(m, "parameters")
        if np_ != len(p) or not isinstance(st, Arr) or st.a.size != len(p):
            R.fail(key + ":npars", "%r free parameters, expected %d" % (np_, len(p)), wh)
            return
        want = I.call(I.getattr_(m0, "result"), [zoo.xdata_of(m0), full.copy()])
        if not isinstance(want, Arr):
            R.undecided(key, "reference %r" % (want,))
            return
        want = Arr(np.array([T.subst(t, sub) for t in want.a.flat], dtype=object).reshape(want.a.shape), sym=want.sym)
    except AbsRaise as e:
        R.undecided(key, "reference raises %s" % e)
        return
    except Unsupported as e:
        R.undecided(key, e)
        return
    body(R, I, m, name, key, wh, x, vec(p), want)
