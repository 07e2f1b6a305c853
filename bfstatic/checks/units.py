"""C24 units of the parameters: a model with parameters in these units yields values in the unit of y for inputs in the unit of x"""
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..npmodel import UnitV
from ..expr import *
from .models import setup as msetup
from . import limits

S = T.sym


def get(R, key, wh, f):
    """the value of f; no value at all is a violation"""
    out = limits.get(R, key, wh, lambda: (f(),))
    if out is None:
        return None
    if out[0] is None:
        R.fail(key + ":none", "there is no unit", wh)
    return out[0]


V = S("v", "pospar")
U = (2.5, 1.75, 3.5, 1.5)
al = lambda *v: AList(list(v))
# constants that are in the unit of x (or its inverse): they are scaled along
CONST = {"HarmonicModel": lambda n, u: ([n], {"period": 1.3 * u}), "HarmonicDynamicModel": lambda n, u: ([n], {"period": 1.3 * u}),
         "SineAmpModel": lambda n, u: ([1.3 / u], {})}
SPLINE = [("3", [-1.0, 0.2, 1.1, 2.0], 3), ("2", [-1.0, 0.2, 1.1], 2), ("1", [-1.0, 0.2, 1.1, 1.3, 2.0], 1)]


def knots(k, u):
    return AList([q * u for q in k])


def cases(I):
    """(label, class, module, build( u ), which inputs have a unit, do all inputs have the same unit)"""
    for lab, name, mod, build in zoo.instances(I, big=True):
        if name in CONST or "Spline" in name or name in ("FreeShapeModel", "FootballModel", "PolySineAmpModel", "DecisionTreeModel", "ConstantModel"):
            continue
        if name == "PowerLawModel":            # documented: only if the exponent is taken to be just a number
            continue
        if name in ("ChebyshevPolynomialModel",) or name == "PowerModel":
            yield lab, name, mod, lambda I, u, build=build: build(I), False, False
            continue
        yield lab, name, mod, lambda I, u, build=build: build(I), True, name == "Kernel2dModel" and "(2)" not in lab
    mk = lambda name, f: (lambda I, u: I.instantiate(I.cls(name), *f(I, u[0])))
    for name, f in CONST.items():
        for n in ((1, 2, 4) if "Harmonic" in name else (0,)):
            yield "%s(%d)" % (name, n), name, name, mk(name, lambda I, u, f=f, n=n: f(n, u)), True, False
    for lab, k, o in SPLINE:
        for name in ("SplinesModel", "BasicSplinesModel", "BSplinesModel", "SplinesDynamicModel"):
            yield "%s(%s)" % (name, lab), name, name, mk(name, lambda I, u, k=k, o=o: ([], {"knots": knots(k, u), "order": o})), True, False
        yield "SineSplineModel(%s)" % lab, "SineSplineModel", "SineSplineModel", mk("SineSplineModel", lambda I, u, k=k, o=o: ([1.3 / u, knots(k, u)], {"order": o})), True, False
        yield "SineSplineDriftModel(%s)" % lab, "SineSplineDriftModel", "SineSplineDriftModel", mk("SineSplineDriftModel", lambda I, u, k=k, o=o: ([knots(k, u)], {"order": o})), True, False
    for n in (1, 2, 4):
        yield "PolySineAmpModel(%d)" % n, "PolySineAmpModel", "PolySineAmpModel", lambda I, u, n=n: I.instantiate(I.cls("PolySineAmpModel"), [n, 1.3 / u[0]], {}), True, False
    yield "FreeShapeModel(4)", "FreeShapeModel", "FreeShapeModel", mk("FreeShapeModel", lambda I, u: ([4], {"xlo": -1.0 * u, "xhi": 2.0 * u})), True, False


    from .compound import special
    for lab, cls, bld, n, ref, nd, kinds in special():
        if "(prod)" in lab or "Bracket" in lab or "Constant" in lab or "SurfaceSplines" in lab or ",E," in lab or cls == "RepeatingModel" and not any(",%s," % c in lab for c in "GAX"):
            continue
        if cls == "ProductModel":
            yield lab, cls, cls, lambda I, u, bld=bld: bld(I), True, False
        elif "add" not in lab and "both" not in lab and "two" not in lab and "all" not in lab:
            yield lab, cls, cls, lambda I, u, bld=bld: bld(I), True, False
    yield "SurfaceSplines", "SurfaceSplinesModel", "SurfaceSplinesModel", lambda I, u: I.instantiate(
        I.cls("SurfaceSplinesModel"), [AList([knots([-1.0, 0.2, 1.1], u[0]), knots([-1.0, 0.5, 1.5, 2.0], u[1])])], {"order": AList([2, 1])}), True, False


def factor(u, unit):
    """the factor that belongs to a unit, given those of the inputs and the output"""
    if not isinstance(unit, UnitV):
        return None
    r = E(1)
    for k, e in unit.exps.items():
        if k == "yy":
            r = r * E(V) ** E(e if e.denominator != 1 else int(e))
        elif k.startswith("xx"):
            r = r * E(u[int(k[2:])] ** float(e))
        else:
            return None
    return r


def one(R, n):
    I = msetup()
    lab, name, mod, build, hasx, same = list(cases(I))[n]
    key = "unit:" + lab
    wh = lambda m: zoo.where(I, I.cls(name, mod), m)
    I = msetup()
    u1 = U if hasx else (1.0,) * 4
    if same:
        u1 = (U[0],) * 4
    m1 = get(R, key, wh("__init__"), lambda: build(I, (1.0,) * 4))
    m2 = get(R, key, wh("__init__"), lambda: build(I, u1))
    if m1 is None or m2 is None:
        return
    setunits(I, m1)
    x = zoo.xdata_of(m1)
    p = zoo.model_params(I, m1)
    units = []
    for k in range(p.a.size):
        un = get(R, "%s:%d" % (key, k), wh("baseParameterUnit"), lambda: I.call(I.getattr_(m1, "getParameterUnit"), [k]))
        f = factor(u1, un)
        if un is not None and f is None:
            R.fail("%s:%d" % (key, k), "the unit of parameter %d is %r" % (k, un), wh("baseParameterUnit"))
        units.append(f)
    if any(f is None for f in units):
        return
    q = p.copy()
    for k, f in enumerate(units):
        q.a[k] = (E(p.a[k]) * f).t
    xx = x.copy()
    if x.a.ndim == 1:
        xx.a[0] = (E(x.a[0]) * u1[0]).t
    else:
        for j in range(x.a.shape[1]):
            for i in range(x.a.shape[0]):
                xx.a[i, j] = (E(x.a[i, j]) * u1[j]).t
    r1 = get(R, key, wh("baseResult"), lambda: I.call(I.getattr_(m1, "result"), [x, p]))
    r2 = get(R, key, wh("baseResult"), lambda: I.call(I.getattr_(m2, "result"), [xx, q]))
    if r1 is None or r2 is None:
        return
    for j, (a, b) in enumerate(zip(r1.a.flat, r2.a.flat)):
        f = E(V)
        if name == "SoftMaxModel" or (name == "StellarOrbitModel" and "sph" in lab and j == 1):
            f = E(1)
        R.decide("%s:result%d" % (key, j), T.equal(b, (E(a) * f).t, seed=key), "with parameters in their units (%s) the result is not in the unit of y" % ", ".join("%r" % f.t for f in units), wh("baseParameterUnit"))
    R.functions |= I.visited


def setunits(I, m, pre=""):
    nd = int(I.getattr_(m, "ndim"))
    I.raw_setattr(m, "xUnit", UnitV.base(pre + "xx0") if nd == 1 else AList([UnitV.base(pre + "xx%d" % j) for j in range(nd)]))
    I.raw_setattr(m, "yUnit", UnitV.base(pre + "yy"))


def ok(R, key, cond, msg, wh):
    if cond:
        R.hold(key)
    else:
        R.fail(key, msg, wh)


def same(a, b):
    return isinstance(a, UnitV) and isinstance(b, UnitV) and a.exps == b.exps


def parunit(I, m, k):
    return I.call(I.getattr_(m, "getParameterUnit"), [k])


def fixed(R, n):
    """fixing parameters leaves the units of the others"""
    I0 = msetup()
    lab, name, mod, build = list(zoo.instances(I0))[n]
    spec = None
    for l, b in zoo.SPEC.get(name) or [("", lambda I: ([], {}))]:
        if lab == name + ("(%s)" % l if l else ""):
            spec = b
    m0 = build(I0)
    np_ = m0.attrs["npmax"]
    if name in ("FootballModel", "DecisionTreeModel", "ConstantModel") or m0.attrs.get("fixed") is not None or spec is None:
        return
    setunits(I0, m0)
    wh = zoo.where(I0, I0.cls(name, mod), "baseParameterUnit")
    sets = [{k: 0.75} for k in range(min(np_, 8))] + ([{0: 0.75, np_ - 1: 0.5}, {1: 0.75, 2: 0.5}, {-1: 0.5}] if np_ > 2 else [])
    if int(I0.getattr_(m0, "ndim")) == 1:
        sets += [{k: "P"} for k in range(min(np_, 4))] + ([{0: "P", 1: 0.75}, {0: "X", np_ - 1: "P"}, {0: "C", 1: "X"}] if np_ > 2 else [])
    for fx in sets:                                # sub-models have as many inputs as the model itself
        key = "fixed:%s:%s" % (lab, fx)
        I = msetup()
        args, kw = spec(I)
        d = {}
        subs = {}
        for k in fx:
            if fx[k] == "C":
                subs[k] = I.instantiate(I.cls("PolynomialModel"), [0], {})
                e = I.instantiate(I.cls("ExpModel"), [], {})
                setunits(I, e, "e%d" % k)
                I.call(I.getattr_(subs[k], "addModel"), [e])
                d[k] = subs[k]
            elif isinstance(fx[k], str):
                subs[k] = I.instantiate(I.cls("PolynomialModel"), [1 if fx[k] == "P" else 2], {})
                d[k] = subs[k]
            else:
                d[k] = fx[k]
        try:
            m = I.instantiate(I.cls(name, mod), args, dict(kw, fixed=ADict(d)))
        except (AbsRaise, Unsupported, Budget):
            continue                               # C05 decides whether it can be made
        setunits(I, m)
        for k in subs:
            setunits(I, subs[k], "s%d" % k)
        drop = {k % np_ for k in fx}
        want = [parunit(I0, m0, k) for k in range(np_) if k not in drop]
        for k in subs:
            want += [parunit(I, subs[k], j) for j in range(int(I.getattr_(subs[k], "npchain")))]
        for j, w in enumerate(want):
            got = get(R, "%s:%d" % (key, j), wh, lambda: parunit(I, m, j))
            if got is not None:
                ok(R, "%s:%d" % (key, j), same(got, w), "the unit of parameter %d is %r, should be %r" % (j, got, w), wh)
        R.functions |= I.visited


def chain(R):
    """the components of a chain keep their own units"""
    import itertools
    kinds = {"G": ("GaussModel", []), "P": ("PolynomialModel", [1]), "S": ("SineModel", []), "V": ("VoigtModel", []), "X": ("ExpModel", [])}
    for op in ("addModel", "subtractModel", "multiplyModel", "divideModel", "pipeModel"):
        for combo in list(itertools.permutations("GPS", 2)) + [tuple("GPS"), tuple("XVG"), tuple("PXP")]:
            I = msetup()
            key = "chain:%s:%s" % (op, "".join(combo))
            ms = [I.instantiate(I.cls(kinds[c][0]), list(kinds[c][1]), {}) for c in combo]
            for j, m in enumerate(ms):
                setunits(I, m, "m%d" % j)
            want = [parunit(I, m, k) for m in ms for k in range(int(I.getattr_(m, "npchain")))]
            wh = zoo.where(I, I.cls("Model"), "getParameterUnit")
            m = ms[0]

            def put():
                for q in ms[1:]:
                    I.call(I.getattr_(m, op), [q])
                return True
            if not get(R, key, wh, put):
                continue
            decide(R, I, key, m, want, wh)
    # brackets give the units of what is inside
    I = msetup()
    g, p = I.instantiate(I.cls("GaussModel"), [], {}), I.instantiate(I.cls("PolynomialModel"), [1], {})
    setunits(I, g, "a")
    setunits(I, p, "b")
    want = [parunit(I, m, k) for m in (g, p) for k in range(int(I.getattr_(m, "npchain")))]
    I.call(I.getattr_(g, "addModel"), [p])
    s = I.instantiate(I.cls("SineModel"), [], {})
    setunits(I, s, "c")
    want = [parunit(I, s, k) for k in range(3)] + want
    I.call(I.getattr_(s, "multiplyModel"), [g])
    decide(R, I, "chain:bracket", s, want, zoo.where(I, I.cls("BracketModel"), "baseParameterUnit"))


def decide(R, I, key, m, want, wh):
    for k, w in enumerate(want):
        got = get(R, "%s:%d" % (key, k), wh, lambda: parunit(I, m, k))
        if got is not None:
            ok(R, "%s:%d" % (key, k), same(got, w), "the unit of parameter %d is %r, should be %r" % (k, got, w), wh)
    for past in (len(want), len(want) + 3):
        k = "%s:past%d" % (key, past)
        try:
            got = parunit(I, m, past)
        except AbsRaise as e:
            ok(R, k, "IndexError" in str(e), "the unit of a parameter that is not there gives %s" % e, wh)
        except (Unsupported, Budget) as e:
            R.undecided(k, str(e))
        else:
            R.fail(k, "the unit of a parameter that is not there is %r" % (got,), wh)
    R.functions |= I.visited


def others(R):
    """the integral is in the unit of y times those of the inputs; PowerLaw has (y, x, 1); units outlive a copy; no units by default"""
    I = msetup()
    for lab, name, mod, build in zoo.instances(I):
        if name in ("DecisionTreeModel", "FootballModel"):
            continue
        m = build(I)
        wh = zoo.where(I, I.cls(name, mod), "getIntegralUnit")
        got = get(R, "default:" + lab, wh, lambda: I.call(I.getattr_(m, "getIntegralUnit"), []))
        if got is not None:
            ok(R, "default:" + lab, isinstance(got, UnitV) and not got.exps, "without units the integral has unit %r" % (got,), wh)
        setunits(I, m)
        nd = int(I.getattr_(m, "ndim"))
        want = UnitV.base("yy").exps | {"xx%d" % j: 1 for j in range(nd)}
        if nd == 1:
            want = {"yy": 1, "xx0": 1}
        got = get(R, "integral:" + lab, wh, lambda: I.call(I.getattr_(m, "getIntegralUnit"), []))
        if got is not None:
            ok(R, "integral:" + lab, isinstance(got, UnitV) and dict(got.exps) == want, "the integral has unit %r, should be %r" % (got, want), wh)
        if nd > 1:                                 # the same unit in all inputs
            I.raw_setattr(m, "xUnit", AList([UnitV.base("xx0")] * nd))
            got = get(R, "integral:equal:" + lab, wh, lambda: I.call(I.getattr_(m, "getIntegralUnit"), []))
            if got is not None:
                ok(R, "integral:equal:" + lab, isinstance(got, UnitV) and dict(got.exps) == {"yy": 1, "xx0": nd}, "with equal units of the inputs the integral has unit %r" % (got,), wh)
            setunits(I, m)
        c = get(R, "copy:" + lab, zoo.where(I, I.cls(name, mod), "copy"), lambda: I.call(I.getattr_(m, "copy"), []))
        if c is not None:
            got = get(R, "copy:" + lab, wh, lambda: I.call(I.getattr_(c, "getIntegralUnit"), []))
            if got is not None:
                ok(R, "copy:" + lab, isinstance(got, UnitV) and dict(got.exps) == want, "the integral of a copy has unit %r, should be %r" % (got, want), wh)
    m = I.instantiate(I.cls("PowerLawModel"), [], {})
    setunits(I, m)
    for k, w in enumerate((UnitV.base("yy"), UnitV.base("xx0"), UnitV({}))):
        wh = zoo.where(I, I.cls("PowerLawModel"), "baseParameterUnit")
        got = get(R, "powerlaw:%d" % k, wh, lambda: parunit(I, m, k))
        if got is not None:
            ok(R, "powerlaw:%d" % k, same(got, w), "the unit of parameter %d is %r, documented is %r" % (k, got, w), wh)
    R.functions |= I.visited


def run_units(R):
    I = msetup()
    n = len(list(cases(I)))
    k = len(list(zoo.instances(I)))
    R.parallel(dispatch, [("one", j) for j in range(n)] + [("fixed", j) for j in range(k)] + [("chain",), ("others",)])


def dispatch(R, f, *a):
    globals()[f](R, *a)
