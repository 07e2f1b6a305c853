"""C04: compound models - result, partials and derivative of every composition of component models"""
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup, crash, compare_partial, compare_derivative
from .docfun import REF, spline
import ast

OPS = {"+": "Add", "-": "Sub", "*": "Mult", "/": "Div", "|": "BitOr"}

# leaf : class, args, reference, number of inputs, outputs, parameters
LEAF = {
    "G": ("GaussModel", [], {}, REF["GaussModel"], 1, 1, 3),
    "P": ("PolynomialModel", [1], {}, lambda x, p: p[0] + p[1] * x, 1, 1, 2),
    "X": ("ExpModel", [], {}, REF["ExpModel"], 1, 1, 2),
    "A": ("ArctanModel", [], {}, REF["ArctanModel"], 1, 1, 3),
    "C": ("ConstantModel", [], {}, lambda x, p: E(0), 1, 1, 0),
    "S": ("PolySurfaceModel", [1], {}, lambda x, p: p[0] + p[1] * x[0] + p[2] * x[1], 2, 1, 3),
    "E": ("EtalonDriftModel", [], {}, REF["EtalonDriftModel"], 2, 1, 5),
    "M": ("SoftMaxModel", [], {"ndim": 2, "ndout": 2}, REF["SoftMaxModel(2x2)"], 2, 2, 4),
    "N": ("SoftMaxModel", [], {"ndim": 2, "ndout": 2, "offset": True}, REF["SoftMaxModel(2x2o)"], 2, 2, 6),
    "O": ("StellarOrbitModel", [], {"spherical": False}, REF["StellarOrbitModel(cart)"], 1, 2, 7),
    "Y": ("SoftMaxModel", [], {"ndim": 1, "ndout": 2}, lambda x, p: [exp(x * p[0]) / (exp(x * p[0]) + exp(x * p[1])),
                                                                     exp(x * p[1]) / (exp(x * p[0]) + exp(x * p[1]))], 1, 2, 2),
}


def trees():
    """expressions: strings (leaves) and (op, left, right)"""
    out = []
    for o in "+-*/|":
        out.append((o, "G", "X"))
        out.append((o, "P", "A"))
    for o1 in "+-*/|":
        for o2 in "+-*/|":
            out.append((o2, (o1, "G", "P"), "X"))
            out.append((o1, "P", (o2, "X", "A")))
    for o1, o2, o3 in (("+", "*", "-"), ("*", "/", "+"), ("-", "-", "*"), ("/", "+", "/"), ("|", "*", "+"), ("+", "|", "-"),
                       ("*", "-", "|"), ("/", "/", "*")):
        out.append((o3, (o2, (o1, "P", "G"), "X"), "A"))
        out.append((o2, (o1, "P", "G"), (o3, "X", "A")))
        out.append((o1, "X", (o2, "P", (o3, "G", "A"))))
    out.append(("+", "G", "C"))
    out.append(("*", ("+", "C", "G"), "P"))
    # more dimensional
    for o in "+-*/":
        out.append((o, "S", "E"))
        out.append((o, "M", "N"))
        out.append((o, "Y", "O"))
        out.append((o, "O", "Y"))
    out += [("-", ("*", "S", "E"), "S"), ("*", "E", ("+", "S", "S"))]
    out += [("|", "S", "G"), ("|", "M", "N"), ("|", "M", "S"), ("|", "O", "S"), ("|", "O", "M"), ("|", "P", "O"), ("|", "S", "Y"),
            ("|", "P", "Y"), ("|", "Y", "S"), ("|", "Y", "M"), ("|", "M", "E"), ("|", ("|", "S", "G"), "P"),
            ("|", ("|", "M", "N"), "S"), ("|", ("|", "P", "Y"), "M"), ("|", ("+", "S", "E"), "G"), ("|", ("|", "O", "S"), "A"),
            ("|", "M", ("+", "S", "S")), ("|", "P", ("+", "G", "X")), ("+", ("|", "M", "S"), "E")]
    return out


def show(t):
    if isinstance(t, str):
        return t
    return "(%s%s%s)" % (show(t[1]), t[0], show(t[2]))


def build(I, t, inplace=False):
    if isinstance(t, str):
        cls, a, k, ref, nd, no, np_ = LEAF[t]
        return I.instantiate(I.cls(cls), list(a), dict(k))
    l, r = build(I, t[1], inplace), build(I, t[2], inplace)
    if inplace:
        meth = {"+": "addModel", "-": "subtractModel", "*": "multiplyModel", "/": "divideModel", "|": "pipeModel"}[t[0]]
        I.call(I.getattr_(l, meth), [r])
        return l
    return I.binary(OPS[t[0]], l, r, None)


def npar(t):
    return LEAF[t][6] if isinstance(t, str) else npar(t[1]) + npar(t[2])


def ndin(t):
    return LEAF[t][4] if isinstance(t, str) else ndin(t[1])


def ev(t, x, p):
    if isinstance(t, str):
        return LEAF[t][3](x, p)
    n = npar(t[1])
    l = ev(t[1], x, p[:n])
    if t[0] == "|":
        return ev(t[2], l, p[n:])
    r = ev(t[2], x, p[n:])
    f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}[t[0]]
    return f(l, r) if not isinstance(l, list) else [f(a, b) for a, b in zip(l, r)]


PKIND = {"G": {2: "pospar"}, "E": {2: "pospar"}, "O": {0: "unit", 2: "pospar"}}


def pars(t, pre="p"):
    out = []

    def walk(t):
        if isinstance(t, str):
            for k in range(LEAF[t][6]):
                out.append(T.sym("%s%d" % (pre, len(out)), PKIND.get(t, {}).get(k, "param")))
        else:
            walk(t[1])
            walk(t[2])
    walk(t)
    return out


def run_compound(R):
    for inplace in (False, True):
        for t in trees():
            if inplace and R.tier == "quick" and not (isinstance(t[1], str) and isinstance(t[2], str)):
                continue
            one(R, t, inplace)
    classes(R)


def one(R, t, inplace):
    key = "compound:%s%s" % (show(t), ":inplace" if inplace else "")
    I = setup()
    wh = zoo.where(I, "Model", "_recursiveResult")
    ps = pars(t)
    nd = ndin(t)
    step = "construction"
    try:
        m = build(I, t, inplace)
        step = "number of parameters"
        n = I.getattr_(m, "npchain")
        stored = I.getattr_(m, "parameters")
        if n != len(ps) or not isinstance(stored, Arr) or stored.a.size != len(ps):
            R.fail(key + ":npars", "compound of %d parameters claims %r with parameters %r" % (len(ps), n, stored), wh)
            return
        R.hold(key + ":npars")

        def xd():
            return datum(T.sym("x", "datum")) if nd == 1 else datum2([T.sym("x%d" % i, "datum") for i in range(nd)])
        xs = [E(v) for v in xd().a.flat]
        want = ev(t, xs if nd > 1 else xs[0], [E(p) for p in ps])
        want = want if isinstance(want, list) else [want]
        step = "result"
        res = I.call(I.getattr_(m, "result"), [xd(), vec(ps)])
    except AbsRaise as e:
        fails(R, key, step, e, wh)
        return
    except Unsupported as e:
        R.undecided(key, "unsupported %s %s" % (step, e))
        return
    R.functions |= I.visited
    if not isinstance(res, Arr) or res.a.size != len(want):
        R.undecided(key, "result %r" % (res,))
        return
    ok = True
    for j in range(len(want)):
        kk = key + (":result[%d]" % j if len(want) > 1 else ":result")
        v = T.equal(res.a.reshape(-1)[j], want[j].t, seed=kk)
        ok = ok and v.status == "eq"
        R.decide(kk, v, "the result of the compound model is not the composition of its components", wh)
    if not ok:
        return
    ref = Arr(np.array([w.t for w in want], dtype=object).reshape((1, -1) if len(want) > 1 else (1,)),
              sym=(True, False) if len(want) > 1 else (True,))
    for meth, cmpf in (("partial", lambda q: compare_partial(R, I, m, "Model", key + ":partial", ref, q, vec(ps))),
                       ("derivative", lambda q: compare_derivative(R, I, key + ":derivative", zoo.where(I, "Model", "_recursiveDerivative"), ref, q, xd()))):
        try:
            q = I.call(I.getattr_(m, meth), [xd(), vec(ps)])
        except AbsRaise as e:
            fails(R, key, meth, e, zoo.where(I, "Model", "_recursive" + meth.capitalize()))
            continue
        except Unsupported as e:
            R.undecided(key + ":" + meth, "unsupported %s" % e)
            continue
        cmpf(q)
    R.functions |= I.visited


def fails(R, key, step, e, wh):
    if not (crash(e) or e.name in ("IndexError", "ValueError")):
        R.undecided("%s:%s" % (key, step), "raises %s" % e.name)
        return
    R.fail("%s:%s:raises" % (key, step.replace(" ", "_")), "%s of a valid compound model raises %s (%s)" % (step, e.name, e.value), wh)


def special():
    """(label, class, build, number of parameters, reference, dimensions, parameter kinds)"""
    def leaf(I, t):
        return build(I, t)

    def product(I):
        return I.instantiate(I.cls("ProductModel"), [AList([leaf(I, "G"), leaf(I, "P"), leaf(I, "X")])], {})

    yield ("Product(G,P,X)", "ProductModel", product, 7,
           lambda x, p: LEAF["G"][3](x[0], p[:3]) * LEAF["P"][3](x[1], p[3:5]) * LEAF["X"][3](x[2], p[5:]), 3, {2: "pospar"})

    def surf(I):
        return I.instantiate(I.cls("SurfaceSplinesModel"), [AList([AList([-1.0, 0.2, 1.1]), AList([-1.0, 0.5, 2.0])])], {"order": 2})

    def surfref(x, p):
        f, g = spline([-1.0, 0.2, 1.1], 2), spline([-1.0, 0.5, 2.0], 2)

        def unit(h, n, x):
            return [h(x, [E(1 if i == k else 0) for i in range(n)]) for k in range(n)]
        a, b = unit(f, 4, x[0]), unit(g, 4, x[1])
        return sum((p[4 * i + j] * a[i] * b[j] for i in range(4) for j in range(4)), E(0))
    yield ("SurfaceSplines", "SurfaceSplinesModel", surf, 16, surfref, 2, {})

    def combi(I, n, t, kw):
        return I.instantiate(I.cls("CombiModel"), [leaf(I, t)], dict({"nrepeat": n}, **kw(I)))

    def combiref(n, t, add, mul, oper):
        nm = LEAF[t][6]

        def f(x, p):
            used, full = 0, []
            for r in range(n):
                q = []
                for k in range(nm):
                    base = None
                    if k in add or k in mul:
                        if r == 0:
                            base = p[used]
                            used += 1
                        else:
                            base = raw0[k]
                    else:
                        base = p[used]
                        used += 1
                    q.append(base)
                if r == 0:
                    raw0 = list(q)
                q = [(b + add[k][r]) if k in add else (b * mul[k][r]) if k in mul else b for k, b in enumerate(q)]
                full.append(LEAF[t][3](x, q))
            out = full[0]
            for r in full[1:]:
                out = out + r if oper == "add" else out * r
            return out
        npar_ = n * nm - (n - 1) * (len(add) + len(mul))
        return npar_, f

    for lab, n, t, add, mul, oper in (("none", 2, "G", {}, {}, "add"), ("add", 3, "A", {1: [0, 0.5, 1.25]}, {}, "add"),
                                      ("mul", 3, "A", {}, {2: [1, 0.5, 1.25]}, "add"), ("both", 2, "A", {1: [0.25, 0.5]}, {0: [1.5, 0.5]}, "add"),
                                      ("two", 2, "G", {1: [0, 0.5]}, {2: [1, 1.25]}, "add"), ("prod", 2, "A", {1: [0, 0.5]}, {}, "mul"),
                                      ("all", 2, "X", {0: [0, 0.5], 1: [0, 0.25]}, {}, "add")):
        def kw(I, add=add, mul=mul, oper=oper):
            d = {"oper": oper}
            if add:
                d["addCombi"] = ADict({k: AList(list(v)) for k, v in add.items()})
            if mul:
                d["mulCombi"] = ADict({k: AList(list(v)) for k, v in mul.items()})
            return d
        np_, f = combiref(n, t, add, mul, oper)
        kinds = {}
        if t == "G":
            kinds = {2: "pospar", 5: "pospar"} if not add else {2: "pospar"}
        yield ("Combi(%s)" % lab, "CombiModel", lambda I, n=n, t=t, kw=kw: combi(I, n, t, kw), np_, f, 1, kinds)

    def rep(I, n, t, kw):
        return I.instantiate(I.cls("RepeatingModel"), [n, leaf(I, t)], dict(kw(I)))

    def repref(n, t, same):
        nm = LEAF[t][6]
        own = [k for k in range(nm) if k not in same]

        def f(x, p):
            q = list(p[:nm])
            out = LEAF[t][3](x, q)
            i = nm
            for r in range(1, n):
                for k in own:
                    q[k] = p[i]
                    i += 1
                out = out + LEAF[t][3](x, q)
            return out
        return nm + (n - 1) * len(own), f

    for n, t, same in ((1, "G", []), (2, "G", []), (3, "A", []), (3, "A", [2]), (2, "A", [0, 1]), (3, "X", [0]), (2, "E", [1])):
        np_, f = repref(n, t, same)
        kinds = {2: "pospar", 5: "pospar"} if t == "G" else {2: "pospar", 6: "pospar"} if t == "E" else {}
        yield ("Repeating(%d,%s,%s)" % (n, t, same), "RepeatingModel",
               lambda I, n=n, t=t, same=same: rep(I, n, t, lambda I: {"same": AList(list(same))} if same else {}), np_, f, LEAF[t][4], kinds)

    for n, tree, same in ((2, ("+", "G", "P"), []), (3, ("*", "P", "X"), [1, 2]), (1, ("-", "X", "G"), [])):
        nm = npar(tree)
        own = [k for k in range(nm) if k not in same]

        def ref(x, p, n=n, tree=tree, nm=nm, own=own):
            q = list(p[:nm])
            out = ev(tree, x, q)
            for r in range(1, n):
                for i, k in enumerate(own):
                    q[k] = p[nm + (r - 1) * len(own) + i]
                out = out + ev(tree, x, q)
            return out
        yield ("Repeating(%d,%s,%s)" % (n, show(tree), same), "RepeatingModel",
               lambda I, n=n, tree=tree, same=same: I.instantiate(I.cls("RepeatingModel"), [n, build(I, tree)], {"same": AList(list(same))} if same else {}),
               nm + (n - 1) * len(own), ref, 1, {k + r * nm: "pospar" for r in range(n) for k in range(nm) if tree == ("+", "G", "P") and k == 2 or tree[2] == "G" and k == 4})

    def bracket(I):
        return I.instantiate(I.cls("BracketModel"), [build(I, ("*", "G", "P"))], {})
    yield ("Bracket(G*P)", "BracketModel", bracket, 5, lambda x, p: ev(("*", "G", "P"), x, p), 1, {2: "pospar"})

    def const(I):
        return I.instantiate(I.cls("ConstantModel"), [], {"fixedModel": leaf(I, "X"), "values": AList([1.5, -0.5])})
    yield ("Constant(X)", "ConstantModel", const, 0, lambda x, p: 1.5 * exp(-0.5 * x), 1, {})


def classes(R):
    for lab, cls, bld, n, ref, nd, kinds in special():
        key = "model:" + lab
        I = setup()
        wh = zoo.where(I, cls, "baseResult")

        def xd():
            return datum(T.sym("x", "datum")) if nd == 1 else datum2([T.sym("x%d" % i, "datum") for i in range(nd)])
        ps = [T.sym("p%d" % i, kinds.get(i, "param")) for i in range(n)]
        step = "construction"
        try:
            m = bld(I)
            got = I.getattr_(m, "npchain")
            st = I.getattr_(m, "parameters")
            if got != n or not isinstance(st, Arr) or st.a.size != n:
                R.fail(key + ":npars", "model has %r parameters (%r), expected %d" % (got, st, n), wh)
                continue
            R.hold(key + ":npars")
            xs = [E(v) for v in xd().a.flat]
            want = ref(xs if nd > 1 else xs[0], [E(p) for p in ps])
            step = "result"
            res = I.call(I.getattr_(m, "result"), [xd(), vec(ps)])
        except AbsRaise as e:
            fails(R, key, step, e, wh)
            continue
        except Unsupported as e:
            R.undecided(key, "unsupported %s %s" % (step, e))
            continue
        if not isinstance(res, Arr) or res.a.size != 1:
            R.undecided(key, "result %r" % (res,))
            continue
        v = T.equal(res.a.flat[0], want.t, seed=key)
        R.decide(key + ":result", v, "the result of the model is not the documented composition of its components", wh)
        if v.status != "eq":
            continue
        refa = Arr(np.array([want.t], dtype=object), sym=(True,))
        for meth, cmpf in (("partial", lambda q: compare_partial(R, I, m, cls, key + ":partial", refa, q, vec(ps))),
                           ("derivative", lambda q: compare_derivative(R, I, key + ":derivative", zoo.where(I, cls, "baseDerivative"), refa, q, xd()))):
            try:
                if meth == "derivative" and I.find(m.cls, "baseDerivative") is None:
                    R.undecided(key + ":derivative", "no derivative provided")
                    continue
                q = I.call(I.getattr_(m, meth), [xd(), vec(ps)])
            except AbsRaise as e:
                fails(R, key, meth, e, zoo.where(I, cls, "base" + meth.capitalize()))
                continue
            except Unsupported as e:
                R.undecided(key + ":" + meth, "unsupported %s" % e)
                continue
            cmpf(q)
        R.functions |= I.visited
