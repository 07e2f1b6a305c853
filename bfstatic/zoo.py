"""Representative instances of the classes of the library, built by abstract interpretation.

The class list is discovered from the source; the table only tells how a class with required
constructor arguments is instantiated.  Unknown classes are tried without arguments."""
from .absint import *
from .values import *
from . import terms as T
from .program import c3


def alist(*v):
    return AList(list(v))


# class -> list of (label, builder( I ) -> (args, kwargs))
SPEC = {
    "PolynomialModel": [("0", lambda I: ([0], {})), ("3", lambda I: ([3], {}))],
    "ChebyshevPolynomialModel": [("1", lambda I: ([1], {})), ("4", lambda I: ([4], {}))],
    "HarmonicModel": [("2", lambda I: ([2], {"period": 1.7}))],
    "HarmonicDynamicModel": [("2", lambda I: ([2], {"period": 1.3}))],
    "PolynomialDynamicModel": [("2", lambda I: ([2], {}))],
    "PadeModel": [("2,1", lambda I: ([2, 1], {})), ("1,2", lambda I: ([1, 2], {}))],
    "PolySineAmpModel": [("1", lambda I: ([1, 1.3], {})), ("2", lambda I: ([2, 0.7], {}))],
    "PolySurfaceModel": [("1", lambda I: ([1], {})), ("3", lambda I: ([3], {}))],
    "PowerModel": [("0", lambda I: ([0], {})), ("-1", lambda I: ([-1], {})), ("3", lambda I: ([3], {}))],
    "SineAmpModel": [("", lambda I: ([1.3], {}))],
    "SineModel": [("", lambda I: ([], {})), ("phase", lambda I: ([], {"phase": True}))],
    "ExpModel": [("", lambda I: ([], {})), ("decay", lambda I: ([], {"decay": True}))],
    "SplinesModel": [("3", lambda I: ([], {"knots": alist(-1.0, 0.2, 1.1, 2.0), "order": 3})),
                     ("2", lambda I: ([], {"knots": alist(-1.0, 0.2, 1.1), "order": 2}))],
    "BasicSplinesModel": [("3", lambda I: ([], {"knots": alist(-1.0, 0.2, 1.1, 2.0), "order": 3})),
                          ("2b", lambda I: ([], {"knots": alist(-1.0, 0.2, 1.1, 2.0), "order": 2, "border": 1}))],
    "SplinesDynamicModel": [("2", lambda I: ([], {"knots": alist(-1.0, 0.2, 2.0), "order": 2}))],
    "BSplinesModel": [("3", lambda I: ([], {"knots": alist(-1.0, 0.2, 1.1, 2.0), "order": 3}))],
    "SineSplineModel": [("", lambda I: ([1.3, alist(-1.0, 0.2, 1.1, 2.0)], {})),
                        ("2", lambda I: ([0.7, alist(-1.0, 0.2, 1.1)], {"order": 2}))],
    "SineSplineDriftModel": [("", lambda I: ([alist(-1.0, 0.2, 1.1, 2.0)], {})),
                             ("2,2", lambda I: ([alist(-1.0, 0.2, 1.1)], {"order": 2, "degree": 2}))],
    "FreeShapeModel": [("4", lambda I: ([4], {"xlo": -1.0, "xhi": 2.0})),
                       ("shape", lambda I: ([4], {"xlo": -1.0, "xhi": 2.0, "shape": I.instantiate(I.cls("Triangle", "kernels.Triangle"), [], {})}))],
    "FootballModel": [(str(c), lambda I, c=c: ([2], {"complexity": c})) for c in (1, 2, 3, 4, 5)],
    "KernelModel": [("", lambda I: ([], {}))] + [
        (k, lambda I, k=k: ([], {"kernel": I.instantiate(I.cls(k, "kernels." + k), [], {})}))
        for k in ("CosSquare", "Cosine", "Gauss", "Huber", "Lorentz", "Parabola", "Sinc", "Triangle", "Tricube", "Triweight", "Uniform")],
    "Kernel2dModel": [(str(s), lambda I, s=s: ([], {"shape": s})) for s in (1, 2, 3)],
    "SoftMaxModel": [("2x1", lambda I: ([], {"ndim": 2, "ndout": 1})),
                     ("2x2", lambda I: ([], {"ndim": 2, "ndout": 2})),
                     ("2x2o", lambda I: ([], {"ndim": 2, "ndout": 2, "offset": True})),
                     ("2x2on", lambda I: ([], {"ndim": 2, "ndout": 2, "offset": True, "normed": False}))],
    "StellarOrbitModel": [("sph", lambda I: ([], {"spherical": True})), ("cart", lambda I: ([], {"spherical": False}))],
    "DecisionTreeModel": [("1", lambda I: ([], {"ndim": 2, "depth": 1, "kdim": alist(0)}))],
    "LinearModel": None, "NonLinearModel": None, "Model": None, "FixedModel": None, "BaseModel": None,
    "Brackets": None, "BracketModel": None, "CombiModel": None, "ProductModel": None, "RepeatingModel": None,
    "UserModel": None, "AstropyModel": None, "SurfaceSplinesModel": None, "Dynamic": None, "Modifiable": None,
}


# larger instances, for the functions of the model alone
KN6 = (-1.0, -0.4, 0.2, 1.1, 1.3, 2.0)
BIG = {
    "PolynomialModel": [("7", lambda I: ([7], {}))],
    "ChebyshevPolynomialModel": [("0", lambda I: ([0], {})), ("8", lambda I: ([8], {}))],
    "HarmonicModel": [("5", lambda I: ([5], {"period": 1.7}))],
    "HarmonicDynamicModel": [("5", lambda I: ([5], {"period": 1.3}))],
    "PolynomialDynamicModel": [("6", lambda I: ([6], {}))],
    "PadeModel": [("5,4", lambda I: ([5, 4], {})), ("0,3", lambda I: ([0, 3], {})), ("3,0", lambda I: ([3, 0], {}))],
    "PolySineAmpModel": [("5", lambda I: ([5, 1.3], {}))],
    "PolySurfaceModel": [("0", lambda I: ([0], {})), ("5", lambda I: ([5], {}))],
    "PowerModel": [("1", lambda I: ([1], {})), ("6", lambda I: ([6], {})), ("-3", lambda I: ([-3], {})), ("1.5", lambda I: ([1.5], {}))],
    "SplinesModel": [("5k6", lambda I: ([], {"knots": alist(*KN6), "order": 5})), ("1k6", lambda I: ([], {"knots": alist(*KN6), "order": 1})),
                     ("3k6", lambda I: ([], {"knots": alist(*KN6), "order": 3})), ("3k2", lambda I: ([], {"knots": alist(-1.0, 2.0), "order": 3}))],
    "Kernel2dModel": [("%s%d" % (k, s), lambda I, k=k, s=s, a=a: ([], {"kernel": I.instantiate(I.cls(k, "kernels." + k), a, {}), "shape": s}))
                      for k, a, s in (("Lorentz", [], 1), ("Lorentz", [], 3), ("Triangle", [], 2), ("Cosine", [], 3), ("Biweight", [], 2), ("Tophat", [1], 3), ("Huber", [], 2))],
    "KernelModel": [("Tophat%d" % n, lambda I, n=n: ([], {"kernel": I.instantiate(I.cls("Tophat", "kernels.Tophat"), [n], {})})) for n in (1, 2, 4, 6)],
    "SineSplineModel": [("k6", lambda I: ([1.3, alist(*KN6)], {"order": 1}))],
    "SineSplineDriftModel": [("k6", lambda I: ([alist(*KN6)], {"order": 1, "degree": 3}))],
    "SoftMaxModel": [("3x4o", lambda I: ([], {"ndim": 3, "ndout": 4, "offset": True})), ("4x2", lambda I: ([], {"ndim": 4, "ndout": 2})),
                     ("3x1o", lambda I: ([], {"ndim": 3, "ndout": 1, "offset": True}))],
}


# domain of parameters that are documented as restricted (eccentricity, period)
PARKINDS = {"RadialVelocityModel": {0: "unit", 2: "pospar"}, "StellarOrbitModel": {0: "unit", 2: "pospar"}}


def model_classes(I):
    """every concrete model class in the source tree, (name, module)"""
    import ast
    base = I.cls("BaseModel")
    out = []
    for mn, m in sorted(I.prog.modules.items()):
        if "." in mn or mn in ("__init__",):
            continue
        for nd in m.tree.body:
            if isinstance(nd, ast.ClassDef) and any(k in ast.unparse(b) for b in nd.bases for k in ("Model", "Brackets")):
                c = I.module(mn).env.v.get(nd.name)
                if isinstance(c, Cls) and base in c3(c):
                    out.append((nd.name, mn))
    return out


def instances(I, big=False):
    """(label, builder) for every model class"""
    for name, mod in model_classes(I):
        spec = SPEC.get(name, [("", lambda I: ([], {}))])
        if spec is None:
            continue
        if big:
            spec = list(spec) + BIG.get(name, [])
        for lab, b in spec:
            def build(I, name=name, mod=mod, b=b):
                a, k = b(I)
                return I.instantiate(I.cls(name, mod), a, k)
            yield (name + ("(%s)" % lab if lab else ""), name, mod, build)


def params_of(k, pre="p"):
    return vec([T.sym("%s%d" % (pre, i)) for i in range(k)])


def model_params(I, m, pre="p"):
    """generic parameters; those declared positive by the model are positive"""
    pos = set()
    pi = m.attrs.get("posIndex")
    if isinstance(pi, Arr) and pi.concrete():
        pos = set(pi.a.flat)
    elif isinstance(pi, (AList, tuple)):
        pos = set(I.iterate(pi))
    kinds = PARKINDS.get(m.cls.name, {})
    return vec([T.sym("%s%d" % (pre, i), kinds.get(i, "pospar" if i in pos else "param")) for i in range(m.attrs["npbase"])])


def xdata_of(model):
    if model.cls.name == "FootballModel":
        # team numbers: they index the parameters, hence enumerated
        return Arr(np.array([[0, 1], [1, 0]], dtype=object), dtype="int")
    nd = model.attrs.get("ndim", 1)
    if nd == 1:
        return datum(T.sym("x", "datum"))
    return datum2([T.sym("x%d" % i, "datum") for i in range(nd)])


def where(I, cls_or_name, meth=None):
    """file:function of a method for reports (no line numbers in keys)"""
    c = cls_or_name if isinstance(cls_or_name, Cls) else I.cls_index.get(cls_or_name)
    if c is None:
        return str(cls_or_name)
    if meth:
        f = I.find(c, meth)
        if isinstance(f, Func):
            return "%s:%d %s" % (f.module.path, f.node.lineno, f.qname)
    return "%s:%d %s" % (c.module.path, c.node.lineno, c.name)
