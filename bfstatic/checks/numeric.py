"""C21 numeric derivatives: central differences of the function, where no derivative is provided"""
import ast
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..program import Module
from ..expr import *
from .models import setup as msetup
from .limits import get
from .fitters import cmp
from . import likelihood as L

S = T.sym

# functions that are quadratic in every parameter and in x: their central differences are exact, whatever the step
USER = '''
import math
import numpy as numpy
from .NonLinearModel import NonLinearModel
from .ErrorDistribution import ErrorDistribution
from .Prior import Prior

def function( xdata, params ) :
    return params[0] * params[1] + ( params[1] * params[1] + params[0] ) * xdata + ( params[2] + params[0] * params[0] ) * xdata * xdata

def partials( xdata, params ) :
    return numpy.array( [params[1] + xdata + 2 * params[0] * xdata * xdata, params[0] + 2 * params[1] * xdata, xdata * xdata] ).T

def derivative( xdata, params ) :
    return ( params[1] * params[1] + params[0] ) + 2 * ( params[2] + params[0] * params[0] ) * xdata

class Mine( NonLinearModel ) :
    def __init__( self, copy=None, **kwargs ) :
        super( Mine, self ).__init__( 3, copy=copy, **kwargs )
    def copy( self ) :
        return Mine( copy=self )
    def baseResult( self, xdata, params ) :
        return function( xdata, params )

class Named( Mine ) :
    def copy( self ) :
        return Named( copy=self )
    def baseName( self ) :
        return "Named: p_0*p_1"

class Mine2( NonLinearModel ) :
    def __init__( self, copy=None, **kwargs ) :
        super( Mine2, self ).__init__( 3, ndim=2, copy=copy, **kwargs )
    def copy( self ) :
        return Mine2( copy=self )
    def baseResult( self, xdata, params ) :
        return params[0] * xdata[:,0] * xdata[:,1] + params[1] * params[1] * xdata[:,1] * xdata[:,1] + params[2] * params[0] * xdata[:,0]

class Noise( ErrorDistribution ) :
    def __init__( self, copy=None ) :
        super( Noise, self ).__init__( copy=copy )
    def copy( self ) :
        return Noise( copy=self )
    def logLdata( self, problem, allpars, mockdata=None ) :
        res = problem.residuals( allpars, mockdata=mockdata )
        return -3 * res * res + res

class Ramp( Prior ) :
    def __init__( self, limits=None, prior=None ) :
        super( Ramp, self ).__init__( limits=limits, prior=prior )
    def copy( self ) :
        return Ramp( prior=self )
    def domain2Unit( self, dval ) :
        return dval * dval
    def unit2Domain( self, uval ) :
        return math.sqrt( uval )

class Bell( Prior ) :
    def __init__( self, limits=None, prior=None ) :
        super( Bell, self ).__init__( limits=limits, prior=prior )
    def copy( self ) :
        return Bell( prior=self )
    def result( self, p ) :
        return numpy.exp( -3 * ( p - 1 ) * ( p - 2 ) )

class Astro( object ) :
    def __init__( self ) :
        self.parameters = numpy.array( [1.0, 2.0, 3.0] )
        self.n_inputs = 1
        self.n_outputs = 1
        self.param_names = ["a", "b", "c"]
    def copy( self ) :
        return Astro()
    def __str__( self ) :
        return "Model: Astro" + chr( 10 )
    def evaluate( self, x, a, b, c ) :
        return function( x, [a, b, c] )
    def fit_deriv( self, x, a, b, c ) :
        q = partials( x, [a, b, c] )
        return [q[:,0], q[:,1], q[:,2]]
'''
TREE = ast.parse(USER)
NUM = "the numeric %s is not a central difference of the function"


def setup():
    I = msetup()
    for k in [k for k in I.hooks if k.startswith("FixedModel.")]:
        del I.hooks[k]
    I.prog.modules["TheUser"] = Module("TheUser", "(a class of the user)", TREE, USER)
    I.module("TheUser")
    return I


def mine(I, name, fixed=None):
    kw = {}
    if fixed:
        kw["fixed"] = ADict({k: poly(I) if v == "P" else v for k, v in fixed})
    if name.startswith("User"):
        env = I.module("TheUser").env.v
        a = [3, env["function"]]
        if "P" in name[4:]:
            kw["userPartial"] = env["partials"]
        if "D" in name[4:]:
            kw["userDeriv"] = env["derivative"]
        return I.instantiate(I.cls("UserModel"), a, kw)
    if name == "AstropyModel":      # around something that behaves as a model of astropy
        a = I.cls("Astro", "TheUser")
        I.module("AstropyModel").env.v["FittableModel"] = a
        return I.instantiate(I.cls("AstropyModel"), [I.instantiate(a, [], {})], kw)
    return I.instantiate(I.cls(name, "TheUser"), [], kw)


def poly(I):
    return I.instantiate(I.cls("PolynomialModel"), [1], {})


def f3(p, x):
    return p[0] * p[1] + (p[1] * p[1] + p[0]) * x + (p[2] + p[0] * p[0]) * x * x


def run_numeric(R):
    jobs = []
    for name in ("Mine", "Named", "User", "UserP", "UserD", "UserPD", "AstropyModel"):
        for fixed in (None, ((0, 0.5),), ((1, 0.75),), ((2, 0.5), (0, 0.75)), ((0, "P"),), ((1, "P"),), ((2, 0.5), (0, "P")), ((0, "P"), (1, "P"))):
            for cp in (False, True):
                jobs.append((alone, name, fixed, cp))
        for how in ("+", "first", "*", "|", "copy+", "bracket"):
            jobs.append((compound, name, how))
    jobs += [(two, cp) for cp in (False, True)]
    jobs += [(strict, k) for k in ("poly", "sum", "2d", "2x2")]
    jobs += [(noise, k) for k in ("user", "gauss")]
    jobs += [(prior, k) for k in ("Ramp", "Bell", "UniformPrior", "GaussPrior")]
    R.parallel(job, jobs)


def job(R, f, *a):
    f(R, *a)


def deltas(I, m, which):
    """steps set by the user"""
    if which == 1:
        I.setattr_(m, "deltaP", 0.001)
    elif which == 2:
        I.setattr_(m, "deltaP", vec([0.01, 0.002, 0.1]))


def derivs(R, I, key, m, want, pars, x, which, wh, xexact=True, ndim=1):
    """want: the function (term) of pars and x"""
    xs = [x] if ndim == 1 else list(x)
    xd = lambda: datum(x) if ndim == 1 else Arr(np.array([list(x)], dtype=object), sym=(True, False))
    cmp(R, I, key + ":result", get(R, key + ":result", wh("result"), lambda: I.call(I.getattr_(m, "result"), [xd(), vec(pars)])), [want], (1,), "the result is not the function of the user", wh("result"))
    for meth in ("partial", "numPartial", "strictNumericPartial"):
        if meth not in which:
            continue
        arg = vec(list(pars))
        got = get(R, "%s:%s" % (key, meth), wh(meth), lambda: I.call(I.getattr_(m, meth), [xd(), arg]))
        cmp(R, I, "%s:%s" % (key, meth), got, [T.diff(want.t, p) for p in pars], (1, len(pars)), NUM % "partial", wh(meth))
        own(R, "%s:%s" % (key, meth), arg, pars, wh(meth))
    for meth in ("derivative", "numDerivative", "strictNumericDerivative"):
        if meth not in which or not xexact:
            continue
        xx = xd()
        xb = list(xx.a.flat)
        arg = vec(list(pars))
        got = get(R, "%s:%s" % (key, meth), wh(meth), lambda: I.call(I.getattr_(m, meth), [xx, arg]))
        cmp(R, I, "%s:%s" % (key, meth), got, [T.diff(want.t, q) for q in xs], (1,) if ndim == 1 else (1, ndim), NUM % "derivative", wh(meth))
        own(R, "%s:%s" % (key, meth), arg, pars, wh(meth))
        own(R, "%s:%s:x" % (key, meth), xx, xb, wh(meth))


def own(R, key, arg, was, wh):
    now = list(arg.a.flat)
    if len(now) == len(was) and all(a is b for a, b in zip(now, was)):
        R.hold(key + ":own")
    else:
        R.fail(key + ":own", "the arguments of the caller are changed", wh)


def makewh(I, m):
    return lambda meth: zoo.where(I, m.cls, meth)


ALL = ("partial", "numPartial", "strictNumericPartial", "derivative", "numDerivative", "strictNumericDerivative")


def alone(R, name, fixed, cp):
    for dp in (0, 1, 2):
        key = "numeric:%s:%s%s:%d" % (name, fixed or "-", ":copy" if cp else "", dp)
        I = setup()
        W = zoo.where(I, "FixedModel", "basePartial")
        m = get(R, key, W, lambda: mine(I, name, fixed))
        if m is None:
            continue
        deltas(I, m, dp)
        if cp:
            m0, m = m, get(R, key + ":copy", W, lambda: I.call(I.getattr_(m, "copy"), []))
            if m is None:
                continue
        x = S("x", "datum")
        pars, full = expand(fixed or (), x)
        want = f3([E(q) for q in full], E(x))
        derivs(R, I, key, m, want, pars, x, ALL, makewh(I, m), xexact=not any(k != 0 and v == "P" or False for k, v in fixed or ()) and not (fixed and dict(fixed).get(0) == "P"))
        R.functions |= I.visited


def expand(fixed, x):
    """(free parameters, all three): parameters of models come last, in the order of the dictionary"""
    fx = dict(fixed)
    free = [S("p%d" % k) for k in range(3) if k not in fx]
    full = [fx.get(k, S("p%d" % k)) for k in range(3)]
    for k, v in fixed:
        if v == "P":
            q = [S("q%d_%d" % (k, j)) for j in range(2)]
            free += q
            full[k] = (E(q[0]) + E(q[1]) * E(x)).t
    return free, full


def compound(R, name, how):
    key = "compound:%s:%s" % (name, how)
    I = setup()
    W = zoo.where(I, "FixedModel", "basePartial")
    x = S("x", "datum")
    p, q = [S("p%d" % k) for k in range(3)], [S("q%d" % k) for k in range(2)]

    def build():
        m = mine(I, name)
        if how == "first":
            return I.binary("Add", poly(I), m, None)
        if how == "bracket":
            return I.binary("Mult", poly(I), I.binary("Add", m, poly(I), None), None)
        r = I.binary({"+": "Add", "*": "Mult", "|": "BitOr", "copy+": "Add"}[how], m, poly(I), None)
        return I.call(I.getattr_(r, "copy"), []) if how.startswith("copy") else r
    m = get(R, key, W, build)
    if m is None:
        return
    f = f3([E(v) for v in p], E(x))
    g = E(q[0]) + E(q[1]) * E(x)
    if how in ("+", "copy+"):
        want, pars = f + g, p + q
    elif how == "first":
        want, pars = f + g, q + p
    elif how == "*":
        want, pars = f * g, p + q
    elif how == "|":
        want, pars = E(q[0]) + E(q[1]) * f, p + q
    else:
        r = [S("r%d" % k) for k in range(2)]
        want, pars = g * (f + E(r[0]) + E(r[1]) * E(x)), q + p + r
    which = ALL if how not in ("*", "|", "bracket") else tuple(w for w in ALL if w != "strictNumericDerivative")
    derivs(R, I, key, m, want, pars, x, which, makewh(I, m))
    R.functions |= I.visited


def two(R, cp):
    key = "numeric:Mine2:%d" % cp
    I = setup()
    W = zoo.where(I, "FixedModel", "baseDerivative")
    m = get(R, key, W, lambda: mine(I, "Mine2"))
    if m is None:
        return
    if cp:
        m = get(R, key, W, lambda: I.call(I.getattr_(m, "copy"), []))
        if m is None:
            return
    x = [S("x0", "datum"), S("x1", "datum")]
    p = [S("p%d" % k) for k in range(3)]
    e = [E(v) for v in p]
    want = e[0] * E(x[0]) * E(x[1]) + e[1] * e[1] * E(x[1]) * E(x[1]) + e[2] * e[0] * E(x[0])
    derivs(R, I, key, m, want, p, x, ALL, makewh(I, m), ndim=2)
    R.functions |= I.visited


def strict(R, kind):
    """numeric methods of models that have derivatives of their own, quadratic in x"""
    key = "own:%s" % kind
    I = setup()
    W = zoo.where(I, "Model", "numPartial")
    x = S("x", "datum")
    if kind in ("poly", "sum"):
        build = (lambda: I.instantiate(I.cls("PolynomialModel"), [2], {})) if kind == "poly" else \
            lambda: I.binary("Sub", I.instantiate(I.cls("PolynomialModel"), [2], {}), poly(I), None)
        n = 3 if kind == "poly" else 5
        p = [S("p%d" % k) for k in range(n)]
        e = [E(v) for v in p]
        want = e[0] + e[1] * E(x) + e[2] * E(x) * E(x)
        if kind == "sum":
            want = want - e[3] - e[4] * E(x)
        m = get(R, key, W, build)
        if m is not None:
            derivs(R, I, key, m, want, p, x, ALL, makewh(I, m))
    elif kind == "2d":
        m = get(R, key, W, lambda: I.instantiate(I.cls("PolySurfaceModel"), [2], {}))
        if m is None:
            return
        x = [S("x0", "datum"), S("x1", "datum")]
        p = [S("p%d" % k) for k in range(6)]
        res = get(R, key, W, lambda: I.call(I.getattr_(m, "result"), [Arr(np.array([x], dtype=object), sym=(True, False)), vec(p)]))
        if res is not None:
            derivs(R, I, key, m, E(res.a.flat[0]), p, x, ALL, makewh(I, m), ndim=2)
    else:
        several(R, I, key)
    R.functions |= I.visited


def several(R, I, key):
    """more inputs and more outputs: a list of derivatives, one for each output"""
    src = USER + '''
class Several( NonLinearModel ) :
    def __init__( self, copy=None, **kwargs ) :
        super( Several, self ).__init__( 3, ndim=2, copy=copy, **kwargs )
        object.__setattr__( self, "ndout", 2 )
    def copy( self ) :
        return Several( copy=self )
    def baseResult( self, xdata, params ) :
        return numpy.array( [params[0] * xdata[:,0] * xdata[:,1] + params[1] * params[1] * xdata[:,1], params[2] * params[0] * xdata[:,0] * xdata[:,0]] ).T
'''
    I.prog.modules["TheUser"] = Module("TheUser", "(a class of the user)", ast.parse(src), src)
    W = zoo.where(I, "FixedModel", "numDerivative")
    m = get(R, key, W, lambda: I.instantiate(I.cls("Several", "TheUser"), [], {}))
    if m is None:
        return
    x = [S("x0", "datum"), S("x1", "datum")]
    p = [S("p%d" % k) for k in range(3)]
    e = [E(v) for v in p]
    want = [e[0] * E(x[0]) * E(x[1]) + e[1] * e[1] * E(x[1]), e[2] * e[0] * E(x[0]) * E(x[0])]
    xd = lambda: Arr(np.array([x], dtype=object), sym=(True, False))
    for meth, args in (("derivative", x), ("numDerivative", x), ("strictNumericDerivative", x), ("strictNumericPartial", p)):
        wh = zoo.where(I, m.cls, meth)
        got = get(R, "%s:%s" % (key, meth), wh, lambda: I.call(I.getattr_(m, meth), [xd(), vec(list(p))]))
        if got is None:
            continue
        items = list(I.iterate(got)) if isinstance(got, (AList, tuple)) else None
        if items is not None and len(items) != 2 and getattr(got, "widened", None) is None:
            R.fail("%s:%s" % (key, meth), "gives %d derivatives for 2 outputs" % len(items), wh)
            continue
        if items is None or len(items) != 2:
            R.undecided("%s:%s" % (key, meth), "%r" % (got,))
            continue
        for k in range(2):
            cmp(R, I, "%s:%s:%d" % (key, meth, k), items[k], [T.diff(want[k].t, a) for a in args], (1, len(args)), NUM % ("derivative" if args is x else "partial"), wh)


def noise(R, kind):
    """the gradient of a log likelihood that is quadratic in the parameters"""
    for fi in ([0], [1], [0, 1], [1, 0]):
        for cont in ("array", "list"):
            key = "noise:%s:%s:%s" % (kind, "".join(map(str, fi)), cont)
            I = setup()
            wh = lambda m: zoo.where(I, "ErrorDistribution", m)
            m = poly(I)
            prob = get(R, key, wh("numPartialLogL"), lambda: L.problem(I, m, False, None))
            ed = get(R, key, wh("__init__"), lambda: I.instantiate(I.cls("Noise", "TheUser") if kind == "user" else I.cls("GaussErrorDistribution"), [], {}))
            if ed is None or prob is None:
                continue
            p = [S("p0"), S("p1")]
            allp = p + ([S("scale", "pospar")] if kind == "gauss" else [])
            r = E(S("y", "datum")) - E(p[0]) - E(p[1]) * E(zoo.xdata_of(m).a.flat[0])
            if kind == "user":
                want = total(-3 * r * r + r)
            else:
                want = total(L.density("GaussErrorDistribution", E(S("y", "datum")), E(S("y", "datum")) - r, [E(allp[2])], None, None))
            for meth in ("numPartialLogL", "partialLogL_alt", "partialLogL")[:3 if kind == "user" else 1]:
                arg = vec(list(allp))
                ff = vec(list(fi), dtype="int") if cont == "array" else AList(list(fi))
                got = get(R, "%s:%s" % (key, meth), wh(meth), lambda: I.call(I.getattr_(ed, meth), [prob, arg, ff]))
                cmp(R, I, "%s:%s" % (key, meth), got, [T.diff(want.t, p[k]) for k in fi], (len(fi),), NUM % "gradient of the log likelihood", wh(meth))
                own(R, "%s:%s" % (key, meth), arg, allp, wh(meth))
            R.functions |= I.visited


def prior(R, name):
    key = "prior:%s" % name
    I = setup()
    wh = lambda m: zoo.where(I, "Prior", m)
    d = S("d", "unit")
    if name in ("Ramp", "Bell"):
        pr = get(R, key, wh("__init__"), lambda: I.instantiate(I.cls(name, "TheUser"), [], {"limits": AList([0.0, 1.0])} if name == "Ramp" else {}))
    elif name == "UniformPrior":
        pr = get(R, key, wh("__init__"), lambda: I.instantiate(I.cls(name), [], {"limits": AList([-1.0, 3.0])}))
    else:
        pr = get(R, key, wh("__init__"), lambda: I.instantiate(I.cls(name), [], {"center": S("c"), "scale": S("s", "pospar")}))
    if pr is None:
        return
    x = E(d)
    todo = {"Ramp": [("result", 2 * x), ("partialDomain2Unit", 2 * x), ("numPartialDomain2Unit", 2 * x), ("logResult", log(2 * x))],
            "Bell": [("partialLog", 9 - 6 * x), ("numPartialLog", 9 - 6 * x), ("logResult", -3 * (x - 1) * (x - 2))],
            "UniformPrior": [("numPartialDomain2Unit", E(0.25)), ("numPartialLog", E(0))],
            "GaussPrior": [("numPartialLog", (E(S("c")) - x) / E(S("s", "pospar")) ** 2)]}[name]
    for meth, want in todo:
        got = get(R, "%s:%s" % (key, meth), wh(meth), lambda: I.call(I.getattr_(pr, meth), [d]))
        cmp(R, I, "%s:%s" % (key, meth), got, [want], (), NUM % "derivative of the prior", wh(meth))
    R.functions |= I.visited
