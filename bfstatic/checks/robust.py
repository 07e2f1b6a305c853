"""C22 robust fitting: the weights handed to the embedded fitter, when it stops, what is returned"""
import ast
import math
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..program import Module
from ..expr import *
from .models import setup as msetup
from .limits import get
from .fitters import cmp

S = T.sym
# width of the kernels in units of the noise scale: deviants up to 3 times the noise scale are within the full width at half maximum
# (the table in the documentation has 2.12 for Gauss and 4.50 for Parabola: not in accordance with this definition)
DOMAIN = {"Biweight": 5.54, "CosSquare": 6.00, "Tricube": 5.08, "Triweight": 6.60, "Uniform": 3.00, "Cosine": 4.50, "Triangle": 6.00, "Parabola": 6 / math.sqrt(2),
          "Huber": 1.50, "Gauss": 3 / math.sqrt(2 * math.log(2)), "Lorentz": 3.00}
USER = '''
from .BaseFitter import BaseFitter

class Embedded( BaseFitter ) :
    def fit( self, ydata, weights=None, **kwargs ) :
        return None
    def getHessian( self, params=None, index=None ) :
        return None

def kernelOfTheUser( d ) :
    return 1 / ( 1 + d * d + 3 * d * d * d * d )
'''
TREE = ast.parse(USER)


def setup():
    I = msetup()
    I.prog.modules["TheUser"] = Module("TheUser", "(a class of the user)", TREE, USER)
    I.module("TheUser")
    return I


def kernel(I, name, how):
    if name == "function":
        return I.module("TheUser").env.v["kernelOfTheUser"]
    c = I.cls(name, "kernels." + name)
    return I.instantiate(c, [], {}) if how == "object" else c


def stops(chi, tol, maxiter):
    """number of robust fits: until chisq moves less than the tolerance, absolute and relative, or maxIter fits are done"""
    at = lambda k: chi[min(k, len(chi) - 1)]
    for k in range(1, maxiter + 1):
        if abs(at(k) - at(k - 1)) < tol * max(1, at(k)):
            return k
    return maxiter


def one(R, name, how, side, route, wgt, dom, chi, tol, maxiter, form, again):
    key = "robust:%s:%s:%s:%s:%s:%s:%s:%s:%s:%s:%s" % (name, how, side, route, "w" if wgt else "-", dom, ",".join("%g" % c for c in chi), tol, maxiter, form, "again" if again else "-")
    I = setup()
    wh = lambda m: zoo.where(I, "RobustShell", m)
    m = I.instantiate(I.cls("PolynomialModel"), [1], {})
    x, y, w = datum(S("x", "datum")), S("y", "datum"), S("w", "posdatum")
    calls = []

    def fit(I_, f, args, kw, node):
        n = len(calls)
        par = vec([S("r%dp%d" % (n, k)) for k in range(2)])
        calls.append((args, dict(kw)))
        me = args[0]
        I_.raw_setattr(me, "chisq", chi[min(n % 100, len(chi) - 1)])
        I_.raw_setattr(me, "scale", S("s%d" % n, "pospar"))
        I_.raw_setattr(me, "npfit", 2)
        return par

    I.hooks["Embedded.fit"] = fit
    hess = Obj_("hessian")
    I.hooks["Embedded.getHessian"] = lambda *a: hess
    emb = get(R, key, wh("__init__"), lambda: I.instantiate(I.cls("Embedded", "TheUser"), [x, m], {}))
    if emb is None:
        return
    kw = {"verbose": 0}
    fkw = {}
    kern = kernel(I, name, how)
    D = 1.3 if name == "function" or dom == "own" else None
    opt = {"kernel": kern}
    if D is not None:
        opt["domain"] = D
    if side is not None:
        opt["onesided"] = side
    if route == "init":
        kw.update(opt)
    else:
        fkw.update(opt)
        if D is None:
            fkw["domain"] = D = 2.5
    if tol is not None:
        kw["tolerance"] = tol
    if maxiter is not None:
        kw["maxIter"] = maxiter
    rob = get(R, key, wh("__init__"), lambda: I.instantiate(I.cls("RobustShell"), [emb], kw))
    if rob is None:
        return
    if D is None:
        D = get(R, key, wh("__init__"), lambda: I.getattr_(rob, "domain"))
        if D is None:
            return
        if not T.isnum(D) or abs(float(D) - DOMAIN[name]) > 0.011:
            R.fail(key + ":domain", "the domain of the kernel is %r, not %r" % (D, DOMAIN[name]), wh("__init__"))
        else:
            R.hold(key + ":domain")
    ya = datum(y)
    wa = None
    if wgt:
        wa = datum(w)
        fkw["weights"] = wa
    fkw["keep"] = None
    kf = kern if name == "function" else I.getattr_(I.instantiate(I.cls(name, "kernels." + name), [], {}), "result")
    for turn in range(2 if again else 1):
        del calls[:]
        ret = get(R, key + ":%d" % turn, wh("fit"), lambda: I.call(I.getattr_(rob, "fit"), [ya], dict(fkw)))
        if ret is None:
            return
        kk = "%s:%d" % (key, turn)
        n = stops(chi, 0.0001 if tol is None else tol, 2000 if maxiter is None else maxiter)
        if len(calls) != n + 1:
            R.fail(kk + ":calls", "the fit is repeated %d times in stead of %d" % (len(calls) - 1, n), wh("fit"))
            return
        R.hold(kk + ":calls")
        last = None
        for i, (a, k) in enumerate(calls):
            k = dict(k)
            got = list(a[1:])
            for q, nm in enumerate(("ydata", "weights")):
                if nm in k:
                    got = got + [None] * (q + 1 - len(got))
                    got[q] = k.pop(nm)
            got = got + [None] * (2 - len(got))
            cmp(R, I, "%s:%d:data" % (kk, i), got[0], [y], (1,), "the embedded fitter gets other data", wh("fit"))
            k.pop("keep", None)
            if k:
                R.fail("%s:%d:keywords" % (kk, i), "the embedded fitter gets %s" % sorted(k), wh("fit"))
            if i == 0:
                if not wgt and got[1] is not None:
                    R.fail("%s:%d:weights" % (kk, i), "the first fit is not the one with the weights as given", wh("fit"))
                elif wgt:
                    cmp(R, I, "%s:%d:weights" % (kk, i), got[1], [w], (1,), "the first fit is not the one with the weights as given", wh("fit"))
            else:
                j = i - 1
                r = E(y) - E(S("r%dp0" % j)) - E(S("r%dp1" % j)) * E(S("x", "datum"))
                d = r / (E(S("s%d" % j, "pospar")) * E(D))
                f = E(I.call(kf, [datum(d.t)]).a.flat[0])
                s = (side or " ")[0].lower()
                if s == "p":
                    f = where(d < 0, 1, f)
                elif s == "n":
                    f = where(d > 0, 1, f)
                if wgt:
                    f = f * E(w)
                cmp(R, I, "%s:%d:weights" % (kk, i), got[1], [f], (1,), "the weights are not those of the kernel at the deviants of the previous fit", wh("fit"))
                last = f
        cmp(R, I, kk + ":params", ret, [S("r%dp0" % n), S("r%dp1" % n)], (2,), "the parameters returned are not those of the last fit", wh("fit"))
        if last is not None:
            cmp(R, I, kk + ":final", get(R, kk + ":final", wh("fit"), lambda: I.getattr_(rob, "weights")), [last], (1,), "the weights kept are not those of the last fit", wh("fit"))
        cmp(R, I, kk + ":chisq", get(R, kk + ":chisq", wh("fit"), lambda: I.getattr_(rob, "chisq")), [chi[min(n, len(chi) - 1)]], (), "chisq is not that of the last fit", wh("fit"))
        if get(R, kk + ":hessian", wh("fit"), lambda: I.getattr_(rob, "hessian")) is not hess:
            R.fail(kk + ":hessian", "the hessian is not that of the embedded fitter", wh("fit"))
        else:
            R.hold(kk + ":hessian")
        cmp(R, I, kk + ":ydata", ya, [y], (1,), "the data of the caller are changed", wh("fit"))
        if wgt:
            cmp(R, I, kk + ":own", wa, [w], (1,), "the weights of the caller are changed", wh("fit"))
    R.functions |= I.visited


def Obj_(name):
    return datum(S(name, "datum"))


def wrong(R, what, val):
    """what can not be interpreted is refused"""
    key = "refuse:%s:%r" % (what, val)
    I = setup()
    wh = zoo.where(I, "RobustShell", "set" + ("OneSided" if what == "onesided" else "Kernel"))
    m = I.instantiate(I.cls("PolynomialModel"), [1], {})
    emb = I.instantiate(I.cls("Embedded", "TheUser"), [datum(S("x", "datum")), m], {})
    try:
        I.instantiate(I.cls("RobustShell"), [emb], {what: val, "verbose": 0})
    except AbsRaise as e:
        if e.name == "ValueError":
            R.hold(key)
        else:
            R.fail(key, "raises %s in stead of ValueError" % e.name, wh)
        return
    except (Unsupported, Budget) as e:
        R.undecided(key, e)
        return
    R.fail(key, "%s = %r is not refused" % (what, val), wh)


def run_robust(R):
    jobs = []
    flow = [30.0, 20.0, 10.0, 10.0001]
    for name in sorted(DOMAIN):
        for how in ("class", "object"):
            jobs.append((name, how, None, "init", how == "class", "auto", flow, None, None, "", False))
    for route in ("init", "fit"):
        for side in (None, "positive", "p", "Pos", "negative", "n", "N"):
            for w in (False, True):
                for name in ("Biweight", "Huber", "function"):
                    jobs.append((name, "object", side, route, w, "own", flow[:2] + [20.0], None, None, "", side in (None, "p")))
    # the end of the iteration: absolute below 1, relative above, or maxIter
    for chi in ([0.5, 0.49995, 0.4], [0.5, 0.4998, 0.3, 0.2], [3e4, 2e4, 2e4 - 1.9, 5], [3e4, 2e4, 2e4 - 2.1, 2e4 - 2.0, 7], [10, 11, 12, 12.0001, 13], [1, 1, 5], [0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.6]):
        for tol in (None, 0.3, 1e-9):
            for mx in (None, 1, 2, 3, 4):
                jobs.append(("Biweight", "class", None, "init", True, "own", [float(c) for c in chi], tol, mx, "", False))
    R.parallel(dispatch, [("one",) + j for j in jobs] + [("wrong", "onesided", v) for v in ("both", "x", 1, True)] + [("wrong", "kernel", v) for v in ("Biweight", 3)])


def dispatch(R, f, *a):
    globals()[f](R, *a)
