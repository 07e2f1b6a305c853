"""C10 kernels: partial, resultsq, fwhm, integral, range of every kernel function agree with its result"""
import ast
import math
import mpmath
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from ..program import c3
from .models import setup, crash

S = T.sym
VARIANTS = {"Tophat": [[n] for n in range(7)]}


def kernel_classes(I):
    base = I.cls("Kernel", "kernels.Kernel")
    for mn, m in sorted(I.prog.modules.items()):
        if not mn.startswith("kernels."):
            continue
        for nd in m.tree.body:
            if isinstance(nd, ast.ClassDef):
                c = I.module(mn).env.v.get(nd.name)
                if isinstance(c, Cls) and c is not base and base in c3(c):
                    yield nd.name, mn


def run_kernels(R):
    I0 = setup()
    for name, mod in list(kernel_classes(I0)):
        for a in VARIANTS.get(name, [[]]):
            one(R, name, mod, a)


class Curve(object):
    """numeric evaluation of a value graph in one symbol"""
    def __init__(self, term, x):
        self.term, self.x = term, x

    def __call__(self, v):
        t = T.subst(T.lift(self.term), {self.x: v})
        if T.isnum(t):
            return mpmath.mpf(float(t))
        return mpmath.mpf(T.Interp("kernel", 0).num(T.lift(t), 0))


def quad(f, lo, hi, n):
    """composite Gauss-Legendre of 10 points: exact for the piecewise polynomials"""
    import numpy as np
    xs, ws = np.polynomial.legendre.leggauss(10)
    s = mpmath.mpf(0)
    h = (hi - lo) / n
    for i in range(n):
        m = lo + (i + 0.5) * h
        for x, w in zip(xs, ws):
            s += w * f(float(m + 0.5 * h * x)) * 0.5 * h
    return s


def one(R, name, mod, args):
    key = "kernel:%s%s" % (name, "(%s)" % args[0] if args else "")
    I = setup()
    wh = lambda meth: zoo.where(I, I.cls(name, mod), meth)

    def get(k, meth, f):
        try:
            return f()
        except AbsRaise as e:
            if crash(e):
                R.fail("%s:%s:raises" % (key, k), "%s raises %s (%s)" % (meth, e.name, e.value), wh(meth))
            else:
                R.undecided("%s:%s" % (key, k), "raises %s %s" % (e, e.value))
        except Unsupported as e:
            R.undecided("%s:%s" % (key, k), e)
        return None

    def first(v):
        return v.a.flat[0] if isinstance(v, Arr) and v.a.size == 1 else v if isinstance(v, Term) or T.isnum(v) else None

    k = get("init", "__init__", lambda: I.instantiate(I.cls(name, mod), args, {}))
    if k is None:
        return
    x = S("x", "datum")
    res = get("result", "result", lambda: I.call(I.getattr_(k, "result"), [datum(x)]))
    R.functions |= I.visited
    r = first(res)
    if r is None:
        if res is not None:
            R.undecided(key + ":result", "%r" % (res,))
        return
    # derivative
    p = get("partial", "partial", lambda: I.call(I.getattr_(k, "partial"), [datum(x)]))
    if first(p) is not None:
        R.decide(key + ":partial", T.equal(first(p), T.diff(T.lift(r), x), seed=key), "partial is not the derivative of result", wh("partial"))
    elif p is not None:
        R.undecided(key + ":partial", "%r" % (p,))
    # even
    R.decide(key + ":even", T.equal(r, T.subst(T.lift(r), {x: T.neg(x)}), seed=key), "result( -x ) is not result( x )", wh("result"))
    # function of the square
    q = get("resultsq", "resultsq", lambda: I.call(I.getattr_(k, "resultsq"), [datum(T.mul(x, x))]) or None)
    if first(q) is not None:
        R.decide(key + ":resultsq", T.equal(first(q), r, seed=key), "resultsq( x^2 ) is not result( x )", wh("resultsq"))
    else:
        own = "resultsq" in wh("resultsq")
        if q is None and own:
            R.fail(key + ":resultsq", "resultsq returns nothing", wh("resultsq"))
        else:
            R.undecided(key + ":resultsq", "%r" % (q,))
    R.functions |= I.visited
    f = Curve(r, x)
    vals = {}
    for a in ("fwhm", "integral", "range"):
        v = get(a, "__init__", lambda: I.getattr_(k, a))
        v = first(v)
        if isinstance(v, Term):
            try:
                v = float(T.Interp("kernel", 0).num(v, 0))
            except Exception:
                v = None
        if T.isnum(v):
            vals[a] = float(v)
        else:
            R.undecided("%s:%s" % (key, a), "%r" % (v,))

    def rel(k, got, want, tol, msg, meth="__init__"):
        if abs(got - want) <= tol * max(1, abs(want)):
            R.hold("%s:%s" % (key, k))
        else:
            R.fail("%s:%s" % (key, k), "%s: %.8g, expected %.8g" % (msg, got, want), wh(meth))
    try:
        top = f(0.0)
        rel("top", top, 1, 1e-9, "result( 0 ) is not 1", "result")
        if "fwhm" in vals:
            rel("fwhm", f(vals["fwhm"] / 2), top / 2, 1e-6, "result at half the fwhm is not half the maximum")
        rng = vals.get("range")
        b = get("isBound", "isBound", lambda: I.call(I.getattr_(k, "isBound"), []))
        if isinstance(b, bool) and rng is not None:
            rel("isBound", int(b), int(math.isfinite(rng)), 0, "isBound does not agree with the range", "isBound")
        if rng is not None and math.isfinite(rng):
            rel("inside", int(f(rng * 0.98) != 0 and f(-rng * 0.98) != 0), 1, 0, "result vanishes within the range")
            rel("outside", int(all(f(s * rng * z) == 0 for s in (1, -1) for z in (1.01, 1.3, 2.7))), 1, 0, "result does not vanish outside the range")
            if "integral" in vals:
                rel("integral", quad(f, -rng, rng, 2 * int(round(8 * rng))), vals["integral"], 1e-6, "integral is not the integral of result (the latter is expected)")
        elif rng is not None and "integral" in vals:
            want = vals["integral"]
            if math.isinf(want):
                # diverges: x * result( x ) does not vanish
                rel("integral", int(abs(1e9 * f(1e9)) > 1e-3), 1, 0, "integral is infinite, but result decreases faster than 1/x")
            else:
                # x = sinh(t) for heavy tails
                far = abs(f(1e4))
                if abs(f(12.3)) < 1e-15:
                    rel("integral", quad(f, -12.0, 12.0, 96), want, 1e-6, "integral is not the integral of result")
                elif 1e8 * far < 10 and all(f(v) > 0 for v in (3.0, 7.1, 33.3)):
                    g = lambda t: f(math.tan(t)) / math.cos(t) ** 2
                    rel("integral", quad(g, -math.pi / 2, math.pi / 2, 40), want, 1e-6, "integral is not the integral of result")
                else:
                    # oscillating, zeros at the integers: average of the partial integrals
                    s = [quad(f, 0.0, 1.0, 4)]
                    for j in range(1, 41):
                        s.append(s[-1] + quad(f, float(j), float(j + 1), 2))
                    for _ in range(20):
                        s = [(u + v) / 2 for u, v in zip(s[:-1], s[1:])]
                    rel("integral", 2 * s[-1], want, 1e-5, "integral is not the integral of result")
    except (T.DomainError, ZeroDivisionError, ValueError) as e:
        R.undecided(key + ":numbers", repr(e))
