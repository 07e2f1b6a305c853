"""C20 estimates of the scale of the noise made from the residuals"""
import math
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup
from .limits import get
from .fitters import cmp
from . import likelihood as L

S = T.sym
gamma = lambda x: E(T.fn("gamma", E(x).t))


def run_scale(R):
    jobs = []
    for name in L.DISTS:
        for w in (False, True):
            if w and name in ("CauchyErrorDistribution", "BernoulliErrorDistribution"):
                continue
            for a in (None, "scalar", "array") if name in ("GaussErrorDistribution", "LaplaceErrorDistribution", "UniformErrorDistribution") else (None,):
                jobs.append((estimate, name, w, a))
        jobs.append((sigma, name))
    R.parallel(job, jobs)


def job(R, f, *a):
    f(R, *a)


def reference(name, r, w, hyp):
    """the scale for residuals r"""
    sw = total(w)
    if name in ("GaussErrorDistribution", "PoissonErrorDistribution"):
        return sqrt(total(w * r * r) / sw)
    if name == "LaplaceErrorDistribution":
        return total(w * fabs(r)) / sw
    if name in ("UniformErrorDistribution", "BernoulliErrorDistribution"):
        return total(fabs(r), "max")
    if name == "ExponentialErrorDistribution":
        q = E(hyp[1])
        return (q * total(w * fabs(r) ** q) / sw) ** (1 / q)


def solver(rec, root):
    """stands in for the solvers of one equation in one unknown: keeps what was asked"""
    def f(I_, a, k):
        d = dict(zip(["f", "a", "b"], a))
        d.update(k)
        rec.append(d)
        return root
    return f


SOLVERS = ["scipy.optimize." + n for n in ("bisect", "brentq", "brenth", "ridder", "toms748")]


def zero_of(R, I, key, rec, r, wh):
    """the equation solved for the scale of a Cauchy distribution"""
    if len(rec) != 1:
        R.fail(key + ":solve", "the scale is not found as one zero of a function (%d searches)" % len(rec), wh)
        return
    d = rec[0]
    ss = [S("try1", "pospar"), S("try2", "pospar")]
    F = [get(R, key + ":func", wh, lambda: I.call(d["f"], [s] + list(d.get("args") or ()))) for s in ss]
    if any(v is None or isinstance(v, (Top, Arr)) for v in F):
        if not any(v is None for v in F):
            R.undecided(key + ":func", "%r" % (F,))
        return
    G = [total(log(1 + (r / E(s)) ** 2) - log(E(4))) for s in ss]
    R.decide(key + ":func", T.equal((E(F[0]) * G[1]).t, (E(F[1]) * G[0]).t, seed=key), "the scale is not where the average of log( 1 + (r/s)^2 ) is log( 4 )", wh)
    if T.isnum(F[0]) and F[0] == 0:
        R.fail(key + ":func", "the function of which the zero is the scale, is 0", wh)
    if all(T.isnum(d.get(q, S("x"))) for q in "ab"):
        R.fail(key + ":bracket", "the scale is searched between %s and %s, whatever the size of the residuals" % (float(d["a"]), float(d["b"])), wh)
        return
    R.hold(key + ":bracket")
    # at a scale that goes to 0 the average is unbounded; at the other end of the range searched it has to be below log( 4 )
    below = [T.cmp("<=", total(log(1 + (r / E(d[q])) ** 2) - log(E(4))).t, 0) for q in "ab"]
    v = [T.equal(q, 1, seed=key) for q in below]
    R.decide(key + ":above", v[0] if v[0].status == "eq" else v[1], "the scale is searched in a range that does not extend above it, for some residuals", wh)


def halving(n):
    """answers of the conditions met before the search: not all 0; negative n times"""
    state = [0]

    def f(t):
        if not T.isnum(t) and t.op == "cmp" and t.args[0] in ("==", "!="):
            return t.args[0] == "!="
        state[0] += 1
        return state[0] <= n
    return f


def estimate(R, name, w, a):
    for how in ("model", "array", "list"):
        if how == "model" and name == "ExponentialErrorDistribution":
            continue        # the power is one of the parameters
        for n in (1, 3) if name == "CauchyErrorDistribution" else (0,):
            one(R, name, w, a, how, n)


def one(R, name, w, a, how, n):
    key = "scale:%s:%s:%s:%s%s" % (name, "w" if w else "-", a or "-", how, n or "")
    I = setup()
    I.cls(name)
    wh = zoo.where(I, name, "getScale")
    c = get(R, key, wh, lambda: L.evaluate(I, name, w, a))
    if c is None:
        return
    rec = []
    root = S("root", "pospar")
    for s in SOLVERS:
        I.ext[s] = solver(rec, root)
    if name == "CauchyErrorDistribution":
        I.oracle = halving(n)
    if how == "model":
        I.setattr_(c.model, "parameters", vec(c.pars))
        args = []
    else:
        args = [vec(c.pars + c.hyp) if how == "array" else AList(list(c.pars + c.hyp))]
    kept = list(args[0].a.flat if how == "array" else args[0].items) if args else None
    before = [c.pars, list(c.hyp)]
    got = get(R, key, wh, lambda: I.call(I.getattr_(c.ed, "getScale"), [c.problem] + args))
    if got is None:
        return
    r = E(c.y) - E(c.f)
    if name == "CauchyErrorDistribution":
        if not rec:
            R.undecided(key + ":solve", "the scale is not found by one of the known solvers")
            return
        cmp(R, I, key + ":root", got, [root], (), "the scale is not the zero that was found", wh)
        I.oracle = None
        zero_of(R, I, key, rec, r, wh)
    else:
        cmp(R, I, key, got, [reference(name, r, E(1) if not w else E(c.w), c.hyp)], (), "the scale is not that of the residuals", wh)
    if kept is not None:
        now = list(args[0].a.flat if how == "array" else args[0].items)
        if len(now) == len(kept) and all(p is q for p, q in zip(now, kept)):
            R.hold(key + ":own")
        else:
            R.fail(key + ":own", "getScale changes the parameters of the caller", wh)
    # the log likelihood is stationary there, in the absence of accuracies
    if a is None and not rec and name in ("GaussErrorDistribution", "LaplaceErrorDistribution", "ExponentialErrorDistribution") and isinstance(got, Term):
        s = S("scale", "pospar")
        ll = get(R, key + ":ll", wh, lambda: I.call(I.getattr_(c.ed, "logLikelihood"), [c.problem, vec(c.pars + [s] + c.hyp[1:])]))
        if isinstance(ll, Term):
            g = T.subst(T.diff(ll, s), {s: got})
            R.decide(key + ":stationary", T.equal(T.mul(got, g), 0, seed=key), "the log likelihood is not stationary at the scale that is returned", wh)
        elif ll is not None:
            R.undecided(key + ":stationary", "%r" % (ll,))
    R.functions |= I.visited


SIGMA = {"GaussErrorDistribution": lambda s: s, "LaplaceErrorDistribution": lambda s: s * sqrt(E(2)), "CauchyErrorDistribution": lambda s: s,
         "PoissonErrorDistribution": lambda s: s, "UniformErrorDistribution": lambda s: s / sqrt(E(3)), "BernoulliErrorDistribution": lambda s: s / sqrt(E(3))}


def expsigma(s, q):
    return s * sqrt(gamma(3 / q) / gamma(1 / q))


def sigma(R, name):
    key = "sigma:%s" % name
    I = setup()
    I.cls(name)
    wh = zoo.where(I, name, "toSigma")
    ed = get(R, key, wh, lambda: I.instantiate(I.cls(name), [], {}))
    if ed is None:
        return
    s, q = S("s", "pospar"), S("q", "pospar")
    if name == "ExponentialErrorDistribution":
        for lab, a in (("array", vec([s, q])), ("list", AList([s, q]))):
            got = get(R, key + ":" + lab, wh, lambda: I.call(I.getattr_(ed, "toSigma"), [a]))
            cmp(R, I, key + ":" + lab, got, [expsigma(E(s), E(q))], (), "toSigma is not the standard deviation of the distribution", wh)
    else:
        got = get(R, key, wh, lambda: I.call(I.getattr_(ed, "toSigma"), [s]))
        cmp(R, I, key, got, [SIGMA[name](E(s))], (), "toSigma is not the standard deviation of the distribution", wh)
    R.functions |= I.visited
