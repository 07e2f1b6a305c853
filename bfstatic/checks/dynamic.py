"""C25 dynamic models: one that has grown and shrunk is the same as a new one of that size"""
import itertools
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup as msetup
from . import limits, copies

S = T.sym
al = lambda *v: AList(list(v))
KNOTS = [-1.0, 1.0, 2.0, 3.0, 5.0]
# name: (first number of components, minimum, maximum, parameters per component, parameters of the first one, class)
KIND = {"poly": (2, 1, 4, 1, 1, "PolynomialDynamicModel"), "polyfree": (3, 1, None, 1, 1, "PolynomialDynamicModel"), "polymin": (3, 2, 4, 1, 1, "PolynomialDynamicModel"),
        "harm": (2, 1, 4, 2, 2, "HarmonicDynamicModel"), "harmfree": (1, 1, None, 2, 2, "HarmonicDynamicModel"),
        "repeat": (2, 1, 3, 3, 3, "RepeatingModel"), "repeat0": (0, 0, 3, 3, 3, "RepeatingModel"), "repeatfree": (1, 0, None, 3, 3, "RepeatingModel"),
        "same": (2, 1, 4, 2, 3, "RepeatingModel"), "same0": (0, 0, 3, 1, 3, "RepeatingModel"), "compound": (2, 1, 3, 5, 5, "RepeatingModel"), "compound0": (1, 0, 2, 5, 5, "RepeatingModel"),
        "spline2": (5, 2, 7, 1, 0, "SplinesDynamicModel"), "spline3": (5, 4, 6, 1, 0, "SplinesDynamicModel"), "spline1": (5, 3, None, 1, 0, "SplinesDynamicModel")}
SAME = {"same": [2], "same0": [0, 2]}
LIM = {"poly": ([-4.0], [5.0]), "harm": ([-4.0, 1.0], [5.0, 2.0]), "repeat": ([1.0, -3.0, 0.2], [2.0, 4.0, 0.6]), "same": ([1.0, -3.0, 0.2], [2.0, 4.0, 0.6]),
       "compound": ([1.0, -3.0, 0.2, -7.0, -8.0], [2.0, 4.0, 0.6, 7.0, 9.0]), "spline": ([-4.0], [5.0])}
CHAINS = ("", "G", "P", "GP", "g")             # what is before (G, g) and after (P) it
OPS = ("g", "s", "gg", "gs", "sg", "ss", "ggs", "gsg", "sgs", "ssg", "ggg", "sss")


def get(R, key, wh, f):
    out = limits.get(R, key, wh, lambda: (f(),))
    return None if out is None else out[0]


def family(name):
    return next(k for k in LIM if name.startswith(k))


def setlim(I, m, lo, hi):
    I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList(list(lo)), "highLimits": AList(list(hi))})


def make(I, name, n, knots=None, lims=True, **kw):
    _, lo, hi, d, first, cls = KIND[name]
    f = family(name)
    if f == "poly":
        m = I.instantiate(I.cls(cls), [n - 1], dict({"minDegree": lo - 1, "maxDegree": None if hi is None else hi - 1}, **kw))
    elif f == "harm":
        m = I.instantiate(I.cls(cls), [n], dict({"minOrder": lo, "maxOrder": hi, "period": 1.3}, **kw))
    elif f == "spline":
        m = I.instantiate(I.cls(cls), [], dict({"knots": AList(list(knots or KNOTS)), "order": int(name[-1]), "minKnots": lo, "maxKnots": hi}, **kw))
    else:
        g = I.instantiate(I.cls("GaussModel"), [], {})
        if f == "compound":
            I.call(I.getattr_(g, "addModel"), [I.instantiate(I.cls("PolynomialModel"), [1], {})])
        if lims:
            setlim(I, g, *LIM[f])
        m = I.instantiate(I.cls(cls), [n, g], dict({"minComp": lo, "maxComp": hi}, **kw))
        if name in SAME:
            m = I.instantiate(I.cls(cls), [n, g], dict({"minComp": lo, "maxComp": hi, "same": AList(list(SAME[name]))}, **kw))
    if lims and f in ("poly", "harm", "spline"):
        setlim(I, m, *LIM[f])
    return m


def chain(I, name, where, n, knots=None):
    dyn = make(I, name, n, knots)
    head, off = dyn, 0
    if "G" in where:
        head = I.instantiate(I.cls("LorentzModel"), [], {})
        setlim(I, head, [0.5, -2.0, 0.1], [1.5, 2.5, 3.0])
        off = 3
    elif "g" in where:
        head = I.instantiate(I.cls("ExpModel"), [], {})
        setlim(I, head, [0.5, -2.0], [1.5, 2.5])
        off = 2
    if head is not dyn:
        I.call(I.getattr_(head, "addModel"), [dyn])
        dyn = head.attrs["_next"]
    if "P" in where:
        p = I.instantiate(I.cls("PolynomialModel"), [1], {})
        setlim(I, p, [-9.0, -10.0], [11.0, 12.0])
        I.call(I.getattr_(head, "addModel"), [p])
    return head, dyn, off


def npar(name, n):
    f = family(name)
    _, lo, hi, d, first, cls = KIND[name]
    if f == "spline":
        return n + int(name[-1]) - 1
    return 0 if n == 0 else first + (n - 1) * d


def nums(I, v):
    return [float(q) if T.isnum(q) else q for q in (v.a.flat if isinstance(v, Arr) else I.iterate(v))]


def state(I, head):
    d = copies.model_state(I, head)
    for k in ("parameters", "stdevs"):
        d = {q: v for q, v in d.items() if not q.startswith(k + ":") and not q.startswith(k + "[")}
    n = int(I.getattr_(head, "npchain"))
    for k in range(n):
        copies.ask(d, "unit%d" % k, lambda: repr(I.call(I.getattr_(head, "getParameterUnit"), [k])))
        copies.ask(d, "logPrior%d" % k, lambda: I.call(I.getattr_(head, "domain2Unit"), [S("dv")], {"kpar": k}))
    return d


def compare(R, key, a, b, wh):
    """fresh state, present state"""
    bad = None
    for k in sorted(set(a) | set(b)):
        r = Rec()
        copies.same(r, key, {k: a[k]} if k in a else {}, {k: b[k]} if k in b else {}, "", wh)
        if r.bad:
            bad = bad or (k, r.bad)
    if bad:
        R.fail(key + ":" + bad[0], "differs from a new model of that size in %s" % bad[1].lstrip(": "), wh)
    else:
        R.hold(key)


class Rec(object):
    bad = None

    def fail(self, key, msg, wh):
        self.bad = msg

    def hold(self, key):
        pass


def rngs(kind):
    return None if kind == "none" else copies.RNG()


def one(R, name, where, rng):
    I0 = msetup()
    f = family(name)
    n0, lo, hi, d, first, cls = KIND[name]
    wh = {o: zoo.where(I0, cls, m) for o, m in (("g", "grow"), ("s", "shrink"), ("i", "__init__"))}
    done = set()
    for script in OPS:
        I = msetup()
        base = "%s:%s:%s:" % (name, where, rng)
        out = get(R, base + "make", wh["i"], lambda: chain(I, name, where, n0))
        if out is None:
            return
        head, dyn, off = out
        n, knots = n0, list(KNOTS)
        par = [10.5 + k for k in range(int(I.getattr_(head, "npchain")))]
        if f == "spline":
            for k in range(npar(name, n)):
                par[off + k] = 0.25 * k - 0.5
        I.setattr_(head, "parameters", vec(par))
        seen = ""
        for o in script:
            seen += o
            key = base + seen
            before = state(I, head) if seen not in done else None
            r = rngs(rng)
            draws = rngs(rng)
            ok = get(R, key, wh[o], lambda: I.call(I.getattr_(dyn, "grow" if o == "g" else "shrink"), [], {"offset": off, "rng": r}))
            if ok is None:
                done.add(seen)
                return
            want = (hi is None or n < hi) if o == "g" else n > lo
            now = nums(I, I.getattr_(head, "parameters"))
            if seen not in done:
                check(R, key + ":done", (ok is True) == want, wh[o], "%s with %d components of %s .. %s returns %s" % ("grow" if o == "g" else "shrink", n, lo, hi, ok))
            if (ok is True) != want:
                return
            old = npar(name, n)
            if want:
                n += 1 if o == "g" else -1
            new = npar(name, n)
            if f == "spline":
                kn = nums(I, I.getattr_(dyn, "knots"))
                if seen not in done:
                    gap = float(I.getattr_(dyn, "minDistance"))
                    right = len(kn) == n and all(b - a > gap or gap > b - a > 0 and a in knots and b in knots for a, b in zip(kn, kn[1:])) and kn[0] == KNOTS[0] and kn[-1] == KNOTS[-1]
                    right = right and len(set(kn) ^ set(knots)) == abs(len(kn) - len(knots))
                    check(R, key + ":knots", right, wh[o], "the knots %s become %s" % (knots, kn))
                knots = kn
            if seen not in done:
                if f == "spline":
                    same_ = len(now) == len(par) + new - old and now[:off] == par[:off] and now[off + new:] == par[off + old:]
                    same_ = same_ and untouched(par[off:off + old], now[off:off + new])
                    same_ = same_ and all(-4.0 <= q <= 5.0 for q in now[off:off + new])
                    check(R, key + ":parameters", same_, wh[o], "the parameters %s become %s" % (par, now))
                else:
                    expect = par[:off + min(old, new)] + ([None] * max(new - old, 0)) + par[off + old:]
                    if new > old:
                        for j in range(new - old):
                            v = 0.0
                            if rng != "none":
                                u = (0.3 + 0.6180339887 * j) % 1.0
                                i = old + j
                                a, b = bounds(name, i)
                                v = a + u * (b - a)
                            expect[off + old + j] = v
                    check(R, key + ":parameters", len(now) == len(expect) and all(T.isnum(x) and abs(x - y) < 1e-9 for x, y in zip(now, expect)), wh[o], "the parameters %s become %s, should be %s" % (par, now, expect))
                nc = get(R, key + ":ncomp", wh[o], lambda: I.getattr_(dyn, "ncomp"))
                check(R, key + ":ncomp", nc == n, wh[o], "the number of components is %s, should be %s" % (nc, n))
                J = msetup()
                fr = get(R, key + ":new", wh["i"], lambda: chain(J, name, where, n, knots))
                if fr is not None:
                    after = state(I, head)
                    compare(R, key + ":new", state(J, fr[0]), after, wh[o])
                    R.functions |= J.visited
                    if not want:
                        compare(R, key + ":same", before, after, wh[o])
                for k in range(new):
                    pr = get(R, key + ":prior%d" % k, wh[o], lambda: I.call(I.getattr_(head, "getPrior"), [off + k]))
                    if pr is not None:
                        lim = (float(I.getattr_(pr, "lowLimit")), float(I.getattr_(pr, "highLimit")))
                        check(R, key + ":prior%d" % k, lim == bounds(name, k), wh[o], "parameter %d has a prior on %s, should be %s" % (k, lim, bounds(name, k)))
            par = now
            done.add(seen)
    R.functions |= I.visited


def untouched(old, new):
    """all but two neighbours of the old values are there, in order"""
    k = 0
    while k < min(len(old), len(new)) and old[k] == new[k]:
        k += 1
    j = 0
    while j < min(len(old), len(new)) - k and old[-1 - j] == new[-1 - j]:
        j += 1
    return len(old) - k - j <= 2 and len(new) - k - j <= 2


def bounds(name, i):
    lo, hi = LIM[family(name)]
    _, _, _, d, first, cls = KIND[name]
    if cls == "RepeatingModel":
        if i >= first:
            idx = [k for k in range(first) if k not in SAME.get(name, [])]
            i = idx[(i - first) % d]
    else:
        i = min(i, len(lo) - 1) if family(name) != "harm" else i % 2
    return lo[i], hi[i]


def check(R, key, cond, wh, msg):
    if cond:
        R.hold(key)
    else:
        R.fail(key, msg, wh)


def vary(R, order, where):
    """a spline of which a knot is moved is the spline on those knots"""
    name = "spline%d" % order
    wh = zoo.where(msetup(), "SplinesDynamicModel", "vary")
    for script in ([1], [2], [3], [None], [1, 2], [3, 1, 1], [0], [2, "g", 1], [2, "s", 1]):
        I = msetup()
        key = "vary:%s:%s:%s" % (name, where, script)
        head, dyn, off = chain(I, name, where, 5)
        knots = list(KNOTS)
        r = copies.RNG()
        for o in script:
            if isinstance(o, str):
                ok = get(R, key, wh, lambda: I.call(I.getattr_(dyn, "grow" if o == "g" else "shrink"), [], {"offset": off, "rng": r}))
                knots = nums(I, I.getattr_(dyn, "knots"))
                continue
            par = nums(I, I.getattr_(head, "parameters"))
            ok = get(R, key, wh, lambda: I.call(I.getattr_(dyn, "vary"), [], {"location": o, "rng": r}))
            if ok is None:
                break
            kn = nums(I, I.getattr_(dyn, "knots"))
            moved = [k for k in range(len(knots)) if k >= len(kn) or kn[k] != knots[k]]
            gap = float(I.getattr_(dyn, "minDistance"))
            if o == 0:
                check(R, key + ":fixed", ok is False and not moved, wh, "an end knot is moved: %s" % kn)
            else:
                right = ok is True and len(kn) == len(knots) and len(moved) <= 1 and (o is None or moved == [o]) and not set(moved) & {0, len(kn) - 1}
                check(R, key + ":moved", right and all(b - a > gap * 0.999999 for a, b in zip(kn, kn[1:])), wh, "the knots %s become %s" % (knots, kn))
            check(R, key + ":parameters", nums(I, I.getattr_(head, "parameters")) == par, wh, "the parameters change")
            knots = kn
        else:
            J = msetup()
            fr = get(R, key + ":new", wh, lambda: chain(J, name, where, len(knots), knots))
            if fr is not None:
                compare(R, key + ":new", state(J, fr[0]), state(I, head), wh)
        R.functions |= I.visited


def construct(R):
    """numbers of components outside the range are refused; the default of growPrior"""
    for name in KIND:
        n0, lo, hi, d, first, cls = KIND[name]
        I = msetup()
        wh = zoo.where(I, cls, "__init__")
        for n in (lo - 1, lo, hi, None if hi is None else hi + 1, None if hi is not None else 9):
            if n is None or n < 0:
                continue
            key = "range:%s:%d" % (name, n)
            inside = n >= lo and (hi is None or n <= hi)
            I = msetup()
            kn = [float(k) for k in range(n)]
            if len(kn) < 2 and family(name) == "spline" or family(name) == "poly" and n < 1 or family(name) == "harm" and n < 1:
                continue
            try:
                m = make(I, name, n, kn)
            except AbsRaise as e:
                check(R, key, not inside and e.name == "ValueError", wh, "%d components with range %s .. %s raises %s" % (n, lo, hi, e.name))
            except (Unsupported, Budget) as e:
                R.undecided(key, str(e))
            else:
                check(R, key, inside, wh, "%d components are accepted while the range is %s .. %s" % (n, lo, hi))
        I = msetup()
        m = get(R, "grow:" + name, wh, lambda: make(I, name, n0))
        if m is not None:
            p = get(R, "grow:" + name, wh, lambda: I.getattr_(m, "growPrior"))
            if p is not None:
                if hi is None:
                    right = p.cls.name == "ExponentialPrior" and float(I.getattr_(p, "scale")) == 2.0
                else:
                    right = p.cls.name == "UniformPrior" and float(I.getattr_(p, "lowLimit")) == lo and float(I.getattr_(p, "highLimit")) == hi + 1
                    if not right and p.cls.name == "UniformPrior":
                        # documented in terms of degree or order
                        right = float(I.getattr_(p, "highLimit")) - float(I.getattr_(p, "lowLimit")) == hi + 1 - lo and family(name) == "poly"
                check(R, "grow:" + name, right, wh, "the default grow prior is %s" % p.cls.name)
            dyn = get(R, "dynamic:" + name, wh, lambda: I.call(I.getattr_(m, "isDynamic"), []))
            check(R, "dynamic:" + name, dyn is True, wh, "isDynamic() is %s" % dyn)
        I = msetup()
        gp = I.instantiate(I.cls("ExponentialPrior"), [], {"scale": 7.5})
        m = get(R, "given:" + name, wh, lambda: make(I, name, n0, growPrior=gp))
        if m is not None:
            p = get(R, "given:" + name, wh, lambda: I.getattr_(m, "growPrior"))
            check(R, "given:" + name, isinstance(p, Obj) and p.cls.name == "ExponentialPrior" and float(I.getattr_(p, "scale")) == 7.5, wh, "the grow prior is not the one given")
        if cls != "SplinesDynamicModel":
            I = msetup()
            try:
                make(I, name, n0, lims=False, fixed=ADict({0: 1.0}))
            except AbsRaise as e:
                check(R, "fixed:" + name, e.name == "AttributeError", wh, "a fixed parameter raises %s" % e.name)
            except (Unsupported, Budget) as e:
                R.undecided("fixed:" + name, str(e))
            else:
                R.fail("fixed:" + name, "a dynamic model with fixed parameters is accepted", wh)
        R.functions |= I.visited
    # a static one does not change
    for kw in ({"dynamic": False}, {"minComp": 2, "maxComp": 2}):
        I = msetup()
        g = I.instantiate(I.cls("GaussModel"), [], {})
        m = I.instantiate(I.cls("RepeatingModel"), [2, g], kw)
        wh = zoo.where(I, "RepeatingModel", "grow")
        for o in ("isDynamic", "grow", "shrink"):
            got = get(R, "static:%s:%s" % (kw, o), wh, lambda: I.call(I.getattr_(m, o), []))
            check(R, "static:%s:%s" % (kw, o), got is False and int(I.getattr_(m, "npchain")) == 6, wh, "%s() of a static RepeatingModel is %s" % (o, got))


def run_dynamic(R):
    chains = CHAINS if R.tier == "thorough" else ("", "GP", "g")
    jobs = [("one", n, c, r) for n in KIND for c in chains for r in (("none", "rng") if family(n) != "spline" else ("rng",))]
    jobs += [("vary", o, c) for o in (1, 2, 3) for c in chains] + [("construct",)]
    R.parallel(dispatch, jobs)


def dispatch(R, f, *a):
    globals()[f](R, *a)
