"""Value-graph terms: hash-consed expression DAG, static differentiation, and an
identity test by random interpretation (Gulwani & Necula, POPL'03/'05).

Terms are what the abstract interpreter (absint.py) computes for an expression of
the analysed source.  No code of the analysed repository is ever executed.
"""
import hashlib
import random
from fractions import Fraction

import mpmath
from mpmath import mp

mp.dps = 34

_intern = {}
_counter = [0]


class Term(object):
    __slots__ = ("op", "args", "key", "uid", "taint", "_d")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple(("t", a.uid) if isinstance(a, Term) else (type(a).__name__, a) for a in args)
    t = _intern.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.key = key
        _counter[0] += 1
        t.uid = _counter[0]
        t.taint = (op == "havoc") or any(isinstance(a, Term) and a.taint for a in args)
        t._d = {}
        _intern[key] = t
    return t


def sym(name, kind="param"):
    """kind: 'param' (one value), 'datum' (one value per datum), 'bool', 'posdatum', 'pospar', 'cplx'"""
    return mk("sym", name, kind)


_hv = [0]


def havoc(hint="", kind="param"):
    _hv[0] += 1
    return mk("havoc", "%s~%d" % (hint, _hv[0]), kind)


NLEN = sym("#N", "count")


def isnum(a):
    return isinstance(a, (int, float, complex, Fraction)) and not isinstance(a, bool)


def isbool(a):
    return isinstance(a, bool)


def lift(a):
    if isinstance(a, Term):
        return a
    if isinstance(a, bool):
        return mk("num", 1 if a else 0)
    if isnum(a):
        return mk("num", a)
    raise TypeError("cannot lift %r" % (a,))


def numval(t):
    if isinstance(t, Term):
        return t.args[0] if t.op == "num" else None
    if isinstance(t, bool):
        return int(t)
    return t if isnum(t) else None


def unlift(t):
    """Term constant -> python number"""
    if isinstance(t, Term) and t.op == "num":
        return t.args[0]
    return t


def _n(x):
    if isinstance(x, bool):
        return int(x)
    return x


def add(a, b):
    na, nb = numval(a), numval(b)
    if na is not None and nb is not None:
        return na + nb
    if na is not None and na == 0:
        return b
    if nb is not None and nb == 0:
        return a
    xs = []
    for t in (lift(a), lift(b)):
        if t.op == "add":
            xs.extend(t.args)
        else:
            xs.append(t)
    # merge constants, like terms
    c = 0
    coef = {}
    order = []
    for t in xs:
        v = numval(t)
        if v is not None:
            c = c + v
            continue
        k, r = 1, t
        if t.op == "mul" and numval(t.args[0]) is not None:
            k = numval(t.args[0])
            rest = t.args[1:]
            r = rest[0] if len(rest) == 1 else mk("mul", *rest)
        if r in coef:
            coef[r] = coef[r] + k
        else:
            coef[r] = k
            order.append(r)
    out = []
    for r in sorted(order, key=lambda t: t.uid):
        k = coef[r]
        if k == 0:
            continue
        out.append(lift(mul(k, r)))
    if c != 0:
        out.append(lift(c))
    if not out:
        return 0
    if len(out) == 1:
        return unlift(out[0])
    return mk("add", *out)


def neg(a):
    return mul(-1, a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    na, nb = numval(a), numval(b)
    if na is not None and nb is not None:
        return na * nb
    if na is not None:
        if na == 0:
            return 0
        if na == 1:
            return b
    if nb is not None:
        if nb == 0:
            return 0
        if nb == 1:
            return a
    xs = []
    c = 1
    for t in (lift(a), lift(b)):
        for u in (t.args if t.op == "mul" else (t,)):
            v = numval(u)
            if v is not None:
                c = c * v
            else:
                xs.append(u)
    if c == 0:
        return 0
    # merge equal bases with numeric exponents
    exps = {}
    order = []
    for u in xs:
        b_, e_ = (u.args[0], numval(u.args[1])) if u.op == "pow" and numval(u.args[1]) is not None else (u, 1)
        if b_ in exps:
            exps[b_] = exps[b_] + e_
        else:
            exps[b_] = e_
            order.append(b_)
    out = []
    for b_ in sorted(order, key=lambda t: t.uid):
        e_ = exps[b_]
        if e_ == 0:
            continue
        out.append(b_ if e_ == 1 else mk("pow", b_, lift(e_)))
    if not out:
        return c
    if c != 1:
        if len(out) == 1 and out[0].op == "add":
            pass
        out = [lift(c)] + out
    if len(out) == 1:
        return out[0]
    return mk("mul", *out)


def power(a, b):
    na, nb = numval(a), numval(b)
    if nb is not None and nb == 1:
        return a
    if nb is not None and nb == 0:
        return 1
    if na is not None and nb is not None:
        try:
            if isinstance(na, int) and isinstance(nb, int) and nb < 0:
                return Fraction(na) ** nb if na != 0 else mk("pow", lift(a), lift(b))
            return na ** nb
        except Exception:
            return mk("pow", lift(a), lift(b))
    if na is not None and na == 1:
        return 1
    a = lift(a)
    if a.op == "pow" and nb is not None and isinstance(nb, int) and numval(a.args[1]) is not None:
        return power(a.args[0], numval(a.args[1]) * nb)
    return mk("pow", a, lift(b))


def div(a, b):
    na, nb = numval(a), numval(b)
    if na is not None and nb is not None and nb != 0:
        if isinstance(na, int) and isinstance(nb, int):
            f = Fraction(na, nb)
            return int(f) if f.denominator == 1 else f
        return na / nb
    if nb is not None and nb != 0:
        return mul(Fraction(1, nb) if isinstance(nb, (int, Fraction)) else 1.0 / nb, a)
    return mul(a, power(b, -1))


_FOLD = {
    "exp": mpmath.exp, "log": mpmath.log, "sin": mpmath.sin, "cos": mpmath.cos, "tan": mpmath.tan,
    "sqrt": mpmath.sqrt,
}


def fn(name, *args):
    nv = [numval(a) for a in args]
    if all(v is not None for v in nv):
        import math
        try:
            v = [float(x) if not isinstance(x, complex) else x for x in nv]
            if name == "abs":
                return abs(nv[0])
            if name == "sign":
                return (nv[0] > 0) - (nv[0] < 0)
            if name in ("exp", "sin", "cos", "tan", "sqrt", "log", "sinh", "cosh", "tanh") and not isinstance(v[0], complex):
                if name == "exp" and nv[0] == 0:
                    return 1
                return getattr(math, name)(v[0])
            if name == "arctan":
                return math.atan(v[0])
            if name == "arcsin":
                return math.asin(v[0])
            if name == "arccos":
                return math.acos(v[0])
            if name == "floor":
                return float(math.floor(v[0]))
            if name == "ceil":
                return float(math.ceil(v[0]))
            if name == "gamma":
                return math.gamma(v[0])
            if name == "lgamma":
                return math.lgamma(v[0])
            if name == "erf":
                return math.erf(v[0])
            if name == "mod":
                return nv[0] % nv[1]
        except Exception:
            pass
    return mk("fn", name, *[lift(a) for a in args])


def select(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    v = numval(c)
    if v is not None:
        return a if v else b
    if a is b or (isnum(a) and isnum(b) and a == b and not isbool(a) and not isbool(b)):
        return a
    if isbool(a) and isbool(b):
        if a == b:
            return a
        return c if a else lnot(c)
    if isbool(b):
        # boolean-valued select
        return land(c, a) if b is False else lor(lnot(c), a)
    if isbool(a):
        return lor(c, b) if a is True else land(lnot(c), b)
    la, lb = lift(a), lift(b)
    if la is lb:
        return a
    if c.op == "not":
        return select(c.args[0], b, a)
    # nested same-guard simplification
    if la.op == "sel" and la.args[0] is c:
        la = la.args[1]
    if lb.op == "sel" and lb.args[0] is c:
        lb = lb.args[2]
    if la is lb:
        return la
    return mk("sel", c, la, lb)


_NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
_SWP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


def cmp(op, a, b):
    na, nb = numval(a), numval(b)
    if na is not None and nb is not None:
        return bool({"<": lambda: na < nb, "<=": lambda: na <= nb, ">": lambda: na > nb, ">=": lambda: na >= nb,
                     "==": lambda: na == nb, "!=": lambda: na != nb}[op]())
    a, b = lift(a), lift(b)
    if a is b:
        return op in ("<=", ">=", "==")
    # facts on counts: #N >= 2 generic
    if a is NLEN and nb is not None and nb <= 1:
        return {"<": False, "<=": False, ">": True, ">=": True, "==": False, "!=": True}[op]
    if b is NLEN and na is not None and na <= 1:
        return cmp(_SWP[op], b, a)
    if op in (">", ">="):
        op = _SWP[op]
        a, b = b, a
    if op in ("==", "!=") and a.uid > b.uid:
        a, b = b, a
    return mk("cmp", op, a, b)


def truth(a):
    """boolean view of an element"""
    if isbool(a):
        return a
    v = numval(a)
    if v is not None:
        return bool(v)
    if a.op in ("cmp", "and", "or", "not", "any", "all", "isnan"):
        return a
    if a.op in ("sym", "havoc") and a.args[1] == "bool":
        return a
    if a.op == "sel":
        x, y = truth_(a.args[1]), truth_(a.args[2])
        if x is not None and y is not None:
            return select(a.args[0], x, y)
    return cmp("!=", a, 0)


def truth_(a):
    v = numval(a)
    if v is not None:
        return bool(v)
    if a.op in ("cmp", "and", "or", "not", "any", "all", "isnan"):
        return a
    return None


def lnot(a):
    if isbool(a):
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "cmp" and a.args[0] in ("==", "!="):
        return mk("cmp", _NEG[a.args[0]], a.args[1], a.args[2])
    return mk("not", a)


def land(a, b):
    if isbool(a):
        return b if a else False
    if isbool(b):
        return a if b else False
    if a is b:
        return a
    return mk("and", a, b)


def lor(a, b):
    if isbool(a):
        return True if a else b
    if isbool(b):
        return True if b else a
    if a is b:
        return a
    return mk("or", a, b)


def depends_on_datum(t, memo=None):
    if not isinstance(t, Term):
        return False
    memo = {} if memo is None else memo
    return _dep(t, memo)


def _dep(t, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in ("sym", "havoc"):
        r = t.args[1] in ("datum", "posdatum", "intdatum", "boold")
    elif t.op in ("red", "at"):
        r = False
    else:
        r = any(isinstance(a, Term) and _dep(a, memo) for a in t.args)
    memo[t] = r
    return r


def reduce_(op, t):
    """reduction of a per-datum term over the data axis"""
    if op == "sum":
        if not depends_on_datum(t):
            return mul(NLEN, t)
        t = lift(t)
        if t.op == "add":
            r = 0
            for a in t.args:
                r = add(r, reduce_("sum", unlift(a)))
            return r
        if t.op == "mul" and not depends_on_datum(t.args[0]):
            rest = t.args[1:]
            return mul(unlift(t.args[0]), reduce_("sum", rest[0] if len(rest) == 1 else mk("mul", *rest)))
        return mk("red", "sum", t)
    if op in ("any", "all", "min", "max"):
        if not depends_on_datum(t):
            return t
        return mk("red", op, lift(t))
    if op == "prod" and not depends_on_datum(t):
        return power(t, NLEN)
    return mk("red", op, lift(t))


def at(i, t):
    if not depends_on_datum(t):
        return t
    return mk("at", i, t)


# ------------------------------------------------------------------ derivative
class NotDifferentiable(Exception):
    pass


def diff(t, s):
    if not isinstance(t, Term):
        return 0
    r = t._d.get(s)
    if r is None:
        r = _diff(t, s)
        t._d[s] = r
    return r


def _diff(t, s):
    op = t.op
    if op == "num":
        return 0
    if op in ("sym", "havoc"):
        return 1 if t is s else 0
    if op == "add":
        r = 0
        for a in t.args:
            r = add(r, diff(a, s))
        return r
    if op == "mul":
        r = 0
        for i, a in enumerate(t.args):
            d = diff(a, s)
            if numval(d) == 0:
                continue
            p = d
            for j, b in enumerate(t.args):
                if j != i:
                    p = mul(p, unlift(b))
            r = add(r, p)
        return r
    if op == "pow":
        b, e = t.args
        db, de = diff(b, s), diff(e, s)
        r = 0
        if numval(db) != 0:
            r = add(r, mul(mul(unlift(e), power(b, sub(unlift(e), 1))), db))
        if numval(de) != 0:
            r = add(r, mul(mul(t, fn("log", b)), de))
        return r
    if op == "fn":
        name, args = t.args[0], t.args[1:]
        ds = [diff(a, s) for a in args]
        if all(numval(d) == 0 for d in ds):
            return 0
        r = 0
        for i, d in enumerate(ds):
            if numval(d) == 0:
                continue
            r = add(r, mul(_dfn(name, args, i, t), d))
        return r
    if op == "sel":
        c, a, b = t.args
        return select(c, diff(a, s), diff(b, s))
    if op in ("cmp", "and", "or", "not", "isnan"):
        return 0
    if op == "red":
        rop, body = t.args
        if s.op == "sym" and s.args[1] in ("datum", "posdatum"):
            if not _mentions(body, s):
                return 0
            raise NotDifferentiable("reduction wrt datum")
        d = diff(body, s)
        if numval(d) == 0:
            return 0
        if rop == "sum":
            return reduce_("sum", d)
        if rop in ("any", "all"):
            return 0
        raise NotDifferentiable("reduction " + rop)
    if op == "at":
        i, body = t.args
        d = diff(body, s)
        return at(i, d)
    if op == "app":
        name, idx, args = t.args[0], t.args[1], t.args[2:]
        r = 0
        for i, a in enumerate(args):
            d = diff(a, s)
            if numval(d) == 0:
                continue
            j = list(idx)
            j[i] += 1
            r = add(r, mul(mk("app", name, tuple(j), *args), d))
        return r
    raise NotDifferentiable(op)


def _mentions(t, s):
    if t is s:
        return True
    return any(isinstance(a, Term) and _mentions(a, s) for a in t.args)


def symbols(t, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if not isinstance(t, Term) or t in seen:
        return out
    seen.add(t)
    if t.op in ("sym", "havoc"):
        out.add(t)
    for a in t.args:
        if isinstance(a, Term):
            symbols(a, out, seen)
    return out


def _dfn(name, args, i, t):
    a = args[0]
    if name == "exp":
        return t
    if name == "log":
        return power(a, -1)
    if name == "sin":
        return fn("cos", a)
    if name == "cos":
        return neg(fn("sin", a))
    if name == "tan":
        return add(1, power(t, 2))
    if name == "arctan":
        return power(add(1, power(a, 2)), -1)
    if name == "arcsin":
        return power(fn("sqrt", sub(1, power(a, 2))), -1)
    if name == "arccos":
        return neg(power(fn("sqrt", sub(1, power(a, 2))), -1))
    if name == "arctan2":
        y, x = args
        d = power(add(power(x, 2), power(y, 2)), -1)
        return mul(x, d) if i == 0 else neg(mul(y, d))
    if name == "sinh":
        return fn("cosh", a)
    if name == "cosh":
        return fn("sinh", a)
    if name == "tanh":
        return sub(1, power(t, 2))
    if name == "sqrt":
        return div(1, mul(2, t))
    if name == "abs":
        return fn("sign", a)
    if name in ("sign", "floor", "ceil", "rint"):
        return 0
    if name == "mod":
        return 1 if i == 0 else neg(fn("floor", div(args[0], args[1])))
    if name == "erf":
        return mul(2 / float(mpmath.sqrt(mpmath.pi)), fn("exp", neg(power(a, 2))))
    if name == "lgamma":
        return fn("digamma", a)
    if name == "gamma":
        return mul(t, fn("digamma", a))
    if name == "wofz":
        return add(mul(mul(-2, a), t), complex(0, 2 / float(mpmath.sqrt(mpmath.pi))))
    if name in ("re", "im"):
        raise NotDifferentiable(name)
    if name == "kepler":
        # E(e,M): E - e sin E = M
        e = args[0]
        den = power(sub(1, mul(e, fn("cos", t))), -1)
        return mul(fn("sin", t), den) if i == 0 else den
    raise NotDifferentiable(name)


_old_diff = _diff


def _diff2(t, s):
    if t.op == "fn" and t.args[0] in ("re", "im", "conj"):
        d = diff(t.args[1], s)
        return fn(t.args[0], d) if numval(d) != 0 else 0
    return _old_diff(t, s)


_diff = _diff2


# ------------------------------------------------------------------ evaluation
class DomainError(Exception):
    pass


ND = 3  # data points in an interpretation


class Interp(object):
    """One random interpretation: random values for the symbols, ND data points."""

    def __init__(self, seed, regime):
        self.rng = random.Random("%s/%s" % (seed, regime))
        self.seed = seed
        self.regime = regime
        self.memo = {}
        self.over = {}

    def _draw(self, name, kind, i):
        r = random.Random("%s|%s|%s|%s" % (self.seed, self.regime, name, i if i is not None else "-"))
        if kind in ("bool", "boold"):
            return r.random() < 0.5
        if kind in ("pospar", "posdatum"):
            return mpmath.mpf(r.uniform(0.3, 2.2))
        if kind == "bigpar":
            return mpmath.mpf(r.uniform(40.0, 90.0))
        if kind == "intdatum":
            return mpmath.mpf(r.randint(0, 6) if self.regime != 4 else r.randint(60, 140))
        if kind == "unit":
            return mpmath.mpf(r.uniform(0.05, 0.95))
        if self.regime == 0:
            return mpmath.mpf(r.uniform(0.2, 2.0))
        if self.regime == 1:
            return mpmath.mpf(r.uniform(-2.0, 2.0))
        if self.regime == 2:
            return mpmath.mpf(r.uniform(0.05, 0.9))
        if self.regime == 3:
            if kind == "datum":
                return mpmath.mpf(r.uniform(-2.0, 2.0))
            return mpmath.mpf(r.uniform(0.1, 1.0))
        return mpmath.mpf(r.uniform(-6.0, 6.0)) if kind == "datum" else mpmath.mpf(r.uniform(0.2, 3.0))

    def val(self, t, i=0):
        if not isinstance(t, Term):
            if isinstance(t, bool):
                return t
            return _mpnum(t)
        key = (t, i)
        if key in self.memo:
            return self.memo[key]
        v = self._val(t, i)
        self.memo[key] = v
        return v

    def _val(self, t, i):
        op = t.op
        if op == "num":
            return _mpnum(t.args[0])
        if op in ("sym", "havoc"):
            name, kind = t.args
            if t in self.over:
                v = self.over[t]
                return v(self, i) if callable(v) else v
            if kind == "count":
                return mpmath.mpf(ND)
            if kind in ("datum", "posdatum", "intdatum", "boold"):
                return self._draw(name, kind, i)
            return self._draw(name, kind, None)
        if op == "add":
            r = mpmath.mpf(0)
            for a in t.args:
                r = r + self.num(a, i)
            return r
        if op == "mul":
            r = mpmath.mpf(1)
            for a in t.args:
                r = r * self.num(a, i)
            return r
        if op == "pow":
            b, e = self.num(t.args[0], i), self.num(t.args[1], i)
            if b == 0 and _re(e) <= 0:
                raise DomainError("0**neg")
            if not _iscomplex(b) and not _iscomplex(e):
                if e == mpmath.floor(e):
                    return b ** int(e)
                if b < 0:
                    raise DomainError("neg**frac")
            return b ** e
        if op == "fn":
            return self._fn(t.args[0], [self.num(a, i) for a in t.args[1:]])
        if op == "sel":
            return self.val(t.args[1], i) if self.boo(t.args[0], i) else self.val(t.args[2], i)
        if op == "cmp":
            o = t.args[0]
            a, b = self.num(t.args[1], i), self.num(t.args[2], i)
            if o == "==":
                return a == b
            if o == "!=":
                return a != b
            if _iscomplex(a) or _iscomplex(b):
                raise DomainError("complex compare")
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
        if op == "and":
            return self.boo(t.args[0], i) and self.boo(t.args[1], i)
        if op == "or":
            return self.boo(t.args[0], i) or self.boo(t.args[1], i)
        if op == "not":
            return not self.boo(t.args[0], i)
        if op == "isnan":
            self.num(t.args[0], i)
            return False
        if op == "red":
            rop, body = t.args
            if rop in ("any", "all"):
                vs = [self.boo(body, k) for k in range(ND)]
                return any(vs) if rop == "any" else all(vs)
            vs = [self.num(body, k) for k in range(ND)]
            if rop == "sum":
                r = mpmath.mpf(0)
                for v in vs:
                    r += v
                return r
            if rop == "prod":
                r = mpmath.mpf(1)
                for v in vs:
                    r *= v
                return r
            if rop == "min":
                return min(vs)
            if rop == "max":
                return max(vs)
            raise DomainError(rop)
        if op == "at":
            k = t.args[0]
            if isinstance(k, Term):
                k = int(self.num(k, i))
            return self.val(t.args[1], k % ND)
        if op == "app":
            vals = [self.num(a, i) for a in t.args[2:]]
            tag = "%s|%s|%s" % (t.args[0], t.args[1], "|".join(mpmath.nstr(v, 18) for v in vals))
            h = int(hashlib.sha256(tag.encode()).hexdigest()[:15], 16)
            f = mpmath.mpf(h) / mpmath.mpf(16 ** 15)
            if t.args[0].startswith("+"):
                return f + mpmath.mpf("0.2")
            return 2 * f - 1 if self.regime in (1, 4) else f + mpmath.mpf("0.1")
        raise DomainError("op " + op)

    def num(self, t, i):
        v = self.val(t, i)
        if isinstance(v, bool):
            return mpmath.mpf(1 if v else 0)
        return v

    def boo(self, t, i):
        v = self.val(t, i)
        return bool(v != 0) if not isinstance(v, bool) else v

    def _fn(self, name, v):
        a = v[0]
        cplx = _iscomplex(a)
        if name == "exp":
            if not cplx and a > 2000:
                raise DomainError("exp overflow")
            return mpmath.exp(a)
        if name == "log":
            if a == 0 or (not cplx and a < 0):
                raise DomainError("log")
            return mpmath.log(a)
        if name == "sqrt":
            if not cplx and a < 0:
                raise DomainError("sqrt")
            return mpmath.sqrt(a)
        if name in ("sin", "cos", "tan", "sinh", "cosh", "tanh"):
            return getattr(mpmath, name)(a)
        if name == "arctan":
            return mpmath.atan(a)
        if name == "arctan2":
            return mpmath.atan2(a, v[1])
        if name in ("arcsin", "arccos"):
            if abs(a) > 1:
                raise DomainError(name)
            return mpmath.asin(a) if name == "arcsin" else mpmath.acos(a)
        if name == "abs":
            return abs(a)
        if name == "sign":
            return mpmath.sign(a)
        if name == "floor":
            return mpmath.floor(a)
        if name == "ceil":
            return mpmath.ceil(a)
        if name == "rint":
            return mpmath.nint(a)
        if name == "mod":
            if v[1] == 0:
                raise DomainError("mod")
            return a - v[1] * mpmath.floor(a / v[1])
        if name == "erf":
            return mpmath.erf(a)
        if name == "erfinv":
            if abs(a) >= 1:
                raise DomainError("erfinv")
            return mpmath.erfinv(a)
        if name == "lgamma":
            if a <= 0:
                raise DomainError("lgamma")
            return mpmath.loggamma(a)
        if name == "gamma":
            return mpmath.gamma(a)
        if name == "digamma":
            return mpmath.digamma(a)
        if name == "logfact":
            return mpmath.loggamma(a + 1)
        if name == "wofz":
            return mpmath.exp(-a * a) * mpmath.erfc(-1j * a)
        if name == "re":
            return mpmath.re(a)
        if name == "im":
            return mpmath.im(a)
        if name == "conj":
            return mpmath.conj(a)
        if name == "kepler":
            e, M = v
            if not (0 <= e < 1):
                raise DomainError("ecc")
            E = M
            for _ in range(200):
                d = (E - e * mpmath.sin(E) - M) / (1 - e * mpmath.cos(E))
                E -= d
                if abs(d) < mpmath.mpf(10) ** (-30):
                    return E
            raise DomainError("kepler")
        raise DomainError("fn " + name)


def _iscomplex(v):
    return isinstance(v, (mpmath.mpc, complex))


def _re(v):
    return mpmath.re(v) if _iscomplex(v) else v


def _mpnum(x):
    if isinstance(x, Fraction):
        return mpmath.mpf(x.numerator) / mpmath.mpf(x.denominator)
    if isinstance(x, complex):
        return mpmath.mpc(x.real, x.imag)
    if isinstance(x, bool):
        return x
    if isinstance(x, float) and (x != x):
        raise DomainError("nan")
    return mpmath.mpf(x)


RTOL = mpmath.mpf("1e-9")


class Verdict(object):
    def __init__(self, status, points=0, witness=None):
        self.status = status      # 'eq' | 'ne' | 'unknown'
        self.points = points
        self.witness = witness


def _scale(*vs):
    m = mpmath.mpf(0)
    for v in vs:
        m = max(m, abs(v))
    return m


def equal(t1, t2, seed="id", npts=4, regimes=(0, 1, 2, 3, 4), assume=None, need=4, prefer=None, inf=False):
    """identity test of two terms.  `assume` is a boolean term restricting the points."""
    if isinstance(t1, (int, float, Fraction)) and isinstance(t2, (int, float, Fraction)):
        ok = t1 == t2
        if not ok and abs(t1) != float("inf") and abs(t2) != float("inf"):
            ok = abs(float(t1) - float(t2)) <= 1e-9 * max(1.0, abs(float(t1)), abs(float(t2)))
        return Verdict("eq" if ok else "ne", 1, {"lhs": str(t1), "rhs": str(t2)})
    l1, l2 = lift(t1), lift(t2)
    if l1 is l2:
        return Verdict("eq", 1)
    d = sub(unlift(l1), unlift(l2))
    tainted = l1.taint or l2.taint
    good = 0
    for reg in regimes:
        got = 0
        tries = 0
        while got < npts and tries < 12 * npts:
            tries += 1
            ip = Interp("%s-%d" % (seed, tries), reg)
            try:
                if assume is not None and not ip.boo(assume, 0):
                    continue
                v1, v2 = ip.num(l1, 0), ip.num(l2, 0)
            except (DomainError, ZeroDivisionError, OverflowError, ValueError):
                continue
            except mpmath.libmp.libhyper.NoConvergence:
                continue
            if not (mpmath.isfinite(v1) and mpmath.isfinite(v2)):
                if not inf or _iscomplex(v1) or _iscomplex(v2) or mpmath.isnan(v1) or mpmath.isnan(v2):
                    continue
                got += 1
                if v1 == v2:
                    continue
                tol = -1
            else:
                got += 1
                tol = RTOL * (1 + _scale(v1, v2))
            if not abs(v1 - v2) <= tol:
                if tainted:
                    return Verdict("unknown", good)
                syms = sorted(symbols(l1) | symbols(l2), key=lambda s: s.args[0])
                w = {}
                for s in syms[:12]:
                    try:
                        w[s.args[0]] = _st(ip.val(s, 0))
                    except Exception:
                        pass
                w["lhs"] = _st(v1)
                w["rhs"] = _st(v2)
                return Verdict("ne", good, w)
        good += got
    if tainted and good:
        # identical for arbitrary values of the unknown parts
        return Verdict("eq", good)
    if good < need:
        return Verdict("unknown", good)
    return Verdict("eq", good)


def _st(v):
    return v if isinstance(v, bool) else mpmath.nstr(v, 8)


def implies(p, q, seed="imp", npts=6, regimes=(0, 1, 2, 3, 4)):
    """does boolean term p imply q at every sampled interpretation? returns True/False/None"""
    if q is True or p is False:
        return True
    seen = 0
    for reg in regimes:
        for k in range(npts * 4):
            ip = Interp("%s-%d" % (seed, k), reg)
            try:
                if not (p is True or ip.boo(p, 0)):
                    continue
                seen += 1
                if q is False or not ip.boo(q, 0):
                    return False
            except (DomainError, ZeroDivisionError, OverflowError):
                continue
    return True if seen else None


def show(t, depth=6):
    if not isinstance(t, Term):
        return str(t)
    if t.op == "num":
        return str(t.args[0])
    if t.op in ("sym", "havoc"):
        return t.args[0]
    if depth <= 0:
        return "..."
    A = [show(a, depth - 1) if isinstance(a, Term) else str(a) for a in t.args]
    if t.op == "add":
        return "(" + " + ".join(A) + ")"
    if t.op == "mul":
        return "*".join(A)
    if t.op == "pow":
        return "%s^%s" % (A[0], A[1])
    if t.op == "fn":
        return "%s(%s)" % (A[0], ", ".join(A[1:]))
    if t.op == "sel":
        return "where(%s, %s, %s)" % tuple(A)
    if t.op == "cmp":
        return "(%s %s %s)" % (A[1], A[0], A[2])
    if t.op == "red":
        return "%s_n[%s]" % (A[0], A[1])
    if t.op == "app":
        return "%s%s(%s)" % (A[0], t.args[1] if any(t.args[1]) else "", ", ".join(A[2:]))
    return "%s(%s)" % (t.op, ", ".join(A))


def subst(t, m, memo=None):
    """replace symbols (keys of m) by terms"""
    memo = {} if memo is None else memo
    if not isinstance(t, Term):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op in ("num", "sym", "havoc"):
        return unlift(t)
    a = [subst(x, m, memo) if isinstance(x, Term) else x for x in t.args]
    if t.op == "add":
        r = 0
        for x in a:
            r = add(r, x)
    elif t.op == "mul":
        r = 1
        for x in a:
            r = mul(r, x)
    elif t.op == "pow":
        r = power(a[0], a[1])
    elif t.op == "fn":
        r = fn(a[0], *a[1:])
    elif t.op == "sel":
        r = select(*a)
    elif t.op == "cmp":
        r = cmp(*a)
    elif t.op == "not":
        r = lnot(a[0])
    elif t.op == "and":
        r = land(*a)
    elif t.op == "or":
        r = lor(*a)
    elif t.op == "red":
        r = reduce_(a[0], a[1])
    elif t.op == "at":
        r = at(a[0], a[1])
    else:
        r = mk(t.op, *[lift(x) if isinstance(y, Term) else x for x, y in zip(a, t.args)])
    memo[t] = r
    return r
