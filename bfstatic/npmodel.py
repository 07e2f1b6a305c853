"""Abstract semantics of numpy / math / python builtins used by the analysed code."""
import inspect
import math
import numpy as np
from fractions import Fraction

from . import terms as T
from .terms import Term, NLEN
from .values import *
from . import absint as A
from .program import c3


def Unsupported(*a):
    return A.Unsupported(*a)


ELEM1 = {
    "exp": "exp", "log": "log", "sin": "sin", "cos": "cos", "tan": "tan", "arctan": "arctan", "arcsin": "arcsin",
    "arccos": "arccos", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "sqrt": "sqrt", "abs": "abs",
    "absolute": "abs", "fabs": "abs", "sign": "sign", "floor": "floor", "ceil": "ceil", "rint": "rint",
    "erf": "erf", "erfinv": "erfinv", "gammaln": "lgamma", "lgamma": "lgamma", "gamma": "gamma", "psi": "digamma",
    "digamma": "digamma", "wofz": "wofz", "real": "re", "imag": "im", "conj": "conj", "atan": "arctan",
    "asin": "arcsin", "acos": "arccos",
}


def num_elem(x):
    return isinstance(x, Term) or T.isnum(x) or isinstance(x, bool)


SYM_I = T.sym("#i", "datum")


def is_arange(x):
    return isinstance(x, Arr) and x.sym == (True,) and x.a.size == 1 and x.a.flat[0] is SYM_I


def isnan(v):
    return isinstance(v, float) and v != v


class NP(object):
    def __init__(self, I):
        self.I = I
        self.counts = {}
        self.dimmask = None

    # ================================================================ helpers
    def asarr(self, v, copy=False):
        v = self.I.res(v)
        if isinstance(v, Arr):
            return v.copy() if copy else v
        if is_scalar(v):
            a = np.empty((), dtype=object)
            a[()] = v
            return Arr(a, dtype=self.dt(v))
        if isinstance(v, (AList, tuple, list, GenIter)) or (isinstance(v, Obj) and v.items is not None) or isinstance(v, range):
            items = self.I.iterate(v)
            return self.stack(items)
        if isinstance(v, A.DataRange):
            return datum(SYM_I, dtype="int")
        if isinstance(v, Choice):
            raise Unsupported("array of choice")
        raise Unsupported("array of %r" % (v,))

    def objlist(self, x):
        """a sequence of non-numeric objects (object array)"""
        if isinstance(x, (AList, tuple)) or (isinstance(x, Obj) and x.items is not None):
            items = I_items(self.I, x)
            return bool(items) and any(isinstance(self.I.res(q), (Obj, str, Cls, Func, Bound)) or q is None for q in items)
        return False

    def dt(self, v):
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, complex):
            return "complex"
        if isinstance(v, Term) and v.op in ("cmp", "and", "or", "not"):
            return "bool"
        return "float"

    def stack(self, items):
        items = [self.I.res(x) for x in items]
        if not items:
            return Arr(np.empty((0,), dtype=object))
        if all(is_scalar(x) for x in items):
            dts = set(self.dt(x) for x in items)
            dt = "bool" if dts == {"bool"} else "int" if dts <= {"int", "bool"} else "complex" if "complex" in dts else "float"
            return vec(items, dt)
        arrs = [self.asarr(x) for x in items]
        if any(not isinstance(x, Arr) for x in arrs):
            raise Unsupported("stack")
        sh = arrs[0].a.shape
        sy = arrs[0].sym
        for x in arrs:
            if x.a.shape != sh or x.sym != sy:
                raise Unsupported("ragged")
        out = np.empty((len(arrs),) + sh, dtype=object)
        for i, x in enumerate(arrs):
            out[i] = x.a
        return Arr(out, (False,) + sy, arrs[0].mask, arrs[0].dtype)

    def unwrap(self, r):
        if isinstance(r, Arr) and r.a.ndim == 0:
            return r.a[()]
        return r

    def write(self, arr, val):
        """arr[...] = val (whole), with hooks"""
        self.I.touch(arr)
        for h in self.I.write_hooks:
            h(self.I, "array", arr, None, val)
        if isinstance(val, Arr):
            arr.a[...] = val.a
        else:
            arr.a[...] = val

    def havoc_arr(self, arr):
        self.I.touch(arr)
        for h in self.I.write_hooks:
            h(self.I, "array", arr, None, TOP)
        for i in np.ndindex(arr.a.shape):
            arr.a[i] = T.havoc("h", "datum" if any(arr.sym) else "param")

    def broadcast(self, *vs):
        """-> arrays (same ndim), sym flags, mask"""
        arrs = [self.asarr(v) for v in vs]
        nd = max(a.a.ndim for a in arrs)
        if any("cat" in a.sym for a in arrs):
            raise Unsupported("concatenated data")
        aa, ss = [], []
        for a in arrs:
            k = nd - a.a.ndim
            aa.append(a.a.reshape((1,) * k + a.a.shape) if k else a.a)
            ss.append((False,) * k + a.sym)
        sym = []
        for ax in range(nd):
            sy = [(x.shape[ax], s[ax]) for x, s in zip(aa, ss)]
            if any(s for _, s in sy):
                for d, s in sy:
                    if not s and d != 1:
                        raise A.AbsRaise("ValueError", "broadcast: operands of length N and %d" % d)
                ms = set(d for d, s in sy if s)
                if len(ms - {1}) > 1:
                    raise Unsupported("interleave")
                if len(ms) > 1:
                    raise Unsupported("interleave mismatch")
                sym.append(True)
            else:
                ds = set(d for d, s in sy) - {1}
                if len(ds) > 1:
                    raise A.AbsRaise("ValueError", "broadcast")
                sym.append(False)
        masks = [a.mask for a in arrs if a.mask is not None]
        mask = None
        for m in masks:
            mask = m if mask is None else (mask if mask is m else T.land(mask, m))
        return aa, tuple(sym), mask

    def elementwise(self, f, *vs, **kw):
        vs = [self.I.res(v) for v in vs]
        for v in vs:
            if isinstance(v, Top):
                return v
        if any(isinstance(v, Choice) for v in vs):
            for k, v in enumerate(vs):
                if isinstance(v, Choice):
                    def alt(x):
                        w = list(vs)
                        w[k] = x
                        return lambda: self.elementwise(f, *w, **kw)
                    return self.I.fork_value(v.c, alt(v.a), alt(v.b))
        if all(is_scalar(v) for v in vs):
            return f(*vs)
        if any(v is None for v in vs):
            raise A.AbsRaise("TypeError", "None operand")
        aa, sym, mask = self.broadcast(*vs)
        bc = np.broadcast(*aa) if len(aa) > 1 else None
        shape = bc.shape if bc is not None else aa[0].shape
        bb = [np.broadcast_to(a, shape) for a in aa]
        out = np.empty(shape, dtype=object)
        if any(isinstance(v, Arr) and v.dtype == "object" for v in vs):
            for i in np.ndindex(shape):
                out[i] = self.elementwise(f, *[b[i] for b in bb], **kw)
            return Arr(out, sym, mask, "object")
        for i in np.ndindex(shape):
            out[i] = f(*[b[i] for b in bb])
        dt = kw.get("dtype")
        if dt is None:
            ds = [self.asarr(v).dtype for v in vs]
            dt = "complex" if "complex" in ds else "float" if "float" in ds else "int"
        r = Arr(out, sym, mask, dt)
        return self.unwrap(r) if all(self.asarr(v).a.ndim == 0 for v in vs) else r

    # ================================================================ operators
    def binop(self, op, a, b):
        I = self.I
        a, b = I.res(a), I.res(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            r = I.obj_binop(op, a, b, None)
            if r is not NotImplemented:
                return r
        # sequences
        if op == "Add":
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if type(a) is AList and isinstance(b, AList):
                return AList(I.iterate(a) + I.iterate(b))
            if isinstance(a, str) and isinstance(b, str):
                return a + b
        if op == "Mult":
            if isinstance(a, AList) and type(b) is int:
                return AList(I.iterate(a) * b)
            if isinstance(b, AList) and type(a) is int:
                return AList(I.iterate(b) * a)
            if isinstance(a, tuple) and type(b) is int:
                return a * b
            if isinstance(a, str) and type(b) is int:
                return a * b
        if isinstance(a, str) or isinstance(b, str):
            if op == "Mod" and isinstance(a, str):
                try:
                    x = b if isinstance(b, tuple) else (b,)
                    if all(isinstance(y, (int, float, str)) for y in x):
                        return a % b
                except Exception:
                    pass
            return Top("str")
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(a, ASet) and isinstance(b, ASet):
            sa, sb = set(I.iterate(a)), set(I.iterate(b))
            return ASet(sorted({"Sub": sa - sb, "BitAnd": sa & sb, "BitOr": sa | sb, "BitXor": sa ^ sb}[op]))
        if isinstance(a, (ExtObj, UnitV)) or isinstance(b, (ExtObj, UnitV)):
            return self.unit_op(op, a, b)
        if a is None or b is None:
            raise A.AbsRaise("TypeError", "None operand of " + op)
        if isinstance(a, A.DataIndex) or isinstance(b, A.DataIndex):
            return Top("data index arithmetic")
        if isinstance(a, (AList, tuple, range)) and isinstance(b, (Arr,)):
            a = self.asarr(a)
        if isinstance(b, (AList, tuple, range)) and (isinstance(a, (Arr,)) ):
            b = self.asarr(b)
        f = self.opfun(op, isinstance(a, Arr) or isinstance(b, Arr))
        kw = {}
        if op == "Div":
            kw["dtype"] = "complex" if any(isinstance(v, Arr) and v.dtype == "complex" for v in (a, b)) else "float"
        return self.elementwise(f, a, b, **kw)

    def opfun(self, op, array=False):
        if op == "Add":
            return lambda x, y: T.add(n(x), n(y))
        if op == "Sub":
            return lambda x, y: T.sub(n(x), n(y))
        if op == "Mult":
            return lambda x, y: T.mul(n(x), n(y))
        if op == "Div":
            def f(x, y):
                x, y = n(x), n(y)
                if T.isnum(y) and y == 0:
                    if array:
                        # IEEE semantics of array division
                        if T.isnum(x) and not isinstance(x, complex):
                            return math.nan if x == 0 or x != x else math.inf * (1 if x > 0 else -1)
                    elif T.isnum(x):
                        raise A.Unsupported("division by zero: a Python number raises, a numpy number does not")
                return T.div(x, y)
            return f
        if op == "Pow":
            return lambda x, y: T.power(n(x), n(y))
        if op == "Mod":
            def f(x, y):
                x, y = n(x), n(y)
                if T.isnum(x) and T.isnum(y) and y != 0:
                    return x % y
                return T.fn("mod", x, y)
            return f
        if op == "FloorDiv":
            def f(x, y):
                x, y = n(x), n(y)
                if T.isnum(x) and T.isnum(y) and y != 0:
                    return x // y
                return T.fn("floor", T.div(x, y))
            return f
        if op in ("BitAnd", "BitOr", "BitXor"):
            def f(x, y):
                if isinstance(x, bool) or isinstance(y, bool) or (isinstance(x, Term) and x.op in BOOLOPS):
                    x, y = T.truth(x), T.truth(y)
                    if op == "BitAnd":
                        return T.land(x, y)
                    if op == "BitOr":
                        return T.lor(x, y)
                    return T.lor(T.land(x, T.lnot(y)), T.land(T.lnot(x), y))
                if type(x) is int and type(y) is int:
                    return {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op]
                return T.havoc("bit")
            return f
        if op in ("LShift", "RShift"):
            def f(x, y):
                if type(x) is int and type(y) is int:
                    return x << y if op == "LShift" else x >> y
                return T.havoc("shift")
            return f
        if op == "MatMult":
            return lambda x, y: T.havoc("mm")
        raise Unsupported("op " + op)

    def invert(self, v):
        return self.elementwise(lambda x: (T.lnot(T.truth(x)) if not (type(x) is int) else ~x), v, dtype="bool")

    def compare(self, op, a, b):
        I = self.I
        a, b = I.res(a), I.res(b)
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            if op == "IsNot":
                r = (not r) if isinstance(r, bool) else T.lnot(r)
            return r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if op == "NotIn":
                r = (not r) if isinstance(r, bool) else T.lnot(r)
            return r
        if isinstance(a, Choice):
            return I.fork_value(a.c, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if isinstance(b, Choice):
            return I.fork_value(b.c, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        sop = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}[op]
        if isinstance(a, Top) or isinstance(b, Top):
            return T.havoc("cmp", "bool")
        if num_like(a) and num_like(b):
            return self.elementwise(lambda x, y: self.cmp1(sop, x, y), a, b, dtype="bool")
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None:
                return sop == "!="
            if isinstance(a, (AList, tuple)) or isinstance(b, (AList, tuple)):
                return self.elementwise(lambda x, y: self.cmp1(sop, x, y), self.asarr(a), self.asarr(b), dtype="bool")
            if isinstance(a, str) or isinstance(b, str):
                return sop == "!="
            return T.havoc("cmp", "bool")
        if isinstance(a, Obj) and sop in ("==", "!="):
            m = I.find(a.cls, "__eq__")
            if m is not None:
                r = I.truth(I.call(Bound(a, m), [b], {}))
                return r if sop == "==" else (not r if isinstance(r, bool) else T.lnot(r))
        if sop in ("==", "!="):
            if isinstance(a, (AList, tuple)) and isinstance(b, (AList, tuple)) and not isinstance(a, ASet):
                x, y = I.iterate(a), I.iterate(b)
                if len(x) != len(y):
                    return sop == "!="
                r = True
                for p, q in zip(x, y):
                    c = self.compare("Eq", p, q)
                    if isinstance(c, Arr):
                        raise Unsupported("list of arrays compare")
                    r = T.land(r, c)
                return r if sop == "==" else (not r if isinstance(r, bool) else T.lnot(r))
            if isinstance(a, (Ext, Cls, str)) and isinstance(b, (Ext, Cls, str)):
                r = (a == b)
                return r if sop == "==" else not r
            if isinstance(a, UnitV) and isinstance(b, UnitV):
                r = a == b
                return r if sop == "==" else not r
            r = a is b
            if isinstance(a, (str, int, float, bool, type(None))) and isinstance(b, (str, int, float, bool, type(None))):
                r = a == b
            return r if sop == "==" else not r
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sop]
        if a is None or b is None:
            raise A.AbsRaise("TypeError", "None compare")
        return T.havoc("cmp", "bool")

    def cmp1(self, op, x, y):
        x, y = n(x), n(y)
        for u, v, o in ((x, y, op), (y, x, T._SWP[op])):
            if isinstance(v, float) and math.isinf(v) and isinstance(u, Term):
                if o in ("==",):
                    return False
                if o == "!=":
                    return True
                pos = v > 0
                return (o in ("<", "<=")) == pos
        if isinstance(x, complex) or isinstance(y, complex):
            return T.havoc("cc", "bool") if op not in ("==", "!=") else T.cmp(op, x, y)
        return T.cmp(op, x, y)

    def is_(self, a, b):
        I = self.I
        if isinstance(a, Choice):
            x, y = self.is_(a.a, b), self.is_(a.b, b)
            return T.select(a.c, x, y) if not (isinstance(x, bool) and isinstance(y, bool)) else \
                (x if x == y else (a.c if x else T.lnot(a.c)))
        if isinstance(b, Choice):
            return self.is_(b, a)
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            if isinstance(o, Top):
                return T.havoc("isnone", "bool")
            return False
        if isinstance(a, Top) or isinstance(b, Top):
            return T.havoc("is", "bool")
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
            return a == b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a.a is b.a
        return a is b

    def contains(self, c, x):
        I = self.I
        c = I.res(c)
        x = I.res(x)
        if isinstance(c, ADict):
            if isinstance(x, Term):
                return T.havoc("in", "bool")
            if isinstance(x, Top):
                return T.havoc("in", "bool")
            return A.hkey(x) in c.d
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Top) or isinstance(x, Top):
            return T.havoc("in", "bool")
        if isinstance(c, Obj) and c.items is None:
            m = I.find(c.cls, "__contains__")
            if m:
                return I.truth(I.call(Bound(c, m), [x], {}))
            return T.havoc("in", "bool")
        try:
            items = I.iterate(c)
        except A.Unsupported:
            return T.havoc("in", "bool")
        r = False
        for y in items:
            e = self.compare("Eq", x, y) if not (x is y) else True
            if isinstance(e, Arr):
                raise Unsupported("in arrays")
            r = T.lor(r, e) if not isinstance(r, bool) or not isinstance(e, bool) else (r or e)
            if r is True:
                return True
        return r

    def logical(self, op, a, b):
        f = T.land if op == "and" else T.lor
        return self.elementwise(lambda x, y: f(T.truth(x), T.truth(y)), a, b, dtype="bool")

    # ================================================================ indexing
    def getitem(self, o, i):
        I = self.I
        o = I.res(o)
        i = I.res(i)
        if isinstance(i, tuple):
            i = tuple(I.res(x) for x in i)
        if isinstance(o, Obj):
            if o.items is not None:
                o = o.items
            else:
                m = I.find(o.cls, "__getitem__")
                if m is not None:
                    return I.call(Bound(o, m), [i], {})
                raise A.AbsRaise("TypeError", "not subscriptable")
        if isinstance(o, ADict):
            if isinstance(i, Top):
                return Top("dict[?]")
            k = A.hkey(i)
            if k in o.d:
                return o.d[k]
            if isinstance(k, Term):
                vals = list(o.d.values())
                return Top("dict[?]")
            raise A.AbsRaise("KeyError", str(k))
        if isinstance(o, (AList, tuple)):
            if getattr(o, "unknown", False):
                return Top("unknown list")
            items = o.items if isinstance(o, AList) else list(o)
            if isinstance(i, bool):
                i = int(i)
            if isinstance(i, int):
                try:
                    return items[i]
                except IndexError:
                    raise A.AbsRaise("IndexError")
            if isinstance(i, SliceV):
                if all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.st)):
                    r = items[i.lo:i.hi:i.st]
                    return AList(r) if isinstance(o, AList) else tuple(r)
                return Top("slice")
            if isinstance(i, Term):
                # unknown position: gated over all elements
                if items and len(items) <= 12:
                    r = items[-1]
                    for k in range(len(items) - 2, -1, -1):
                        r = I.merge(T.cmp("==", i, k), items[k], r)
                    return r
                return Top("list[?]")
            if isinstance(i, Choice):
                return I.fork_value(i.c, lambda: self.getitem(o, i.a), lambda: self.getitem(o, i.b))
            return Top("list[?]")
        if isinstance(o, Arr):
            return self.aget(o, i)
        if isinstance(o, str):
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise A.AbsRaise("IndexError")
            return Top("str")
        if isinstance(o, IndexSet):
            # q[b] : restrict further
            i2 = i[0] if isinstance(i, tuple) and len(i) == 1 else i
            if isinstance(i2, IndexSet):
                return IndexSet(T.land(o.mask, i2.mask))
            if isinstance(i2, Arr) and i2.dtype == "bool" and i2.sym == (True,):
                return IndexSet(T.land(o.mask, T.truth(i2.a.flat[0])))
            if isinstance(i2, int):
                return T.havoc("idx")
            raise Unsupported("index set[]")
        if isinstance(o, range):
            return o[i] if isinstance(i, int) else Top("range[]")
        if isinstance(o, Choice):
            return I.fork_value(o.c, lambda: self.getitem(o.a, i), lambda: self.getitem(o.b, i))
        if o is None:
            raise A.AbsRaise("TypeError", "None subscript")
        if is_scalar(o):
            if isinstance(o, Term) and o.op == "havoc":
                return T.havoc("hx")
            raise A.AbsRaise("TypeError" if not isinstance(o, Term) else "IndexError", "scalar subscript")
        return Top("subscript of %r" % (o,))

    def norm_idx(self, arr, i):
        """list of per-axis ops"""
        I = self.I
        if not isinstance(i, tuple):
            i = (i,)
        ops = []
        nd = arr.a.ndim
        used = sum(1 for x in i if x is not None and x is not Ellipsis and not (isinstance(x, Ext) and x.name == "builtins.Ellipsis")
                   and not self.is_boolmask(x, arr))
        for x in i:
            x = I.res(x)
            if x is Ellipsis:
                ops.extend([slice(None)] * (nd - used))
            elif isinstance(x, SliceV):
                ops.append(x)
            else:
                ops.append(x)
        k = sum(1 for x in ops if x is not None)
        ops.extend([slice(None)] * (nd - k))
        return ops

    def is_boolmask(self, x, arr):
        return False

    def split_adv(self, ops):
        """numpy puts the advanced axis first when an integer and an advanced index are
        separated by a slice"""
        kinds = []
        for x in ops:
            if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
                kinds.append("i")
            elif x is None or isinstance(x, (slice, SliceV)):
                kinds.append("s")
            else:
                kinds.append("a")
        if "a" not in kinds or "i" not in kinds:
            return False
        pos = [k for k, c in enumerate(kinds) if c in "ia"]
        return "s" in kinds[pos[0]:pos[-1]]

    def aget(self, o, i):
        I = self.I
        if isinstance(i, Arr) and i.dtype == "bool" and i.a.ndim == o.a.ndim and i.a.ndim >= 1:
            if i.sym == o.sym and any(o.sym) and o.a.ndim == 1:
                m = T.truth(i.a.flat[0])
                if o.a.size != 1:
                    raise Unsupported("mask on interleaved axis")
                return Arr(o.a.copy(), o.sym, m if o.mask is None else T.land(o.mask, m), o.dtype)
            if not any(o.sym) and all(isinstance(x, bool) for x in i.a.flat):
                b = np.array([bool(x) for x in i.a.flat], dtype=bool).reshape(i.a.shape)
                return Arr(o.a[b], dtype=o.dtype)
            raise Unsupported("boolean index")
        ops = self.norm_idx(o, i)
        basic = []
        adv = []      # (axis-in-result-of-basic, op)
        ax_src = 0
        ax_dst = 0
        symdst = []
        post_at = None
        a, s = o.a, o.sym
        for x in ops:
            if x is None:
                basic.append(None)
                symdst.append(False)
                ax_dst += 1
                continue
            if ax_src >= a.ndim:
                raise A.AbsRaise("IndexError", "too many indices")
            issym = s[ax_src]
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, Fraction):
                x = int(x)
            if isinstance(x, int):
                if issym:
                    if a.shape[ax_src] != 1:
                        raise Unsupported("index interleaved")
                    basic.append(0)
                    post_at = x
                else:
                    if not (-a.shape[ax_src] <= x < a.shape[ax_src]):
                        raise A.AbsRaise("IndexError", "index %d of %d" % (x, a.shape[ax_src]))
                    basic.append(x)
                ax_src += 1
                continue
            if isinstance(x, slice):
                basic.append(x)
                symdst.append(issym)
                ax_src += 1
                ax_dst += 1
                continue
            if isinstance(x, SliceV):
                lo, hi, st = x.lo, x.hi, x.st
                if issym:
                    if lo in (None, 0) and (hi is None or hi is NLEN) and st in (None, 1):
                        basic.append(slice(None))
                    else:
                        raise Unsupported("partial slice of data axis")
                elif all(v is None or (isinstance(v, int)) for v in (lo, hi, st)):
                    basic.append(slice(lo, hi, st))
                else:
                    raise Unsupported("unknown slice")
                symdst.append(issym)
                ax_src += 1
                ax_dst += 1
                continue
            if isinstance(x, tuple) and len(x) == 1:
                x = x[0]
            if isinstance(x, A.DataIndex):
                if not issym:
                    raise Unsupported("data index on concrete axis")
                if a.shape[ax_src] != 1:
                    raise Unsupported("data index interleaved")
                basic.append(0)
                ax_src += 1
                continue
            # advanced
            basic.append(slice(None))
            symdst.append(issym)
            adv.append((ax_dst, x))
            ax_src += 1
            ax_dst += 1
        r = a[tuple(basic)]
        if not isinstance(r, np.ndarray):
            e = r
            r = np.empty((), dtype=object)
            r[()] = e
        res = Arr(r, tuple(symdst), o.mask, o.dtype, o.may)
        if post_at is not None:
            out = np.empty(r.shape, dtype=object)
            for j in np.ndindex(r.shape):
                out[j] = T.at(post_at, r[j])
            res = Arr(out, tuple(symdst), None, o.dtype)
        if len(adv) >= 2:
            return self.unwrap(self.adv_pair(res, [(q, self.adv_norm(x) if res.sym[q] else x) for q, x in adv]))
        front = bool(adv) and self.split_adv(ops)
        for ax, x in adv:
            nd0 = res.a.ndim
            res = self.adv_get(res, ax, x)
            if front and res.a.ndim == nd0 and ax > 0:
                res = Arr(np.moveaxis(res.a, ax, 0), (res.sym[ax],) + res.sym[:ax] + res.sym[ax + 1:], res.mask, res.dtype)
        return self.unwrap(res)

    def adv_pair(self, res, adv):
        (ax1, x1), (ax2, x2) = adv
        if isinstance(x1, A.DataRange) and isinstance(x2, Arr) and res.sym[ax1]:
            if res.a.ndim == 2 and res.a.shape[ax1] == 1 and x2.sym == (True,):
                k = x2.a.flat[0]
                return datum(self.pick([res.a[0, j] for j in range(res.a.shape[1])], k))
        if isinstance(x1, (A.DataRange, IndexSet)) and isinstance(x2, Term) and res.a.ndim == 2 and res.sym == (True, False):
            return self.adv_get(self.adv_get(res, 1, x2), 0, x1)
        l1, l2 = self.intlist(x1), self.intlist(x2)
        if l1 is not None and l2 is not None and not res.sym[ax1] and not res.sym[ax2] and res.a.ndim == 2:
            return Arr(res.a[l1, l2], dtype=res.dtype)
        raise Unsupported("two advanced indices")

    def pick(self, elems, k):
        if isinstance(k, int):
            return elems[k]
        r = elems[-1]
        for j in range(len(elems) - 2, -1, -1):
            r = T.select(T.cmp("==", k, j), elems[j], r)
        return r

    def intlist(self, x):
        if isinstance(x, (AList, tuple, range, list)):
            try:
                it = self.I.iterate(x)
            except A.Unsupported:
                return None
            it = [int(v) if isinstance(v, (bool, Fraction)) else v for v in it]
            return it if all(isinstance(v, int) for v in it) else None
        if isinstance(x, Arr) and not any(x.sym) and x.a.ndim == 1:
            it = [int(v) if isinstance(v, Fraction) and v.denominator == 1 else v for v in x.a.flat]
            if x.dtype == "bool" and all(isinstance(v, bool) for v in it):
                return [k for k, v in enumerate(it) if v]
            if all(isinstance(v, int) and not isinstance(v, bool) for v in it):
                return it
            if all(isinstance(v, float) and v == int(v) for v in it) and len(it) == 0:
                return []
        return None

    def adv_norm(self, x):
        if is_arange(x):
            return A.DataRange() if x.mask is None else IndexSet(x.mask)
        return x

    def adv_get(self, arr, ax, x):
        issym = arr.sym[ax]
        if issym:
            x = self.adv_norm(x)
        if isinstance(x, IndexSet):
            if not issym:
                raise Unsupported("index set on concrete axis")
            m = x.mask
            if arr.mask is not None and arr.mask is not m:
                m = T.land(arr.mask, m)
            return Arr(arr.a.copy(), arr.sym, m, arr.dtype)
        if isinstance(x, Arr) and x.dtype == "bool" and x.sym == (True,) and issym:
            return self.adv_get(arr, ax, IndexSet(T.truth(x.a.flat[0])))
        if isinstance(x, A.DataRange) and issym:
            return arr
        il = self.intlist(x)
        if il is not None:
            if issym:
                raise Unsupported("int list on data axis")
            sh = arr.a.shape[ax]
            if any(not (-sh <= k < sh) for k in il):
                raise A.AbsRaise("IndexError")
            idx = [slice(None)] * arr.a.ndim
            idx[ax] = il
            r = arr.a[tuple(idx)] if il else np.empty(arr.a.shape[:ax] + (0,) + arr.a.shape[ax + 1:], dtype=object)
            return Arr(r, arr.sym, arr.mask, arr.dtype)
        if isinstance(x, Term) and not issym:
            cols = [np.take(arr.a, k, axis=ax) for k in range(arr.a.shape[ax])]
            sy = arr.sym[:ax] + arr.sym[ax + 1:]
            sh = np.shape(cols[0]) if cols and arr.a.ndim > 1 else ()
            out = np.empty(sh, dtype=object)
            for j in np.ndindex(sh):
                out[j] = self.pick([c[j] if sh else c[()] if isinstance(c, np.ndarray) else c for c in cols], x)
            return Arr(out, sy, arr.mask, arr.dtype)
        if isinstance(x, Arr) and not issym and arr.a.ndim == 1 and x.a.ndim >= 1:
            els = list(arr.a.flat)
            out = np.empty(x.a.shape, dtype=object)
            for j in np.ndindex(x.a.shape):
                k = x.a[j]
                if isinstance(k, float) and k == int(k):
                    k = int(k)
                out[j] = self.pick(els, k)
            return Arr(out, x.sym, x.mask, arr.dtype)
        raise Unsupported("advanced index %r" % (x,))

    def setitem(self, o, i, v):
        I = self.I
        o = I.res(o)
        i = I.res(i)
        if isinstance(i, tuple):
            i = tuple(I.res(x) for x in i)
        v = I.res(v)
        if isinstance(o, Obj):
            if o.items is not None:
                o = o.items
            else:
                m = I.find(o.cls, "__setitem__")
                if m is not None:
                    I.call(Bound(o, m), [i, v], {})
                return
        if isinstance(o, ADict):
            for h in I.write_hooks:
                h(I, "dict", o, i, v)
            I.touch(o)
            if isinstance(i, Top):
                return
            o.d[A.hkey(i)] = v
            return
        if isinstance(o, AList):
            for h in I.write_hooks:
                h(I, "list", o, i, v)
            I.touch(o)
            if getattr(o, "unknown", False):
                return
            if isinstance(i, int):
                try:
                    o.items[i] = v
                except IndexError:
                    raise A.AbsRaise("IndexError")
                return
            if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.st)):
                o.items[i.lo:i.hi:i.st] = I.iterate(v)
                return
            if isinstance(i, Term):
                for k in range(len(o.items)):
                    o.items[k] = I.merge(T.cmp("==", i, k), v, o.items[k])
                return
            o.items = [TOP]
            o.unknown = True
            return
        if isinstance(o, Arr):
            try:
                self.aset(o, i, v)
            except A.Unsupported as e:
                I.note("aset: %s" % e)
                self.havoc_arr(o)
            return
        if isinstance(o, Choice):
            I.fork_value(o.c, lambda: self.setitem(o.a, i, v), lambda: self.setitem(o.b, i, v))
            return
        if o is None:
            raise A.AbsRaise("TypeError", "None item assignment")
        if is_scalar(o) and not (isinstance(o, Term) and o.taint):
            raise A.AbsRaise("TypeError", "scalar item assignment")

    def aset(self, o, i, v):
        I = self.I
        if isinstance(v, Top):
            raise Unsupported("assign top")
        for h in I.write_hooks:
            h(I, "array", o, i, v)
        I.touch(o)
        if isinstance(v, (AList, tuple, range, list, GenIter)):
            if isinstance(v, tuple) and len(v) == 1:
                v = v[0]
            else:
                v = self.asarr(v)
        if isinstance(v, Obj) and v.items is not None:
            v = self.asarr(v)
        if isinstance(v, (Choice, Obj)) or v is None:
            raise Unsupported("assign %r" % (v,))
        vm = v.mask if isinstance(v, Arr) else None
        if isinstance(i, Arr) and i.dtype == "bool" and i.a.ndim == o.a.ndim and o.a.ndim >= 1:
            bm = [T.truth(x) for x in i.a.flat]
            if i.a.shape == o.a.shape and i.sym == o.sym:
                vv = self.asarr(v)
                if vv.a.ndim == 0 or (vv.a.shape == o.a.shape and any(o.sym)):
                    for j in np.ndindex(o.a.shape):
                        o.a[j] = T.select(T.truth(i.a[j]), vv.a[()] if vv.a.ndim == 0 else vv.a[j], o.a[j])
                    return
                if not any(o.sym) and all(isinstance(x, bool) for x in bm):
                    b = np.array(bm, dtype=bool).reshape(o.a.shape)
                    o.a[b] = vv.a
                    return
            raise Unsupported("bool assign")
        ops = self.norm_idx(o, i)
        basic, adv, symdst = [], [], []
        ax_src = ax_dst = 0
        for x in ops:
            if x is None:
                basic.append(None)
                symdst.append(False)
                ax_dst += 1
                continue
            if ax_src >= o.a.ndim:
                raise A.AbsRaise("IndexError", "too many indices")
            issym = o.sym[ax_src]
            if isinstance(x, tuple) and len(x) == 1:
                x = x[0]
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, Fraction) and x.denominator == 1:
                x = int(x)
            if isinstance(x, int):
                if issym:
                    raise Unsupported("store at fixed datum")
                if not (-o.a.shape[ax_src] <= x < o.a.shape[ax_src]):
                    raise A.AbsRaise("IndexError")
                basic.append(x)
                ax_src += 1
                continue
            if isinstance(x, A.DataIndex):
                if not issym or o.a.shape[ax_src] != 1:
                    raise Unsupported("data index")
                basic.append(0)
                ax_src += 1
                continue
            if isinstance(x, slice):
                basic.append(x)
            elif isinstance(x, SliceV):
                lo, hi, st = x.lo, x.hi, x.st
                if issym:
                    if not (lo in (None, 0) and (hi is None or hi is NLEN) and st in (None, 1)):
                        raise Unsupported("partial data slice store")
                    basic.append(slice(None))
                elif all(q is None or isinstance(q, int) for q in (lo, hi, st)):
                    basic.append(slice(lo, hi, st))
                else:
                    raise Unsupported("unknown slice store")
            else:
                basic.append(slice(None))
                adv.append((ax_dst, x))
            symdst.append(issym)
            ax_src += 1
            ax_dst += 1
        key = tuple(basic)
        if not adv:
            view = o.a[key]
            if not isinstance(view, np.ndarray):
                # single element
                sv = v
                if isinstance(v, Arr):
                    if v.a.size != 1:
                        raise A.AbsRaise("ValueError", "setting element with sequence")
                    sv = v.a.flat[0]
                o.a[key] = sv
                return
            self.store(view, tuple(symdst), v)
            return
        adv = [(q, self.adv_norm(x) if symdst[q] else x) for q, x in adv]
        if len(adv) == 2:
            (ax1, x1), (ax2, x2) = adv
            view = o.a[key]
            if isinstance(x1, (A.DataRange, )) and isinstance(x2, Arr) and view.ndim == 2 and symdst[ax1] and view.shape[ax1] == 1:
                k = x2.a.flat[0]
                e = self.asarr(v)
                e = e.a[()] if e.a.ndim == 0 else e.a.flat[0]
                for j in range(view.shape[1]):
                    view[0, j] = T.select(T.cmp("==", k, j), e, view[0, j])
                return
            if isinstance(x1, (A.DataRange, IndexSet)) and isinstance(x2, Term) and view.ndim == 2 and symdst[ax1] and not symdst[ax2] and view.shape[0] == 1:
                m = x1.mask if isinstance(x1, IndexSet) else True
                e = self.asarr(v)
                e = e.a[()] if e.a.ndim == 0 else e.a.flat[0]
                for j in range(view.shape[1]):
                    view[0, j] = T.select(T.land(m, T.cmp("==", x2, j)), e, view[0, j])
                return
            l1, l2 = self.intlist(x1), self.intlist(x2)
            if l1 is not None and l2 is not None and view.ndim == 2:
                vv = self.asarr(v)
                for q, (r_, c_) in enumerate(zip(l1, l2)):
                    view[r_, c_] = vv.a[()] if vv.a.ndim == 0 else vv.a[q]
                return
            raise Unsupported("two advanced stores")
        ax, x = adv[0]
        view = o.a[key]
        if ax > 0 and self.split_adv(ops):
            view = np.moveaxis(view, ax, 0)
            symdst = [symdst[ax]] + symdst[:ax] + symdst[ax + 1:]
            ax = 0
        if isinstance(x, A.DataRange):
            return self.store(view, tuple(symdst), v)
        if isinstance(x, IndexSet) or (isinstance(x, Arr) and x.dtype == "bool" and any(x.sym)):
            m = x.mask if isinstance(x, IndexSet) else T.truth(x.a.flat[0])
            if not symdst[ax]:
                raise Unsupported("index set store on concrete axis")
            vv = self.asarr(v)
            sh = view.shape
            if vv.a.ndim > view.ndim:
                raise Unsupported("store rank")
            vb = np.broadcast_to(vv.a.reshape((1,) * (view.ndim - vv.a.ndim) + vv.a.shape), sh)
            for j in np.ndindex(sh):
                view[j] = T.select(m, vb[j], view[j])
            return
        il = self.intlist(x)
        if il is not None:
            if symdst[ax]:
                raise Unsupported("int list store on data axis")
            vv = self.asarr(v)
            tgt = list(view.shape)
            tgt[ax] = len(il)
            vs = (False,) * (view.ndim - vv.a.ndim) + vv.sym
            for d in range(view.ndim):
                if d - (view.ndim - vv.a.ndim) >= 0 and vs[d] and not symdst[d]:
                    raise Unsupported("data into concrete axis")
            try:
                vb = np.broadcast_to(vv.a, tgt)
            except ValueError:
                raise A.AbsRaise("ValueError", "store shape")
            for q, k in enumerate(il):
                dst = [slice(None)] * view.ndim
                dst[ax] = k
                src = [slice(None)] * view.ndim
                src[ax] = q
                val = vb[tuple(src)]
                view[tuple(dst)] = val
            return
        if isinstance(x, Term) and not symdst[ax]:
            vv = self.asarr(v)
            for k in range(view.shape[ax]):
                dst = [slice(None)] * view.ndim
                dst[ax] = slice(k, k + 1)
                sub = view[tuple(dst)]
                vb = np.broadcast_to(vv.a, sub.shape) if vv.a.ndim <= sub.ndim else None
                for j in np.ndindex(sub.shape):
                    sub[j] = T.select(T.cmp("==", x, k), vb[j], sub[j])
            return
        raise Unsupported("advanced store %r" % (x,))

    def store(self, view, sym, v):
        if isinstance(v, Arr):
            d = view.ndim - v.a.ndim
            if d < 0:
                if v.a.size == 1 or all(s == 1 for s in v.a.shape[:-d]):
                    v = Arr(v.a.reshape(v.a.shape[-view.ndim:] if view.ndim else ()), v.sym[-view.ndim:] if view.ndim else (), v.mask, v.dtype)
                    d = 0
                else:
                    raise A.AbsRaise("ValueError", "store rank")
            vs = (False,) * d + v.sym
            for k in range(view.ndim):
                if vs[k] and not sym[k]:
                    raise Unsupported("data axis stored in concrete axis")
                if sym[k] and not vs[k] and k >= d and v.a.shape[k - d] != 1:
                    raise Unsupported("concrete axis stored in data axis")
            try:
                src = np.broadcast_to(v.a, view.shape)
            except ValueError:
                raise A.AbsRaise("ValueError", "could not broadcast")
            tmp = src.copy()
            view[...] = tmp
        else:
            if not is_scalar(v):
                raise Unsupported("store %r" % (v,))
            for j in np.ndindex(view.shape):
                view[j] = v

    def drop_axis0(self, x):
        if x.a.shape[0] != 1:
            raise Unsupported("interleaved")
        return self.unwrap(Arr(x.a[0], x.sym[1:], None, x.dtype))

    # ================================================================ attributes
    def getattr_(self, o, name, node=None):
        I = self.I
        if isinstance(o, ADict) and getattr(o, "fields", False) and name in o.d:
            return o.d[name]
        if isinstance(o, Arr):
            if name == "shape":
                nn = NLEN if o.mask is None else self.count(o.mask)
                return tuple(T.mul(nn, d) if s else d for d, s in zip(o.a.shape, o.sym))
            if name == "ndim":
                return o.a.ndim
            if name == "size":
                r = 1
                if o.mask is not None and sum(o.sym) == 1:
                    return T.mul(o.a.size, self.count(o.mask))
                for d, s in zip(o.a.shape, o.sym):
                    r = T.mul(r, T.mul(NLEN, d) if s else d)
                return r
            if name == "T":
                return Arr(o.a.T, o.sym[::-1], o.mask, o.dtype, o.may)
            if name == "dtype":
                return Ext("dtype." + o.dtype)
            if name == "real":
                return self.elementwise(lambda x: T.fn("re", x) if isinstance(x, Term) else (x.real if isinstance(x, complex) else x), o, dtype="float")
            if name == "imag":
                return self.elementwise(lambda x: T.fn("im", x) if isinstance(x, Term) else (x.imag if isinstance(x, complex) else 0), o, dtype="float")
            if name == "flat":
                return AList(list(o.a.flat)) if not any(o.sym) else Top("flat")
            return BMeth(o, name)
        if isinstance(o, Ext):
            return self.extattr(o, name)
        if isinstance(o, (AList, ADict, str, tuple, GenIter, RngObj, IndexSet)):
            if isinstance(o, RngObj) and name == "seed":
                return BMeth(o, "seed")
            if isinstance(o, AList) and name == "flat":
                return o
            if isinstance(o, AList) and name == "size":
                return self.b_len(o)
            py = {AList: list, ASet: set, ADict: dict, str: str, tuple: tuple}.get(type(o))
            if py is not None and not hasattr(py, name):
                raise A.AbsRaise("AttributeError", "%s has no attribute %s" % (py.__name__, name))
            if isinstance(o, IndexSet) and name == "size":
                return self.count(o.mask)
            return BMeth(o, name)
        if isinstance(o, ExtObj):
            if name in o.attrs:
                return o.attrs[name]
            return BMeth(o, name)
        if isinstance(o, UnitV):
            return BMeth(o, name)
        if isinstance(o, Top):
            return Top(o.why)
        if o is None:
            raise A.AbsRaise("AttributeError", "None.%s" % name)
        if isinstance(o, BMeth) and name == "__name__":
            return o.name
        if is_scalar(o):
            if name == "real":
                return T.fn("re", o) if isinstance(o, Term) else o
            if name == "imag":
                return T.fn("im", o) if isinstance(o, Term) else 0
            if name in ("shape", "ndim", "size", "T", "dtype", "copy", "reshape", "sum", "astype", "transpose", "flatten"):
                if isinstance(o, Term):
                    if name == "shape":
                        return ()
                    if name == "ndim":
                        return 0
                    if name == "size":
                        return 1
                    if name == "T":
                        return o
                    return BMeth(o, name)
            if isinstance(o, (int, float)) and hasattr(o, name):
                return BMeth(o, name)
            raise A.AbsRaise("AttributeError", "number has no attribute " + name)
        return Top("attr %s of %r" % (name, o))

    def extattr(self, o, name):
        full = o.name + "." + name
        consts = {"math.pi": math.pi, "numpy.pi": math.pi, "math.e": math.e, "math.inf": math.inf, "numpy.inf": math.inf,
                  "math.nan": math.nan, "numpy.nan": math.nan, "sys.float_info.max": 1.7976931348623157e308, "sys.float_info.min": 2.2250738585072014e-308, "sys.float_info.epsilon": 2.220446049250313e-16,
                  "numpy.newaxis": None}
        if full in consts:
            return consts[full]
        if full == "numpy.random":
            return Ext("numpy.random")
        if o.name in ("astropy.units", "units", "astropy.units.si", "units.si"):
            if name in ("si", "cgs", "core"):
                return Ext(full)
            if name[:1].isupper():
                return Ext(full)
            return UnitV.base(name)
        if name in ("__name__", "__doc__"):
            return o.name.split(".")[-1]
        return Ext(full)

    # ================================================================ calls of externals
    def call(self, name, args, kw, node):
        I = self.I
        base = name
        args = [I.res(a) for a in args]
        kw = {k: I.res(v) for k, v in kw.items()}
        short = name.split(".")[-1]
        if name in I.ext:
            r = I.ext[name](I, args, kw)
            if r is not NotImplemented:
                return r
        if name.startswith("numpy.random"):
            return self.rng_call("global", short, args, kw, node)
        if name.startswith("random."):
            return self.rng_call("stdlib", short, args, kw, node)
        if name.startswith("astropy"):
            if short == "Unit":
                if args and isinstance(args[0], UnitV):
                    return args[0]
                if args and not isinstance(args[0], str) and not (T.isnum(args[0]) and args[0] == 1):
                    return ExtObj(name)
                return UnitV.base(str(args[0]) if args and isinstance(args[0], str) else "")
            return ExtObj(name)
        if name.startswith("builtins.object."):
            return self.objmeth(short, args, kw)
        m = getattr(self, "c_" + short, None)
        if name.startswith("builtins.str.") and args and isinstance(args[0], str):
            return getattr(args[0], short)(*args[1:])
        if name.startswith("builtins."):
            b = getattr(self, "b_" + short, None)
            if b is not None:
                return b(*args, **kw)
            if short.endswith(("Error", "Exception", "Warning", "Iteration")):
                return ExtObj(name, {"args": tuple(args)})
            if m is not None:
                return m(*args, **kw)
            return Top("builtin " + short)
        if name.startswith(("numpy", "math", "scipy", "np.", "special")):
            for x in args:
                if isinstance(x, Top) and short in ELEM1:
                    return x
            # out= keyword: not modelled
            out = kw.pop("out", None)
            self.guard(short, m, args, kw)
            if short in ELEM1:
                r = self.elem1(ELEM1[short], args[0])
            elif m is not None:
                if any(isinstance(x, Top) for x in args):
                    r = Top(short)
                else:
                    r = self.lifted(m, args, kw)
            else:
                raise Unsupported("call " + name)
            if isinstance(out, Arr) and isinstance(r, Arr):
                self.write(out, r)
                return out
            return r
        if name in ("warnings.warn",):
            return None
        if short in ("print", "pause", "flush"):
            return None
        if name in ("inspect.isclass",):
            return isinstance(args[0], Cls)
        if name == "copy.copy" or name == "copy.deepcopy":
            return Top("copy")
        return Top("external " + name)

    def lifted(self, m, args, kw):
        """distribute gated arguments"""
        I = self.I
        for k, v in enumerate(args):
            if isinstance(v, Choice):
                def alt(x):
                    w = list(args)
                    w[k] = x
                    return lambda: self.lifted(m, w, kw)
                return I.fork_value(v.c, alt(v.a), alt(v.b))
        return m(*args, **kw)

    def elem1(self, f, x):
        if isinstance(x, (AList, tuple)):
            x = self.asarr(x)
        if f in ("re", "im", "conj"):
            def g(v):
                if isinstance(v, Term):
                    return T.fn(f, v)
                return complex(v).real if f == "re" else complex(v).imag if f == "im" else v
            return self.elementwise(g, x, dtype="float")
        if x is None:
            raise A.AbsRaise("TypeError", "None argument")
        dt = None if f in ("abs",) else ("complex" if (isinstance(x, Arr) and x.dtype == "complex") or f == "wofz" else "float")
        if f == "abs":
            return self.elementwise(lambda v: T.fn("abs", n(v)), x)
        return self.elementwise(lambda v: T.fn(f, n(v)), x, dtype=dt)

    # ---------------- numpy functions
    def c_square(self, x):
        return self.elementwise(lambda v: T.mul(n(v), n(v)), x)

    def c_power(self, x, y):
        return self.elementwise(self.opfun("Pow"), x, y)

    c_pow = c_power
    c_float_power = c_power

    def c_add(self, x, y):
        return self.binop("Add", x, y)

    def c_subtract(self, x, y):
        return self.elementwise(self.opfun("Sub"), x, y)

    def c_multiply(self, x, y):
        return self.elementwise(self.opfun("Mult"), x, y)

    def c_divide(self, x, y):
        return self.elementwise(self.opfun("Div"), x, y)

    c_true_divide = c_divide

    def c_mod(self, x, y):
        return self.elementwise(self.opfun("Mod"), x, y)

    c_fmod = c_mod
    c_remainder = c_mod

    def c_floor_divide(self, x, y):
        return self.elementwise(self.opfun("FloorDiv"), x, y)

    def c_negative(self, x):
        return self.elementwise(lambda v: T.neg(n(v)), x)

    def c_log10(self, x):
        return self.elementwise(lambda v: math.log10(v) if isinstance(v, (int, float)) and v > 0 else T.div(T.fn("log", n(v)), math.log(10.0)), x)

    def c_log2(self, x):
        return self.elementwise(lambda v: T.div(T.fn("log", n(v)), math.log(2.0)), x)

    def c_log1p(self, x):
        return self.elementwise(lambda v: T.fn("log", T.add(1, n(v))), x)

    def c_expm1(self, x):
        return self.elementwise(lambda v: T.sub(T.fn("exp", n(v)), 1), x)

    def c_exp2(self, x):
        return self.elementwise(lambda v: T.power(2, n(v)), x)

    def c_reciprocal(self, x):
        return self.elementwise(lambda v: T.div(1, n(v)), x)

    def c_cbrt(self, x):
        return self.elementwise(lambda v: T.power(n(v), Fraction(1, 3)), x)

    def c_erfc(self, x):
        return self.elementwise(lambda v: T.sub(1, T.fn("erf", n(v))), x)

    def c_fix(self, x):
        return self.elementwise(lambda v: float(int(v)) if T.isnum(v) else T.select(T.cmp("<", v, 0), T.fn("ceil", v), T.fn("floor", v)), x)

    c_trunc = c_fix

    def c_around(self, x, *a):
        return self.elementwise(lambda v: T.fn("rint", n(v)), x)

    def c_hypot(self, x, y):
        return self.elementwise(lambda a, b: T.fn("sqrt", T.add(T.mul(n(a), n(a)), T.mul(n(b), n(b)))), x, y)

    def c_arctan2(self, y, x):
        return self.elementwise(lambda a, b: T.fn("arctan2", n(a), n(b)), y, x)

    c_atan2 = c_arctan2

    def c_copysign(self, x, y):
        return self.elementwise(lambda a, b: T.select(T.cmp(">=", n(b), 0), T.fn("abs", n(a)), T.neg(T.fn("abs", n(a)))), x, y)

    def c_heaviside(self, x, h):
        return self.elementwise(lambda a, b: T.select(T.cmp(">", n(a), 0), 1, T.select(T.cmp("<", n(a), 0), 0, n(b))), x, h)

    def c_logaddexp(self, x, y):
        def f(a, b):
            a, b = n(a), n(b)
            for u, v in ((a, b), (b, a)):
                if isinstance(u, float) and (u == -math.inf or u < -1e300):
                    return v
            if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
                return float(np.logaddexp(a, b))
            return T.fn("log", T.add(T.fn("exp", a), T.fn("exp", b)))
        return self.elementwise(f, x, y)

    def c_maximum(self, x, y):
        return self.elementwise(lambda a, b: T.select(T.cmp(">=", n(a), n(b)), a, b), x, y)

    def c_minimum(self, x, y):
        return self.elementwise(lambda a, b: T.select(T.cmp("<=", n(a), n(b)), a, b), x, y)

    c_fmin = c_minimum
    c_fmax = c_maximum

    def c_clip(self, x, lo, hi):
        return self.c_minimum(self.c_maximum(x, lo), hi)

    def c_logical_and(self, x, y):
        return self.logical("and", x, y)

    def c_logical_or(self, x, y):
        return self.logical("or", x, y)

    def c_logical_not(self, x):
        return self.elementwise(lambda v: (not v) if isinstance(v, bool) else T.lnot(T.truth(v)), x, dtype="bool")

    def _cmpf(op):
        def f(self, x, y):
            return self.compare(op, x, y)
        return f
    c_less = _cmpf("Lt")
    c_less_equal = _cmpf("LtE")
    c_greater = _cmpf("Gt")
    c_greater_equal = _cmpf("GtE")
    c_equal = _cmpf("Eq")
    c_not_equal = _cmpf("NotEq")

    def c_isnan(self, x):
        return self.elementwise(lambda v: (v != v) if isinstance(v, float) else False if not isinstance(v, Term) else T.mk("isnan", v), x, dtype="bool")

    def c_isfinite(self, x):
        return self.elementwise(lambda v: math.isfinite(v) if isinstance(v, (int, float)) else True if not isinstance(v, Term) else T.lnot(T.mk("isnan", v)), x, dtype="bool")

    def c_isinf(self, x):
        return self.elementwise(lambda v: math.isinf(v) if isinstance(v, float) else False if not isinstance(v, Term) else T.mk("isnan", v), x, dtype="bool")

    def c_iscomplex(self, x):
        return False

    def c_where(self, c, a=A.UNDEF, b=A.UNDEF):
        if a is not A.UNDEF:
            return self.elementwise(lambda p, u, v: T.select(T.truth(p), n(u), n(v)), c, a, b)
        if isinstance(c, (AList, tuple)):
            c = self.asarr(c)
        if is_scalar(c):
            raise Unsupported("where scalar")
        if isinstance(c, Arr):
            if c.a.ndim == 1 and c.sym[0]:
                if c.a.size != 1:
                    raise Unsupported("where interleaved")
                m = T.truth(c.a[0])
                if c.mask is not None:
                    m = T.land(c.mask, m)
                return (IndexSet(m),)
            if c.a.ndim == 1 and all(isinstance(x, bool) for x in c.a):
                return (vec([k for k, x in enumerate(c.a) if x], "int"),)
            if c.a.ndim == 1 and c.a.size <= 6:
                raise Unsupported("where on unknown concrete axis")
        raise Unsupported("where")

    c_nonzero = c_where
    c_flatnonzero = lambda self, c: self.c_where(c)[0]

    # ---------- creation
    def dims(self, shape):
        shape = self.I.res(shape)
        if isinstance(shape, (AList, tuple)):
            shape = [self.I.res(x) for x in self.I.iterate(shape)]
        elif isinstance(shape, Arr):
            shape = list(shape.a.flat)
        else:
            shape = [shape]
        d, s = [], []
        self.dimmask = None
        for x in shape:
            if isinstance(x, Term) and x in self.counts:
                self.dimmask = self.counts[x]
                d.append(1)
                s.append(True)
                continue
            if isinstance(x, (bool, float, Fraction)) and x == int(x):
                x = int(x)
            if isinstance(x, int):
                d.append(x)
                s.append(False)
            elif x is NLEN:
                d.append(1)
                s.append(True)
            elif isinstance(x, Term) and x.op == "mul" and len(x.args) == 2 and x.args[1] is NLEN and isinstance(T.numval(x.args[0]), int):
                d.append(T.numval(x.args[0]))
                s.append(True)
            else:
                raise Unsupported("shape %r" % (x,))
        return tuple(d), tuple(s)

    def filled(self, shape, v, dtype=None):
        d, s = self.dims(shape)
        a = np.empty(d, dtype=object)
        for i in np.ndindex(d):
            a[i] = v
        return Arr(a, s, self.dimmask, dtype=dtype or self.dt(v))

    def count(self, mask):
        c = T.reduce_("sum", T.select(mask, 1, 0))
        if isinstance(c, Term):
            self.counts[c] = mask
        return c

    def dtn(self, dtype, dflt="float"):
        dtype = self.I.res(dtype)
        if dtype is None:
            return dflt
        if isinstance(dtype, Ext):
            s = dtype.name.split(".")[-1]
            for k in ("int", "bool", "complex", "float"):
                if s.startswith(k):
                    return k
        if isinstance(dtype, str):
            for k in ("int", "bool", "complex", "float"):
                if dtype.startswith(k):
                    return k
        return dflt

    def c_zeros(self, shape, dtype=None, **k):
        dt = self.dtn(dtype)
        return self.filled(shape, False if dt == "bool" else 0, dt)

    def c_ones(self, shape, dtype=None, **k):
        dt = self.dtn(dtype)
        return self.filled(shape, True if dt == "bool" else 1, dt)

    def c_empty(self, shape, dtype=None, **k):
        r = self.filled(shape, 0, self.dtn(dtype))
        for i in np.ndindex(r.a.shape):
            r.a[i] = T.havoc("empty", "datum" if any(r.sym) else "param")
        return r

    def c_ndarray(self, shape, dtype=None, *a, **k):
        return self.c_empty(shape, dtype)

    def c_full(self, shape, v, dtype=None, **k):
        va = self.asarr(v)
        r = self.filled(shape, 0, self.dtn(dtype, va.dtype))
        self.store(r.a, r.sym, va if va.a.ndim else va.a[()])
        return r

    def _like(self, x):
        x = self.asarr(x)
        return tuple(T.mul(NLEN, d) if s else d for d, s in zip(x.a.shape, x.sym)), x

    def c_zeros_like(self, x, dtype=None, **k):
        sh, a = self._like(x)
        if a.a.ndim == 0:
            return 0
        r = self.c_zeros(sh, dtype if dtype is not None else Ext("dtype." + a.dtype))
        r.mask = a.mask
        return r

    def c_ones_like(self, x, dtype=None, **k):
        sh, a = self._like(x)
        if a.a.ndim == 0:
            return 1
        r = self.c_ones(sh, dtype if dtype is not None else Ext("dtype." + a.dtype))
        r.mask = a.mask
        return r

    def c_empty_like(self, x, dtype=None, **k):
        sh, a = self._like(x)
        return self.c_empty(sh, dtype)

    def c_full_like(self, x, v, dtype=None, **k):
        sh, a = self._like(x)
        r = self.c_full(sh, v, dtype)
        r.mask = a.mask
        return self.unwrap(r)

    def c_identity(self, nn, dtype=None):
        r = self.c_zeros((nn, nn))
        for k in range(nn):
            r.a[k, k] = 1
        return r

    c_eye = c_identity

    def c_array(self, x, dtype=None, ndmin=0, copy=True, **k):
        if isinstance(x, (ExtObj,)):
            raise Unsupported("array of ext")
        if self.objlist(x):
            return AList(I_items(self.I, x))
        a = self.asarr(x).copy()
        if dtype is not None:
            a = self.cast(a, dtype)
        ndmin = ndmin if isinstance(ndmin, int) else 0
        while a.a.ndim < ndmin:
            a = Arr(a.a[None], (False,) + a.sym, a.mask, a.dtype)
        return a if a.a.ndim or isinstance(x, Arr) else a

    def cast(self, a, dtype):
        dt = self.dtn(dtype, a.dtype)
        if dt == "int":
            def f(v):
                if isinstance(v, bool):
                    return int(v)
                if isinstance(v, (float, Fraction)):
                    return int(v)
                if isinstance(v, Term) and a.dtype not in ("int", "bool"):
                    return T.select(T.cmp("<", v, 0), T.fn("ceil", v), T.fn("floor", v))
                return v
            out = np.empty(a.a.shape, dtype=object)
            for i in np.ndindex(a.a.shape):
                out[i] = f(a.a[i])
            return Arr(out, a.sym, a.mask, "int")
        if dt == a.dtype:
            return Arr(a.a, a.sym, a.mask, dt, a.may)
        return Arr(a.a.copy(), a.sym, a.mask, dt)

    def c_asarray(self, x, dtype=None, **k):
        if isinstance(x, Arr):
            if dtype is None:
                return x
            return self.cast(x, dtype)
        if self.objlist(x):
            return AList(I_items(self.I, x))
        if isinstance(dtype, Ext) and dtype.name == "builtins.object" and isinstance(x, (AList, tuple)):
            items = [self.I.res(q) for q in I_items(self.I, x)]
            if items and all(is_scalar(q) or isinstance(q, Arr) for q in items) and len(set(
                    q.a.shape if isinstance(q, Arr) else () for q in items)) > 1:
                return vec(items, "object")
        a = self.asarr(x)
        if dtype is not None:
            a = self.cast(a, dtype)
        return a

    c_asfarray = c_asarray
    c_asanyarray = c_asarray

    def c_atleast_1d(self, x):
        a = self.asarr(x)
        return a if a.a.ndim else Arr(a.a.reshape(1), (False,), a.mask, a.dtype)

    def c_copy(self, x, **k):
        return self.asarr(x).copy()

    def c_fromiter(self, it, dtype=None, count=-1):
        return self.cast(self.stack(self.I.iterate(it)), dtype) if dtype is not None else self.stack(self.I.iterate(it))

    def c_arange(self, *args, **k):
        k.pop("dtype", None)
        if len(args) == 1 and isinstance(args[0], Term) and args[0] is NLEN:
            return datum(SYM_I, dtype="int")
        if all(isinstance(a, (int, float, Fraction)) for a in args):
            args = [int(a) if isinstance(a, Fraction) and a.denominator == 1 else a for a in args]
            r = np.arange(*[float(a) if isinstance(a, Fraction) else a for a in args])
            return vec([int(x) if r.dtype.kind == "i" else float(x) for x in r], "int" if r.dtype.kind == "i" else "float")
        raise Unsupported("arange")

    def c_linspace(self, a, b, num=50, endpoint=True, **k):
        if not isinstance(num, int):
            raise Unsupported("linspace")
        d = num - 1 if endpoint else num
        return vec([T.add(a, T.mul(T.sub(b, a), Fraction(i, d) if d else 0)) for i in range(num)])

    # ---------- shape
    def c_reshape(self, x, shape, order=None, **k):
        if order is not None and order != "C":
            raise Unsupported("order")
        x = self.asarr(x)
        sh = self.I.res(shape)
        sh = list(self.I.iterate(sh)) if isinstance(sh, (AList, tuple, Arr)) else [sh]
        return self.reshape(x, sh)

    def reshape(self, x, sh):
        sh = [self.I.res(v) for v in sh]
        if not any(x.sym):
            if all(isinstance(v, int) for v in sh):
                try:
                    return Arr(x.a.reshape(sh), None, x.mask, x.dtype, x.may)
                except ValueError:
                    raise A.AbsRaise("ValueError", "reshape")
            raise Unsupported("reshape concrete to N")
        # locate: total = N * m
        if x.sym == ("cat",):
            k = x.a.size
            if len(sh) == 2 and sh[0] == k and (sh[1] == -1 or sh[1] is NLEN):
                return Arr(x.a.reshape(k, 1), (False, True), None, x.dtype)
            if len(sh) == 1 and sh[0] == -1:
                return x
            raise Unsupported("reshape of concatenated data")
        if sum(x.sym) != 1:
            raise Unsupported("two data axes")
        tot = int(np.prod(x.a.shape))
        ax = x.sym.index(True)
        dims, syms = [], []
        neg = None
        for k, v in enumerate(sh):
            if isinstance(v, int) and v == -1:
                neg = k
                dims.append(None)
                syms.append(None)
            elif isinstance(v, int):
                dims.append(v)
                syms.append(False)
            else:
                d, s = self.dims((v,))
                dims.append(d[0])
                syms.append(s[0])
        known = 1
        for d in dims:
            if d is not None:
                known *= d
        if True not in syms:
            if neg is None:
                if x.a.size == 1 and all(d == 1 for d in dims):
                    raise Unsupported("reshape N")
                raise Unsupported("reshape loses data axis")
            syms[neg] = True
            if known == 0 or tot % known:
                raise Unsupported("reshape division")
            dims[neg] = tot // known
        elif neg is not None:
            dims[neg] = tot // known
            syms[neg] = False
        # the data axis must be the slowest varying non-trivial axis in both
        if any(d != 1 for d in x.a.shape[:ax]):
            raise Unsupported("reshape with inner data axis")
        nax = syms.index(True)
        if any(d != 1 for d in dims[:nax]):
            raise Unsupported("reshape with inner data axis")
        return Arr(x.a.reshape(dims), tuple(syms), x.mask, x.dtype, x.may)

    def c_ravel(self, x, **k):
        return self.reshape(self.asarr(x), [-1])

    def c_transpose(self, x, axes=None):
        x = self.asarr(x)
        if axes is None:
            return Arr(x.a.T, x.sym[::-1], x.mask, x.dtype, x.may)
        ax = [int(v) for v in self.I.iterate(axes)]
        return Arr(x.a.transpose(ax), tuple(x.sym[i] for i in ax), x.mask, x.dtype, x.may)

    def c_squeeze(self, x, axis=None):
        x = self.asarr(x)
        keep = [i for i in range(x.a.ndim) if x.sym[i] or x.a.shape[i] != 1]
        return Arr(x.a.reshape([x.a.shape[i] for i in keep]), tuple(x.sym[i] for i in keep), x.mask, x.dtype, x.may)

    def c_expand_dims(self, x, axis):
        x = self.asarr(x)
        axis = axis if axis >= 0 else axis + x.a.ndim + 1
        return Arr(np.expand_dims(x.a, axis), x.sym[:axis] + (False,) + x.sym[axis:], x.mask, x.dtype, x.may)

    def c_append(self, a, b, axis=None):
        a, b = self.asarr(a), self.asarr(b)
        if axis is None:
            if a.a.ndim != 1:
                a = self.reshape(a, [-1])
            if b.a.ndim != 1:
                b = self.reshape(b, [-1]) if b.a.ndim else Arr(b.a.reshape(1), (False,))
            if any(a.sym) or any(b.sym):
                if a.a.size == 0:
                    return b.copy()
                if b.a.size == 0:
                    return a.copy()
                cats = ((True,), ("cat",))
                if a.sym in cats and b.sym in cats and a.mask is None and b.mask is None and \
                        (a.a.size == 1 or a.sym == ("cat",)) and (b.a.size == 1 or b.sym == ("cat",)):
                    return Arr(np.concatenate([a.a, b.a]), ("cat",), dtype=a.dtype)
                raise Unsupported("append to data axis")
            return Arr(np.concatenate([a.a, b.a]), dtype=a.dtype if a.dtype == b.dtype else "float")
        return self.c_concatenate((a, b), axis=axis)

    def c_concatenate(self, xs, axis=0, **k):
        xs = [self.asarr(x) for x in self.I.iterate(xs)]
        nd = xs[0].a.ndim
        axis = axis if axis >= 0 else axis + nd
        if any(x.a.ndim != nd for x in xs):
            raise A.AbsRaise("ValueError", "concatenate dims")
        if any(x.sym[axis] for x in xs):
            xs = [x for x in xs if x.a.shape[axis] != 0]
            if len(xs) == 1:
                return xs[0].copy()
            raise Unsupported("concatenate on data axis")
        for x in xs:
            if x.sym != xs[0].sym:
                if all(d == 1 for d in x.a.shape):
                    continue
                raise Unsupported("concatenate sym")
        try:
            r = np.concatenate([x.a for x in xs], axis=axis)
        except ValueError:
            raise A.AbsRaise("ValueError", "concatenate")
        sy = tuple(any(x.sym[i] for x in xs) for i in range(nd))
        return Arr(r, sy, xs[0].mask, xs[0].dtype)

    def c_pad(self, x, width, mode="constant", constant_values=0):
        x = self.asarr(x)
        w = self.I.res(width)
        w = tuple(self.I.res(q) for q in self.I.iterate(w)) if isinstance(w, (tuple, AList, Arr)) else (w, w)
        if x.a.ndim != 1 or x.sym[0] or len(w) != 2 or not all(isinstance(q, int) and q >= 0 for q in w) or mode != "constant" or not T.isnum(constant_values):
            raise Unsupported("pad")
        z = constant_values if x.dtype != "float" else float(constant_values)
        return Arr(np.concatenate([np.array([z] * w[0], dtype=object), x.a, np.array([z] * w[1], dtype=object)]), x.sym, x.mask, x.dtype)

    def c_column_stack(self, xs):
        xs = [self.asarr(x) for x in self.I.iterate(xs)]
        xs = [Arr(x.a[:, None], x.sym + (False,), x.mask, x.dtype) if x.a.ndim == 1 else x for x in xs]
        return self.c_concatenate(tuple(xs), axis=1)

    def c_hstack(self, xs):
        xs = [self.asarr(x) for x in self.I.iterate(xs)]
        return self.c_concatenate(tuple(xs), axis=0 if xs[0].a.ndim == 1 else 1)

    def c_vstack(self, xs):
        xs = [self.asarr(x) for x in self.I.iterate(xs)]
        xs = [Arr(x.a[None], (False,) + x.sym, x.mask, x.dtype) if x.a.ndim == 1 else x for x in xs]
        return self.c_concatenate(tuple(xs), axis=0)

    def c_stack(self, xs, axis=0):
        r = self.stack(self.I.iterate(xs))
        if axis in (1, -1) and r.a.ndim >= 2:
            p = list(range(1, r.a.ndim))
            p.insert(1 if axis == 1 else len(p), 0)
            return self.c_transpose(r, tuple(p))
        return r

    def c_insert(self, x, k, v, axis=None):
        x = self.asarr(x)
        if any(x.sym) or x.a.ndim != 1 or not isinstance(k, int):
            raise Unsupported("insert")
        va = self.asarr(v)
        els = list(x.a)
        vs = [va.a[()]] if va.a.ndim == 0 else list(va.a.flat)
        kk = k if k >= 0 else k + len(els)
        return vec(els[:kk] + vs + els[kk:], x.dtype)

    def c_delete(self, x, k, axis=None):
        x = self.asarr(x)
        il = [k] if isinstance(k, int) else self.intlist(k)
        if isinstance(k, SliceV) or il is None:
            raise Unsupported("delete")
        if axis is None:
            axis = 0
        if x.sym[axis]:
            raise Unsupported("delete data")
        keep = [j for j in range(x.a.shape[axis]) if j not in [q % x.a.shape[axis] for q in il]]
        return Arr(np.take(x.a, keep, axis=axis), x.sym, x.mask, x.dtype)

    def c_roll(self, x, k, axis=None):
        x = self.asarr(x)
        if any(x.sym) or not isinstance(k, int):
            raise Unsupported("roll")
        return Arr(np.roll(x.a, k, axis=axis), dtype=x.dtype)

    def c_repeat(self, x, k, axis=None):
        x = self.asarr(x)
        if any(x.sym):
            if x.a.ndim == 1 and x.a.size == 1 and isinstance(k, int):
                out = np.empty(k, dtype=object)
                for i in range(k):
                    out[i] = x.a[0]
                return Arr(out, (True,), x.mask, x.dtype)
            raise Unsupported("repeat data")
        return Arr(np.repeat(x.a, k, axis=axis), dtype=x.dtype)

    def c_tile(self, x, k):
        x = self.asarr(x)
        if any(x.sym):
            raise Unsupported("tile")
        return Arr(np.tile(x.a, k), dtype=x.dtype)

    def c_flip(self, x, axis=None):
        x = self.asarr(x)
        if any(x.sym):
            raise Unsupported("flip")
        return Arr(np.flip(x.a, axis), dtype=x.dtype)

    def c_diag(self, x):
        x = self.asarr(x)
        return Arr(np.diag(x.a) if x.a.ndim == 2 else np.diag(x.a), dtype=x.dtype)

    def c_diagonal(self, x):
        x = self.asarr(x)
        return Arr(np.array([x.a[i, i] for i in range(x.a.shape[0])], dtype=object), dtype=x.dtype)

    def c_ndim(self, x):
        return self.asarr(x).a.ndim

    def c_shape(self, x):
        return self.getattr_(self.asarr(x), "shape")

    def c_size(self, x):
        return self.getattr_(self.asarr(x), "size")

    def c_isscalar(self, x):
        return is_scalar(x)

    def c_broadcast_to(self, x, shape):
        r = self.c_zeros(shape)
        return self.binop("Add", r, x)

    def c_setxor1d(self, a, b):
        la, lb = self.intlist(self.asarr(a)), self.intlist(self.asarr(b))
        if la is None or lb is None:
            raise Unsupported("setxor1d")
        return vec(sorted(set(la) ^ set(lb)), "int")

    def c_intersect1d(self, a, b):
        la, lb = self.intlist(self.asarr(a)), self.intlist(self.asarr(b))
        if la is None or lb is None:
            raise Unsupported("intersect1d")
        return vec(sorted(set(la) & set(lb)), "int")

    def c_unique(self, a):
        la = self.intlist(self.asarr(a))
        if la is None:
            raise Unsupported("unique")
        return vec(sorted(set(la)), "int")

    def c_sort(self, a, axis=-1, **k):
        x = self.asarr(a)
        if not any(x.sym) and all(T.isnum(v) for v in x.a.flat) and x.a.ndim == 1:
            return vec(sorted(x.a.flat), x.dtype)
        raise Unsupported("sort")

    def c_argsort(self, a, **k):
        raise Unsupported("argsort")

    # ---------- reductions
    def reduce_axes(self, x, axis, fold, rop, init):
        x = self.asarr(x)
        if axis is None:
            axes = list(range(x.a.ndim))
        elif isinstance(axis, (tuple, AList)):
            axes = [a % x.a.ndim for a in self.I.iterate(axis)]
        else:
            axes = [axis % x.a.ndim]
        a, sym = x.a, list(x.sym)
        mask = x.mask
        for ax in sorted(axes, reverse=True):
            mv = np.moveaxis(a, ax, 0)
            sh = mv.shape[1:]
            out = np.empty(sh, dtype=object)
            for i in np.ndindex(sh):
                col = [mv[(k,) + i] for k in range(mv.shape[0])]
                if sym[ax]:
                    if mask is not None:
                        col = [T.select(mask, v, init) for v in col]
                    col = [T.reduce_(rop, v) for v in col]
                out[i] = fold(col)
            if sym[ax]:
                mask = None
            a = out
            del sym[ax]
        return self.unwrap(Arr(a, tuple(sym), mask, x.dtype))

    def c_sum(self, x, axis=None, dtype=None, **k):
        x = self.I.res(x)
        if isinstance(x, GenIter):
            x = AList(self.I.iterate(x))
        def fold(col):
            r = 0
            for v in col:
                r = T.add(r, n(v))
            return r
        return self.reduce_axes(x, axis, fold, "sum", 0)

    c_nansum = c_sum

    def c_prod(self, x, axis=None, **k):
        def fold(col):
            r = 1
            for v in col:
                r = T.mul(r, n(v))
            return r
        return self.reduce_axes(x, axis, fold, "prod", 1)

    def c_array_equal(self, a, b, **k):
        """arrays in general position: equal when they are the same terms"""
        if a is None or b is None:
            return a is b
        a, b = self.asarr(a), self.asarr(b)
        if a.a.shape != b.a.shape or a.sym != b.sym:
            return False
        return all(T.equal(u, v, seed="array_equal").status == "eq" for u, v in zip(a.a.flat, b.a.flat))

    def c_any(self, x, axis=None):
        if is_scalar(x):
            return T.truth(x)
        def fold(col):
            r = False
            for v in col:
                r = T.lor(r, T.truth(v))
            return r
        return self.reduce_axes(x, axis, fold, "any", False)

    def c_all(self, x, axis=None):
        if is_scalar(x):
            return T.truth(x)
        def fold(col):
            r = True
            for v in col:
                r = T.land(r, T.truth(v))
            return r
        return self.reduce_axes(x, axis, fold, "all", True)

    def c_max(self, x, axis=None, initial=None, **k):
        def fold(col):
            col = list(col) if initial is None else list(col) + [n(initial) if not isinstance(initial, Arr) else initial.a.flat[0]]
            if not col:
                raise A.AbsRaise("ValueError", "empty max")
            r = col[0]
            for v in col[1:]:
                r = v if isnan(v) else r if isnan(r) else T.select(T.cmp(">=", n(r), n(v)), r, v)
            return r
        return self.reduce_axes(x, axis, fold, "max", T.havoc("mm"))

    def c_nanmax(self, x, axis=None, **k):
        def fold(col):
            col = list(col)
            if not col:
                raise A.AbsRaise("ValueError", "empty max")
            known = [v for v in col if not isnan(v)] or col
            r = known[0]
            for v in known[1:]:
                r = T.select(T.cmp(">=", n(r), n(v)), r, v)
            return r
        return self.reduce_axes(x, axis, fold, "max", T.havoc("mm"))

    def c_min(self, x, axis=None, initial=None, **k):
        def fold(col):
            col = list(col) if initial is None else list(col) + [n(initial) if not isinstance(initial, Arr) else initial.a.flat[0]]
            if not col:
                raise A.AbsRaise("ValueError", "empty min")
            r = col[0]
            for v in col[1:]:
                r = v if isnan(v) else r if isnan(r) else T.select(T.cmp("<=", n(r), n(v)), r, v)
            return r
        return self.reduce_axes(x, axis, fold, "min", T.havoc("mm"))

    def c_nanmin(self, x, axis=None, **k):
        def fold(col):
            col = list(col)
            if not col:
                raise A.AbsRaise("ValueError", "empty min")
            known = [v for v in col if not isnan(v)] or col
            r = known[0]
            for v in known[1:]:
                r = T.select(T.cmp("<=", n(r), n(v)), r, v)
            return r
        return self.reduce_axes(x, axis, fold, "min", T.havoc("mm"))

    c_amax = c_max
    c_amin = c_min

    def c_mean(self, x, axis=None, **k):
        x = self.asarr(x)
        s = self.c_sum(x, axis=axis)
        if axis is None:
            cnt = self.getattr_(x, "size")
        else:
            cnt = self.getattr_(x, "shape")[axis]
        if x.mask is not None:
            cnt = T.reduce_("sum", T.select(x.mask, 1, 0))
        return self.binop("Div", s, cnt)

    def c_average(self, x, axis=None, weights=None):
        if weights is None:
            return self.c_mean(x, axis=axis)
        return self.binop("Div", self.c_sum(self.binop("Mult", x, weights), axis=axis), self.c_sum(weights, axis=axis))

    def c_cumsum(self, x, axis=None):
        x = self.asarr(x)
        if any(x.sym):
            raise Unsupported("cumsum")
        r, out = 0, []
        for v in x.a.flat:
            r = T.add(r, v)
            out.append(r)
        return vec(out)

    def c_cumprod(self, x, axis=None):
        x = self.asarr(x)
        if any(x.sym) or x.a.ndim != 1:
            raise Unsupported("cumprod")
        r, out = 1, []
        for v in x.a.flat:
            r = T.mul(r, v)
            out.append(r)
        return vec(out)

    def c_diff(self, x, **k):
        x = self.asarr(x)
        if any(x.sym) or x.a.ndim != 1:
            raise Unsupported("diff")
        return vec([T.sub(x.a[i + 1], x.a[i]) for i in range(x.a.size - 1)])

    def contract(self, a, b):
        """sum over last axes of a and b: out[..a.., ..b..]"""
        if a.a.ndim == 0 or b.a.ndim == 0:
            return self.elementwise(self.opfun("Mult"), a, b)
        if a.sym[-1] != b.sym[-1]:
            if not (a.a.shape[-1] == 1 and b.a.shape[-1] == 1):
                raise A.AbsRaise("ValueError", "shapes not aligned")
            raise Unsupported("contract N with 1")
        if a.a.shape[-1] != b.a.shape[-1]:
            raise A.AbsRaise("ValueError", "shapes not aligned")
        sa, sb = a.a.shape[:-1], b.a.shape[:-1]
        out = np.empty(sa + sb, dtype=object)
        n_ = a.a.shape[-1]
        mask = a.mask if a.mask is not None else b.mask
        sy = a.sym[-1]
        for i in np.ndindex(sa):
            for j in np.ndindex(sb):
                r = 0
                for k in range(n_):
                    v = T.mul(n(a.a[i + (k,)]), n(b.a[j + (k,)]))
                    if sy:
                        if mask is not None:
                            v = T.select(mask, v, 0)
                        v = T.reduce_("sum", v)
                    r = T.add(r, v)
                out[i + j] = r
        return self.unwrap(Arr(out, a.sym[:-1] + b.sym[:-1], None if sy else mask))

    def c_inner(self, a, b):
        return self.contract(self.asarr(a), self.asarr(b))

    def c_dot(self, a, b):
        a, b = self.asarr(a), self.asarr(b)
        if b.a.ndim >= 2:
            p = list(range(b.a.ndim))
            p.append(p.pop(-2))
            b = Arr(b.a.transpose(p), tuple(b.sym[i] for i in p), b.mask, b.dtype)
        return self.contract(a, b)

    c_matmul = c_dot
    c_vdot = c_inner

    def c_outer(self, a, b):
        a, b = self.asarr(a), self.asarr(b)
        return self.binop("Mult", Arr(a.a[:, None], a.sym + (False,), a.mask, a.dtype), Arr(b.a[None, :], (False,) + b.sym, b.mask, b.dtype))

    def c_tensordot(self, a, b, axes=2):
        a, b = self.asarr(a), self.asarr(b)
        if isinstance(axes, (tuple, AList)):
            ax = self.I.iterate(axes)
            ia = ax[0] if isinstance(ax[0], int) else self.I.iterate(ax[0])[0]
            ib = ax[1] if isinstance(ax[1], int) else self.I.iterate(ax[1])[0]
            pa = [i for i in range(a.a.ndim) if i != ia % a.a.ndim] + [ia % a.a.ndim]
            pb = [i for i in range(b.a.ndim) if i != ib % b.a.ndim] + [ib % b.a.ndim]
            return self.contract(self.c_transpose(a, tuple(pa)), self.c_transpose(b, tuple(pb)))
        if axes == 0:
            ashape = a.a.reshape(a.a.shape + (1,) * b.a.ndim)
            return self.binop("Mult", Arr(ashape, a.sym + (False,) * b.a.ndim), b)
        if axes == 1:
            pb = list(range(1, b.a.ndim)) + [0]
            return self.contract(a, self.c_transpose(b, tuple(pb)))
        raise Unsupported("tensordot")

    def c_einsum(self, *a, **k):
        raise Unsupported("einsum")

    def c_norm(self, x, *a, **k):
        if a or k:
            raise Unsupported("norm")
        return self.elementwise(lambda v: T.fn("sqrt", v), self.c_sum(self.c_square(x)))

    # linear algebra on small concrete matrices
    def mat(self, x):
        x = self.asarr(x)
        if x.a.ndim != 2 or any(x.sym) or x.a.shape[0] != x.a.shape[1] or x.a.shape[0] > 4:
            raise Unsupported("matrix")
        return x.a

    def det_(self, m):
        k = m.shape[0]
        if k == 1:
            return m[0, 0]
        r = 0
        for j in range(k):
            minor = np.delete(np.delete(m, 0, 0), j, 1)
            r = T.add(r, T.mul((-1) ** j, T.mul(m[0, j], self.det_(minor))))
        return r

    def c_det(self, x):
        return self.det_(self.mat(x))

    def numeric(self, x):
        x = self.asarr(x)
        if not any(x.sym) and x.a.size and all(T.isnum(v) for v in x.a.flat):
            return np.array([float(v) for v in x.a.flat]).reshape(x.a.shape)
        return None

    def folded(self, r):
        out = np.empty(r.shape, dtype=object)
        for j in np.ndindex(r.shape):
            out[j] = float(r[j])
        return Arr(out)

    def c_inv(self, x):
        c = self.numeric(x)
        if c is not None:
            try:
                return self.folded(np.linalg.inv(c))
            except np.linalg.LinAlgError:
                raise A.AbsRaise("LinAlgError")
        m = self.mat(x)
        k = m.shape[0]
        d = self.det_(m)
        out = np.empty((k, k), dtype=object)
        if k == 1:
            out[0, 0] = T.div(1, d)
            return Arr(out)
        for i in range(k):
            for j in range(k):
                minor = np.delete(np.delete(m, j, 0), i, 1)
                out[i, j] = T.div(T.mul((-1) ** (i + j), self.det_(minor)), d)
        return Arr(out)

    def c_pinv(self, x, **k):
        return self.c_inv(x)

    def c_solve(self, a, b):
        ca, cb = self.numeric(a), self.numeric(b)
        if ca is not None and cb is not None:
            try:
                return self.folded(np.linalg.solve(ca, cb))
            except np.linalg.LinAlgError:
                raise A.AbsRaise("LinAlgError")
        return self.c_dot(self.c_inv(a), b)

    def c_cholesky(self, x):
        m = self.mat(x)
        k = m.shape[0]
        L = np.empty((k, k), dtype=object)
        for i in range(k):
            for j in range(k):
                L[i, j] = 0
        for i in range(k):
            for j in range(i + 1):
                s = 0
                for q in range(j):
                    s = T.add(s, T.mul(L[i, q], L[j, q]))
                if i == j:
                    L[i, j] = T.fn("sqrt", T.sub(m[i, i], s))
                else:
                    L[i, j] = T.div(T.sub(m[i, j], s), L[j, j])
        return Arr(L)

    def c_qr(self, x, mode="reduced"):
        x = self.asarr(x)
        if x.a.ndim != 2 or x.sym[1]:
            raise Unsupported("qr")
        g = self.contract(self.c_transpose(x), self.c_transpose(x))
        L = self.c_cholesky(g)
        R = self.c_transpose(L)
        Q = self.c_dot(x, self.c_inv(R))
        return (Q, R)

    def c_lstsq(self, a, b, **k):
        at = self.c_transpose(self.asarr(a))
        return (self.c_solve(self.contract(at, at), self.contract(at, self.asarr(b))), TOP, TOP, TOP)

    def c_eigh(self, x, *a, **kw):
        c = self.numeric(x)
        if c is not None:
            v, w = np.linalg.eigh(c)
            return (self.folded(v), self.folded(w))
        k = self.asarr(x).a.shape[0]
        return (vec([T.havoc("eig") for _ in range(k)]), Arr(np.array([[T.havoc("ev") for _ in range(k)] for _ in range(k)], dtype=object)))

    def c_eig(self, x):
        c = self.numeric(x)
        if c is not None and np.allclose(c, c.T):
            return self.c_eigh(x)
        k = self.asarr(x).a.shape[0]
        return (vec([T.havoc("eig") for _ in range(k)]), Arr(np.array([[T.havoc("ev") for _ in range(k)] for _ in range(k)], dtype=object)))

    def c_svd(self, x, full_matrices=True, compute_uv=True, **kw):
        c = self.numeric(x)
        if c is None:
            raise Unsupported("svd")
        if not compute_uv:
            return self.folded(np.linalg.svd(c, compute_uv=False))
        return tuple(self.folded(q) for q in np.linalg.svd(c, full_matrices=full_matrices))

    def c_set_printoptions(self, *a, **k):
        return None

    def c_errstate(self, *a, **k):
        return ExtObj("errstate")

    def c_seterr(self, *a, **k):
        return ADict()

    def c_RandomState(self, *a, **k):
        return self.newrng("RandomState", a[0] if a else k.get("seed"))

    def newrng(self, origin, seed):
        I = self.I
        r = RngObj(origin if seed is not None else "unseeded", seed)
        r.by = I.frames[-1].func.qname if I.frames and I.frames[-1].func else "<module>"
        I.rngs.append(r)
        return r

    def c_factorial(self, x, *a, **k):
        return self.elementwise(lambda v: math.factorial(v) if isinstance(v, int) else T.fn("gamma", T.add(v, 1)), x)

    def c_comb(self, a, b, **k):
        if isinstance(a, int) and isinstance(b, int):
            return math.comb(a, b)
        raise Unsupported("comb")

    c_binom = c_comb

    def c_integer(self, *a):
        raise Unsupported("numpy.integer()")

    def c_float64(self, x):
        return self.b_float(x)

    c_float32 = c_float64

    def c_int64(self, x):
        return self.b_int(x)

    def c_promote_types(self, a, b):
        return Ext("dtype.float")

    def c_binary_repr(self, *a):
        if len(a) == 1 and isinstance(a[0], int):
            return np.binary_repr(a[0])
        return Top("str")

    def c_nan_to_num(self, x, **k):
        return x

    def c_frompyfunc(self, *a):
        raise Unsupported("frompyfunc")

    def c_vectorize(self, *a, **k):
        raise Unsupported("vectorize")

    # ---------------- rng
    def rng_call(self, origin, meth, args, kw, node):
        I = self.I
        I.rng_events.append((origin, meth, I.frames[-1].func.qname if I.frames and I.frames[-1].func else "<module>",
                             getattr(node, "lineno", 0)))
        if meth in ("RandomState", "default_rng", "Generator"):
            return self.newrng("RandomState", args[0] if args else kw.get("seed"))
        if meth == "seed":
            return None
        if I.live is not None:
            return I.live(I, I.globalrng, meth, args, kw, node)
        return self.draw(meth, args, kw)

    def draw(self, meth, args, kw):
        if self.I.draw_script is not None:
            r = self.I.draw_script(self.I, meth, args, kw)
            if r is not NotImplemented:
                return r
        kind = "unit" if meth in ("rand", "random", "random_sample", "uniform") else "param"
        if meth in ("rand", "randn"):
            dims = args
            if not dims:
                return T.havoc("rng", kind)
            return self.rand_arr(tuple(dims), kind)
        if meth in ("standard_normal", "random", "random_sample"):
            s = args[0] if args else kw.get("size")
            return T.havoc("rng", kind) if s is None else self.rand_arr(s, kind)
        if meth in ("randint",):
            s = args[2] if len(args) > 2 else kw.get("size")
            return T.havoc("rint", "param") if s is None else self.rand_arr(s, "param", "int")
        if meth in ("uniform", "normal", "exponential"):
            s = args[2] if len(args) > 2 else kw.get("size")
            return T.havoc("rng", "param") if s is None else self.rand_arr(s, "param")
        if meth == "permutation":
            x = args[0]
            if isinstance(x, int):
                return Arr(np.array([T.havoc("perm") for _ in range(x)], dtype=object), dtype="int")
            x = self.asarr(x)
            return Arr(np.array([T.havoc("perm") for _ in range(x.a.size)], dtype=object).reshape(x.a.shape), x.sym, None, x.dtype)
        if meth == "shuffle":
            x = args[0]
            if isinstance(x, Arr):
                self.havoc_arr(x)
            elif isinstance(x, AList):
                I = self.I
                I.touch(x)
                x.items = [TOP] * len(x.items)
            return None
        if meth == "choice":
            return T.havoc("choice")
        return Top("rng." + meth)

    def rand_arr(self, shape, kind, dt="float"):
        r = self.filled(shape, 0, dt)
        for i in np.ndindex(r.a.shape):
            r.a[i] = T.havoc("rng", kind if not any(r.sym) else "datum")
        return r

    # ================================================================ methods
    def method(self, r, name, args, kw, node=None):
        I = self.I
        args = [I.res(a) for a in args]
        kw = {k: I.res(v) for k, v in kw.items()}
        if isinstance(r, RngObj):
            I.rng_events.append((r.origin, name, I.frames[-1].func.qname if I.frames and I.frames[-1].func else "?",
                                 getattr(node, "lineno", 0)))
            if name == "seed":
                return None
            if r.script is not None:
                v = r.script(I, name, args, kw)
                if v is not NotImplemented:
                    return v
            if I.live is not None:
                return I.live(I, r, name, args, kw, node)
            return self.draw(name, args, kw)
        if isinstance(r, Super) or (isinstance(r, Obj) and name.startswith("__")):
            return self.objmeth(name, [r.obj if isinstance(r, Super) else r] + args, kw)
        if isinstance(r, Obj) and r.items is not None:
            return self.listmeth(r.items, name, args, kw, r)
        if isinstance(r, Arr):
            return self.arrmeth(r, name, args, kw)
        if isinstance(r, Term) or (is_scalar(r)):
            if name in ("copy", "astype", "flatten", "reshape", "transpose", "item", "squeeze"):
                return r
            if name == "sum":
                return r
            if isinstance(r, (int, float)) and all(isinstance(a, (int, float)) for a in args):
                try:
                    return getattr(r, name)(*args)
                except Exception:
                    pass
            return Top("num." + name)
        if isinstance(r, AList):
            return self.listmeth(r, name, args, kw, None)
        if isinstance(r, ADict):
            if name == "keys":
                return AList(list(r.d.keys()))
            if name == "values":
                return AList(list(r.d.values()))
            if name == "items":
                return AList([(k, v) for k, v in r.d.items()])
            if name == "get":
                return r.d.get(A.hkey(args[0]), args[1] if len(args) > 1 else None)
            if name == "setdefault":
                I.touch(r)
                return r.d.setdefault(A.hkey(args[0]), args[1] if len(args) > 1 else None)
            if name == "copy":
                return ADict(dict(r.d))
            if name == "update":
                I.touch(r)
                if args and isinstance(args[0], ADict):
                    r.d.update(args[0].d)
                r.d.update(kw)
                return None
            if name == "pop":
                I.touch(r)
                k = A.hkey(args[0])
                if k in r.d:
                    return r.d.pop(k)
                if len(args) > 1:
                    return args[1]
                raise A.AbsRaise("KeyError")
            return Top("dict." + name)
        if isinstance(r, str):
            if all(isinstance(a, (str, int)) for a in args) and not kw:
                try:
                    v = getattr(r, name)(*args)
                    if isinstance(v, list):
                        return AList(v)
                    return v
                except Exception:
                    return Top("str." + name)
            if name == "join":
                return Top("str")
            return Top("str." + name)
        if isinstance(r, tuple):
            if name == "index":
                return list(r).index(args[0])
            if name == "count":
                return list(r).count(args[0])
        if isinstance(r, GenIter) and name == "__next__":
            return self.b_next(r)
        if isinstance(r, UnitV):
            return Top("unit." + name)
        return Top("method %s of %r" % (name, r))

    def objmeth(self, name, args, kw):
        I = self.I
        o = I.res(args[0]) if args else None
        if name == "__setattr__":
            if isinstance(o, Obj):
                I.raw_setattr(o, args[1], args[2])
            return None
        if name in ("__getattr__", "__getattribute__"):
            if isinstance(o, Obj) and args[1] in o.attrs:
                return o.attrs[args[1]]
            raise A.AbsRaise("AttributeError", str(args[1]))
        if name == "__init__":
            if isinstance(o, Obj) and o.items is not None and len(args) > 1:
                I.touch(o.items)
                o.items.items = list(I.iterate(args[1]))
            return None
        if name in ("__str__", "__repr__"):
            return Top("str")
        return Top(name)

    def listmeth(self, r, name, args, kw, owner):
        I = self.I
        if name not in ("index", "copy", "count", "__len__", "__getitem__"):
            for h in I.write_hooks:
                h(I, "list", r, name, args)
            I.touch(r)
        if name == "append":
            if not getattr(r, "unknown", False):
                r.items.append(args[0])
            return None
        if name == "extend":
            r.items.extend(I.iterate(args[0]))
            return None
        if name == "insert":
            if isinstance(args[0], int):
                r.items.insert(args[0], args[1])
            else:
                r.items = [TOP]
                r.unknown = True
            return None
        if name == "pop":
            if getattr(r, "unknown", False):
                return TOP
            try:
                return r.items.pop(*args)
            except (IndexError, TypeError):
                raise A.AbsRaise("IndexError")
        if name == "remove":
            x = args[0]
            for k, y in enumerate(r.items):
                e = (y is x) or self.compare("Eq", x, y)
                if e is True:
                    del r.items[k]
                    return None
                if e is not False:
                    r.items = [TOP]
                    r.unknown = True
                    return None
            raise A.AbsRaise("ValueError", "remove")
        if name == "index":
            for k, y in enumerate(r.items):
                e = (y is args[0]) or self.compare("Eq", args[0], y)
                if e is True:
                    return k
                if e is not False:
                    return T.havoc("index")
            raise A.AbsRaise("ValueError", "index")
        if name == "copy":
            return AList(list(r.items))
        if name == "count":
            return sum(1 for y in r.items if self.compare("Eq", args[0], y) is True)
        if name == "clear":
            r.items = []
            return None
        if name == "reverse":
            r.items.reverse()
            return None
        if name == "sort":
            if all(T.isnum(x) for x in r.items) and not kw:
                r.items.sort()
                return None
            if len(r.items) <= 1:
                return None
            h = getattr(I, "sort_hook", None)
            if h is not None:
                return h(I, r, kw)
            kf = I.res(kw.get("key"))
            if all(not isinstance(x, (Top, Choice)) for x in r.items) and not getattr(r, "unknown", False):
                ks = [x if kf is None else I.res(I.call(kf, [x])) for x in r.items]
                if all(T.isnum(x) for x in ks) and kw.get("reverse", False) in (False, True):
                    r.items = [r.items[j] for j in sorted(range(len(ks)), key=lambda j: ks[j], reverse=kw.get("reverse", False))]
                    return None
            return None      # order unknown to us: keep (elements are the same multiset)
        if name == "__len__":
            return len(r.items)
        if name == "__getitem__":
            return self.getitem(r, args[0])
        if name == "__init__":
            if args:
                r.items = list(I.iterate(args[0]))
            return None
        return Top("list." + name)

    FREE = {"dtype", "order", "copy", "subok", "rcond", "initial", "casting"}
    OPEN = {"set_printoptions", "errstate", "seterr", "vectorize"}

    def guard(self, short, m, args, kw):
        """refuse keywords which the model of the function does not know"""
        if not kw or short in self.OPEN:
            return
        if short in ELEM1:
            names = set()
        elif m is None:
            return
        else:
            names = set(inspect.signature(m).parameters)
        bad = [k for k in kw if k not in names and k not in self.FREE]
        if kw.get("order", "C") not in ("C", "K", "A", None) and "order" not in names:
            bad.append("order")
        if "initial" in kw and short not in ("max", "min", "amax", "amin"):
            bad.append("initial")
        if bad:
            raise Unsupported("%s( %s= )" % (short, ",".join(bad)))

    def arrmeth(self, r, name, args, kw):
        if name in ("sum", "any", "all", "max", "min", "mean", "prod", "cumsum", "dot", "squeeze", "ravel", "repeat", "round"):
            m = {"round": "around"}.get(name, name)
            self.guard(m, getattr(self, "c_" + m), args, kw)
            return getattr(self, "c_" + m)(r, *args, **kw)
        if name == "copy":
            return r.copy()
        if name == "flatten":
            x = self.reshape(r, [-1])
            return x.copy()
        if name == "transpose":
            if not args:
                return self.c_transpose(r)
            ax = args[0] if isinstance(args[0], (tuple, AList)) else tuple(args)
            return self.c_transpose(r, ax)
        if name == "reshape":
            sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, AList)) else tuple(args)
            kw.pop("order", None)
            return self.reshape(r, list(self.I.iterate(sh)))
        if name == "astype":
            return self.cast(r.copy(), args[0] if args else kw.get("dtype"))
        if name == "tolist":
            if r.a.ndim == 1 and not any(r.sym):
                return AList(list(r.a))
            return Top("tolist")
        if name == "diagonal":
            return self.c_diagonal(r)
        if name == "item":
            return r.a.flat[0] if r.a.size == 1 else Top("item")
        if name == "fill":
            self.write(r, args[0])
            return None
        if name == "sort":
            self.I.touch(r)
            for h in self.I.write_hooks:
                h(self.I, "array", r, "sort", None)
            if all(T.isnum(v) for v in r.a.flat):
                r.a.sort()
            else:
                self.havoc_arr(r)
            return None
        if name == "conj":
            return self.elem1("conj", r)
        if name in ("argmax", "argmin", "argsort", "nonzero", "std", "var", "index"):
            return Top(name)
        raise A.AbsRaise("AttributeError", "ndarray has no attribute " + name) if not hasattr(np.ndarray, name) else Unsupported("ndarray." + name)

    # ================================================================ builtins
    def b_len(self, x):
        x = self.I.res(x)
        if isinstance(x, Arr):
            if x.a.ndim == 0:
                raise A.AbsRaise("TypeError", "len of 0-d")
            if x.sym[0]:
                return T.mul(NLEN if x.mask is None else self.count(x.mask), x.a.shape[0])
            return x.a.shape[0]
        if isinstance(x, IndexSet):
            return self.count(x.mask)
        if isinstance(x, AList):
            if getattr(x, "unknown", False):
                return T.havoc("len")
            return len(x.items)
        if isinstance(x, Obj):
            if x.items is not None:
                return len(x.items.items)
            m = self.I.find(x.cls, "__len__")
            if m is None:
                raise A.AbsRaise("TypeError", "no len")
            return self.I.call(Bound(x, m), [], {})
        if isinstance(x, ADict):
            return len(x.d)
        if isinstance(x, (str, tuple, range)):
            return len(x)
        if isinstance(x, IndexSet):
            return T.reduce_("sum", T.select(x.mask, 1, 0))
        if isinstance(x, A.DataRange):
            return NLEN
        if isinstance(x, Choice):
            return self.I.fork_value(x.c, lambda: self.b_len(x.a), lambda: self.b_len(x.b))
        if isinstance(x, Top):
            return T.havoc("len")
        raise A.AbsRaise("TypeError", "no len")

    def b_range(self, *a):
        a = [int(x) if isinstance(x, (Fraction, bool)) else x for x in a]
        if len(a) == 1 and a[0] is NLEN:
            return A.DataRange()
        if len(a) == 2 and a[0] == 0 and a[1] is NLEN:
            return A.DataRange()
        if all(isinstance(x, int) for x in a):
            return range(*a)
        return Top("range")

    def b_enumerate(self, x, start=0):
        x = self.I.res(x)
        if isinstance(x, Arr) and x.sym and x.sym[0]:
            return A.Zip((A.DataRange(), x))
        return AList([(k + start, v) for k, v in enumerate(self.I.iterate(x))])

    def b_zip(self, *xs):
        xs = [self.I.res(x) for x in xs]
        if any(isinstance(x, A.DataRange) or (isinstance(x, Arr) and x.sym and x.sym[0]) for x in xs):
            return A.Zip(tuple(xs))
        return AList([tuple(t) for t in zip(*[self.I.iterate(x) for x in xs])])

    def b_reversed(self, x):
        return AList(list(reversed(self.I.iterate(x))))

    def b_sorted(self, x, key=None, reverse=False):
        it = self.I.iterate(x)
        if all(T.isnum(v) for v in it) and key is None:
            return AList(sorted(it, reverse=bool(reverse)))
        if all(isinstance(v, str) for v in it):
            return AList(sorted(it))
        return Top("sorted")

    def b_map(self, f, *xs):
        return AList([self.I.call(f, list(t)) for t in zip(*[self.I.iterate(x) for x in xs])])

    def b_filter(self, f, x):
        out = []
        for v in self.I.iterate(x):
            c = self.I.truth(v if f is None else self.I.call(f, [v]))
            if c is True:
                out.append(v)
            elif c is not False:
                raise Unsupported("filter")
        return AList(out)

    def b_iter(self, x):
        if isinstance(x, GenIter):
            return x
        return GenIter(self.I.iterate(x))

    def b_next(self, g, *d):
        if isinstance(g, GenIter):
            if g.pos < len(g.items):
                self.I.touch(g)
                g.pos += 1
                return g.items[g.pos - 1]
            if g.exc is not None:
                raise g.exc
            if d:
                return d[0]
            raise A.AbsRaise("StopIteration")
        if isinstance(g, Obj):
            m = self.I.find(g.cls, "__next__")
            if m:
                return self.I.call(Bound(g, m), [], {})
        return Top("next")

    def b_list(self, x=()):
        x = self.I.res(x)
        if isinstance(x, A.DataRange):
            return x
        return AList(self.I.iterate(x))

    def b_tuple(self, x=()):
        return tuple(self.I.iterate(x))

    def b_set(self, x=()):
        return ASet(list(dict.fromkeys(self.I.iterate(x))))

    def b_dict(self, *a, **k):
        d = {}
        if a:
            if isinstance(a[0], ADict):
                d.update(a[0].d)
            else:
                for kv in self.I.iterate(a[0]):
                    d[kv[0]] = kv[1]
        d.update(k)
        return ADict(d)

    def b_abs(self, x):
        return self.elem1("abs", x)

    def b_max(self, *a, **k):
        it = list(a) if len(a) > 1 else self.I.iterate(a[0])
        r = it[0]
        for v in it[1:]:
            if isinstance(r, Top) or isinstance(v, Top):
                return Top("max")
            r = T.select(T.cmp(">=", n(r), n(v)), r, v)
        return r

    def b_min(self, *a, **k):
        it = list(a) if len(a) > 1 else self.I.iterate(a[0])
        r = it[0]
        for v in it[1:]:
            if isinstance(r, Top) or isinstance(v, Top):
                return Top("min")
            r = T.select(T.cmp("<=", n(r), n(v)), r, v)
        return r

    def b_sum(self, x, start=0):
        x = self.I.res(x)
        if isinstance(x, Arr) and x.a.ndim == 1:
            return self.binop("Add", start, self.c_sum(x)) if not (T.isnum(start) and start == 0) else self.c_sum(x)
        r = start
        for v in self.I.iterate(x):
            r = self.I.binary("Add", r, v)
        return r

    def b_any(self, x):
        x = self.I.res(x)
        if isinstance(x, Arr):
            return self.c_any(x)
        r = False
        for v in self.I.iterate(x):
            r = T.lor(r, self.I.truth(v))
        return r

    def b_all(self, x):
        x = self.I.res(x)
        if isinstance(x, Arr):
            return self.c_all(x)
        r = True
        for v in self.I.iterate(x):
            r = T.land(r, self.I.truth(v))
        return r

    def b_int(self, x=0, *a):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, (int, float, Fraction)):
            return int(x)
        if isinstance(x, Term):
            if x is NLEN or x.op == "havoc":
                return x
            return T.select(T.cmp("<", x, 0), T.fn("ceil", x), T.fn("floor", x))
        if isinstance(x, Arr) and x.a.size == 1:
            return self.b_int(x.a.flat[0])
        if isinstance(x, str):
            try:
                return int(x, *a)
            except ValueError:
                raise A.AbsRaise("ValueError")
        return Top("int")

    def b_float(self, x=0.0):
        if isinstance(x, (int, float)):
            return float(x)
        if isinstance(x, (Term, Fraction)):
            return x
        if isinstance(x, Arr) and x.a.size == 1 and not any(x.sym):
            return x.a.flat[0]
        return Top("float")

    def b_bool(self, x=False):
        return self.I.truth(x)

    def b_str(self, x=""):
        if isinstance(x, str):
            return x
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return str(x)
        if isinstance(x, Obj):
            m = self.I.find(x.cls, "__str__")
            if m is not None:
                return self.I.call(Bound(x, m), [], {})
        return Top("str")

    b_repr = b_str

    def b_round(self, x, *a):
        if isinstance(x, (int, float)):
            return round(x, *a)
        return Top("round")

    def b_pow(self, x, y):
        return self.binop("Pow", x, y)

    def b_divmod(self, x, y):
        return (self.binop("FloorDiv", x, y), self.binop("Mod", x, y))

    def b_print(self, *a, **k):
        return None

    def b_id(self, x):
        return T.havoc("id")

    def b_callable(self, x):
        if isinstance(x, (Func, Bound, Cls, Native, BMeth, Ext)):
            return True
        if isinstance(x, Obj):
            return self.I.find(x.cls, "__call__") is not None
        if isinstance(x, Top):
            return T.havoc("callable", "bool")
        return False

    def b_hasattr(self, o, name):
        o = self.I.res(o)
        if isinstance(o, Top):
            return T.havoc("hasattr", "bool")
        try:
            v = self.I.getattr_(o, name)
        except A.AbsRaise:
            return False
        if isinstance(v, BMeth) and not isinstance(v.recv, Obj):
            pt = {Arr: np.ndarray, AList: list, ADict: dict, str: str, tuple: tuple}.get(type(v.recv))
            if pt is not None:
                return hasattr(pt, name)
            if isinstance(v.recv, (int, float)):
                return hasattr(v.recv, name)
            if isinstance(v.recv, Term):
                return name not in ("__len__",)
        return True

    def b_getattr(self, o, name, *d):
        try:
            return self.I.getattr_(o, name)
        except A.AbsRaise as e:
            if d and e.name == "AttributeError":
                return d[0]
            raise

    def b_setattr(self, o, name, v):
        self.I.setattr_(o, name, v)
        return None

    def b_delattr(self, o, name):
        o = self.I.res(o)
        if isinstance(o, Obj):
            self.I.touch(o)
            o.attrs.pop(name, None)

    def b_vars(self, o):
        return ADict(dict(o.attrs)) if isinstance(o, Obj) else Top("vars")

    def b_type(self, x, *a):
        x = self.I.res(x)
        if isinstance(x, Obj):
            return x.cls
        t = {bool: "bool", int: "int", float: "float", str: "str", tuple: "tuple", AList: "list", ADict: "dict",
             type(None): "NoneType", complex: "complex"}.get(type(x))
        if t:
            return Ext("builtins." + t)
        if isinstance(x, Term):
            return Ext("builtins.float")
        if isinstance(x, Arr):
            return Ext("numpy.ndarray")
        return Top("type")

    def b_isinstance(self, x, c):
        I = self.I
        x, c = I.res(x), I.res(c)
        if isinstance(c, (tuple, AList)):
            r = False
            for k in I.iterate(c):
                r = T.lor(r, self.b_isinstance(x, k))
            return r
        if isinstance(x, Choice):
            return I.fork_value(x.c, lambda: self.b_isinstance(x.a, c), lambda: self.b_isinstance(x.b, c))
        if isinstance(x, Top) or isinstance(c, Top):
            return T.havoc("isinst", "bool")
        if isinstance(c, Cls):
            return isinstance(x, Obj) and any(b is c or (isinstance(b, Cls) and b.name == c.name and b.module.name == c.module.name) for b in c3(x.cls))
        if isinstance(c, Ext):
            s = c.name.split(".")[-1]
            if isinstance(x, Obj):
                return any(isinstance(b, Ext) and b.name == c.name for b in c3(x.cls)) or s == "object"
            if s == "int":
                return isinstance(x, int) or (isinstance(x, Term) and x is NLEN)
            if s == "float":
                return isinstance(x, (float, Fraction)) or (isinstance(x, Term) and x is not NLEN)
            if s in ("integer",):
                return False
            if s in ("Number", "Real"):
                return is_scalar(x)
            if s == "bool":
                return isinstance(x, bool)
            if s == "str":
                return isinstance(x, str)
            if s == "list":
                return type(x) is AList
            if s == "tuple":
                return isinstance(x, tuple)
            if s == "dict":
                return isinstance(x, ADict)
            if s == "set":
                return isinstance(x, ASet)
            if s == "ndarray":
                return isinstance(x, Arr)
            if s == "Unit" or "Unit" in s:
                return isinstance(x, UnitV)
            if isinstance(x, ExtObj):
                return x.name == c.name
            return False
        return T.havoc("isinst", "bool")

    def b_issubclass(self, x, c):
        if isinstance(x, Cls) and isinstance(c, Cls):
            return any(b is c for b in c3(x))
        return T.havoc("issub", "bool")

    def b_open(self, *a, **k):
        return Top("file")

    def b_slice(self, *a):
        a = list(a)
        if len(a) == 1:
            return SliceV(None, a[0], None)
        while len(a) < 3:
            a.append(None)
        return SliceV(*a)

    def b_complex(self, re=0, im=0):
        if T.isnum(re) and T.isnum(im):
            return complex(re, im)
        return T.add(re, T.mul(complex(0, 1), im))

    # ---------- units
    def unit_op(self, op, a, b):
        if isinstance(a, UnitV) and isinstance(b, UnitV):
            if op == "Mult":
                return a.mul(b)
            if op == "Div":
                return a.mul(b.pow(-1))
        if isinstance(a, UnitV) and op == "Pow" and (T.isnum(b) or isinstance(b, Term)):
            return a.pow(b) if T.isnum(b) else Top("unit**?")
        if isinstance(a, UnitV) and T.isnum(b) and op in ("Mult", "Div"):
            return a
        if isinstance(b, UnitV) and T.isnum(a):
            return b if op == "Mult" else b.pow(-1)
        return Top("unit op")


class UnitV(object):
    """dimension vector of a physical unit"""

    def __init__(self, exps):
        self.exps = {k: v for k, v in exps.items() if v != 0}

    @staticmethod
    def base(name):
        if name in ("dimensionless_unscaled", "one", ""):
            return UnitV({})
        if name in ("rad", "radian", "deg", "degree"):
            return UnitV({})
        return UnitV({name: Fraction(1)})

    def mul(self, o):
        e = dict(self.exps)
        for k, v in o.exps.items():
            e[k] = e.get(k, 0) + v
        return UnitV(e)

    def pow(self, p):
        p = Fraction(p).limit_denominator(1000)
        return UnitV({k: v * p for k, v in self.exps.items()})

    def __eq__(self, o):
        return isinstance(o, UnitV) and o.exps == self.exps

    def __hash__(self):
        return hash(tuple(sorted(self.exps.items())))

    def __repr__(self):
        return "Unit%s" % ({k: str(v) for k, v in self.exps.items()},)


BOOLOPS = ("cmp", "and", "or", "not", "any", "all", "isnan")


def n(x):
    """numeric view of an element"""
    if isinstance(x, bool):
        return int(x)
    return x


def num_like(v):
    return is_scalar(v) or (isinstance(v, Arr))


def I_items(I, x):
    try:
        return I.iterate(x)
    except A.Unsupported:
        return []
