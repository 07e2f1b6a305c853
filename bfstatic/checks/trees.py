"""C26 decision trees: each input gets the parameter of the one leaf it falls in, whatever happened to the tree"""
import re as regex
import numpy as np
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup as msetup
from . import limits
from .dynamic import get, nums, check, setlim

S = T.sym
al = lambda *v: AList(list(v))
NAN = float("nan")
CLS = "DecisionTreeModel"
X3 = [[0.1, 0.5, 0.9], [0.7, 0.2, 0.3], [0.9, 0.8, 0.1], [0.2, 0.9, 0.6], [1.0, 0.0, 0.0], [0.0, 1.0, 1.0], [0.45, 0.35, 0.55], [0.45, 0.65, 0.2]]
XN = [[0.1, NAN, 0.9], [0.7, 0.2, 0.3], [NAN, 0.8, 0.1], [0.2, 0.9, NAN], [1.0, 0.0, 0.0], [0.0, 1.0, 1.0], [0.45, NAN, 0.55], [NAN, NAN, 0.2]]
XC = [[3, 1, 1, 4], [7, 2, 0, 1], [-2, 4, 1, 8], [5, 1, 0, 2], [4, 2, 1, 16], [9, 4, 0, 4], [0, 1, 1, 1], [2, 2, 0, 8]]
X1 = [0.1, 0.7, 0.9, 0.2, 1.0, 0.0, 0.45, 0.6]
# name: (data, types of the axes); in "cat" the axes have floats, 3 categories, booleans and 5 categories
DATA = {"float": (X3, [0]), "nan": (XN, [0]), "cat": (XC, [0, 3, 1, 5]), "one": (X1, [0])}
CUTS = {"float": [(0, 0.5), (1, 0.4), (2, 0.7), (1, 0.25), (0, 0.8), (2, 0.3), (0, 0.35)], "nan": [(1, 0.5), (0, 0.4), (2, 0.7), (1, 0.25), (0, 0.8), (2, 0.3), (1, 0.65)],
        "cat": [(1, 0.6), (0, 0.4), (3, 0.55), (2, 0.6), (3, 0.2), (1, 0.3), (0, 0.7)], "one": [(0, 0.5), (0, 0.4), (0, 0.7), (0, 0.25), (0, 0.8), (0, 0.3), (0, 0.35)]}
LIM = (-4.0, 5.0)


# ------------------------------------------------------------------------- the tree itself
def cut(types, dim, split):
    """what a branch does: a split of a float axis, or a mask of the categories to the left"""
    t = types[min(dim, len(types) - 1)]
    return ("split", split) if t == 0 else ("mask", 1 if t == 1 else int(split * (1 << t) + 1))


def column(data, dim):
    return [r[dim] if isinstance(r, list) else r for r in data]


def part(data, node, idx):
    dim, (kind, v), left, rite = node
    col = column(data, dim)
    if kind == "mask":
        l = [i for i in idx if (col[i] & v if v >= 2 else col[i] == v)]
    else:
        known = [col[i] for i in idx if col[i] == col[i]]
        c = min(known) + (max(known) - min(known)) * v if known else NAN
        l = [i for i in idx if (col[i] > c if col[i] == col[i] and c == c else v >= 0.5)]
    return l, [i for i in idx if i not in l]


def leafs(node):
    return 1 if node is None else leafs(node[2]) + leafs(node[3])


def fill(data, node, idx):
    """the inputs in each leaf, from left to right"""
    if node is None:
        return [idx]
    l, r = part(data, node, idx)
    return fill(data, node[2], l) + fill(data, node[3], r)


def encode(node):
    if node is None:
        return 1, [], []
    c, d, s = encode(node[2])
    e, f, g = encode(node[3])
    return 2 if (c, e) == (1, 1) else [c, e], [node[0]] + d + f, [node[1][1]] + s + g


def split_leaf(node, k, dim, how):
    if node is None:
        return (dim, how, None, None)
    n = leafs(node[2])
    if k < n:
        return (node[0], node[1], split_leaf(node[2], k, dim, how), node[3])
    return (node[0], node[1], node[2], split_leaf(node[3], k - n, dim, how))


def drop_leaf(node, k):
    """without leaf k: what is next to it takes the place of their branch"""
    n = leafs(node[2])
    if k < n:
        return node[3] if node[2] is None else (node[0], node[1], drop_leaf(node[2], k), node[3])
    return node[2] if node[3] is None else (node[0], node[1], node[2], drop_leaf(node[3], k - n))


def branches(node):
    return [] if node is None else [node] + branches(node[2]) + branches(node[3])


def recut(node, k, dim, how):
    """the k-th branch (in order of encode) gets another cut"""
    if k == 0:
        return (dim, how, node[2], node[3])
    n = len(branches(node[2]))
    if k <= n:
        return (node[0], node[1], recut(node[2], k - 1, dim, how), node[3])
    return (node[0], node[1], node[2], recut(node[3], k - 1 - n, dim, how))


def full(types, depth, cuts):
    """tree of the constructor, with its cuts in order of encode"""
    if depth == 0:
        return None
    n = (1 << (depth - 1)) - 1
    dim, s = cuts[0]
    return (dim, cut(types, dim, s), full(types, depth - 1, cuts[1:]), full(types, depth - 1, cuts[1 + n:]))


def plain(v):
    if isinstance(v, (AList, tuple, list)):
        return [plain(q) for q in (v.items if isinstance(v, AList) else v)]
    return float(v) if isinstance(v, float) else int(v) if T.isnum(v) and not isinstance(v, bool) and v == int(v) else v


def read(I, t, parent=None):
    """the tree as it is in the model"""
    if I.call(I.getattr_(t, "isLeaf"), []) is True:
        return None
    for c in ("left", "rite"):
        if I.getattr_(I.getattr_(t, c), "parent") is not t:
            raise AbsRaise("RuntimeError", "the parent of the %s of a branch is another one" % c)
    s, m = I.getattr_(t, "split"), I.getattr_(t, "mask")
    how = ("split", float(s)) if s is not None else ("mask", int(m))
    return (int(I.getattr_(t, "dimension")), how, read(I, I.getattr_(t, "left")), read(I, I.getattr_(t, "rite")))


def close(a, b):
    if a is None or b is None:
        return a is b
    return a[0] == b[0] and a[1][0] == b[1][0] and abs(a[1][1] - b[1][1]) < 1e-9 and close(a[2], b[2]) and close(a[3], b[3])


def shape(a):
    return None if a is None else (shape(a[2]), shape(a[3]))


def text(t):
    return "leaf" if t is None else "(%d %s %.4g: %s, %s)" % (t[0], t[1][0], t[1][1], text(t[2]), text(t[3]))


# ------------------------------------------------------------------------- the model
def arr(data):
    return Arr(np.array(data, dtype=object))


def make(I, name, depth=0, cuts=(), lims=True, **kw):
    data, types = DATA[name]
    nd = len(data[0]) if isinstance(data[0], list) else 1
    a = dict({"ndim": nd, "depth": depth, "itypes": AList(list(types))}, **kw)
    if depth:
        a.update(kdim=AList([c[0] for c in cuts]), split=AList([c[1] for c in cuts]))
    m = I.instantiate(I.cls(CLS), [], a)
    if lims:
        setlim(I, m, [LIM[0]], [LIM[1]])
    return m


def chain(I, name, where, **kw):
    dyn = make(I, name, **kw)
    head, off = dyn, 0
    if "G" in where:
        head = I.instantiate(I.cls("GaussModel"), [], {})
        setlim(I, head, [0.5, -2.0, 0.1], [1.5, 2.5, 3.0])
        off = 3
        I.call(I.getattr_(head, "addModel"), [dyn])
        dyn = head.attrs["_next"]
    if "P" in where:
        p = I.instantiate(I.cls("PolynomialModel"), [1], {})
        setlim(I, p, [-9.0, -10.0], [11.0, 12.0])
        I.call(I.getattr_(head, "addModel"), [p])
    return head, dyn, off


def dice(start):
    """draws that differ from call to call"""
    k = [start]

    def u():
        k[0] += 1
        return (0.137 + 0.6180339887 * k[0]) % 1.0

    def draw(I, name, args, kw):
        if name in ("rand", "random", "random_sample") and not kw:
            return u() if not args else Arr(np.array([u() for _ in range(args[0])], dtype=object))
        if name == "uniform" and not args and not kw:
            return u()
        if name == "randint" and args and not kw and all(isinstance(a, int) for a in args):
            lo, hi = args if len(args) > 1 else (0, args[0])
            return lo + int(u() * (hi - lo))
        return NotImplemented
    return RngObj("RandomState", script=draw)


def verify(R, key, I, head, dyn, off, where, name, tree, wh):
    """the model is the tree: numbers, code, and what each input gets"""
    data, types = DATA[name]
    w = lambda m: zoo.where(I, CLS, m)
    t = get(R, key + ":tree", wh, lambda: (read(I, dyn),))
    if t is None:
        return False
    check(R, key + ":tree", close(t[0], tree), wh, "the tree is %s, should be %s" % (text(t[0]), text(tree)))
    if not close(t[0], tree):
        return False
    n, b = leafs(tree), leafs(tree) - 1
    npost = 2 if "P" in where else 0
    num = get(R, key + ":numbers", wh, lambda: [I.getattr_(dyn, "npbase"), I.getattr_(dyn, "npmax"), I.getattr_(dyn, "ncomp"), len(I.iterate(I.getattr_(dyn, "parNames"))),
                                             I.getattr_(head, "npchain"), len(nums(I, I.getattr_(head, "parameters")))])
    if num is not None:
        want = [n, n, b, n, off + n + npost, off + n + npost]
        check(R, key + ":numbers", num == want, wh, "numbers of parameters, maximum, components, names, in the chain and of values are %s, should be %s" % (num, want))
        if num != want:
            return False
    c = get(R, key + ":count", w("count"), lambda: plain(I.call(I.getattr_(dyn, "count"), [])))
    if c is not None:
        check(R, key + ":count", c == [n, b], w("count"), "the numbers of leafs and branches are %s, should be %s" % (c, [n, b]))
    code = get(R, key + ":code", w("encode"), lambda: plain(I.call(I.getattr_(dyn, "encode"), [])))
    if code is not None:
        e = plain(encode(tree))
        same = code[:2] == e[:2] and len(code[2]) == len(e[2]) and all(abs(x - y) < 1e-9 for x, y in zip(code[2], e[2]))
        check(R, key + ":code", same, w("encode"), "the code is %s, should be %s" % (code, e))
    if all(c[1][1] > 0 for c in branches(tree)):
        ok = get(R, key + ":check", w("check"), lambda: I.call(I.getattr_(dyn, "check"), []))
        if ok is not None:
            check(R, key + ":check", ok is True, w("check"), "check() is %s for %s" % (ok, text(tree)))
    nm = get(R, key + ":name", w("fullName"), lambda: I.call(I.getattr_(dyn, "fullName"), []))
    if isinstance(nm, str):
        words = [int(k) if k else (int(d), t) for k, d, t in regex.findall(r"parameter (\d+)|dim (\d+) (split|mask)", nm)]
        check(R, key + ":name", words == spell(tree, [0]), w("fullName"), "the name shows %s, should be %s" % (words, spell(tree, [0])))
    elif nm is not None:
        R.undecided(key + ":name", "the name is not known")
    x = arr(data)
    q = [S("q%d" % k, "pospar") for k in range(off + n + npost)]
    bins = fill(data, tree, list(range(len(data))))
    at = {i: k for k, ii in enumerate(bins) for i in ii}
    res = get(R, key + ":result", w("baseResult"), lambda: I.call(I.getattr_(head, "result"), [x, vec(q)]))
    if res is not None:
        if not isinstance(res, Arr) or res.a.shape != (len(data),):
            R.fail(key + ":result", "the result of %d inputs has shape %s" % (len(data), res.a.shape if isinstance(res, Arr) else ()), w("baseResult"))
        else:
            want = [q[off + at[i]] for i in range(len(data))]
            if where:
                others = []
                J = msetup()
                if off:
                    others.append((J.instantiate(J.cls("GaussModel"), [], {}), q[:off]))
                if npost:
                    others.append((J.instantiate(J.cls("PolynomialModel"), [1], {}), q[off + n:]))
                for m, p in others:
                    r = J.call(J.getattr_(m, "result"), [x, vec(p)])
                    want = [T.add(a, v) for a, v in zip(want, r.a.flat)]
            eq = [T.equal(res.a.flat[i], want[i]).status for i in range(len(data))]
            bad = [i for i, e in enumerate(eq) if e == "ne"]
            if "unknown" in eq and not bad:
                R.undecided(key + ":result", "the sum with the other models could not be compared")
            else:
                check(R, key + ":result", not bad, w("baseResult"), "input %s has the result %s, should be %s" % (data[bad[0]] if bad else "", T.show(res.a.flat[bad[0]], 4) if bad else "", T.show(want[bad[0]], 4) if bad else ""))
    par = get(R, key + ":partial", w("basePartial"), lambda: I.call(I.getattr_(head, "partial"), [x, vec(q)]))
    if par is not None:
        ok = isinstance(par, Arr) and par.a.shape == (len(data), off + n + npost)
        check(R, key + ":partial", ok and all(T.isnum(par.a[i, off + k]) and par.a[i, off + k] == (1 if at[i] == k else 0) for i in range(len(data)) for k in range(n)), w("basePartial"),
              "the partials to the leafs are not 1 in its own leaf, 0 in other ones")
    if not where:
        der = get(R, key + ":derivative", w("baseDerivative"), lambda: I.call(I.getattr_(dyn, "derivative"), [x, vec(q)]))
        if der is not None:
            check(R, key + ":derivative", isinstance(der, Arr) and der.a.shape == x.a.shape and all(T.isnum(v) and v == 0 for v in der.a.flat), w("baseDerivative"), "the derivative is not 0")
    srt = get(R, key + ":sort", w("sortXdata"), lambda: I.call(I.getattr_(dyn, "sortXdata"), [x]))
    if srt is not None:
        o = [int(v) for v in srt.a.flat]
        check(R, key + ":sort", sorted(o) == list(range(len(data))) and [at[i] for i in o] == sorted(at.values()), w("sortXdata"), "the order is %s, that is in leafs %s" % (o, [at.get(i) for i in o]))
    for k in range(n):
        p = get(R, key + ":prior", wh, lambda: I.call(I.getattr_(head, "getPrior"), [off + k]))
        if p is not None:
            lim = (float(I.getattr_(p, "lowLimit")), float(I.getattr_(p, "highLimit")))
            check(R, key + ":prior", lim == LIM, wh, "parameter %d has a prior on %s, should be %s" % (k, lim, LIM))
    return True


def grown(R, key, I, name, where, locs, wh):
    head, dyn, off = chain(I, name, where)
    tree = None
    for j, l in enumerate(locs):
        dim, s = CUTS[name][j]
        ok = get(R, key, wh, lambda: I.call(I.getattr_(dyn, "grow"), [], {"offset": off, "location": l, "kdim": dim, "split": s}))
        if ok is not True:
            if ok is not None:
                R.fail(key, "grow returns %s" % ok, wh)
            return None
        tree = split_leaf(tree, l, dim, cut(DATA[name][1], dim, s))
    par = [10.5 + k for k in range(int(I.getattr_(head, "npchain")))]
    I.setattr_(head, "parameters", vec(par))
    return head, dyn, off, tree, par


def shapes(n):
    """series of locations, up to n grows"""
    out = [()]
    for k in range(n):
        out += [s + (l,) for s in out if len(s) == k for l in range(k + 1)]
    return out


def inserted(old, new, off, n):
    """locations where one value has come between those of the tree"""
    return [k for k in range(n + 1) if new[:off + k] == old[:off + k] and new[off + k + 1:] == old[off + k:]]


def grow(R, name, where, locs):
    """one leaf is split in two"""
    wh = zoo.where(msetup(), CLS, "grow")
    base = "grow:%s:%s:%s" % (name, where, "".join(map(str, locs)))
    I = msetup()
    g = get(R, base, wh, lambda: grown(R, base, I, name, where, locs, wh))
    if g is None:
        return
    head, dyn, off, tree, par = g
    if not verify(R, base, I, head, dyn, off, where, name, tree, wh):
        return
    n = leafs(tree)
    dim, s = CUTS[name][len(locs)]
    for l in range(n):
        key = base + ":at%d" % l
        I = msetup()
        head, dyn, off, tree, par = grown(R, key, I, name, where, locs, wh)
        ok = get(R, key, wh, lambda: I.call(I.getattr_(dyn, "grow"), [], {"offset": off, "location": l, "kdim": dim, "split": s}))
        if ok is None:
            continue
        check(R, key, ok is True, wh, "grow returns %s" % ok)
        now = nums(I, I.getattr_(head, "parameters"))
        new = split_leaf(tree, l, dim, cut(DATA[name][1], dim, s))
        at = inserted(par, now, off, n)
        check(R, key + ":parameters", len(now) == len(par) + 1 and any(k in (l, l + 1) for k in at), wh, "the parameters %s become %s" % (par, now))
        verify(R, key, I, head, dyn, off, where, name, new, wh)
    for start in range(3):
        key = base + ":rng%d" % start
        I = msetup()
        head, dyn, off, tree, par = grown(R, key, I, name, where, locs, wh)
        ok = get(R, key, wh, lambda: I.call(I.getattr_(dyn, "grow"), [], {"offset": off, "rng": dice(start)}))
        if ok is None:
            continue
        t = get(R, key, wh, lambda: (read(I, dyn),))
        if t is None:
            continue
        t = t[0]
        now = nums(I, I.getattr_(head, "parameters"))
        which = [l for l in range(n) for b in branches(t) if close(t, split_leaf(tree, l, b[0], b[1]))]
        check(R, key, ok is True and which, wh, "the tree %s becomes %s" % (text(tree), text(t)))
        at = [k for k in inserted(par, now, off, n) if LIM[0] <= now[off + k] <= LIM[1] and any(k in (l, l + 1) for l in which)]
        check(R, key + ":parameters", len(now) == len(par) + 1 and at, wh, "the parameters %s become %s" % (par, now))
        check(R, key + ":cut", all(right(name, b) for b in branches(t)), wh, "a cut is not proper: %s" % text(t))
        verify(R, key, I, head, dyn, off, where, name, t, wh)
    R.functions |= I.visited


def spell(node, n):
    if node is None:
        n[0] += 1
        return [n[0] - 1]
    return [(node[0], node[1][0])] + spell(node[2], n) + spell(node[3], n)


def right(name, b):
    data, types = DATA[name]
    t = types[min(b[0], len(types) - 1)]
    return b[1][0] == ("mask" if t else "split") and (0 < b[1][1] < 1 if not t else b[1][1] == 1 if t == 1 else 0 <= b[1][1] <= 1 << t)


def shrink(R, name, where, locs):
    """one leaf goes"""
    wh = zoo.where(msetup(), CLS, "shrink")
    base = "shrink:%s:%s:%s" % (name, where, "".join(map(str, locs)))
    n = len(locs) + 1
    for l in list(range(n)) + ["rng0", "rng1"]:
        key = base + ":at%s" % l
        I = msetup()
        g = get(R, key, wh, lambda: grown(R, key, I, name, where, locs, wh))
        if g is None:
            return
        head, dyn, off, tree, par = g
        kw = {"offset": off, "location": l} if isinstance(l, int) else {"offset": off, "rng": dice(int(l[-1]))}
        ok = get(R, key, wh, lambda: I.call(I.getattr_(dyn, "shrink"), [], kw))
        if ok is None:
            continue
        check(R, key, ok is (tree is not None), wh, "shrink of %s returns %s" % (text(tree), ok))
        now = nums(I, I.getattr_(head, "parameters"))
        if tree is None:
            check(R, key + ":parameters", now == par, wh, "the parameters change")
            verify(R, key, I, head, dyn, off, where, name, tree, wh)
            continue
        where_ = [l] if isinstance(l, int) else [k for k in range(n) if inserted(now, par, off, n - 1) and k in inserted(now, par, off, n - 1)]
        check(R, key + ":parameters", any(now == par[:off + k] + par[off + k + 1:] for k in where_), wh, "the parameters %s become %s" % (par, now))
        if not where_:
            continue
        t = get(R, key, wh, lambda: (read(I, dyn),))
        if t is None:
            continue
        options = [drop_leaf(tree, k) for k in where_]
        verify(R, key, I, head, dyn, off, where, name, next((o for o in options if close(o, t[0])), options[0]), wh)
    R.functions |= I.visited


def vary(R, name, locs):
    """one branch cuts otherwise"""
    wh = zoo.where(msetup(), CLS, "vary")
    base = "vary:%s:%s" % (name, "".join(map(str, locs)))
    jobs = [(k, c) for k in range(len(locs)) for c in CUTS[name][3:6]] + [("rng%d" % k, None) for k in range(9 if R.tier == "thorough" else 6)]
    for k, c in jobs:
        key = base + ":%s:%s" % (k, c)
        I = msetup()
        g = get(R, key, wh, lambda: grown(R, key, I, name, "", locs, wh))
        if g is None:
            return
        head, dyn, off, tree, par = g
        kw = {"location": k, "kdim": c[0], "split": c[1]} if c else {"rng": dice(3 * int(k[-1]))}
        ok = get(R, key, wh, lambda: I.call(I.getattr_(dyn, "vary"), [], kw))
        if ok is None:
            continue
        check(R, key, ok is (tree is not None), wh, "vary of %s returns %s" % (text(tree), ok))
        check(R, key + ":parameters", nums(I, I.getattr_(head, "parameters")) == par, wh, "the parameters change")
        if tree is None:
            continue
        if c:
            new = recut(tree, k, c[0], cut(DATA[name][1], *c))
        else:
            t = get(R, key, wh, lambda: (read(I, dyn),))
            if t is None:
                continue
            new = t[0]
            diff = [i for i, (a, b) in enumerate(zip(branches(tree), branches(new))) if a[:2] != b[:2]]
            check(R, key + ":one", shape(new) == shape(tree) and len(diff) <= 1, wh, "the tree %s becomes %s" % (text(tree), text(new)))
            check(R, key + ":cut", all(right(name, b) for b in branches(new)), wh, "a cut is not proper: %s" % text(new))
        verify(R, key, I, head, dyn, off, "", name, new, wh)
    R.functions |= I.visited


def construct(R, name):
    """trees of a certain depth, from their code, copies, with a parameter fixed, within bounds"""
    types = DATA[name][1]
    cuts = CUTS[name]
    wh = zoo.where(msetup(), CLS, "__init__")
    for depth in range(4 if R.tier == "thorough" else 3):
        key = "depth:%s:%d" % (name, depth)
        nb = (1 << depth) - 1
        I = msetup()
        m = get(R, key, wh, lambda: make(I, name, depth, cuts[:nb]))
        if m is None:
            continue
        tree = full(types, depth, cuts[:nb])
        verify(R, key, I, m, m, 0, "", name, tree, wh)
        I = msetup()
        m = get(R, key + ":free", wh, lambda: make(I, name, depth, cuts[:nb], lims=False))
        for k in range(nb + 1 if m is not None else 0):
            p = get(R, key + ":prior%d" % k, wh, lambda: I.call(I.getattr_(m, "getPrior"), [k]))
            if p is not None:
                lim = (float(I.getattr_(p, "lowLimit")), float(I.getattr_(p, "highLimit")))
                check(R, key + ":prior%d" % k, p.cls.name == "UniformPrior" and lim == (0.0, 1.0), wh, "without limits parameter %d has a %s on %s" % (k, p.cls.name, lim))
        # what is given stays as it is; the last split serves the rest
        if depth:
            given, dims = AList([cuts[0][1]]), AList([c[0] for c in cuts[:nb]])
            m = get(R, key + ":given", wh, lambda: make(I, name, depth, cuts[:nb], kdim=dims, split=given, lims=False))
            s = AList([cuts[0][1]])
            m = get(R, key + ":given", wh, lambda: I.instantiate(I.cls(CLS), [], {"ndim": I.getattr_(m, "ndim"), "depth": depth, "itypes": AList(list(types)), "kdim": dims, "split": s}))
            if m is not None:
                check(R, key + ":given", plain(s) == [cuts[0][1]] and plain(dims) == [c[0] for c in cuts[:nb]], wh, "the lists given become %s, %s" % (plain(s), plain(dims)))
                setlim(I, m, [LIM[0]], [LIM[1]])
                verify(R, key + ":given", I, m, m, 0, "", name, full(types, depth, [(c[0], cuts[0][1]) for c in cuts[:nb]]), wh)
    for locs in shapes(4):
        I = msetup()
        key = "code:%s:%s" % (name, "".join(map(str, locs)))
        g = get(R, key, wh, lambda: grown(R, key, I, name, "", locs, wh))
        if g is None:
            continue
        head, dyn, off, tree, par = g
        w = zoo.where(I, CLS, "decode")
        code = get(R, key, w, lambda: I.iterate(I.call(I.getattr_(dyn, "encode"), [])))
        if code is not None:
            a = {"ndim": I.getattr_(dyn, "ndim"), "code": code[0], "kdim": code[1], "split": code[2], "itypes": AList(list(types))}
            m = get(R, key, w, lambda: I.instantiate(I.cls(CLS), [], a))
            if m is not None:
                setlim(I, m, [LIM[0]], [LIM[1]])
                verify(R, key, I, m, m, 0, "", name, tree, w)
        # the copy is the same and on its own
        if len(locs) > 3:
            continue
        key = "copy:%s:%s" % (name, "".join(map(str, locs)))
        w = zoo.where(I, CLS, "copy")
        cp = get(R, key, w, lambda: I.call(I.getattr_(dyn, "copy"), []))
        if cp is not None:
            check(R, key + ":parameters", nums(I, I.getattr_(cp, "parameters")) == par, w, "the copy has other parameters")
            verify(R, key, I, cp, cp, 0, "", name, tree, w)
            dim, s = cuts[len(locs)]
            for l in range(len(locs) + 1):
                k2 = key + ":grow%d" % l
                I.call(I.getattr_(cp, "grow"), [], {"location": l, "kdim": dim, "split": s})
                verify(R, k2, I, cp, cp, 0, "", name, split_leaf(tree, l, dim, cut(types, dim, s)), w)
                verify(R, k2 + ":original", I, dyn, dyn, 0, "", name, tree, w)
                I.call(I.getattr_(cp, "shrink"), [], {"location": l})
                verify(R, k2 + ":back", I, cp, cp, 0, "", name, tree, w)
                check(R, k2 + ":originalpar", nums(I, I.getattr_(dyn, "parameters")) == par, w, "the parameters of the original change with those of the copy")
    R.functions |= I.visited
    fixed(R, name)
    edges(R, name)


def fixed(R, name):
    """a tree that stays as it is, with one value known"""
    data, types = DATA[name]
    wh = zoo.where(msetup(), CLS, "basePartial")
    tree = full(types, 2, CUTS[name][:3])
    bins = fill(data, tree, list(range(len(data))))
    at = {i: k for k, ii in enumerate(bins) for i in ii}
    x = arr(data)
    for k in range(4):
        key = "fixed:%s:%d" % (name, k)
        I = msetup()
        m = get(R, key, wh, lambda: make(I, name, 2, CUTS[name][:3], lims=False, dynamic=False, fixed=ADict({k: 7.5})))
        if m is None:
            continue
        q = [S("q%d" % j) for j in range(3)]
        vals = q[:k] + [7.5] + q[k:]
        free = [j for j in range(4) if j != k]
        for who in ("", "copy"):
            if who:
                m = get(R, key + who, zoo.where(I, CLS, "copy"), lambda: I.call(I.getattr_(m, "copy"), []))
                if m is None:
                    break
            res = get(R, key + who + ":result", wh, lambda: I.call(I.getattr_(m, "result"), [x, vec(q)]))
            if res is not None:
                check(R, key + who + ":result", res.a.shape == (len(data),) and all(T.equal(res.a[i], vals[at[i]]).status == "eq" for i in range(len(data))), wh, "the results are not those of the parameters and the fixed value")
            par = get(R, key + who + ":partial", wh, lambda: I.call(I.getattr_(m, "partial"), [x, vec(q)]))
            if par is not None:
                check(R, key + who + ":partial", par.a.shape == (len(data), 3) and all(par.a[i, c] == (1 if at[i] == j else 0) for i in range(len(data)) for c, j in enumerate(free)), wh, "the partials are not those of the free parameters")


def edges(R, name):
    """a tree that may not change does not"""
    for what, kw, lim in (("static", {"dynamic": False}, {}), ("max", {}, {"maxComp": 2}), ("min", {}, {"minComp": 2}), ("more", {}, {"maxComp": 3, "minComp": 1})):
        key = "edge:%s:%s" % (name, what)
        I = msetup()
        wh = {o: zoo.where(I, CLS, o) for o in ("grow", "shrink")}
        m = get(R, key, wh["grow"], lambda: make(I, name, 0, **kw))
        if m is None:
            continue
        tree = None
        if what == "static":
            for r in ({}, {"rng": dice(1)}):
                ok = get(R, key, wh["grow"], lambda: I.call(I.getattr_(m, "grow"), [], dict(r)))
                check(R, key + ":grow", ok is False, wh["grow"], "a static tree grows")
                verify(R, key, I, m, m, 0, "", name, None, wh["grow"])
            continue
        for j in range(2):
            dim, s = CUTS[name][j]
            I.call(I.getattr_(m, "grow"), [], {"location": 0, "kdim": dim, "split": s})
            tree = split_leaf(tree, 0, dim, cut(DATA[name][1], dim, s))
        for a, v in lim.items():
            m.attrs[a] = v
        for o, allowed in (("grow", what != "max"), ("shrink", what != "min")):
            c = get(R, key, wh[o], lambda: I.call(I.getattr_(m, "copy"), []))
            for a, v in lim.items():
                c.attrs[a] = v
            dim, s = CUTS[name][2]
            ok = get(R, key + o, wh[o], lambda: I.call(I.getattr_(c, o), [], {"location": 0, "kdim": dim, "split": s} if o == "grow" else {"location": 0}))
            if ok is not None:
                check(R, key + ":" + o, ok is allowed, wh[o], "%s of 2 components with bounds %s returns %s" % (o, lim, ok))
                new = tree if not allowed else split_leaf(tree, 0, dim, cut(DATA[name][1], dim, s)) if o == "grow" else drop_leaf(tree, 0)
                verify(R, key + ":" + o, I, c, c, 0, "", name, new, wh[o])


def boolean(R):
    """a cut of a boolean axis separates true from false"""
    wh = zoo.where(msetup(), CLS, "partitionList")
    for s in (0.2, 0.4, 0.5, 0.7):
        I = msetup()
        key = "boolean:%s" % s
        m = get(R, key, wh, lambda: I.instantiate(I.cls(CLS), [], {"ndim": 1, "depth": 1, "itypes": AList([1]), "kdim": AList([0]), "split": s}))
        if m is None:
            continue
        res = get(R, key, wh, lambda: I.call(I.getattr_(m, "result"), [arr([0, 1, 1, 0]), vec([S("q0"), S("q1")])]))
        if res is not None:
            a, b, c, d = [next((k for k in (0, 1) if T.equal(v, S("q%d" % k)).status == "eq"), None) for v in res.a.flat]
            check(R, key, a == d and b == c and {a, b} == {0, 1}, wh, "with split %s of a boolean axis 0 has parameter %s and 1 has parameter %s" % (s, a, b))


def run_trees(R):
    deep = R.tier == "thorough"
    jobs = [("boolean",)]
    for name in DATA:
        few = shapes(3 if deep else 2)
        chains = ("", "G", "P", "GP") if name == "one" else ("",)
        for c in chains:
            jobs += [("grow", name, c, s) for s in (few if not c or deep else shapes(1) + [(0, 1)])]
            jobs += [("shrink", name, c, s) for s in (shapes(3) if not c or deep else few)]
        jobs += [("vary", name, s) for s in few]
        jobs += [("construct", name)]
    R.parallel(dispatch, jobs)


def dispatch(R, f, *a):
    globals()[f](R, *a)
