"""random number generators that yield numbers: a fixed pseudo-random sequence made from the seed of the generator"""
import numpy as np
from .absint import *
from .values import *

ONE = ("rand", "random", "random_sample", "randn", "standard_normal")


def plain(I, v):
    if isinstance(v, Arr):
        c = I.np.numeric(v)
        if c is None:
            raise Unsupported("draw with a symbolic argument")
        return np.asarray(c).astype(int) if v.dtype == "int" else c
    if isinstance(v, AList):
        return [plain(I, q) for q in v.items]
    if isinstance(v, (int, float, np.integer, np.floating, np.ndarray)) or v is None:
        return v
    raise Unsupported("draw with argument %r" % (v,))


def back(I, r):
    if isinstance(r, np.ndarray):
        out = np.empty(r.shape, dtype=object)
        isint = np.issubdtype(r.dtype, np.integer)
        for j in np.ndindex(r.shape):
            out[j] = int(r[j]) if isint else float(r[j])
        return Arr(out, dtype="int" if isint else "float")
    if isinstance(r, np.integer):
        return int(r)
    return float(r) if isinstance(r, np.floating) else r


def state(r, salt=0):
    if not hasattr(r, "gen"):
        s = r.seed if isinstance(r.seed, (int, np.integer)) else 12345
        r.gen = np.random.RandomState((int(s) * 7919 + salt) % (2 ** 32))
    return r.gen


def attach(I, salt=0, log=None):
    """all generators of I yield numbers; log gets (generator, method, function, line, value)"""
    def draw(I_, r, name, args, kw, node):
        g = state(r, salt)
        if name == "permutation" and isinstance(args[0], AList):
            v = AList([args[0].items[k] for k in g.permutation(len(args[0].items))])
        elif name == "shuffle":
            n = I.np.length(args[0])
            p = g.permutation(n)
            if isinstance(args[0], AList):
                args[0].items = [args[0].items[k] for k in p]
            else:
                args[0].a[...] = args[0].a[p]
            v = None
        elif name == "choice":
            raise Unsupported("choice")
        else:
            a = [plain(I, q) for q in args]
            k = {q: plain(I, w) for q, w in kw.items()}
            if not hasattr(g, name):
                raise AbsRaise("AttributeError", "RandomState has no " + name)
            try:
                v = back(I, getattr(g, name)(*a, **k))
            except (TypeError, ValueError) as e:
                raise AbsRaise(type(e).__name__, str(e))
        if log is not None:
            fr = I.frames[-1].func if I.frames else None
            log.append((r, name, fr.qname if fr else "?", getattr(node, "lineno", 0), v, args))
        return v
    I.live = draw
