"""Operator syntax for terms: used only to write down reference formulas (the oracle side)."""
from . import terms as T
import math


class E(object):
    def __init__(self, t):
        self.t = t.t if isinstance(t, E) else t

    def __add__(s, o): return E(T.add(s.t, E(o).t))
    def __radd__(s, o): return E(T.add(E(o).t, s.t))
    def __sub__(s, o): return E(T.sub(s.t, E(o).t))
    def __rsub__(s, o): return E(T.sub(E(o).t, s.t))
    def __mul__(s, o): return E(T.mul(s.t, E(o).t))
    def __rmul__(s, o): return E(T.mul(E(o).t, s.t))
    def __truediv__(s, o): return E(T.div(s.t, E(o).t))
    def __rtruediv__(s, o): return E(T.div(E(o).t, s.t))
    def __neg__(s): return E(T.neg(s.t))
    def __pow__(s, o): return E(T.power(s.t, E(o).t))
    def __rpow__(s, o): return E(T.power(E(o).t, s.t))
    def __lt__(s, o): return E(T.cmp("<", s.t, E(o).t))
    def __le__(s, o): return E(T.cmp("<=", s.t, E(o).t))
    def __gt__(s, o): return E(T.cmp("<", E(o).t, s.t))
    def __ge__(s, o): return E(T.cmp("<=", E(o).t, s.t))


def _f(name):
    def g(*a):
        return E(T.fn(name, *[E(x).t for x in a]))
    return g


exp, log, sqrt, sin, cos, tan, atan, atan2, fabs, erf, lgamma, logfact, sign = [
    _f(n) for n in ("exp", "log", "sqrt", "sin", "cos", "tan", "arctan", "arctan2", "abs", "erf", "lgamma", "logfact", "sign")]
tanh, erfinv, wofz, re, kepler, floor, mod = [_f(n) for n in ("tanh", "erfinv", "wofz", "re", "kepler", "floor", "mod")]
pi = math.pi


def where(c, a, b):
    return E(T.select(E(c).t, E(a).t, E(b).t))


def total(t, op="sum"):
    """reduction over the data axis"""
    return E(T.reduce_(op, E(t).t))
