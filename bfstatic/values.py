"""Abstract values."""
import itertools
import numpy as np
from . import terms as T
from .terms import Term

_uid = itertools.count(1)


class Top(object):
    """unknown value"""
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "TOP(%s)" % self.why

    def __deepcopy__(self, memo):
        return self


TOP = Top("")


class Undef(object):
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Env(object):
    __slots__ = ("v", "parent", "module", "uid", "globals_")

    def __init__(self, parent=None, module=None):
        self.v = {}
        self.parent = parent
        self.module = module
        self.uid = next(_uid)
        self.globals_ = set()


class Obj(object):
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.items = None         # AList payload for list subclasses
        self.uid = next(_uid)
        self.tag = None

    def __repr__(self):
        return "<%s#%d>" % (self.cls.name if hasattr(self.cls, "name") else self.cls, self.uid)


class AList(object):
    def __init__(self, items=()):
        self.items = list(items)
        self.uid = next(_uid)

    def __repr__(self):
        return "L%r" % (self.items,)


class ASet(AList):
    pass


class ADict(object):
    def __init__(self, d=None):
        self.d = dict(d or {})
        self.uid = next(_uid)

    def __repr__(self):
        return "D%r" % (self.d,)


class GenIter(object):
    def __init__(self, items, exc=None):
        self.items = list(items)
        self.exc = exc           # what ends the generator after its items (None: it returns)
        self.pos = 0
        self.uid = next(_uid)


class RngObj(object):
    """a random generator: external stateful object"""

    def __init__(self, origin, seed=None, script=None):
        self.origin = origin     # 'global' | 'RandomState' | ...
        self.seed = seed
        self.script = script     # script( I, name, args, kw ): value of a draw
        self.uid = next(_uid)

    def __repr__(self):
        return "<rng %s>" % self.origin


class ExtObj(object):
    """an object of an external library about which only the type name is known"""

    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs or {}
        self.uid = next(_uid)

    def __repr__(self):
        return "<ext %s>" % self.name


class Ext(object):
    """an external name: module, function or class, by dotted name"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "ext:" + self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Func(object):
    def __init__(self, node, module, closure=None, cls=None, name=None, defaults=None, kwdefaults=None, kind=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.cls = cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.kind = kind

    @property
    def qname(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<func %s>" % self.qname


class Bound(object):
    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __repr__(self):
        return "<bound %r.%r>" % (self.self_, self.func)


class BMeth(object):
    """method of a builtin/abstract value"""

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __repr__(self):
        return "<bmeth %s>" % self.name


class Native(object):
    """python-implemented abstract function"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<native %s>" % self.name


class Cls(object):
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.bases = []
        self.ns = {}
        self.mro = None

    def __repr__(self):
        return "<class %s>" % self.name


class Super(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Choice(object):
    """gated value: a if cond else b"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return "Choice(%r ? %r : %r)" % (self.c, self.a, self.b)


class SliceV(object):
    __slots__ = ("lo", "hi", "st")

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class IndexSet(object):
    """numpy.where( cond ) on the data axis: the subset of the axis where mask holds"""
    __slots__ = ("mask", "m")

    def __init__(self, mask, m=1):
        self.mask = mask

    def __repr__(self):
        return "Idx{%r}" % (self.mask,)


def root_of(a):
    while a.base is not None:
        a = a.base
    return a


class Arr(object):
    """numpy array.  `a`: object ndarray; axes flagged in `sym` stand for the data axis
    (elements are generic in the data index)."""
    __slots__ = ("a", "sym", "mask", "dtype", "may", "origin")

    def __init__(self, a, sym=None, mask=None, dtype="float", may=(), origin=None):
        if not isinstance(a, np.ndarray) or a.dtype != object:
            b = np.empty(np.shape(a), dtype=object)
            b[...] = a
            a = b
        self.a = a
        self.sym = tuple(sym) if sym is not None else (False,) * a.ndim
        assert len(self.sym) == a.ndim, (self.sym, a.shape)
        self.mask = mask
        self.dtype = dtype
        self.may = may
        self.origin = origin

    @property
    def ndim(self):
        return self.a.ndim

    def root(self):
        return root_of(self.a)

    def copy(self):
        return Arr(self.a.copy(), self.sym, self.mask, self.dtype)

    def with_(self, a, sym=None):
        return Arr(a, self.sym if sym is None else sym, self.mask, self.dtype, self.may)

    def concrete(self):
        """all python ints?"""
        return not any(self.sym) and all(isinstance(x, int) and not isinstance(x, bool) for x in self.a.flat)

    def __repr__(self):
        return "Arr%s%s" % (tuple("N" if s else d for d, s in zip(self.a.shape, self.sym)),
                            [T.show(x, 3) if isinstance(x, Term) else x for x in list(self.a.flat)[:8]])


def vec(elems, dtype="float"):
    a = np.empty(len(elems), dtype=object)
    for i, e in enumerate(elems):
        a[i] = e
    return Arr(a, dtype=dtype)


def datum(t, dtype="float"):
    a = np.empty(1, dtype=object)
    a[0] = t
    return Arr(a, (True,), dtype=dtype)


def datum2(ts, dtype="float"):
    a = np.empty((1, len(ts)), dtype=object)
    for i, e in enumerate(ts):
        a[0, i] = e
    return Arr(a, (True, False), dtype=dtype)


def is_scalar(v):
    return isinstance(v, (Term,)) or (T.isnum(v)) or isinstance(v, bool)
