"""C23 images: the list of pixels, of their positions and of their values pertain to each other, and back to an image"""
import itertools
import numpy as np
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from ..expr import *
from .models import setup as msetup
from .limits import get
from .fitters import cmp

S = T.sym


def image(shape, pre="v"):
    a = np.empty(shape, dtype=object)
    for n, j in enumerate(np.ndindex(*shape)):
        a[j] = S("%s%s" % (pre, "_".join(str(q) for q in j)))
    return Arr(a, (False,) * len(shape))


def ints(v):
    return [[int(q) for q in r] for r in np.asarray(v.a).reshape(v.a.shape[0], -1)]


def one(R, shape, ctor, call, center, fresh):
    key = "image:%s:%s:%s:%s:%s" % ("x".join(str(q) for q in shape), ctor, call, center, fresh)
    I = msetup()
    wh = lambda m: zoo.where(I, "ImageAssistant", m)
    ia = get(R, key, wh("__init__"), lambda: I.instantiate(I.cls("ImageAssistant"), [], {} if ctor is None else {"order": ctor}))
    if ia is None:
        return
    y = image(shape)
    n, rank = y.a.size, len(shape)
    kw = {} if call is None else {"order": call}
    order = call or ctor or "C"
    k = get(R, key + ":index", wh("getIndices"), lambda: I.call(I.getattr_(ia, "getIndices"), [y], dict(kw)))
    if k is None:
        return
    if k.a.shape != ((n,) if rank == 1 else (n, rank)) or k.dtype != "int":
        R.fail(key + ":index", "the indices have shape %s, type %s" % (k.a.shape, k.dtype), wh("getIndices"))
        return
    kx = ints(k)
    pix = [tuple(r if order == "C" else r[::-1]) for r in kx]
    if any(not 0 <= q < s for p in pix for q, s in zip(p, shape)) or len(set(pix)) != n:
        R.fail(key + ":index", "the indices do not visit every pixel once: %s" % pix, wh("getIndices"))
        return
    R.hold(key + ":index")
    val = get(R, key + ":values", wh("getydata"), lambda: I.call(I.getattr_(ia, "getydata"), [y]))
    cmp(R, I, key + ":values", val, [y.a[p] for p in pix], (n,), "the values are not those of the pixels in the list of indices", wh("getydata"))
    pos = get(R, key + ":positions", wh("getPositions"), lambda: I.call(I.getattr_(ia, "getPositions"), [y], dict(kw, **({} if center is None else {"center": center}))))
    off = 0.0 if center is False else 0.5
    cmp(R, I, key + ":positions", pos, [q + off for r in kx for q in r], k.a.shape, "the positions are not those of the %s of the pixels" % ("corners" if center is False else "centers"), wh("getPositions"))
    if pos is not None and pos.dtype == "int":
        R.fail(key + ":positions:type", "the positions are integers", wh("getPositions"))
    res = image((n,), "r")
    kw = {"shape": AList(list(shape))} if fresh else {}
    who = ia
    if fresh:
        who = get(R, key, wh("__init__"), lambda: I.instantiate(I.cls("ImageAssistant"), [], {} if ctor is None else {"order": ctor}))
    back = get(R, key + ":resize", wh("resizeData"), lambda: I.call(I.getattr_(who, "resizeData"), [res], kw))
    want = np.empty(shape, dtype=object)
    for q, p in enumerate(pix):
        want[p] = res.a[q]
    cmp(R, I, key + ":resize", back, list(want.flat), tuple(shape), "the results are not put at the pixels they belong to", wh("resizeData"))
    # the values are a copy of the image
    if val is not None:
        I.np.setitem(val, 0, 7.5) if hasattr(I.np, "setitem") else val.a.__setitem__(0, 7.5)
        cmp(R, I, key + ":own", y, [S("v%s" % "_".join(str(q) for q in j)) for j in np.ndindex(*shape)], tuple(shape), "the image changes with its list of values", wh("getydata"))
    R.functions |= I.visited


def deproject(R, center):
    key = "deproject:%s" % center
    I = msetup()
    wh = zoo.where(I, "ImageAssistant", "getPositions")
    ia = I.instantiate(I.cls("ImageAssistant"), [], {})
    y = image((2, 2))
    from .. import npmodel
    got = get(R, key, wh, lambda: I.call(I.getattr_(ia, "getPositions"), [y], {"center": center, "deproject": I.getattr_(I.module("Tools").env.v["numpy"], "exp")}))
    off = 0.5 if center else 0.0
    cmp(R, I, key, got, [exp(E(a + off)) for p in itertools.product(range(2), repeat=2) for a in p], (4, 2), "the positions are not those that the deprojection makes of the pixels", wh)
    R.functions |= I.visited


def run_images(R):
    jobs = []
    for shape in ((1,), (4,), (1, 1), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3), (2, 3, 4), (4, 1, 2), (3, 2, 2), (2, 1, 3, 2), (1, 2, 2, 3)):
        for ctor in (None, "C", "F"):
            for call in (None, "C", "F"):
                for center in (None, True, False):
                    jobs.append(("one", shape, ctor, call, center, center is True))
    R.parallel(dispatch, jobs + [("deproject", True), ("deproject", False)])


def dispatch(R, f, *a):
    globals()[f](R, *a)
