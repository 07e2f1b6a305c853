"""C16 reproducibility: all random numbers come from generators with a given seed, and objects share no state"""
import ast
import math
import numpy as np
from ..absint import *
from ..values import *
from .. import terms as T
from .. import zoo
from .. import live
from .models import setup
from .limits import get
from .evidence import check
from .engines import num, component, salesman, NS, PS, STATIC, ORDER

MAKERS = {"RandomState", "default_rng", "Generator", "Random"}
BITGEN = {"PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64", "SeedSequence", "BitGenerator"}
STOCHASTIC = {"differential_evolution", "dual_annealing", "basinhopping", "shgo"}

SETTINGS = {"numpy.set_printoptions", "numpy.seterr", "numpy.seterrcall", "numpy.set_string_function", "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings",
            "sys.setrecursionlimit", "locale.setlocale", "os.chdir", "os.putenv", "os.umask", "matplotlib.rc", "matplotlib.pyplot.rc", "matplotlib.use", "matplotlib.style.use", "matplotlib.pyplot.style.use"}


class Lint(ast.NodeVisitor):
    def __init__(self, R, mod):
        self.R, self.mod = R, mod
        self.alias = {}
        self.stack, self.fns, self.within = [], [], 0
        self.n = 0
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    self.alias[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
                for a in x.names:
                    self.alias[a.asname or a.name] = x.module + "." + a.name
                    if a.name == "*" and x.module in ("random", "numpy.random", "secrets"):
                        self.bad(x, "everything of %s is imported" % x.module)

    def dotted(self, e):
        p = []
        while isinstance(e, ast.Attribute):
            p.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name) and e.id in self.alias:
            return ".".join([self.alias[e.id]] + p[::-1])
        return None

    def bad(self, node, msg):
        self.n += 1
        fn = ".".join(self.stack) or "<module>"
        self.R.fail("lint:%s:%s:%s" % (self.mod.name, fn, msg), msg, "BayesicFitting/source/%s.py:%d %s" % (self.mod.name.replace(".", "/"), node.lineno, fn))

    def inside(self, node):
        self.stack.append(node.name)
        self.fns.append(node)
        within, self.within = self.within, 0
        self.generic_visit(node)
        self.within = within
        self.fns.pop()
        self.stack.pop()
    visit_FunctionDef = visit_ClassDef = visit_AsyncFunctionDef = inside

    def seedless(self, node):
        a = list(node.args) + [k.value for k in node.keywords if k.arg in ("seed", "bit_generator", "x")]
        if any(isinstance(k, ast.Starred) for k in node.args) or any(k.arg is None for k in node.keywords):
            return False
        if not a or (isinstance(a[0], ast.Constant) and a[0].value is None):
            return True
        return False

    def visit_With(self, node):
        k = [i for i in node.items if isinstance(i.context_expr, ast.Call) and self.dotted(i.context_expr.func) in ("warnings.catch_warnings", "numpy.printoptions", "numpy.errstate", "matplotlib.rc_context",
                                                                                                                 "matplotlib.pyplot.rc_context")]
        self.within += len(k)
        self.generic_visit(node)
        self.within -= len(k)

    def restored(self, what):
        """the settings are asked for in the same function (to put them back)"""
        get = {"numpy.set_printoptions": "numpy.get_printoptions", "numpy.seterr": "numpy.geterr", "locale.setlocale": "locale.getlocale", "sys.setrecursionlimit": "sys.getrecursionlimit",
               "os.chdir": "os.getcwd"}.get(what)
        fn = self.fns[-1] if self.fns else None
        return fn is not None and (any(isinstance(x, ast.Call) and self.dotted(x.func) == get for x in ast.walk(fn)) or
                                   (what == "numpy.seterr" and sum(isinstance(x, ast.Call) and self.dotted(x.func) == what for x in ast.walk(fn)) > 1))

    def visit_Call(self, node):
        d = self.dotted(node.func)
        if d in SETTINGS and not self.within and not self.restored(d):
            self.bad(node, "%s changes a setting of the whole process" % d)
        if d:
            leaf = d.split(".")[-1]
            if (d.startswith("numpy.random.") and leaf in MAKERS | BITGEN) or d == "random.Random":
                if self.seedless(node):
                    self.bad(node, "%s without a seed" % d)
                for s in ast.walk(node):
                    q = self.dotted(s.func) if isinstance(s, ast.Call) else None
                    if q and q.split(".")[0] in ("time", "datetime", "os", "uuid", "secrets"):
                        self.bad(node, "a seed made of %s" % q)
                self.check_args(node)
                return
            if leaf in STOCHASTIC and d.startswith("scipy.") and not any(k.arg in ("seed", "rng", "random_state") for k in node.keywords):
                self.bad(node, "%s without a seed" % d)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "rvs" and not any(k.arg in ("random_state", None) for k in node.keywords):
            self.bad(node, "rvs without a generator")
        if d in ("numpy.random", "random"):
            self.bad(node, d)
        self.generic_visit(node)

    def check_args(self, node):
        for a in node.args:
            self.visit(a)
        for k in node.keywords:
            self.visit(k.value)

    def value(self, node):
        d = self.dotted(node)
        if d is None:
            return False
        if d in ("numpy.random", "random"):
            self.bad(node, "%s, the module, is used as generator" % d)
        elif d.startswith("numpy.random."):
            leaf = d.split(".")[2]
            if leaf not in MAKERS | BITGEN | {"mtrand"} or (leaf == "mtrand" and d.split(".")[-1] not in MAKERS):
                self.bad(node, "%s of the global generator" % d)
        elif d.startswith("random."):
            if d.split(".")[1] != "Random":
                self.bad(node, "%s of the global generator" % d)
        elif d.startswith("secrets.") or d == "os.urandom" or d.startswith("uuid.uuid"):
            self.bad(node, d)
        elif d.startswith("scipy.stats.") and d.endswith(".random_state"):
            self.bad(node, d)
        return True

    def visit_Attribute(self, node):
        if not self.value(node):
            self.generic_visit(node)

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load):
            self.value(node)


def lint(R, name):
    I = setup()
    m = I.prog.modules[name]
    v = Lint(R, m)
    v.visit(m.tree)
    R.functions.add(name)
    for f in [x for x in ast.walk(m.tree) if isinstance(x, (ast.FunctionDef, ast.Module))]:
        if v.n == 0:
            R.hold("lint:%s:%s:%d" % (name, getattr(f, "name", "<module>"), getattr(f, "lineno", 0)))


# ------------------------------------------------------------------ effects on what all objects share
MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard", "fill", "resize", "put", "itemset", "partition", "appendleft"}


def root(e):
    """the name or self-attribute that is changed by a store in e"""
    while isinstance(e, ast.Subscript):
        e = e.value
    return e


def mutable(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
        isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and
        (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) in ("list", "dict", "set", "zeros", "ones", "array", "empty", "asarray", "arange", "defaultdict", "OrderedDict", "deque"))


def changes(fn):
    """(node, expression changed in place) in the body of a function, not in nested functions"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(x))
        tg = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
        for t in tg:
            for q in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                yield x, q, isinstance(x, ast.AugAssign)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
            yield x, ast.Subscript(value=x.func.value, slice=None, ctx=ast.Store()), False
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and x.args:
            yield x, ast.Attribute(value=x.args[0], attr="?", ctx=ast.Store()), False


def exempt(mod, var):
    """the settings and the bookkeeping of the printing functions; the errors of threads"""
    return mod == "Formatter" or (mod, var) == ("Explorer", "threadErrors")


def effects(R, name):
    """no function changes a global of its module, an attribute of a class, or a default argument"""
    I = setup()
    m = I.prog.modules[name]
    glob = {}
    classes = set()
    for n in m.tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Name):
                    glob[t.id] = n.value
        elif isinstance(n, ast.ClassDef):
            classes.add(n.name)
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name[:1].isupper():
                    classes.add(a.asname or a.name)
    nf = 0

    def bad(fn, node, msg):
        R.fail("effect:%s:%s:%s" % (name, fn, msg), msg, "BayesicFitting/source/%s.py:%d %s" % (name.replace(".", "/"), node.lineno, fn))

    def function(fn, q, cls, shared):
        local = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        declared = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Global):
                declared |= set(x.names)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                local.add(x.id)
        local -= declared
        pos = fn.args.posonlyargs + fn.args.args
        dflt = dict(zip([a.arg for a in pos][len(pos) - len(fn.args.defaults):], fn.args.defaults))
        dflt.update({a.arg: d for a, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults) if d is not None})
        dflt = {k for k, d in dflt.items() if mutable(d)}
        stored = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        ok = True
        for node, t, aug in changes(fn):
            r = root(t)
            if isinstance(r, ast.Name):
                if r.id in declared and not exempt(name, r.id):
                    ok = False
                    bad(q, node, "%s, a global of the module, is changed" % r.id)
                elif isinstance(t, ast.Subscript) and r.id in glob and r.id not in local and not exempt(name, r.id):
                    ok = False
                    bad(q, node, "%s, a global of the module, is changed" % r.id)
                elif r.id in dflt and (isinstance(t, ast.Subscript) and r.id not in stored or aug):
                    ok = False
                    bad(q, node, "the default of argument %s is changed" % r.id)
            elif isinstance(r, ast.Attribute):
                v = r.value
                isc = isinstance(v, ast.Name) and v.id in classes and v.id not in local
                isc = isc or (isinstance(v, ast.Attribute) and v.attr == "__class__")
                isc = isc or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "type")
                isc = isc or (isinstance(v, ast.Name) and v.id == "cls" and any(isinstance(d, ast.Name) and d.id == "classmethod" for d in fn.decorator_list))
                if isc and "%s.%s" % (ast.unparse(v), r.attr) not in EXEMPT:
                    ok = False
                    bad(q, node, "%s, an attribute of a class, is changed" % ast.unparse(r))
                elif isinstance(v, ast.Name) and v.id == "self" and isinstance(t, ast.Subscript) and r.attr in shared:
                    ok = False
                    bad(q, node, "self.%s, made once for the class, is changed" % r.attr)
        if ok:
            R.hold("effect:%s:%s:%d" % (name, q, fn.lineno))

    def walk(body, pre, cls, shared):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                function(n, pre + n.name, cls, shared)
                walk(n.body, pre + n.name + ".", cls, shared)
            elif isinstance(n, ast.ClassDef):
                sh = set()
                for x in n.body:
                    if isinstance(x, ast.Assign) and mutable(x.value):
                        sh |= {t.id for t in x.targets if isinstance(t, ast.Name)}
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                        sh.discard(x.attr)
                walk(n.body, pre + n.name + ".", n.name, sh)
            elif hasattr(n, "body"):
                walk(n.body + getattr(n, "orelse", []), pre, cls, shared)
    walk(m.tree.body, "", None, set())


# ------------------------------------------------------------------ seeds
def lims(I, m, lo=-4.0, hi=5.0):
    I.call(I.getattr_(m, "setLimits"), [], {"lowLimits": AList([lo]), "highLimits": AList([hi])})
    return m


def maker(I, what, seed):
    """an object with a seed"""
    kw = {} if seed is None else {"seed": seed}
    x, y = vec([1., 2., 3., 4.]), vec([0.2, 1.4, 2.2, 2.9])
    if what in (NS, PS):
        m = lims(I, I.instantiate(I.cls("PolynomialModel"), [1], {}))
        kw.update({"xdata": x, "model": m, "ydata": y, "verbose": 0, "ensemble": 6 if what == PS else 4, "engines": AList(["galilean", "chord", "gibbs", "step"]), "limits": AList([0.1, 10.0])})
        return I.instantiate(I.cls(what), [], kw)
    if what == "NestedSolver":
        p = I.instantiate(I.cls("SalesmanProblem"), [], {"xdata": Arr(np.array([[0., 0.], [1., 2.], [3., 1.], [2.5, 4.]], dtype=object), dtype="float")})
        kw.update({"problem": p, "ensemble": 4, "verbose": 0})
        return I.instantiate(I.cls("NestedSolver"), [], kw)
    if what == "AnnealingAmoeba":
        return I.instantiate(I.cls("AnnealingAmoeba"), [Native("f", lambda I_, a, k: 1.0), vec([0.5, 0.25])], kw)
    if what == "MonteCarlo":
        m = I.instantiate(I.cls("PolynomialModel"), [1], {})
        return I.instantiate(I.cls("MonteCarlo"), [x, m, Arr(np.array([[1.0, 0.25], [0.25, 2.0]], dtype=object), dtype="float")], kw)
    raise Unsupported(what)


def seeds(R, what):
    wh = zoo.where(setup(), what, "__init__")
    values = {}
    for seed in (None, 77, 78, 0):
        key = "seed:%s:%s" % (what, seed)
        I = setup()
        log = []
        live.attach(I, log=log)

        def run():
            o = maker(I, what, seed)
            if what in (NS, PS, "NestedSolver"):
                I.call(I.getattr_(o, "initSample"), [])
            return o
        o = get(R, key, wh, run)
        R.functions |= {"%s.%s" % q if isinstance(q, tuple) else q for q in I.visited}
        if o is None:
            continue
        drawn = []
        for r, name, fn, line, v, a in log:
            if isinstance(v, (int, float)):
                drawn.append(v)
        tops = [r for r in I.rngs if seed is not None and r.seed == seed] if seed is not None else I.rngs[:1]
        check(R, key + ":used", len(tops) >= 1, wh, "no generator is made of the seed %s, only of %s" % (seed, [r.seed for r in I.rngs][:5]))
        for k, r in enumerate(I.rngs):
            ok = isinstance(r.seed, (int, np.integer)) and r.origin == "RandomState" and (r in tops or r.seed in drawn)
            check(R, key + ":from%d" % k, ok, wh, "a generator made in %s has seed %s, neither given nor drawn from the given one" % (r.by, r.seed))
        if tops:
            ss = [r.seed for r in I.rngs]
            check(R, key + ":different", len(set(ss)) == len(ss), wh, "two generators have the same seed: %s" % ss)
        g = [e for e in I.rng_events if e[0] not in ("RandomState",) and e[1] not in ("RandomState", "default_rng", "Random")]
        check(R, key + ":global", not g, wh, "%s" % (g[:2],))
        values[seed] = [r.seed for r in I.rngs]
    if 77 in values and 78 in values:
        check(R, "seed:%s:matters" % what, values[77] != values[78], wh, "the seed has no effect")


# ------------------------------------------------------------------ the same again
def outcomes(I, ns):
    out = []
    for s in I.getattr_(ns, "samples").items.items:
        out.append((tuple(num(I, I.getattr_(s, "parameters"))), tuple(num(I, I.getattr_(s, "hypars")) if I.getattr_(s, "hypars") is not None else ()), float(I.getattr_(s, "logL"))))
    return out


def sampling(I, kind, seed):
    x, y = vec([1., 2., 3., 4.]), vec([0.2, 1.4, 2.2, 2.9])
    if kind == "order":
        ns = salesman(I, 6, ["move", "reverse", "shuffle", "switch", "loop", "near"], 5)
        I.raw_setattr(ns, "seed", seed)
        p = I.getattr_(ns, "problem")
        ns = I.instantiate(I.cls("NestedSolver"), [], {"problem": p, "ensemble": 5, "verbose": 0, "seed": seed})
    else:
        kw = {"xdata": x, "ydata": y, "verbose": 0, "seed": seed, "ensemble": 5, "limits": AList([0.1, 10.0])}
        cls = NS
        if kind == "dynamic":
            m, lim = component(I, "poly")
        elif kind == "repeat":
            m, lim = component(I, "repeat1")
        elif kind == "spline":
            m, lim = component(I, "spline")
        else:
            m = lims(I, I.instantiate(I.cls("ExpModel" if kind != "linear" else "PolynomialModel"), [] if kind != "linear" else [1], {}), 0.1, 3.0)
        if kind == "phantom":
            cls = PS
            kw["ensemble"] = 6
        if kind == "all":
            kw["engines"] = AList(["galilean", "chord", "gibbs", "step", "random"])
        kw["model"] = m
        ns = I.instantiate(I.cls(cls), [], kw)
    I.setattr_(ns, "minimumIterations", 2)
    I.setattr_(ns, "maxIterations", 3)
    I.call(I.getattr_(ns, "sample"), [])
    return outcomes(I, ns) if kind != "order" else [(tuple(num(I, I.getattr_(s, "parameters"))), float(I.getattr_(s, "logL"))) for s in I.getattr_(ns, "samples").items.items]


KINDS = ["linear", "nonlinear", "all", "phantom", "dynamic", "repeat", "spline", "order"]


def again(R, kind):
    """two runs with the same seed give the same samples, whatever happened before"""
    cls = PS if kind == "phantom" else "NestedSolver" if kind == "order" else NS
    wh = zoo.where(setup(), NS, "sample")
    key = "again:" + kind
    I = setup()
    live.attach(I)

    I.budget = 60000000

    def run():
        a = sampling(I, kind, 31)
        before = shared(I)
        b = sampling(I, kind, 32)
        c = sampling(I, kind, 31)
        return a, b, c, before, shared(I)
    try:
        out = get(R, key, wh, run)
    except Budget:
        R.undecided(key, "budget")
        out = None
    R.functions |= {"%s.%s" % q if isinstance(q, tuple) else q for q in I.visited}
    if out is None:
        return
    a, b, c, s0, s1 = out
    check(R, key + ":samples", len(a) > 3, wh, "only %d samples" % len(a))
    check(R, key + ":same", a == c, wh, "the second run with the same seed gives other samples")
    check(R, key + ":other", a != b, wh, "a run with another seed gives the same samples")
    changed(R, key, s0, s1)
    g = [e for e in I.rng_events if e[0] not in ("RandomState",) and e[1] not in ("RandomState", "default_rng", "Random")]
    check(R, key + ":global", not g, wh, "%s" % (g[:2],))


# ------------------------------------------------------------------ shared state
EXEMPT = ("Formatter", "Explorer.threadErrors", "__version__")


def mark(I, v, depth=0, seen=None):
    """fingerprint of a value"""
    seen = set() if seen is None else seen
    if isinstance(v, (AList, ADict, Obj, Arr)):
        if id(v) in seen or depth > 8:
            return "..."
        seen = seen | {id(v)}
    if isinstance(v, AList):
        return ("L",) + tuple(mark(I, q, depth + 1, seen) for q in v.items)
    if isinstance(v, tuple):
        return ("T",) + tuple(mark(I, q, depth + 1, seen) for q in v)
    if isinstance(v, ADict):
        return ("D",) + tuple((str(k), mark(I, q, depth + 1, seen)) for k, q in v.d.items())
    if isinstance(v, Arr):
        return ("A", v.a.shape) + tuple(str(q) for q in v.a.flat)
    if isinstance(v, RngObj):
        return ("R", str(v.seed))
    if isinstance(v, Obj):
        return ("O", getattr(v.cls, "name", "?")) + tuple((k, mark(I, q, depth + 1, seen)) for k, q in sorted(v.attrs.items())) + ((mark(I, v.items, depth + 1, seen),) if v.items is not None else ())
    if isinstance(v, Func):
        return ("F", v.qname, mark(I, tuple(v.defaults or ()), depth + 1, seen), mark(I, tuple(v.kwdefaults or ()), depth + 1, seen))
    if isinstance(v, (int, float, str, bool)) or v is None:
        return repr(v)
    if isinstance(v, Cls):
        return ("C", v.name)
    return type(v).__name__


def shared(I):
    """what is in modules, classes and default arguments"""
    out = {}
    for m in list(I.prog.modules.values()):
        if m.env is None or getattr(m, "owner", None) is not I or m.name.split(".")[0] in EXEMPT:
            continue
        for k, v in list(m.env.v.items()):
            if isinstance(v, Cls):
                if v.module is m or getattr(v.module, "name", None) == m.name:
                    for q, w in v.ns.items():
                        out["%s.%s" % (v.name, q)] = mark(I, w)
            elif "%s.%s" % (m.name, k) not in EXEMPT and not (isinstance(v, Obj) and False):
                out["%s.%s" % (m.name, k)] = mark(I, v)
    return out


def changed(R, key, s0, s1):
    for k in sorted(s0):
        if k in s1 and (s0[k] != s1[k]):
            R.fail("%s:shared:%s" % (key, k), "%s, which all objects share, is changed" % k, "BayesicFitting/source/%s" % k)
        elif k in s1:
            R.hold("%s:shared:%s" % (key, k))
    new = [k for k in s1 if k not in s0 and k.split(".")[0] in set(q.split(".")[0] for q in s0)]
    for k in new:
        R.fail("%s:shared:%s" % (key, k), "%s is added to what all objects share" % k, "BayesicFitting/source/%s" % k)


def use_model(I, build):
    m = build(I)
    if m is None:
        return
    x = zoo.xdata_of(m)
    p = zoo.model_params(I, m)
    for meth in ("result", "partial"):
        try:
            I.call(I.getattr_(m, meth), [x, p])
        except (AbsRaise, Unsupported):
            pass
    for meth in ("copy", "shortName", "__str__"):
        try:
            I.call(I.getattr_(m, meth), [])
        except (AbsRaise, Unsupported):
            pass
    try:
        lims(I, m)
        I.call(I.getattr_(m, "isolateModel"), [0])
    except (AbsRaise, Unsupported):
        pass


def state(R, kind, part=0, parts=1):
    """the shared state after use of all classes is what it was"""
    key = "state:%s:%d" % (kind, part)
    I = setup()
    live.attach(I)
    mods = [n for n in sorted(I.prog.modules) if n.split(".")[0] not in ("Plotter", "SampleMovie")]
    for n in mods:
        try:
            I.module(n)
        except (AbsRaise, Unsupported):
            pass
    s0 = shared(I)
    I.budget = 40000000
    try:
        if kind == "models":
            for q in list(zoo.instances(I))[part::parts]:
                try:
                    use_model(I, q[3])
                except (AbsRaise, Unsupported):
                    pass
        elif kind == "fit":
            x, y = vec([1., 2., 3., 4.]), vec([0.2, 1.4, 2.2, 2.9])
            for f in ("Fitter", "QRFitter"):
                for w in (None, vec([1., 2., 1., 3.])):
                    m = lims(I, I.instantiate(I.cls("PolynomialModel"), [1], {}))
                    ft = I.instantiate(I.cls(f), [x, m], {})
                    for kw in ({}, {"keep": ADict({0: 0.5})}):
                        try:
                            I.call(I.getattr_(ft, "fit"), [y], dict(kw, weights=w) if w is not None else dict(kw))
                            I.call(I.getattr_(ft, "getStandardDeviations"), [])
                            I.call(I.getattr_(ft, "getEvidence"), [], {"limits": AList([0.0, 9.0]), "noiseLimits": AList([0.1, 10.0])})
                        except (AbsRaise, Unsupported):
                            pass
        elif kind == "noise":
            x, y = vec([1., 2., 3., 4.]), vec([1, 2, 0, 3])
            for d in ("Gauss", "Laplace", "Cauchy", "Uniform", "Exponential", "Poisson"):
                m = lims(I, I.instantiate(I.cls("PolynomialModel"), [1], {}))
                p = I.instantiate(I.cls("ClassicProblem"), [m], {"xdata": x, "ydata": y})
                for q in (False, True):
                    try:
                        e = I.instantiate(I.cls(d + "ErrorDistribution"), [], {"limits": AList([0.1, 10.0]) if q else None} if d != "Poisson" else {})
                        I.call(I.getattr_(e, "logLikelihood"), [p, vec([1.0, 0.5, 1.0, 2.0][:2 + int(I.getattr_(e, "nphypar"))])])
                        I.call(I.getattr_(e, "partialLogL"), [p, vec([1.0, 0.5, 1.0, 2.0][:2 + int(I.getattr_(e, "nphypar"))]), AList([0, 1])])
                        I.call(I.getattr_(e, "copy"), [])
                    except (AbsRaise, Unsupported):
                        pass
            for c in ("Uniform", "Jeffreys", "Exponential", "Gauss", "Laplace", "Cauchy", "CircularUniform"):
                try:
                    pr = I.instantiate(I.cls(c + "Prior"), [], {"limits": AList([0.5, 4.0])} if c != "CircularUniform" else {"limits": AList([0.5, 4.0])})
                    for meth in ("unit2Domain", "domain2Unit", "result", "partialLog"):
                        I.call(I.getattr_(pr, meth), [0.75])
                    I.call(I.getattr_(pr, "setLimits"), [AList([0.25, 3.0])])
                    I.call(I.getattr_(pr, "copy"), [])
                except (AbsRaise, Unsupported):
                    pass
    except Budget:
        R.undecided(key, "budget")
        return
    R.functions |= {"%s.%s" % q if isinstance(q, tuple) else q for q in I.visited}
    changed(R, key, s0, shared(I))


def job(R, kind, *a):
    {"lint": lint, "effects": effects, "seeds": seeds, "again": again, "state": state}[kind](R, *a)


def run_reprod(R):
    I = setup()
    jobs = [("again", k) for k in KINDS] + [("state", "models", p, 4) for p in range(4)] + [("state", "fit"), ("state", "noise")]
    jobs += [("seeds", w) for w in (NS, PS, "NestedSolver", "AnnealingAmoeba", "MonteCarlo")]
    jobs += [("effects", n) for n in sorted(I.prog.modules)]
    jobs += [("lint", n) for n in sorted(I.prog.modules)]
    R.parallel(job, jobs)
