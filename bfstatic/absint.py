"""Abstract interpreter: computes gated value graphs for the functions of the analysed
program (joins become select nodes, unknown loops are widened to fresh unknowns).
The analysed code is never executed."""
import ast
import os
import builtins
import math
import sys
import numpy as np

from . import terms as T
from .terms import Term, NLEN
from .values import *
from .program import Program, c3

sys.setrecursionlimit(20000)


DEBUG = bool(os.environ.get("BF_DEBUG"))


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class AbsRaise(Exception):
    def __init__(self, name, value=None):
        Exception.__init__(self, name)
        self.name = name
        self.value = value


class GenFull(Exception):
    """a generator is cut off after many items"""


class Pend(object):
    __slots__ = ("kind", "cond", "value", "post", "log")


class Frame(object):
    def __init__(self, func, env, cls=None):
        self.func = func
        self.env = env
        self.cls = cls
        self.pend = []
        self.yields = None
        self.self_ = None


def content(c):
    if isinstance(c, Env):
        return dict(c.v)
    if isinstance(c, Obj):
        return dict(c.attrs)
    if isinstance(c, AList):
        return list(c.items)
    if isinstance(c, ADict):
        return dict(c.d)
    if isinstance(c, np.ndarray):
        return c.copy()
    if isinstance(c, GenIter):
        return c.pos
    raise TypeError(c)


def set_content(c, v):
    if isinstance(c, Env):
        c.v = dict(v)
    elif isinstance(c, Obj):
        c.attrs = dict(v)
    elif isinstance(c, AList):
        c.items = list(v)
    elif isinstance(c, ADict):
        c.d = dict(v)
    elif isinstance(c, np.ndarray):
        c[...] = v
    elif isinstance(c, GenIter):
        c.pos = v


class Interp(object):
    def __init__(self, program=None, budget=3000000):
        self.prog = program or Program()
        self.logs = []
        self.pc = []              # path condition: (term, polarity)
        self.frames = []
        self.notes = []
        self.hooks = {}           # qualified function name -> handler(interp, func, args, kwargs, node) or None to go on
        self.write_hooks = []
        self.oracle = None        # decides on conditions that are not known
        self.ext = {}             # external function -> handler(interp, args, kwargs)
        self.draw_script = None   # what the random number generators yield
        self.watch_call = []      # observers (func, args, kwargs)
        self.steps = 0
        self.budget = budget
        self.endless = False      # loops of too many iterations raise Budget
        self.depth = 0
        self.rng_events = []
        self.rngs = []            # generators made
        self.live = None          # function that yields the numbers of a generator (live.py)
        self.globalrng = RngObj("global", 0)
        self.cls_index = {}
        self.visited = set()      # functions interpreted
        self.raise_log = []
        self.stmt = None
        from . import npmodel
        self.np = npmodel.NP(self)

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.prog.modules.get(name)
        if m is None:
            raise Unsupported("module " + name)
        if m.env is None or getattr(m, "owner", None) is not self:
            m.env = Env(module=m)
            m.owner = self
            m.env.v["__name__"] = m.name
            m.state = "loading"
            fr = Frame(None, m.env)
            self.frames.append(fr)
            saved, self.pc, slog, self.logs = self.pc, [], self.logs, []
            try:
                for s in m.tree.body:
                    try:
                        self.exec_stmt(s, fr)
                    except (AbsRaise, Unsupported) as e:
                        self.note("module %s: %s" % (name, e))
            finally:
                self.frames.pop()
                self.pc = saved
                self.logs = slog
            m.state = "loaded"
        return m

    def cls(self, name, module=None):
        m = self.module(module or name)
        c = m.env.v.get(name)
        if not isinstance(c, Cls):
            raise Unsupported("class %s" % name)
        return c

    def note(self, s):
        if len(self.notes) < 400:
            self.notes.append(s)

    # ------------------------------------------------------------ state
    def touch(self, c):
        if isinstance(c, Arr):
            c = c.root()
        for log in self.logs:
            if id(c) not in log:
                log[id(c)] = (c, content(c))

    def open_log(self):
        log = {}
        self.logs.append(log)
        return log

    def close_log(self, log):
        for i in range(len(self.logs) - 1, -1, -1):
            if self.logs[i] is log:
                del self.logs[i]
                return

    def capture(self, log):
        return {k: (c, content(c)) for k, (c, s) in log.items()}

    def restore(self, log):
        for k, (c, s) in log.items():
            set_content(c, s)

    def merge_states(self, cond, postA, postB, snapshots):
        """write merge(cond, A, B) of two captured states; current heap must be the snapshot state"""
        keys = list(postA)
        keys += [k for k in postB if k not in postA]
        for k in keys:
            c = (postA.get(k) or postB.get(k))[0]
            ca = postA[k][1] if k in postA else (snapshots[k][1] if k in snapshots else content(c))
            cb = postB[k][1] if k in postB else (snapshots[k][1] if k in snapshots else content(c))
            self.touch(c)
            set_content(c, self.merge_content(c, cond, ca, cb))

    def merge_content(self, c, cond, a, b):
        if isinstance(a, dict):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                va, vb = a.get(k, UNDEF), b.get(k, UNDEF)
                out[k] = self.merge(cond, va, vb)
            return out
        if isinstance(a, list):
            if len(a) == len(b):
                return [self.merge(cond, x, y) for x, y in zip(a, b)]
            c.unknown = True
            return [TOP]
        if isinstance(a, np.ndarray):
            fo = [self.msel(cond, x, y) for x, y in zip(a.flat, b.flat)]
            flat = np.empty(len(fo), dtype=object)
            for i, x in enumerate(fo):
                flat[i] = x
            return flat.reshape(a.shape)
        return a if a == b else max(a, b)

    def msel(self, cond, x, y):
        if x is y:
            return x
        try:
            return T.select(cond, x, y)
        except TypeError:
            return T.havoc("m")

    def merge(self, cond, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if is_scalar(a) and is_scalar(b):
            if type(a) is type(b) and not isinstance(a, Term) and a == b:
                return a
            return T.select(cond, a, b)
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, Top) or isinstance(b, Top):
            if isinstance(a, Top) and isinstance(b, Top):
                return a
            return Choice(cond, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.a.shape == b.a.shape and a.sym == b.sym \
                and (a.mask is b.mask):
            if a.a is b.a:
                return a
            if root_of(a.a) is root_of(b.a) and a.a.__array_interface__["data"] == b.a.__array_interface__["data"] \
                    and a.a.strides == b.a.strides:
                return a
            out = np.empty(a.a.shape, dtype=object)
            it = np.nditer(a.a, flags=["multi_index", "refs_ok", "zerosize_ok"])
            if a.a.size:
                for _ in it:
                    i = it.multi_index
                    out[i] = self.msel(cond, a.a[i], b.a[i])
            may = tuple(a.may) + tuple(b.may) + (root_of(a.a), root_of(b.a))
            return Arr(out, a.sym, a.mask, a.dtype, may)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(cond, x, y) for x, y in zip(a, b))
        if type(a) is AList and type(b) is AList and len(a.items) == len(b.items):
            return AList([self.merge(cond, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.self_ is b.self_:
            return a
        if isinstance(a, (Ext,)) and a == b:
            return a
        return Choice(cond, a, b)

    # ------------------------------------------------------------ path condition
    def known(self, c):
        if isinstance(c, bool):
            return c
        if not isinstance(c, Term):
            return None
        for t, p in reversed(self.pc):
            if t is c:
                return p
            if t.op == "not" and t.args[0] is c:
                return not p
            if c.op == "not" and c.args[0] is t:
                return not p
        if c.op == "and":
            a, b = self.known(c.args[0]), self.known(c.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
        elif c.op == "or":
            a, b = self.known(c.args[0]), self.known(c.args[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
        elif c.op == "not":
            a = self.known(c.args[0])
            return None if a is None else not a
        elif c.op == "cmp":
            o, x, y = c.args
            sw = {"<": "<=", "<=": "<"}
            if o in sw:
                # not (y <= x)  <=> x < y
                r = T.cmp(sw[o], T.unlift(y), T.unlift(x))
                if isinstance(r, Term) and r is not c:
                    for t, p in reversed(self.pc):
                        if t is r:
                            return not p
        return None

    def push_pc(self, c, pol):
        if isinstance(c, Term):
            self.pc.append((c, pol))
            if c.op == "and" and pol:
                self.push_pc(c.args[0], True)
                self.push_pc(c.args[1], True)
            elif c.op == "or" and not pol:
                self.push_pc(c.args[0], False)
                self.push_pc(c.args[1], False)
            elif c.op == "not":
                self.push_pc(c.args[0], not pol)
            elif c.op == "sel" :
                pass

    def path_term(self):
        r = True
        for t, p in self.pc:
            r = T.land(r, t if p else T.lnot(t))
        return r

    def res(self, v):
        while isinstance(v, Choice):
            k = self.known(v.c)
            if k is None:
                break
            v = v.a if k else v.b
        if isinstance(v, Term) and v.op == "sel" and self.pc:
            k = self.known(v.args[0])
            while k is not None:
                v = T.unlift(v.args[1] if k else v.args[2])
                if not (isinstance(v, Term) and v.op == "sel"):
                    break
                k = self.known(v.args[0])
        return v

    # ------------------------------------------------------------ branching
    def run_side(self, c, pol, fnc):
        """run fnc under c==pol on the current state, restore, return (kind, value, post)"""
        log = self.open_log()
        n = len(self.pc)
        npend = [len(f.pend) for f in self.frames]
        self.push_pc(c, pol)
        try:
            try:
                r = ("ok", fnc())
            except AbsRaise as e:
                r = ("raise", e)
        finally:
            pass
        post = self.capture(log)
        self.restore(log)
        self.close_log(log)
        del self.pc[n:]
        return r[0], r[1], post, log

    def apply_post(self, post):
        for k, (c, v) in post.items():
            self.touch(c)
            set_content(c, v)

    def fork_value(self, c, fa, fb):
        """evaluate both alternatives of an expression-level choice"""
        c = T.truth(c) if not isinstance(c, bool) else c
        k = self.known(c)
        if k is True:
            return fa()
        if k is False:
            return fb()
        ka, va, pa, la = self.run_side(c, True, fa)
        kb, vb, pb, lb = self.run_side(c, False, fb)
        if ka == "raise" and kb == "raise":
            raise va
        if ka == "raise":
            self.apply_post(pb)
            self.push_pc(c, False)
            return vb
        if kb == "raise":
            self.apply_post(pa)
            self.push_pc(c, True)
            return va
        self.merge_states(c, pa, pb, {**lb, **la})
        return self.merge(c, va, vb)

    def branch(self, c, fa, fb, fr):
        """statement-level two-way branch; fa/fb return an outcome (None or tuple)"""
        k = self.known(c)
        if k is True:
            return fa()
        if k is False:
            return fb()
        ka, oa, pa, la = self.run_side(c, True, fa)
        kb, ob, pb, lb = self.run_side(c, False, fb)
        if ka == "raise" and kb == "raise":
            raise oa
        if ka == "raise":
            self.apply_post(pb)
            self.push_pc(c, False)
            return ob
        if kb == "raise":
            self.apply_post(pa)
            self.push_pc(c, True)
            return oa
        snaps = dict(lb)
        snaps.update(la)
        kinda = oa[0] if oa else None
        kindb = ob[0] if ob else None
        if kinda == kindb:
            self.merge_states(c, pa, pb, snaps)
            if kinda == "return":
                return ("return", self.merge(c, oa[1], ob[1]))
            return oa
        # mixed: keep one side pending
        if kinda is None or (kinda in ("continue",) and kindb in ("break", "return")) or (kinda == "break" and kindb == "return"):
            pend_side, po, cc = ob, pb, T.lnot(c)
            live_o, live_p, pol = oa, pa, True
        else:
            pend_side, po, cc = oa, pa, c
            live_o, live_p, pol = ob, pb, False
        p = Pend()
        p.kind = pend_side[0]
        p.value = pend_side[1] if len(pend_side) > 1 else None
        p.cond = cc
        p.post = po
        p.log = self.open_log()
        fr.pend.append(p)
        self.apply_post(live_p)
        self.push_pc(c, pol)
        return live_o

    def resolve_pend(self, fr, p, value=None):
        """fold pending p into the current state; returns merged value"""
        i = fr.pend.index(p)
        for q in fr.pend[i + 1:]:
            q.cond = T.land(T.lnot(p.cond), q.cond)
        fr.pend.pop(i)
        log = p.log
        cur = self.capture(log)
        self.close_log(log)
        # state at fork = log snapshots (for everything mutated since)
        keys = list(p.post) + [k for k in cur if k not in p.post]
        for k in keys:
            c = (p.post.get(k) or cur.get(k))[0]
            ca = p.post[k][1] if k in p.post else log[k][1]
            cb = content(c)
            self.touch(c)
            set_content(c, self.merge_content(c, p.cond, ca, cb))
        return self.merge(p.cond, p.value, value)

    # ------------------------------------------------------------ calls
    def call_func(self, f, args, kwargs, node=None, self_=None):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("budget")
        if self.depth > 70:
            raise Unsupported("call depth at " + f.qname)
        for w in self.watch_call:
            w(self, f, args, kwargs, node)
        h = self.hooks.get(f.qname) or self.hooks.get("." + f.name)
        if h is not None:
            r = h(self, f, args, kwargs, node)
            if r is not NotImplemented:
                return r
        self.visited.add((f.module.name, f.qname))
        env = Env(parent=f.closure, module=f.module)
        self.bind(f, args, kwargs, env)
        fr = Frame(f, env, f.cls)
        if args:
            fr.self_ = args[0]
        if isinstance(f.node, ast.Lambda):
            self.frames.append(fr)
            self.depth += 1
            try:
                return self.eval(f.node.body, fr)
            finally:
                self.frames.pop()
                self.depth -= 1
        isgen = getattr(f.node, "_isgen", None)
        if isgen is None:
            isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node))
            f.node._isgen = isgen
        if isgen:
            fr.yields = AList()
        n = len(self.pc)
        self.frames.append(fr)
        self.depth += 1
        exc = None
        try:
            if isgen:
                try:
                    out = self.exec_block(f.node.body, fr)
                except AbsRaise as e:
                    if not fr.yields.items:
                        raise
                    out, exc = None, e
                    del self.pc[n:]
                except GenFull:
                    out, exc = None, Unsupported("generator cut off")
            else:
                out = self.exec_block(f.node.body, fr)
            v = out[1] if out and out[0] == "return" else None
            for p in list(reversed(fr.pend)):
                v = self.resolve_pend(fr, p, v)
            return GenIter(fr.yields.items, exc) if isgen else v
        finally:
            for p in fr.pend:
                self.close_log(p.log)
            self.frames.pop()
            self.depth -= 1
            keep = self.pc[n:]
            del self.pc[n:]

    def bind(self, f, args, kwargs, env):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if a.vararg:
                env.v[a.vararg.arg] = tuple(args[len(names):])
                args = args[:len(names)]
            else:
                raise AbsRaise("TypeError", "too many args to " + f.qname)
        elif a.vararg:
            env.v[a.vararg.arg] = ()
        for nm, v in zip(names, args):
            env.v[nm] = v
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwo:
                if k in env.v and k in names[:len(args)]:
                    raise AbsRaise("TypeError", "multiple values for %s in %s" % (k, f.qname))
                env.v[k] = v
            elif a.kwarg:
                extra[k] = v
            elif k == "**":
                continue
            else:
                raise AbsRaise("TypeError", "unexpected keyword %s in %s" % (k, f.qname))
        if a.kwarg:
            env.v[a.kwarg.arg] = ADict(extra)
        nd = len(a.defaults)
        denv = f.closure
        for i, nm in enumerate(names):
            if nm not in env.v:
                j = i - (len(names) - nd)
                if j >= 0:
                    env.v[nm] = f.defaults[j] if f.defaults is not None else TOP
                elif "**" in kwargs:
                    env.v[nm] = TOP
                else:
                    raise AbsRaise("TypeError", "missing argument %s in %s" % (nm, f.qname))
        for i, nm in enumerate(kwo):
            if nm not in env.v:
                d = f.kwdefaults[i] if f.kwdefaults else None
                env.v[nm] = d

    def call(self, f, args=(), kwargs=None, node=None):
        kwargs = kwargs or {}
        args = list(args)
        f = self.res(f)
        if isinstance(f, Func):
            if f.kind == "classmethod":
                return self.call_func(f, [f.cls] + args, kwargs, node)
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                if f.func.kind == "staticmethod":
                    return self.call_func(f.func, args, kwargs, node)
                return self.call_func(f.func, [f.self_] + args, kwargs, node)
            return self.call(f.func, [f.self_] + args, kwargs, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, Choice):
            return self.fork_value(f.c, lambda: self.call(f.a, args, kwargs, node),
                                   lambda: self.call(f.b, args, kwargs, node))
        if isinstance(f, BMeth):
            return self.np.method(f.recv, f.name, args, kwargs, node)
        if isinstance(f, Ext):
            return self.np.call(f.name, args, kwargs, node)
        if isinstance(f, Obj):
            m = self.find(f.cls, "__call__")
            if m is not None:
                return self.call(Bound(f, m), args, kwargs, node)
            return TOP
        if f is None:
            raise AbsRaise("TypeError", "None is not callable")
        return TOP

    def instantiate(self, c, args, kwargs, node=None):
        mro = c3(c)
        o = Obj(c)
        for b in mro:
            if isinstance(b, Ext) and b.name in ("builtins.list",):
                o.items = AList()
            if isinstance(b, Ext) and b.name.startswith("builtins.") and b.name.endswith(("Exception", "Error")):
                o.attrs["args"] = tuple(args)
        init = self.find(c, "__init__")
        if isinstance(init, Func):
            self.call(Bound(o, init), args, kwargs, node)
        elif args and o.items is not None:
            o.items.items = list(self.iterate(args[0]))
        return o

    def find(self, c, name, after=None):
        mro = c3(c)
        if after is not None:
            i = [k for k, x in enumerate(mro) if x is after or x == after]
            mro = mro[i[0] + 1:] if i else []
        for b in mro:
            if isinstance(b, Cls) and name in b.ns:
                return b.ns[name]
        return None

    # ------------------------------------------------------------ attributes
    def getattr_(self, o, name, node=None):
        o = self.res(o)
        if isinstance(o, Obj):
            if name in o.attrs:
                v = o.attrs[name]
                if v is not UNDEF:
                    return v
            if name == "__dict__":
                d = ADict()
                d.d = o.attrs
                return d
            if name == "__class__":
                return o.cls
            v = self.find(o.cls, name)
            if v is not None or self.has_ns(o.cls, name):
                if isinstance(v, Func):
                    if v.kind == "property":
                        return self.call(v, [o], {}, node)
                    return Bound(o, v)
                return v
            if o.items is not None and name in LISTMETHODS:
                return BMeth(o, name)
            ga = self.find(o.cls, "__getattr__")
            if ga is not None:
                return self.call(Bound(o, ga), [name], {}, node)
            if name in ("__setattr__", "__getattribute__", "__init__", "__str__", "__repr__"):
                return BMeth(o, name)
            if any(isinstance(b, Ext) and not b.name.startswith("builtins.object") for b in c3(o.cls)) and o.items is None:
                return TOP
            raise AbsRaise("AttributeError", "%s has no attribute %s" % (o.cls.name, name))
        if isinstance(o, Super):
            v = self.find(o.obj.cls if isinstance(o.obj, Obj) else o.obj, name, after=o.cls)
            if v is not None:
                return Bound(o.obj, v) if isinstance(v, Func) else v
            if isinstance(o.obj, Obj) and o.obj.items is not None and name in LISTMETHODS:
                return BMeth(o.obj, name)
            if name in ("__init__", "__setattr__", "__getattr__", "__getattribute__", "__str__"):
                return BMeth(o, name)
            raise AbsRaise("AttributeError", "super has no " + name)
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name
            if name == "__class__":
                return Ext("builtins.type")
            v = self.find(o, name)
            if v is not None or self.has_ns(o, name):
                return v
            if name in ("__setattr__", "__init__"):
                return Ext("builtins.object." + name)
            raise AbsRaise("AttributeError", "class %s has no %s" % (o.name, name))
        if isinstance(o, ModV):
            m = self.module(o.name)
            if name in m.env.v:
                return m.env.v[name]
            sub = o.name + "." + name if o.name else name
            if sub in self.prog.modules:
                return ModV(sub)
            raise AbsRaise("AttributeError", "module %s has no %s" % (o.name, name))
        if isinstance(o, Choice):
            return self.fork_value(o.c, lambda: self.getattr_(o.a, name, node), lambda: self.getattr_(o.b, name, node))
        if isinstance(o, Func):
            if name == "__name__":
                return o.name
            return TOP
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            if name == "__name__":
                return o.func.name if isinstance(o.func, Func) else TOP
            return TOP
        return self.np.getattr_(o, name, node)

    def has_ns(self, c, name):
        return any(isinstance(b, Cls) and name in b.ns for b in c3(c))

    def setattr_(self, o, name, v, node=None):
        o = self.res(o)
        if isinstance(o, Obj):
            sa = self.find(o.cls, "__setattr__")
            if sa is not None:
                self.call(Bound(o, sa), [name, v], {}, node)
                return
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, Choice):
            self.fork_value(o.c, lambda: self.setattr_(o.a, name, v, node), lambda: self.setattr_(o.b, name, v, node))
            return
        if isinstance(o, Cls):
            o.ns[name] = v
            return
        if isinstance(o, ExtObj):
            o.attrs[name] = v
            return
        if isinstance(o, ModV):
            m = self.module(o.name)
            self.touch(m.env)
            m.env.v[name] = v
            return
        if o is None:
            raise AbsRaise("AttributeError", "None.%s" % name)
        self.note("setattr on %r" % (o,))

    def raw_setattr(self, o, name, v):
        for h in self.write_hooks:
            h(self, "attr", o, name, v)
        self.touch(o)
        o.attrs[name] = v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            out = self.exec_stmt(s, fr)
            if out is not None:
                return out
        return None

    def exec_stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("budget")
        self.stmt = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("stmt " + type(s).__name__)
        if DEBUG:
            return m(s, fr)
        try:
            return m(s, fr)
        except (TypeError, AttributeError, LookupError, ArithmeticError, ValueError, AssertionError, NameError, RecursionError, NotImplementedError) as e:
            # the interpreter itself is at a loss: not decided, never a verdict
            raise Unsupported("internal %s: %s" % (type(e).__name__, e))

    def s_Expr(self, s, fr):
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        return None

    def s_Global(self, s, fr):
        fr.env.globals_.update(s.names)

    def s_Nonlocal(self, s, fr):
        pass

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                o = self.res(self.eval(t.value, fr))
                if isinstance(o, Obj) and t.attr in o.attrs:
                    self.touch(o)
                    del o.attrs[t.attr]
            elif isinstance(t, ast.Subscript):
                o = self.res(self.eval(t.value, fr))
                i = self.res(self.eval_index(t.slice, fr))
                if isinstance(o, Obj) and o.items is not None:
                    o = o.items
                if isinstance(o, AList):
                    self.touch(o)
                    if isinstance(i, Arr) and i.a.size == 1:
                        i = i.a.flat[0]
                    if isinstance(i, float) and i == int(i):
                        raise AbsRaise("TypeError", "list indices must be integers")
                    if isinstance(i, (int, np.integer)):
                        try:
                            del o.items[i]
                        except IndexError:
                            raise AbsRaise("IndexError")
                    elif isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.st)):
                        del o.items[i.lo:i.hi:i.st]
                    else:
                        o.unknown = True
                        o.items = [TOP]
                elif isinstance(o, ADict):
                    self.touch(o)
                    o.d.pop(hkey(i), None)
            elif isinstance(t, ast.Name):
                self.touch(fr.env)
                fr.env.v.pop(t.id, None)

    def s_Import(self, s, fr):
        for al in s.names:
            nm = al.asname or al.name.split(".")[0]
            target = al.name if al.asname else al.name.split(".")[0]
            fr.env.v[nm] = self.extmod(target)

    def extmod(self, target):
        if target.startswith("BayesicFitting"):
            sub = target[len("BayesicFitting"):].lstrip(".")
            sub = sub[len("source"):].lstrip(".") if sub.startswith("source") else sub
            return ModV(sub)
        return Ext(target)

    def s_ImportFrom(self, s, fr):
        mod = s.module or ""
        if s.level > 0 or mod.startswith("BayesicFitting"):
            if s.level > 0:
                cur = fr.env.module.name.split(".") if fr.env.module else []
                base = cur[:len(cur) - s.level]
                full = ".".join([x for x in base + ([mod] if mod else []) if x])
            else:
                full = mod[len("BayesicFitting"):].lstrip(".")
                full = full[len("source"):].lstrip(".") if full.startswith("source") else full
            for al in s.names:
                if al.name == "*":
                    try:
                        m = self.module(full)
                        for k, v in m.env.v.items():
                            if not k.startswith("_"):
                                fr.env.v[k] = v
                    except Unsupported:
                        pass
                    continue
                nm = al.asname or al.name
                sub = (full + "." + al.name) if full else al.name
                if sub in self.prog.modules and (full == "" or full not in self.prog.modules or full.endswith("kernels")):
                    fr.env.v[nm] = ModV(sub)
                elif full in self.prog.modules:
                    fr.env.v[nm] = LazyImport(full, al.name)
                else:
                    fr.env.v[nm] = Ext(full + "." + al.name)
        else:
            for al in s.names:
                if al.name == "*":
                    continue
                fr.env.v[al.asname or al.name] = Ext(mod + "." + al.name)

    def s_FunctionDef(self, s, fr):
        fr.env.v[s.name] = self.mkfunc(s, fr, None)

    def mkfunc(self, s, fr, cls):
        defaults = [self.eval(d, fr) for d in s.args.defaults]
        kwd = [self.eval(d, fr) if d is not None else None for d in s.args.kw_defaults]
        kind = None
        for d in getattr(s, "decorator_list", []):
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
                kind = d.id
        return Func(s, fr.env.module, fr.env if cls is None else fr.env.parent or fr.env, cls,
                    defaults=defaults, kwdefaults=kwd, kind=kind)

    def s_ClassDef(self, s, fr):
        c = Cls(s.name, fr.env.module, s)
        for b in s.bases:
            v = self.res(self.eval(b, fr))
            if isinstance(v, (Cls, Ext)):
                c.bases.append(v)
        env = Env(parent=fr.env, module=fr.env.module)
        sub = Frame(None, env, c)
        self.frames.append(sub)
        try:
            for st in s.body:
                if isinstance(st, ast.FunctionDef):
                    f = self.mkfunc(st, sub, c)
                    f.closure = fr.env
                    env.v[st.name] = f
                else:
                    self.exec_stmt(st, sub)
        finally:
            self.frames.pop()
        c.ns = env.v
        c3(c)
        fr.env.v[s.name] = c
        self.cls_index[s.name] = c

    def s_Return(self, s, fr):
        return ("return", self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        return ("break",)

    def s_Continue(self, s, fr):
        return ("continue",)

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise AbsRaise("reraise")
        v = None
        name = None
        e = s.exc
        if isinstance(e, ast.Call):
            name = ast.unparse(e.func)
        else:
            name = ast.unparse(e)
        self.raise_log.append((name, s.lineno))
        raise AbsRaise(name.split(".")[-1], s)

    def s_Assert(self, s, fr):
        c = self.cond(s.test, fr)
        if c is False:
            raise AbsRaise("AssertionError")
        if isinstance(c, Term):
            self.push_pc(c, True)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            v = self.eval(s.value, fr)
            self.assign(t, self.inplace(op, old, v, s), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr_(o, t.attr, t)
            v = self.eval(s.value, fr)
            self.setattr_(o, t.attr, self.inplace(op, old, v, s), t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            old = self.np.getitem(o, i)
            v = self.eval(s.value, fr)
            new = self.inplace(op, old, v, s)
            self.np.setitem(o, i, new)
        return None

    def inplace(self, op, old, v, node):
        old = self.res(old)
        v = self.res(v)
        if isinstance(old, Obj) and old.items is not None and op == "Add":
            self.touch(old.items)
            old.items.items.extend(self.iterate(v))
            return old
        if type(old) is AList and op == "Add":
            self.touch(old)
            for h in self.write_hooks:
                h(self, "list", old, None, v)
            try:
                old.items.extend(self.iterate(v))
            except Unsupported:
                old.items = [TOP]
                old.unknown = True
            return old
        if isinstance(old, Arr):
            r = self.np.binop(op, old, v)
            if old.a.ndim == 0 and is_scalar(r):
                self.np.write(old, r)
                return old
            if isinstance(r, Arr) and r.a.shape == old.a.shape and r.sym == old.sym:
                self.np.write(old, r)
                return old
            if isinstance(r, Arr):
                return r
            if isinstance(r, Top):
                self.np.havoc_arr(old)
                return old
            return r
        return self.np.binop(op, old, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.env.globals_ and fr.env.module is not None:
                e = fr.env.module.env
                for h in self.write_hooks:
                    h(self, "global", e, t.id, v)
            else:
                e = fr.env
            self.touch(e)
            e.v[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr_(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            self.np.setitem(o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = None
            try:
                vals = list(self.iterate(v))
            except Unsupported:
                vals = None
            if vals is None or (not star and len(vals) != len(t.elts)):
                if vals is not None and not isinstance(self.res(v), (Top,)) and not star:
                    raise AbsRaise("ValueError", "unpack")
                vals = [TOP] * len(t.elts)
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    x = TOP
                    e = e.value
                self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assign " + type(t).__name__)

    def s_If(self, s, fr):
        c = self.cond(s.test, fr)
        if c is True:
            return self.exec_block(s.body, fr)
        if c is False:
            return self.exec_block(s.orelse, fr)
        return self.branch(c, lambda: self.exec_block(s.body, fr), lambda: self.exec_block(s.orelse, fr), fr)

    def s_With(self, s, fr):
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        return self.exec_block(s.body, fr)

    def s_Try(self, s, fr):
        log = self.open_log()
        npc = len(self.pc)
        npend = len(fr.pend)
        try:
            try:
                out = self.exec_block(s.body, fr)
                if out is None and s.orelse:
                    out = self.exec_block(s.orelse, fr)
            except AbsRaise as e:
                del self.pc[npc:]
                while len(fr.pend) > npend:
                    p = fr.pend.pop()
                    self.close_log(p.log)
                for h in s.handlers:
                    if self.handles(h, e.name):
                        if h.name:
                            self.touch(fr.env)
                            fr.env.v[h.name] = TOP
                        try:
                            out = self.exec_block(h.body, fr)
                        except AbsRaise as e2:
                            if e2.name == "reraise":
                                raise e
                            raise
                        break
                else:
                    if s.finalbody:
                        self.exec_block(s.finalbody, fr)
                    raise
        finally:
            self.close_log(log)
        if s.finalbody:
            o2 = self.exec_block(s.finalbody, fr)
            if o2 is not None:
                return o2
        return out

    def handles(self, h, name):
        if h.type is None:
            return True
        names = [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        if name in names or "Exception" in names or "BaseException" in names:
            return True
        ex = getattr(builtins, name, None)
        for n in names:
            b = getattr(builtins, n, None)
            if isinstance(ex, type) and isinstance(b, type) and issubclass(ex, b):
                return True
        return False

    # ---------------- loops
    def s_For(self, s, fr):
        it = self.res(self.eval(s.iter, fr))
        try:
            if isinstance(it, DataRange):
                return self.data_loop(s, fr, it)
            if isinstance(it, Arr) and it.a.ndim and it.sym[0]:
                return self.data_loop(s, fr, it)
            if isinstance(it, Zip) and any(isinstance(x, DataRange) or (isinstance(x, Arr) and x.sym and x.sym[0]) for x in it.parts):
                return self.data_loop(s, fr, it)
            items = list(self.iterate(it))
            if len(items) > 400:
                raise Unsupported("long loop")
        except Unsupported as e:
            self.note("loop %s: %s" % (getattr(s, "lineno", 0), e))
            return self.unknown_loop(s, fr, lambda: True, target=s.target, elem=self.elem_of(it))
        if isinstance(it, GenIter):
            pass
        out = None
        npend0 = len(fr.pend)
        live = True
        npc = len(self.pc)
        for x in items:
            self.assign(s.target, x, fr)
            k = len(fr.pend)
            out = self.exec_block(s.body, fr)
            out = self.end_iter(fr, k, out)
            if out is not None:
                break
        else:
            if s.orelse:
                out = self.exec_block(s.orelse, fr)
        return self.end_loop(fr, npend0, out, npc)

    def elem_of(self, it):
        return TOP

    def end_iter(self, fr, k, out):
        """fold 'continue' pendings of this iteration"""
        kind = out[0] if out else None
        if kind == "continue":
            out = None
            kind = None
        for p in list(reversed(fr.pend[k:])):
            if p.kind == "continue":
                if kind is None:
                    self.resolve_pend(fr, p)
                else:
                    # the live side breaks/returns, the pending side continues: swap roles
                    out = self.swap_pend(fr, p, out)
                    kind = out[0] if out else None
        return out

    def swap_pend(self, fr, p, out):
        log = p.log
        cur = self.capture(log)
        livepost = cur
        # restore to fork state
        for kk, (c, sn) in log.items():
            set_content(c, sn)
        self.close_log(log)
        fr.pend.remove(p)
        q = Pend()
        q.kind = out[0]
        q.value = out[1] if len(out) > 1 else None
        q.cond = T.lnot(p.cond)
        q.post = livepost
        q.log = self.open_log()
        fr.pend.append(q)
        self.apply_post(p.post)
        return None

    def end_loop(self, fr, k, out, npc=None):
        kind = out[0] if out else None
        if kind == "break":
            out = None
            kind = None
        for p in list(reversed(fr.pend[k:])):
            if p.kind == "break":
                if kind is None:
                    self.resolve_pend(fr, p)
                else:
                    out = self.swap_pend(fr, p, out)
                    kind = out[0] if out else None
        return out

    def s_While(self, s, fr):
        npend0 = len(fr.pend)
        npc = len(self.pc)
        out = None
        for k in range(5000 if self.live else 300):
            c = self.cond(s.test, fr)
            if c is False:
                if s.orelse:
                    out = self.exec_block(s.orelse, fr)
                return self.end_loop(fr, npend0, out, npc)
            kn = self.known(c)
            if kn is False:
                return self.end_loop(fr, npend0, out, npc)
            if c is not True and kn is not True:
                break
            j = len(fr.pend)
            out = self.exec_block(s.body, fr)
            out = self.end_iter(fr, j, out)
            if out is not None:
                return self.end_loop(fr, npend0, out, npc)
            if len(fr.pend) > npend0 + 24:
                # many conditional exits: treat the rest as an unknown loop
                break
        else:
            if self.endless:
                raise Budget("loop without end")
        r = self.unknown_loop(s, fr, lambda: self.cond(s.test, fr))
        return self.end_loop(fr, npend0, r, npc)

    def widen_value(self, a, b):
        if a is b:
            return a, False
        if a is UNDEF or b is UNDEF:
            return (b if a is UNDEF else a), False
        if isinstance(a, Top):
            return a, False
        if is_scalar(a) and is_scalar(b):
            if not isinstance(a, Term) and not isinstance(b, Term) and type(a) is type(b) and a == b:
                return a, False
            if isinstance(a, Term) and a.op == "havoc":
                return a, False
            kb = isinstance(a, bool) or isinstance(b, bool)
            dd = T.depends_on_datum(a) or T.depends_on_datum(b)
            return T.havoc("w", "bool" if kb else ("datum" if dd else "param")), True
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.a.shape == b.a.shape and a.sym == b.sym:
                out = np.empty(a.a.shape, dtype=object)
                fa, fb = list(a.a.flat), list(b.a.flat)
                ch = False
                res = []
                for x, y in zip(fa, fb):
                    v, c_ = self.widen_value(x, y)
                    ch |= c_
                    res.append(v)
                if not ch:
                    return a, False
                fl = np.empty(len(res), dtype=object)
                for i, x in enumerate(res):
                    fl[i] = x
                return Arr(fl.reshape(a.a.shape), a.sym, a.mask, a.dtype,
                           tuple(a.may) + tuple(b.may) + (root_of(a.a), root_of(b.a))), True
            return TOP, True
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            r = [self.widen_value(x, y) for x, y in zip(a, b)]
            return tuple(x[0] for x in r), any(x[1] for x in r)
        if type(a) is AList and type(b) is AList and len(a.items) == len(b.items):
            r = [self.widen_value(x, y) for x, y in zip(a.items, b.items)]
            if any(x[1] for x in r):
                return AList([x[0] for x in r]), True
            return a, False
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a, False
        if isinstance(a, (Ext,)) and a == b:
            return a, False
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.self_ is b.self_:
            return a, False
        if isinstance(a, Choice):
            # absorbed?
            for alt in alternatives(a):
                if alt is b or (is_scalar(alt) and is_scalar(b) and alt is b):
                    return a, False
        c = T.havoc("wc", "bool")
        if alternatives_count(a) > 4:
            return TOP, True
        return Choice(c, a, b), True

    def widen_content(self, c, a, b):
        ch = False
        if isinstance(a, dict):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                v, x = self.widen_value(a.get(k, UNDEF), b.get(k, UNDEF))
                if k not in a:
                    x = x
                out[k] = v
                ch |= x
            return out, ch
        if isinstance(a, list):
            if len(a) == len(b):
                r = [self.widen_value(x, y) for x, y in zip(a, b)]
                return [x[0] for x in r], any(x[1] for x in r)
            was = getattr(c, "unknown", False)
            c.unknown = True
            return [TOP], not was
        if isinstance(a, np.ndarray):
            res = []
            for x, y in zip(a.flat, b.flat):
                v, d = self.widen_value(x, y)
                ch |= d
                res.append(v)
            fl = np.empty(len(res), dtype=object)
            for i, x in enumerate(res):
                fl[i] = x
            return fl.reshape(a.shape), ch
        return a, a != b

    def unknown_loop(self, s, fr, test, target=None, elem=None):
        """widening fixpoint at an unknown loop head"""
        body = s.body
        for rnd in range(8):
            log = self.open_log()
            npc = len(self.pc)
            k = len(fr.pend)
            self._iter_once(fr, body, test, target, elem, k)
            # discard exits in the search for the fixpoint
            while len(fr.pend) > k:
                p = fr.pend.pop()
                self.close_log(p.log)
            post = self.capture(log)
            self.restore(log)
            self.close_log(log)
            del self.pc[npc:]
            changed = False
            for kk, (c, v) in post.items():
                pre = content(c)
                w, ch = self.widen_content(c, pre, v)
                if ch:
                    changed = True
                    self.touch(c)
                    set_content(c, w)
                elif isinstance(pre, dict) and set(w) != set(pre):
                    self.touch(c)
                    set_content(c, w)
            if not changed:
                break
        # final abstract iteration: collect the exits
        npc = len(self.pc)
        k = len(fr.pend)
        c = True
        if target is None:
            c = test()
        else:
            c = T.havoc("more", "bool")
        if c is False:
            return None
        kb, out, post, log = self.run_side(c, True, lambda: self._final_iter(fr, body, target, elem))
        exits = getattr(self, "_exits", [])
        self._exits = []
        r = None
        # head state is current; fold the exits with fresh conditions
        for kind, cond, value, p in exits:
            b = T.havoc("exit", "bool")
            if kind == "break":
                if c is True and kind == "break" and exits[0][3] is p and all(e[0] != "return" for e in exits) :
                    # only way out of a 'while True' is a break
                    self.apply_post(p)
                    continue
                self.merge_states(b, p, {}, {})
            elif kind == "return":
                if c is True and len(exits) == 1:
                    self.apply_post(p)
                    r = ("return", value)
                else:
                    q = Pend()
                    q.kind, q.cond, q.value, q.post = "return", b, value, p
                    q.log = self.open_log()
                    fr.pend.append(q)
        if isinstance(c, Term) and r is None and not any(e[0] == "break" for e in exits) and target is None:
            self.push_pc(c, False)
        return r

    def _iter_once(self, fr, body, test, target, elem, k):
        if target is not None:
            self.assign(target, fresh_elem(elem), fr)
            c = True
        else:
            c = test()
        if c is False:
            return None
        if isinstance(c, Term):
            self.push_pc(c, True)
        try:
            out = self.exec_block(body, fr)
        except AbsRaise:
            return None
        return self.end_iter(fr, k, out) if out is None or out[0] == "continue" else out

    def _final_iter(self, fr, body, target, elem):
        self._exits = []
        k = len(fr.pend)
        if target is not None:
            self.assign(target, fresh_elem(elem), fr)
        log = self.open_log()
        exits = []
        try:
            out = self.exec_block(body, fr)
        except AbsRaise:
            out = None
        if out is not None and out[0] in ("break", "return"):
            exits.append((out[0], True, out[1] if len(out) > 1 else None, self.capture(log)))
        for p in list(fr.pend[k:]):
            if p.kind in ("break", "return"):
                exits.append((p.kind, p.cond, p.value, p.post))
            self.close_log(p.log)
        del fr.pend[k:]
        self.close_log(log)
        self._exits = exits
        return None

    def data_loop(self, s, fr, it):
        """for loop over the data axis: one generic iteration"""
        gi = DataIndex()
        def elem(x):
            if isinstance(x, DataRange):
                return gi
            if isinstance(x, Arr):
                if x.sym[0]:
                    return self.np.drop_axis0(x)
                raise Unsupported("zip data")
            if isinstance(x, Zip):
                return tuple(elem(p) for p in x.parts)
            if isinstance(x, tuple) and x and x[0] == "enum":
                return gi
            raise Unsupported("data loop")
        try:
            e = elem(it)
        except Unsupported:
            return self.unknown_loop(s, fr, lambda: True, target=s.target, elem=TOP)
        # scalars accumulated: run with placeholders
        log = self.open_log()
        k = len(fr.pend)
        npc = len(self.pc)
        self.assign(s.target, e, fr)
        before = dict(fr.env.v)
        assigned = assigned_names(s.body)
        ph = {}
        self.touch(fr.env)
        for nm in assigned:
            v = fr.env.v.get(nm, UNDEF)
            if is_scalar(v) and not isinstance(v, bool):
                p = T.havoc("acc", "param")
                ph[nm] = (v, p)
                fr.env.v[nm] = p
        try:
            out = self.exec_block(s.body, fr)
            out = self.end_iter(fr, k, out)
        except AbsRaise:
            out = None
        if out is not None or len(fr.pend) > k:
            while len(fr.pend) > k:
                p = fr.pend.pop()
                self.close_log(p.log)
            self.restore(log)
            self.close_log(log)
            del self.pc[npc:]
            return self.unknown_loop(s, fr, lambda: True, target=s.target, elem=TOP)
        self.close_log(log)
        del self.pc[npc:]
        for nm, (v0, p) in ph.items():
            v = fr.env.v.get(nm)
            if v is p:
                fr.env.v[nm] = v0
            elif is_scalar(v):
                d = T.sub(v, p)
                if not T._mentions(T.lift(d), p):
                    fr.env.v[nm] = T.add(v0, T.reduce_("sum", d))
                else:
                    fr.env.v[nm] = v if not T._mentions(T.lift(v), p) and not T.depends_on_datum(v) else T.havoc("acc", "param")
        return None

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        try:
            m = getattr(self, "e_" + type(e).__name__)
            return self.res(m(e, fr))
        except (AbsRaise, Budget, RecursionError, KeyboardInterrupt, MemoryError):
            raise
        except Unsupported as x:
            self.note("%s:%s %s" % (fr.env.module.name if fr.env.module else "?", getattr(e, "lineno", 0), x))
            return Top(str(x))
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, AssertionError, ZeroDivisionError,
                OverflowError) as x:
            if STRICT[0]:
                raise
            self.note("%s:%s internal %s %s" % (fr.env.module.name if fr.env.module else "?", getattr(e, "lineno", 0), type(x).__name__, x))
            return Top("internal " + str(x))

    def cond(self, e, fr):
        """evaluate to True/False/Term"""
        v = self.eval(e, fr)
        return self.truth(v)

    def truth(self, v):
        v = self.res(v)
        if isinstance(v, bool):
            return v
        if is_scalar(v):
            if isinstance(v, Term):
                t = T.truth(v)
                k = self.known(t)
                if k is None and self.oracle is not None and not isinstance(t, bool):
                    k = self.oracle(t)
                return t if k is None else k
            return bool(v)
        if v is None:
            return False
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, AList):
            if getattr(v, "unknown", False):
                return T.havoc("listlen", "bool")
            return len(v.items) > 0
        if isinstance(v, ADict):
            return len(v.d) > 0
        if isinstance(v, Arr):
            if v.a.size == 1 and not any(v.sym):
                return self.truth(v.a.flat[0])
            if v.a.size == 1:
                raise AbsRaise("ValueError", "truth value of an array")
            if v.a.size == 0 and not any(v.sym):
                return False
            raise AbsRaise("ValueError", "truth value of an array")
        if isinstance(v, Choice):
            a, b = self.truth(v.a), self.truth(v.b)
            return T.select(v.c, a, b) if not (isinstance(a, bool) and isinstance(b, bool)) else \
                (a if a == b else (v.c if a else T.lnot(v.c)))
        if isinstance(v, Obj):
            if v.items is not None:
                return len(v.items.items) > 0
            ln = self.find(v.cls, "__len__")
            return True if ln is None else self.truth(self.call(Bound(v, ln), [], {}))
        if isinstance(v, (Func, Bound, Cls, Native, Ext, BMeth, ExtObj, RngObj, GenIter, ModV)):
            return True
        if isinstance(v, IndexSet):
            raise Unsupported("truth of index set")
        return T.havoc("cond", "bool")

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def lookup(self, name, fr):
        env = fr.env
        while env is not None:
            if name in env.v:
                v = env.v[name]
                if v is UNDEF:
                    raise AbsRaise("UnboundLocalError", name)
                if isinstance(v, LazyImport):
                    m = self.module(v.mod)
                    if v.name in m.env.v:
                        v = m.env.v[v.name]
                        if isinstance(v, LazyImport):
                            return self.lookup_lazy(v)
                        return v
                    sub = v.mod + "." + v.name
                    if sub in self.prog.modules:
                        return ModV(sub)
                    raise Unsupported("import %s.%s" % (v.mod, v.name))
                return v
            env = env.parent
        m = fr.env.module
        if m is not None and m.env is not None and name in m.env.v:
            v = m.env.v[name]
            return self.lookup_lazy(v) if isinstance(v, LazyImport) else v
        if hasattr(builtins, name) or name in ("__file__",):
            return Ext("builtins." + name)
        raise AbsRaise("NameError", name)

    def lookup_lazy(self, v):
        while isinstance(v, LazyImport):
            m = self.module(v.mod)
            if v.name not in m.env.v:
                sub = v.mod + "." + v.name
                if sub in self.prog.modules:
                    return ModV(sub)
                raise Unsupported("import %s.%s" % (v.mod, v.name))
            v = m.env.v[v.name]
        return v

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getattr_(o, e.attr, e)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return AList(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Set(self, e, fr):
        return ASet(self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.res(self.eval(v, fr))
                if isinstance(x, ADict):
                    d.update(x.d)
                continue
            d[hkey(self.eval(k, fr))] = self.eval(v, fr)
        return ADict(d)

    def e_Lambda(self, e, fr):
        defaults = [self.eval(d, fr) for d in e.args.defaults]
        return Func(e, fr.env.module, fr.env, None, name="<lambda>", defaults=defaults)

    def e_IfExp(self, e, fr):
        c = self.cond(e.test, fr)
        if c is True:
            return self.eval(e.body, fr)
        if c is False:
            return self.eval(e.orelse, fr)
        return self.fork_value(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        return self.boolop(isand, e.values, 0, fr)

    def boolop(self, isand, vals, i, fr):
        v = self.eval(vals[i], fr)
        if i == len(vals) - 1:
            return v
        t = self.truth(v)
        if t is True:
            return self.boolop(isand, vals, i + 1, fr) if isand else v
        if t is False:
            return v if isand else self.boolop(isand, vals, i + 1, fr)
        if isand:
            kind, r, post, log = self.run_side(t, True, lambda: self.boolop(isand, vals, i + 1, fr))
            if kind == "raise":
                return T.havoc("b", "bool")
            rt = self.truth_soft(r)
            return T.land(t, rt)
        kind, r, post, log = self.run_side(t, False, lambda: self.boolop(isand, vals, i + 1, fr))
        if kind == "raise":
            return T.havoc("b", "bool")
        if not (is_scalar(v)):
            return self.merge(t, v, r)
        rt = self.truth_soft(r)
        return T.lor(t, rt)

    def truth_soft(self, r):
        try:
            return self.truth(r)
        except Unsupported:
            return T.havoc("b", "bool")

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else T.lnot(t)
        if isinstance(e.op, ast.USub):
            return self.np.binop("Mult", v, -1) if not isinstance(v, (int, float)) or isinstance(v, bool) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.np.invert(v)
        raise Unsupported("unary")

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binary(type(e.op).__name__, a, b, e)

    def binary(self, op, a, b, node=None):
        a, b = self.res(a), self.res(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            r = self.obj_binop(op, a, b, node)
            if r is not NotImplemented:
                return r
            if isinstance(a, Obj) and a.items is not None and op in ("Add", "Mult"):
                a = AList(list(a.items.items))
            if isinstance(b, Obj) and b.items is not None and op in ("Add", "Mult"):
                b = AList(list(b.items.items))
        if op != "Add" and isinstance(a, (AList, tuple)) and isinstance(b, (AList, tuple)):
            raise AbsRaise("TypeError", "unsupported operands: two lists")
        return self.np.binop(op, a, b)

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "BitOr": "or", "FloorDiv": "floordiv", "Mod": "mod", "BitAnd": "and", "BitXor": "xor"}

    def obj_binop(self, op, a, b, node):
        d = self.DUNDER.get(op)
        if isinstance(a, Obj) and d:
            m = self.find(a.cls, "__%s__" % d)
            if m is not None:
                return self.call(Bound(a, m), [b], {}, node)
        if isinstance(b, Obj) and d:
            m = self.find(b.cls, "__r%s__" % d)
            if m is not None:
                return self.call(Bound(b, m), [a], {}, node)
        return NotImplemented

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.np.compare(type(op).__name__, left, right)
            if res is True:
                res = c
            else:
                res = self.np.logical("and", res, c)
            left = right
        return res

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.env.v:
            if e.args:
                c = self.eval(e.args[0], fr)
                o = self.eval(e.args[1], fr)
            else:
                f2 = fr
                c = f2.cls
                o = f2.self_
            return Super(c, o)
        if isinstance(e.func, ast.Name) and e.func.id == "locals":
            return ADict(dict(fr.env.v))
        f = self.eval(e.func, fr)
        args = []
        kwargs = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                args.extend(self.iterate(v))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.res(self.eval(k.value, fr))
                if isinstance(v, ADict):
                    for kk, vv in v.d.items():
                        kwargs[kk] = vv
                else:
                    kwargs["**"] = TOP
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs, e)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        i = self.eval_index(e.slice, fr)
        return self.np.getitem(o, i)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceV(self.eval(s.lower, fr) if s.lower else None,
                          self.eval(s.upper, fr) if s.upper else None,
                          self.eval(s.step, fr) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def e_JoinedStr(self, e, fr):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.eval(v.value, fr)
        return Top("str")

    def e_ListComp(self, e, fr):
        return AList(self.comp(e, e.generators, 0, fr, lambda f2: [self.eval(e.elt, f2)]))

    def e_GeneratorExp(self, e, fr):
        return GenIter(self.comp(e, e.generators, 0, fr, lambda f2: [self.eval(e.elt, f2)]))

    def e_SetComp(self, e, fr):
        return ASet(self.comp(e, e.generators, 0, fr, lambda f2: [self.eval(e.elt, f2)]))

    def e_DictComp(self, e, fr):
        r = self.comp(e, e.generators, 0, fr, lambda f2: [(self.eval(e.key, f2), self.eval(e.value, f2))])
        return ADict({hkey(k): v for k, v in r})

    def comp(self, e, gens, i, fr, leaf):
        if i == 0:
            env = Env(parent=fr.env, module=fr.env.module)
            f2 = Frame(fr.func, env, fr.cls)
            f2.self_ = fr.self_
            f2.pend = fr.pend
            fr = f2
        if i == len(gens):
            return leaf(fr)
        g = gens[i]
        out = []
        for x in self.iterate(self.eval(g.iter, fr)):
            self.assign(g.target, x, fr)
            ok = True
            for cnd in g.ifs:
                c = self.cond(cnd, fr)
                if c is False:
                    ok = False
                    break
                if c is not True:
                    raise Unsupported("conditional comprehension")
            if ok:
                out.extend(self.comp(e, gens, i + 1, fr, leaf))
        return out

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        self.touch(fr.yields)
        fr.yields.items.append(v)
        if len(fr.yields.items) > (5000 if self.live else 300):
            raise GenFull()
        return None

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        self.touch(fr.yields)
        fr.yields.items.extend(self.iterate(v))
        return None

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        v = self.res(v)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, AList):
            if getattr(v, "unknown", False):
                raise Unsupported("unknown list")
            return list(v.items)
        if isinstance(v, Obj) and v.items is not None:
            return self.iterate(v.items)
        if isinstance(v, GenIter):
            self.touch(v)
            if v.exc is not None:
                raise v.exc
            r = v.items[v.pos:]
            v.pos = len(v.items)
            return r
        if isinstance(v, ADict):
            return list(v.d.keys())
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Zip):
            parts = [self.iterate(p) for p in v.parts]
            return [tuple(x) for x in zip(*parts)]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            if v.a.ndim == 0:
                raise AbsRaise("TypeError")
            if v.sym[0]:
                raise Unsupported("iterate data axis")
            return [self.np.getitem(v, i) for i in range(v.a.shape[0])]
        if isinstance(v, Obj):
            m = self.find(v.cls, "__iter__")
            if m is not None:
                return self.iterate(self.call(Bound(v, m), [], {}))
        if isinstance(v, Choice):
            a, b = self.iterate(v.a), self.iterate(v.b)
            if len(a) == len(b):
                return [self.merge(v.c, x, y) for x, y in zip(a, b)]
        if v is None:
            raise AbsRaise("TypeError", "None not iterable")
        if is_scalar(v) and not isinstance(v, Term):
            raise AbsRaise("TypeError", "scalar not iterable")
        raise Unsupported("iterate %r" % (v,))


class ModV(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<mod %s>" % self.name


class LazyImport(object):
    def __init__(self, mod, name):
        self.mod = mod
        self.name = name


class DataRange(object):
    """range( number of data )"""


class DataIndex(object):
    """the generic data index"""


class Zip(object):
    def __init__(self, parts):
        self.parts = parts


STRICT = [False]
LISTMETHODS = ("append", "extend", "insert", "pop", "remove", "index", "sort", "reverse", "copy", "count", "clear",
               "__len__", "__getitem__", "__init__")


def fresh_elem(e):
    if isinstance(e, Top) or e is None:
        return T.havoc("it", "param") if False else Top("loop element")
    return e


def alternatives(v):
    if isinstance(v, Choice):
        return alternatives(v.a) + alternatives(v.b)
    return [v]


def alternatives_count(v):
    return len(alternatives(v))


def hkey(k):
    if isinstance(k, Term):
        return k
    if isinstance(k, float) and k == int(k):
        return k
    try:
        hash(k)
        return k
    except TypeError:
        raise Unsupported("dict key")


def walk_own(f):
    """walk a function body without entering nested functions"""
    stack = list(f.body) if isinstance(f.body, list) else [f.body]
    while stack:
        n = stack.pop()
        yield n
        for ch in ast.iter_child_nodes(n):
            if not isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                stack.append(ch)


def assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out
