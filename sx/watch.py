"""Watch the outermost calls a harness makes into the package: arguments must be left as they were, results handed
out earlier must not change, and (for pure numerical functions) the same call must give the same answer again."""
import sys, types, inspect, functools, numbers
import numpy as _np
from .core import PathAbort, Unsupported
from . import core

PRIM = (str, bytes, bool, type(None), type, types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType)
DEPTH = 7


class Watch:
    def __init__(self):
        self.path = None
        self.depth = 0
        self.results = []
        self.again = True
        self.calls = {}
        self.done = set()


W = Watch()


def snap(o, depth=DEPTH, seen=None):
    """immutable picture of a value: nested tuples with the elements of arrays"""
    if seen is None:
        seen = set()
    if isinstance(o, PRIM) and not isinstance(o, (str, bool)):
        return ("opaque", None)
    if isinstance(o, (str, bool)):
        return ("val", o)
    if core.isR(o) or core.isB(o) or isinstance(o, numbers.Number) or isinstance(o, _np.generic):
        return ("num", o)
    if isinstance(o, _np.ndarray):
        b = o.view(_np.ndarray)
        if b.dtype.kind in "OfiucbS U".replace(" ", ""):
            return ("arr", b.shape, list(b.copy().ravel()))
        return ("opaque", None)
    if depth == 0 or id(o) in seen:
        return ("opaque", None)
    seen = seen | {id(o)}
    if isinstance(o, (list, tuple)):
        return ("seq", [snap(e, depth - 1, seen) for e in o])
    if isinstance(o, dict):
        return ("map", [(k, snap(v, depth - 1, seen)) for k, v in o.items() if isinstance(k, (str, int, tuple))])
    t = type(o)
    mod = getattr(t, "__module__", "") or ""
    if mod.startswith("pandas"):
        try:
            return ("tab", [str(c) for c in getattr(o, "columns", [])], snap(o.values.copy(), depth - 1, seen))
        except Exception:
            return ("opaque", None)
    if mod.startswith("xarray"):
        return ("tab", [], snap(o.data, depth - 1, seen))
    if mod.startswith("dolo") or mod.startswith("sx.") or mod.startswith("checks") or mod in ("P17", "P18", "P19", "P20", "P22"):
        d = getattr(o, "__dict__", None)
        if isinstance(d, dict):
            # what was not there yet may be filled later (values computed on demand)
            items = [(k, snap(v, depth - 1, seen)) for k, v in d.items() if v is not None and not k.startswith("_")]
            return ("obj", t.__name__, items)
    return ("opaque", None)


def same(p, new, old, label, loose=True):
    """compare two pictures"""
    if old[0] == "opaque":
        return
    if new[0] != old[0]:
        p.check(False, label)
        return
    k = old[0]
    if k == "val":
        p.check(new[1] == old[1], label)
    elif k == "num":
        num(p, new[1], old[1], label)
    elif k == "arr":
        if new[1] != old[1]:
            p.check(False, label)
            return
        nums(p, new[2], old[2], label)
    elif k == "seq":
        if len(new[1]) != len(old[1]):
            p.check(False, label)
            return
        for a, b in zip(new[1], old[1]):
            same(p, a, b, label)
    elif k == "map":
        n = dict(new[1])
        for key, b in old[1]:
            if key not in n:
                p.check(False, label)
                return
            same(p, n[key], b, label)
        if len(n) != len(old[1]):
            p.check(False, label)
    elif k == "tab":
        if new[1] != old[1]:
            p.check(False, label)
            return
        same(p, new[2], old[2], label)
    elif k == "obj":
        n = dict(new[2])
        for key, b in old[2]:
            if key not in n:
                p.check(False, label)
                return
            same(p, n[key], b, label)


def plain(a):
    return isinstance(a, (numbers.Number, _np.generic)) and not core.isR(a)


def num(p, a, b, label):
    nums(p, [a], [b], label)


def nums(p, A, B, label):
    """numbers one by one; identical terms are equal"""
    LA, LB = [], []
    for a, b in zip(A, B):
        if a is b:
            continue
        if core.isB(a) or core.isB(b):
            continue
        if plain(a) and plain(b):
            if not (a == b or (a != a and b != b)):
                if p.mode != "sym" and abs(a - b) <= 1e-12 * max(1, abs(b)):
                    continue
                p.check(False, label)
            continue
        if not (core.isR(a) or plain(a)) or not (core.isR(b) or plain(b)):
            if type(a) is not type(b):
                p.check(False, label)
            continue
        if core.isR(a) and core.isR(b) and a.v is b.v:
            continue
        LA.append(a)
        LB.append(b)
    if LA:
        p.eq(_mk(LA), _mk(LB), label)
    else:
        p.check(True, label)


def _mk(l):
    from . import arr
    return arr.NP.array(l)


# functions whose purpose is to modify what they are given, and names of arguments that are there to be written to
INPLACE = {"dolo.algos.invert:%s" % n: "*" for n in ("invert", "invert_gu", "solve_gu", "solve_tensor", "solve_tensor_old", "swaplines", "substract", "divide")}
INPLACE |= {"dolo.numeric.optimize.newton:solve": "*", "dolo.numeric.serial_operations:solve": "*", "dolo.algos.improved_time_iteration:smooth": ("jres",), "dolo.algos.improved_time_iteration:euler_residuals": ("dr", "jres", "S_ij"),
           "dolo.algos.improved_time_iteration:d_filt_dx": ("π", "dumdr"), "dolo.algos.improved_time_iteration:invert_jac": ("dumdr",), "dolo.algos.improved_time_iteration:radius_jac": ("dumdr",),
           "dolo.misc.multimethod:multimethod.__call__": ("self",),
           "dolo.algos.improved_time_iteration:Operator.apply": ("self",), "dolo.algos.improved_time_iteration:Operator.as_matrix": ("self",), "dolo.algos.improved_time_iteration:Operator._matvec": ("self",)}
OUT = ("out", "res", "output")
PURE = ("dolo.numeric.grids", "dolo.numeric.decision_rule", "dolo.numeric.taylor_expansion", "dolo.numeric.discretization", "dolo.numeric.distribution",
        "dolo.numeric.processes", "dolo.numeric.misc", "dolo.numeric.filters", "dolo.numeric.tensor", "dolo.numeric.serial_operations", "dolo.compiler.eval_formula")
IMPURE = ("draw", "simulate", "set_", "simul", "clear", "insert", "pop")


def wrap(f, qual, method=False):
    try:
        names = list(inspect.signature(f).parameters)
    except (TypeError, ValueError):
        names = []
    written = {i for i, n in enumerate(names) if n in OUT or n in INPLACE.get(qual, ())}

    @functools.wraps(f)
    def call(*a, **k):
        p = W.path
        if p is None or W.depth:
            return f(*a, **k)
        W.depth += 1
        try:
            name = qual.split(":")[1].split(".")[-1]
            inplace = INPLACE.get(qual) == "*" or qual.split(":")[0] == "dolo.misc.caching" or name.startswith("set_") or name in ("__setitem__", "update")
            pics = [snap(x) for x in a], {n: snap(x) for n, x in k.items()}
            W.results = [(r, snap(r), q) for r, s, q in W.results]
        finally:
            W.depth -= 1
        W.depth += 1
        try:
            r = f(*a, **k)
        finally:
            W.depth -= 1
            if not inplace:
                W.depth += 1
                W.calls[qual] = W.calls.get(qual, 0) + 1
                for i, x in enumerate(a):
                    if i in written:
                        continue
                    same(p, snap(x), pics[0][i], "%s leaves its arguments as they were" % name if not (method and i == 0) else "%s leaves the object as it was" % name)
                for n, x in k.items():
                    if n in OUT or n in INPLACE.get(qual, ()):
                        continue
                    same(p, snap(x), pics[1][n], "%s leaves its arguments as they were" % name)
                for x, s, q in W.results if qual not in INPLACE else ():
                    same(p, snap(x), s, "%s leaves earlier results as they were (%s)" % (name, q))
                W.depth -= 1
        if not inplace and W.again and qual.split(":")[0].startswith(PURE) and not name.startswith(IMPURE) and not isinstance(r, types.GeneratorType):
            W.depth += 1
            try:
                s1 = snap(r)
                r2 = f(*a, **k)
                same(p, snap(r2), s1, "%s gives the same answer again" % name)
                same(p, snap(r), s1, "%s leaves earlier results as they were (%s)" % (name, name))
            finally:
                W.depth -= 1
        if not isinstance(r, (types.GeneratorType,) + PRIM) and not inplace:
            W.results.append((r, None, name))
            W.results = W.results[-12:]
        return r
    call.__sxwatch__ = True
    return call


def install():
    """wrap every function and method of the package modules loaded so far (once)"""
    table = {}
    mods = [(n, m) for n, m in list(sys.modules.items()) if (n == "dolo" or n.startswith("dolo.")) and m is not None]
    for n, m in mods:
        for k, v in list(vars(m).items()):
            if isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("dolo") and not getattr(v, "__sxwatch__", False) and not hasattr(v, "py_func"):
                if v not in table:
                    table[v] = wrap(v, "%s:%s" % (v.__module__, v.__qualname__))
                setattr(m, k, table[v])
            elif isinstance(v, type) and (v.__module__ or "").startswith("dolo") and v.__module__ != "dolo.misc.caching" and v not in W.done:
                W.done.add(v)
                for a, g in list(vars(v).items()):
                    if isinstance(g, types.FunctionType) and not hasattr(g, "py_func") and (a == "__call__" or not a.startswith("_")):
                        try:
                            setattr(v, a, wrap(g, "%s:%s" % (v.__module__, g.__qualname__), True))
                        except Exception:
                            pass


class Mute:
    """the path as another check's harness sees it: inputs and assumptions are real, its own claims are not decided here"""

    def __init__(self, p):
        self.__dict__["p"] = p

    def __getattr__(self, k):
        return getattr(self.p, k)

    def __setattr__(self, k, v):
        setattr(self.p, k, v)

    def check(self, b, label):
        return True

    def eq(self, a, b, label, tol=0):
        return True

    def le(self, a, b, label):
        return True

    lt = le

    def zero_iff(self, v, r, label):
        return True


def watched(p, w, fn, cfg):
    """run another harness, watching its calls"""
    install()
    W.path, W.depth, W.results = p, 0, []
    try:
        fn(Mute(p), w, **cfg)
    except (PathAbort, Unsupported):
        raise
    except Exception as e:
        W.path = None
        if p.mode == "sym":
            p.notes.append("harness ended with %s: %s" % (type(e).__name__, str(e)[:200]))
    finally:
        W.path = None
        W.results = []
