"""Caches: the real decorators and the dictionary on disk are executed on sequences of calls whose arguments are
symbolic keys (an arbitrary equality pattern and an arbitrary hash function compatible with it) and on small integers
and arrays; every answer must be the value of the function at the arguments of that call."""
from sxh import H
import os, shutil, tempfile

BOUNDS = "sequences of 3..4 calls; all equality and hash-collision patterns between the arguments; integers in -2..1, arrays of two entries and every shape"
OUTSIDE = "concurrent use of the same cache files; values that are modified after being returned; arguments that compare equal while the function tells them apart (1 and 1.0, lists and tuples)"
M = "dolo.misc.caching:"


class K:
    """key with a symbolic identity and an arbitrary hash"""
    def __init__(self, p, name, hashes=2):
        self.v = p.real("v" + name, -4, 4)
        self.p = p
        self.h = int(p.int("h" + name, 0, hashes - 1))

    def __eq__(self, o):
        return isinstance(o, K) and bool(self.v == o.v)

    def __hash__(self):
        return self.h


def keys(p, n):
    ks = [K(p, str(i)) for i in range(n)]
    for i in range(n):
        for j in range(i):
            if ks[i] == ks[j]:
                p.assume(True if ks[i].h == ks[j].h else False)    # equal objects have equal hashes
    return ks


def memo(p, w, form, n=3):
    val = p.ufun("val", 2, -5, 5)
    calls = []
    def fun(a, b=None):
        "documentation"
        calls.append((a, b))
        return val(a.v, 0 if b is None else b.v)
    m = w.get(M + "memoized")(fun)
    p.check(repr(m) == "documentation", "documentation of the function")
    ks = keys(p, n)
    if form == "one":
        seq = [((k,), {}) for k in ks] + [((ks[0],), {})]
    elif form == "two":
        seq = [((ks[0], ks[1]), {}), ((ks[1], ks[0]), {}), ((ks[0], ks[2]), {}), ((ks[0], ks[1]), {})]
    elif form == "keywords":
        seq = [((ks[0],), dict(b=ks[1])), ((), dict(a=ks[0], b=ks[1])), ((), dict(b=ks[0], a=ks[1])), ((), dict(b=ks[1], a=ks[0])), ((ks[1],), dict(b=ks[0]))]
    else:    # arguments that cannot be hashed
        seq = [((ks[0], Raw(ks[1].v)), {}), ((ks[0], Raw(ks[2].v)), {}), ((ks[1],), {}), ((ks[0],), {})]
    done = []
    for args, kw in seq:
        before = len(calls)
        r = m(*args, **kw)
        b = kw.get("b", args[1] if len(args) > 1 else None)
        a = kw.get("a", args[0] if args else None)
        p.eq(r, val(a.v, 0 if b is None else b.v), "value of the function at these arguments")
        p.check(len(calls) - before <= 1, "at most one evaluation per call")
        if form != "raw" or b is None:
            same = any(a == x and (b is y or (b is not None and y is not None and b == y)) and f == (len(args), len(kw)) for x, y, f in done)
            p.check(len(calls) - before == (0 if same else 1), "evaluated once for equal arguments")
            done.append((a, b, (len(args), len(kw))))


class Raw:
    __hash__ = None

    def __init__(self, v):
        self.v = v


def methods(p, w):
    """methods of different objects do not share values"""
    val = p.ufun("val", 2, -5, 5)
    k = keys(p, 2)
    calls = []
    class A:
        def __init__(self, x):
            self.x = x
        @w.get(M + "memoized")
        def f(self, a):
            calls.append(a)
            return val(self.x, a.v)
    x, y = p.real("x", -4, 4), p.real("y", -4, 4)
    o, q = A(x), A(y)
    for obj, s in ((o, x), (q, y), (o, x)):
        for a in k:
            p.eq(obj.f(a), val(s, a.v), "value of the method of this object")
    p.check(len(calls) == (2 if k[0] == k[1] else 4), "evaluated once for equal arguments")


def errors(p, w):
    """exceptions of the function reach the caller and are not cached"""
    k = keys(p, 2)
    state = dict(n=0)
    for exc in (KeyError, TypeError, ValueError, OSError):
        def fun(a):
            state["n"] += 1
            if a == k[0] and state["n"] == 1:
                raise exc("broken")
            return a.v
        state["n"] = 0
        m = w.get(M + "memoized")(fun)
        try:
            m(k[0])
            ok = False
        except exc:
            ok = True
        p.check(ok and state["n"] == 1, "exceptions reach the caller")
        p.eq(m(k[0]), k[0].v, "value after an exception")
        p.eq(m(k[1]), k[1].v, "value after an exception")


def number(p, name, lo=-2, hi=1):
    return int(p.int(name, lo, hi))


def enc(x):
    return [list(x.shape)] + [int(e) for e in x.ravel()] if hasattr(x, "shape") else x


def args_of(p, w, form, i):
    np = w.np
    if form == "integers":
        return (number(p, "a%d" % i), number(p, "b%d" % i, -1, 0))
    if form == "one":
        return (number(p, "a%d" % i),)
    if form == "lists":
        a, b = number(p, "a%d" % i, -2, -1), number(p, "b%d" % i, 0, 1)
        return ([[a, b], {"k": a, "l": [b]}, [a, [b]]][i],)
    shape = [(2, 1), (1, 2), (2,)][i]
    return (np.array([number(p, "a%d" % i, -2, -1), number(p, "b%d" % i, 0, 1)]).reshape(shape),)


def integers(p, w, form, kind, n=3):
    """numbers whose hashes coincide (-1 and -2), arrays with the same entries and other shapes"""
    calls = []
    def fun(*args):
        calls.append(args)
        return [enc(a) for a in args]
    here, d = os.getcwd(), tempfile.mkdtemp(prefix="p29")
    os.chdir(d)
    try:
        seq = [args_of(p, w, form, i) for i in range(n)]
        seq.append(seq[0])
        if kind == "dictionary":
            D = w.get(M + "DiskDictionary")("store", "f")
            E = w.get(M + "DiskDictionary")("store", "g")
            kept = []
            for j, a in enumerate(seq[:-1]):
                D[a] = j
                kept = [(x, v) for x, v in kept if [enc(e) for e in x] != [enc(e) for e in a]] + [(a, j)]
            for x, v in kept:
                p.check(D.get(x) == v, "last value stored under this key")
            for a in seq:
                p.check(E.get(a) is None, "names do not share values")
            D[seq[0]] = None
            p.check(D.get(seq[0]) is None and sorted(os.listdir(d)) == ["store"], "files stay in the given directory")
            return
        m = w.get(M + kind)(fun)
        for a in seq + seq[:2]:
            before = len(calls)
            p.check(m(*a) == [enc(x) for x in a], "value of the function at these arguments")
            p.check(len(calls) - before <= 1, "at most one evaluation per call")
        distinct = []
        for a in seq:
            if [enc(x) for x in a] not in distinct:
                distinct.append([enc(x) for x in a])
        p.check(len(calls) == len(distinct), "evaluated once for equal arguments")
        if kind == "cachedondisk":
            m2 = w.get(M + kind)(fun)
            before = len(calls)
            p.check(m2(*seq[0]) == [enc(x) for x in seq[0]] and len(calls) == before, "values survive on disk")
            def other(*args):
                return "other"
            p.check(w.get(M + kind)(other)(*seq[0]) == "other", "functions do not share values")
            p.check(os.listdir(d) == [".cache"], "files stay in the cache directory")
    finally:
        os.chdir(here)
        shutil.rmtree(d)


HARNESSES = [
    H("memo", memo, [dict(form="one"), dict(form="two"), dict(form="keywords", n=2), dict(form="raw")], [dict(form="one", n=4)], labels=("value of the function", "at most one")),
    H("methods", methods, [{}], labels=("value of the method", "evaluated once")),
    H("errors", errors, [{}], labels=("exceptions reach", "value after")),
    H("integers", integers, [dict(form=f, kind=k, n=n) for f, n in (("one", 3), ("integers", 2), ("arrays", 3), ("lists", 3)) for k in ("memoized", "cachedondisk", "dictionary")], opts=dict(max_paths=300)),
]
