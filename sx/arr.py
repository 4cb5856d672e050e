"""Object arrays of symbolic scalars and the numpy facade the code under analysis sees."""
import types, math, builtins
import numpy as np
from fractions import Fraction
from . import core
from .core import R, B, Unsupported, lift

_fp = np.frompyfunc


def _id(x):
    return x


SC = {}


def _reg(name, fn, nin, identity="none"):
    kw = {} if identity == "none" else {"identity": identity}
    SC[name] = (_fp(fn, nin, 1, **kw), fn)


def _bool_and(a, b):
    return core.b_and(a, b)


for _n, _f, _k, _i in [
    ("add", core.add, 2, 0), ("subtract", core.sub, 2, "none"), ("multiply", core.mul, 2, 1),
    ("divide", core.div, 2, "none"), ("true_divide", core.div, 2, "none"),
    ("floor_divide", core.floordiv, 2, "none"), ("remainder", core.mod, 2, "none"),
    ("mod", core.mod, 2, "none"),
    ("power", core.power, 2, "none"), ("float_power", core.power, 2, "none"),
    ("negative", lambda a: core.sub(0, a), 1, "none"), ("positive", _id, 1, "none"),
    ("absolute", core.absolute, 1, "none"), ("fabs", core.absolute, 1, "none"),
    ("maximum", core.maximum, 2, "none"), ("minimum", core.minimum, 2, "none"),
    ("fmax", core.maximum, 2, "none"), ("fmin", core.minimum, 2, "none"),
    ("sqrt", core.sqrt, 1, "none"), ("square", lambda a: core.mul(a, a), 1, "none"),
    ("exp", core.exp, 1, "none"), ("log", core.log, 1, "none"), ("sin", core.sin, 1, "none"),
    ("cos", core.cos, 1, "none"), ("tan", core.tan, 1, "none"), ("tanh", core.tanh, 1, "none"),
    ("arctan", core.arctan, 1, "none"), ("arctanh", core.arctanh, 1, "none"),
    ("sinh", core.sinh, 1, "none"), ("cosh", core.cosh, 1, "none"),
    ("log10", core.log10, 1, "none"), ("expm1", core.expm1, 1, "none"), ("log1p", core.log1p, 1, "none"),
    ("reciprocal", lambda a: core.div(1, a), 1, "none"),
    ("sign", core.sign, 1, "none"), ("floor", core.floor, 1, "none"), ("ceil", core.ceil, 1, "none"),
    ("trunc", core.fix, 1, "none"), ("rint", core.rint, 1, "none"),
    ("conjugate", _id, 1, "none"),
    ("hypot", lambda a, b: core.sqrt(core.add(core.mul(a, a), core.mul(b, b))), 2, "none"),
    ("copysign", lambda a, b: core.ite(core.lt(b, 0), core.sub(0, core.absolute(a)), core.absolute(a)), 2, "none"),
    ("heaviside", lambda a, b: core.ite(core.lt(a, 0), lift(0), core.ite(core.lt(0, a), lift(1), lift(b))), 2, "none"),
    ("fmod", lambda a, b: core.sub(a, core.mul(b, core.fix(core.div(a, b)))), 2, "none"),
]:
    _reg(_n, _f, _k, _i)

PRED = {}


def _regp(name, fn, nin, identity="none"):
    _reg(name, fn, nin, identity)
    PRED[name] = True


def _wrapcmp(f):
    def g(a, b):
        r = f(a, b)
        if r is NotImplemented:
            raise Unsupported("comparison of %r and %r" % (type(a), type(b)))
        return r
    return g


def _eq(a, b):
    r = core.eq(a, b)
    return (a == b) if r is NotImplemented else r


def _ne(a, b):
    r = core.ne(a, b)
    return (a != b) if r is NotImplemented else r


for _n, _f, _k, _i in [
    ("less", _wrapcmp(core.lt), 2, "none"), ("less_equal", _wrapcmp(core.le), 2, "none"),
    ("greater", _wrapcmp(lambda a, b: core.lt(b, a)), 2, "none"),
    ("greater_equal", _wrapcmp(lambda a, b: core.le(b, a)), 2, "none"),
    ("equal", _eq, 2, "none"), ("not_equal", _ne, 2, "none"),
    ("logical_and", core.b_and, 2, True), ("logical_or", core.b_or, 2, False),
    ("logical_xor", core.b_xor, 2, "none"), ("logical_not", core.b_not, 1, "none"),
    ("bitwise_and", core.b_and, 2, True), ("bitwise_or", core.b_or, 2, False),
    ("bitwise_xor", core.b_xor, 2, "none"), ("invert", core.b_not, 1, "none"),
    ("isinf", core.isinf, 1, "none"), ("isnan", core.isnan, 1, "none"),
    ("isfinite", core.isfinite, 1, "none"), ("signbit", lambda a: core.lt(a, 0), 1, "none"),
]:
    _regp(_n, _f, _k, _i)


def _base(x):
    if type(x) is SArr:
        return x.view(np.ndarray)
    if type(x) in (R, B):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return x


def _wrap(r, pred=False):
    if isinstance(r, np.ndarray) and type(r) not in (R, B):
        if r.dtype == object:
            if pred:
                if all(type(e) in (bool, np.bool_) for e in r.flat):
                    return r.astype(bool)
            return r.view(SArr)
    elif pred and type(r) is bool:
        return r
    return r


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    out = kw.pop("out", None)
    if name in ("matmul", "vecdot", "matvec", "vecmat"):
        a, b = [np.asarray(_base(i)) for i in inputs]
        r = _matmul(a, b)
        if out is not None:
            out[0][...] = r
            return out[0]
        return _wrap(r)
    if name not in SC:
        raise Unsupported("numpy ufunc %s on symbolic values" % name)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    fp, fn = SC[name]
    ins = []
    for i in inputs:
        i = _base(i)
        if isinstance(i, np.ndarray) and i.dtype != object and i.dtype.kind in "fiub":
            i = i.astype(object)
        ins.append(i)
    pred = name in PRED
    if method == "__call__":
        where = kw.pop("where", True)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if where is True:
                r = fp(*ins, **kw)
            else:
                r = fp(*ins, where=where, **kw)
            o[...] = r
            return o
        if where is not True:
            kw["where"] = where
        return _wrap(fp(*ins, **kw), pred)
    if method in ("reduce", "accumulate", "reduceat", "outer"):
        if method == "reduce":
            if "initial" in kw and kw["initial"] is np._NoValue:
                kw.pop("initial")
            if kw.get("where", None) is np._NoValue or kw.get("where", None) is True:
                kw.pop("where", None)
            kw.pop("keepdims", None) if kw.get("keepdims", None) is False else None
        o = None
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
        axis = kw.pop("axis", 0)
        if method == "reduce":
            a = np.asarray(ins[0])
            r = _reduce(fp, fn, name, a, axis, kw)
        else:
            args = list(ins)
            r = getattr(fp, method)(*args, **({"axis": axis} if method != "outer" else {}), **kw)
        if o is not None:
            o[...] = r
            return o
        return _wrap(r, pred)
    if method == "at":
        a, ind = inputs[0], inputs[1]
        vals = inputs[2] if len(inputs) > 2 else None
        ab = _base(a)
        it = np.empty(ab.shape, dtype=object)
        sub = np.arange(ab.size).reshape(ab.shape)[ind]
        flat = ab.reshape(-1)
        if flat.base is None and flat is not ab:
            raise Unsupported("ufunc.at on non contiguous array")
        if vals is None:
            for k in sub.ravel():
                flat[k] = fn(flat[k])
        else:
            vals = np.broadcast_to(np.asarray(_base(vals), dtype=object), sub.shape)
            for k, v in zip(sub.ravel(), vals.ravel()):
                flat[k] = fn(flat[k], v)
        ab[...] = flat.reshape(ab.shape)
        return None
    raise Unsupported("ufunc method " + method)


def _reduce(fp, fn, name, a, axis, kw):
    keep = kw.pop("keepdims", False)
    initial = kw.pop("initial", None)
    where = kw.pop("where", True)
    if where is not True:
        raise Unsupported("reduce where")
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        axes = (axis % a.ndim,) if a.ndim else ()
    r = a
    for ax in sorted(axes, reverse=True):
        if r.shape[ax] == 0:
            if name == "add":
                r = np.zeros(r.shape[:ax] + r.shape[ax + 1:], dtype=object)
            elif name == "multiply":
                r = np.zeros(r.shape[:ax] + r.shape[ax + 1:], dtype=object) + 1
            elif name in ("logical_and",):
                r = np.full(r.shape[:ax] + r.shape[ax + 1:], True, dtype=object)
            elif name in ("logical_or",):
                r = np.full(r.shape[:ax] + r.shape[ax + 1:], False, dtype=object)
            else:
                raise ValueError("zero-size array to reduction operation")
            continue
        if name in ("logical_and", "logical_or") and r.shape[ax] == 1:
            r = np.take(r, 0, axis=ax)
            t = np.empty(np.shape(r), dtype=object)
            if t.ndim == 0:
                e = r[()] if isinstance(r, np.ndarray) else r
                t[()] = e if type(e) in (B, bool, np.bool_) else core.ne(e, 0)
            else:
                for q in np.ndindex(*t.shape):
                    t[q] = r[q] if type(r[q]) in (B, bool, np.bool_) else core.ne(r[q], 0)
            r = t
            continue
        r = fp.reduce(r, axis=ax)
        if not isinstance(r, np.ndarray):
            t = np.empty((), dtype=object)
            t[()] = r
            r = t
    if initial is not None:
        r = fp(r, initial)
    if keep:
        shp = tuple(1 if i in axes else s for i, s in enumerate(a.shape))
        r = np.asarray(r, dtype=object).reshape(shp)
    if isinstance(r, np.ndarray) and r.ndim == 0:
        r = r[()]
    return r


def _matmul(a, b):
    a = a.astype(object) if a.dtype != object else a
    b = b.astype(object) if b.dtype != object else b
    return np.matmul(a, b)


class SArr(np.ndarray):
    """object array of symbolic scalars; comparisons stay symbolic"""
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        h = FUN.get(func)
        if h is not None:
            return h(*args, **kwargs)
        r = super().__array_function__(func, (SArr,), args, kwargs)
        return _wrapdeep(r)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr[()]
        return arr.view(SArr)

    def __getitem__(self, k):
        k = _key(k)
        r = super().__getitem__(k)
        return r

    def __setitem__(self, k, v):
        if isinstance(k, np.ndarray) and type(k) not in (R, B) and k.dtype == object and _hasB(k):
            # symbolic mask
            kk = np.asarray(_base(k))
            if kk.shape == self.shape[: kk.ndim]:
                vv = np.asarray(_base(v), dtype=object)
                if vv.ndim == 0 or (vv.ndim <= self.ndim - kk.ndim):
                    me = self.view(np.ndarray)
                    for idx in np.ndindex(*kk.shape):
                        c = kk[idx]
                        if type(c) is not B:
                            if c:
                                me[idx] = vv if me[idx].__class__ is np.ndarray else vv[()]
                            continue
                        cell = me[idx]
                        if kk.ndim == self.ndim:
                            me[idx] = core.ite(c, vv[()], cell)
                        else:
                            old = np.asarray(cell)
                            new = np.broadcast_to(vv, old.shape)
                            for j in np.ndindex(*old.shape):
                                me[idx + j] = core.ite(c, new[j], old[j])
                    return
        k = _key(k)
        if type(v) not in (R, B) and isinstance(v, np.ndarray) and v.dtype != object and v.dtype.kind in "fiub":
            v = v.astype(object)
        if type(v) is SArr:
            v = v.view(np.ndarray)
        if isinstance(v, np.ndarray) and v.ndim >= 1 and type(v) not in (R, B):
            # numpy: an array of size 1 assigned to a scalar cell
            tgt = super().__getitem__(k)
            if not isinstance(tgt, np.ndarray) or type(tgt) in (R, B):
                if v.size == 1:
                    v = v.reshape(())[()]
                else:
                    raise ValueError("setting an array element with a sequence.")
        elif isinstance(v, (list, tuple)):
            tgt = super().__getitem__(k)
            if not isinstance(tgt, np.ndarray) or type(tgt) in (R, B):
                raise ValueError("setting an array element with a sequence.")
            v = np.asarray(array(v))
        elif v is None or isinstance(v, str):
            raise TypeError("cannot store %r in a float array" % (v,))
        if isinstance(v, np.ndarray) and type(v) not in (R, B) and v.ndim == 0:
            v = v[()]
        super().__setitem__(k, v)

    # -- methods whose C implementation would compare objects
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        kind = _kind(dtype)
        if kind == "f" or kind == "O":
            return self.copy() if copy else self
        if kind == "c":
            return self.copy()
        b = self.view(np.ndarray)
        if kind == "b":
            r = np.zeros(self.shape, dtype=bool)
            for i in np.ndindex(*self.shape):
                r[i] = bool(b[i])
            return r
        if kind in "iu":
            r = np.zeros(self.shape, dtype=dtype)
            for i in np.ndindex(*self.shape):
                r[i] = int(b[i])
            return r
        return np.asarray(b).astype(dtype)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np.maximum.reduce(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np.minimum.reduce(self, axis=axis, keepdims=keepdims)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_or.reduce(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_and.reduce(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = np.add.reduce(self, axis=axis, keepdims=keepdims)
        n = self.size if axis is None else np.prod([self.shape[a] for a in np.atleast_1d(axis)])
        return s / int(n)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        n = self.size if axis is None else np.prod([self.shape[a] for a in np.atleast_1d(axis)])
        return np.add.reduce(d * d, axis=axis, keepdims=keepdims) / int(n - ddof)

    def std(self, *a, **k):
        return np.sqrt(self.var(*a, **k))

    def dot(self, b, out=None):
        return dot(self, b)

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self
        if axis is None:
            a, axis = self.ravel(), 0
        return _wrap(SC["add"][0].accumulate(a.view(np.ndarray), axis=axis))

    def cumprod(self, axis=None, dtype=None, out=None):
        a = self
        if axis is None:
            a, axis = self.ravel(), 0
        return _wrap(SC["multiply"][0].accumulate(a.view(np.ndarray), axis=axis))

    def trace(self, *a, **k):
        return sum(self[i, i] for i in range(min(self.shape)))

    def round(self, decimals=0, out=None):
        return self.copy()

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        if out is not None:
            out[...] = r
            return out
        return r

    def argmax(self, axis=None, out=None, **k):
        return _arg(self, axis, lambda x, y: core.lt(y, x))

    def argmin(self, axis=None, out=None, **k):
        return _arg(self, axis, core.lt)

    def argsort(self, axis=-1, **k):
        if self.ndim != 1:
            v = np.moveaxis(self, axis, -1)
            r = np.zeros(v.shape, dtype=int)
            for i in np.ndindex(*v.shape[:-1]):
                r[i] = v[i].argsort()
            return np.moveaxis(r, -1, axis)
        import functools
        l = list(self.view(np.ndarray))
        idx = sorted(range(len(l)), key=functools.cmp_to_key(
            lambda i, j: -1 if bool(core.lt(l[i], l[j])) else (1 if bool(core.lt(l[j], l[i])) else 0)))
        return np.array(idx)

    def sort(self, axis=-1, **k):
        if self.ndim == 1:
            o = self[self.argsort()].copy()
            self[...] = o
            return
        v = np.moveaxis(self, axis, -1)
        for i in np.ndindex(*v.shape[:-1]):
            row = v[i]
            v[i] = row[row.argsort()].copy()

    def nonzero(self):
        m = np.zeros(self.shape, dtype=bool)
        b = self.view(np.ndarray)
        for i in np.ndindex(*self.shape):
            m[i] = bool(b[i] != 0) if type(b[i]) is not B else bool(b[i])
        return m.nonzero()

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def tobytes(self, *a):
        raise Unsupported("bytes of symbolic array")

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self.view(np.ndarray).reshape(-1)[0])

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.view(np.ndarray).reshape(-1)[0])

    def __contains__(self, x):
        return bool((self == x).any())

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __deepcopy__(self, memo):
        return self.copy()

    def __format__(self, s):
        return repr(self)


def _arg(a, axis, better):
    if axis is None:
        l = list(a.view(np.ndarray).ravel())
        k = 0
        for i in range(1, len(l)):
            if bool(better(l[i], l[k])):
                k = i
        return k
    v = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.zeros(v.shape[:-1], dtype=int)
    for i in np.ndindex(*out.shape):
        l = v[i]
        k = 0
        for j in range(1, len(l)):
            if bool(better(l[j], l[k])):
                k = j
        out[i] = k
    return out


def _hasB(k):
    return any(type(e) is B for e in np.asarray(_base(k)).flat)


def _key1(k):
    t = type(k)
    if t is R:
        return k.__index__()
    if t is B:
        return bool(k)
    if t is SArr or (isinstance(k, np.ndarray) and k.dtype == object):
        b = np.asarray(_base(k))
        if b.size and all(type(e) in (B, bool, np.bool_) for e in b.flat):
            m = np.zeros(b.shape, dtype=bool)
            for i in np.ndindex(*b.shape):
                m[i] = bool(b[i])
            return m
        m = np.zeros(b.shape, dtype=int)
        for i in np.ndindex(*b.shape):
            if type(b[i]) is R and b[i].const and b[i].v.denominator != 1:
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            m[i] = b[i].__index__()
        return m
    if t is slice:
        f = lambda x: x.__index__() if type(x) is R else x
        return slice(f(k.start), f(k.stop), f(k.step))
    if t is list:
        return [_key1(e) if type(e) in (R, B) else e for e in k]
    return k


def _key(k):
    if type(k) is tuple:
        return tuple(_key1(e) for e in k)
    return _key1(k)


def _wrapdeep(r):
    if isinstance(r, np.ndarray) and type(r) is np.ndarray and r.dtype == object:
        return r.view(SArr)
    if type(r) is tuple:
        return tuple(_wrapdeep(e) for e in r)
    if type(r) is list:
        return [_wrapdeep(e) for e in r]
    return r


def _kind(dtype):
    if dtype is None:
        return "f"
    n = getattr(dtype, "__sx_kind__", None)
    if n:
        return n
    if dtype is R:
        return "f"
    try:
        return np.dtype(dtype).kind
    except TypeError:
        return "f"


def _realdtype(dtype):
    n = getattr(dtype, "__sx_real__", None)
    return n if n is not None else dtype


def _lift_arr(a):
    """real numeric ndarray / object ndarray -> SArr with exact elements"""
    a = np.asarray(_base(a))
    if a.dtype == object:
        return a.view(SArr)
    o = np.empty(a.shape, dtype=object)
    f = o.reshape(-1)
    for i, e in enumerate(a.ravel().tolist()):
        f[i] = e if isinstance(e, complex) else lift(e)
    return o.view(SArr)


ZERO, ONE = R(Fraction(0)), R(Fraction(1))


def _full(shape, val):
    if type(shape) is R:
        shape = shape.__index__()
    if not isinstance(shape, (int, np.integer)):
        shape = tuple(int(s.__index__()) for s in (list(shape)))
    a = np.empty(shape, dtype=object)
    a.fill(val)
    if a.ndim == 0:
        a[()] = val
    return a.view(SArr)


def zeros(shape, dtype=None, order=None, like=None):
    if _kind(dtype) in "fOc":
        return _full(shape, ZERO)
    return np.zeros(_shape(shape), dtype=_realdtype(dtype))


def _shape(s):
    if type(s) is R:
        return s.__index__()
    if isinstance(s, (list, tuple)):
        return tuple(e.__index__() for e in s)
    return s


def ones(shape, dtype=None, order=None, like=None):
    if _kind(dtype) in "fOc":
        return _full(shape, ONE)
    return np.ones(_shape(shape), dtype=_realdtype(dtype))


GARBAGE = R(Fraction(987654321, 1000))


def empty(shape, dtype=None, order=None, like=None):
    """uninitialised memory: a recognisable arbitrary value"""
    if _kind(dtype) in "fOc":
        return _full(shape, GARBAGE)
    return np.zeros(_shape(shape), dtype=_realdtype(dtype)) + (987654 if _kind(dtype) in "iu" else 0)


def full(shape, fill_value, dtype=None, order=None, like=None):
    if dtype is not None and _kind(dtype) in "iub":
        return np.full(_shape(shape), fill_value, dtype=_realdtype(dtype))
    if dtype is None and isinstance(fill_value, (int, bool, np.integer)) and type(fill_value) is not R:
        return np.full(_shape(shape), fill_value)
    r = _full(shape, ZERO)
    r[...] = fill_value if type(fill_value) is R or isinstance(fill_value, np.ndarray) else lift(fill_value)
    return r


def zeros_like(a, dtype=None, **k):
    a = array(a) if not isinstance(a, np.ndarray) or type(a) in (R, B) else a
    if dtype is None:
        dtype = a.dtype
    return zeros(a.shape, dtype)


def ones_like(a, dtype=None, **k):
    a = array(a) if not isinstance(a, np.ndarray) or type(a) in (R, B) else a
    if dtype is None:
        dtype = a.dtype
    return ones(a.shape, dtype)


def empty_like(a, dtype=None, **k):
    if dtype is None:
        dtype = a.dtype
    return empty(a.shape, dtype)


def full_like(a, fill_value, dtype=None, **k):
    return full(a.shape, fill_value, dtype if dtype is not None else a.dtype)


def eye(N, M=None, k=0, dtype=None, **kw):
    r = np.eye(int(N), M if M is None else int(M), int(k))
    return _lift_arr(r) if _kind(dtype) in "fO" else r.astype(_realdtype(dtype))


def array(obj, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
    kind = None if dtype is None else _kind(dtype)
    if type(obj) in (R, B):
        a = np.empty((), dtype=object)
        a[()] = obj
        if ndmin:
            a = a.reshape((1,) * ndmin)
        if kind in ("i", "u", "b"):
            return a.view(SArr).astype(_realdtype(dtype))
        return a.view(SArr)
    if type(obj) is SArr:
        if kind in ("i", "u", "b"):
            return obj.astype(_realdtype(dtype))
        r = obj.copy() if copy else obj
        return r.reshape((1,) * (ndmin - r.ndim) + r.shape) if ndmin > r.ndim else r
    if isinstance(obj, np.ndarray):
        if kind is None:
            if obj.dtype.kind == "f":
                r = _lift_arr(obj)
            elif obj.dtype == object:
                r = obj.copy().view(SArr)
            else:
                r = obj.copy() if copy else obj
        elif kind in "fc":
            r = _lift_arr(obj)
        else:
            r = obj.astype(_realdtype(dtype))
        return r.reshape((1,) * (ndmin - r.ndim) + r.shape) if ndmin > r.ndim else r
    if kind is not None and kind not in "fcO":
        try:
            return np.array(_unsym(obj), dtype=_realdtype(dtype), ndmin=ndmin)
        except TypeError:
            raise
    # nested python sequences
    if hasattr(obj, "__array__") and not isinstance(obj, (list, tuple)):
        return array(np.asarray(obj), dtype=dtype, ndmin=ndmin)
    r = _build(obj)
    if r.dtype.kind in "f":
        r = _lift_arr(r)
    elif r.dtype.kind in "iub" and kind in ("f", "c"):
        r = _lift_arr(r)
    elif r.dtype == object:
        r = r.view(SArr)
        flat = r.view(np.ndarray)
        for i in np.ndindex(*flat.shape):
            e = flat[i]
            if type(e) not in (R, B) and not isinstance(e, np.ndarray):
                l = lift(e)
                if l is not None and not isinstance(e, bool):
                    flat[i] = l
                elif kind in ("f",) and l is None:
                    raise TypeError("float() argument must be a string or a real number, not %r" % type(e).__name__)
    return r.reshape((1,) * (ndmin - r.ndim) + r.shape) if ndmin > r.ndim else r


def _unsym(o):
    if type(o) is R:
        return o.__index__() if not o.const or o.v.denominator == 1 else int(o)
    if type(o) is B:
        return bool(o)
    if isinstance(o, (list, tuple)):
        return [_unsym(e) for e in o]
    if type(o) is SArr:
        return [_unsym(e) for e in o.view(np.ndarray)]
    return o


def _hassym(o):
    t = type(o)
    if t in (R, B, SArr):
        return True
    if isinstance(o, np.ndarray):
        return o.dtype == object
    if isinstance(o, (list, tuple)):
        return any(_hassym(e) for e in o)
    return False


def _build(o):
    if not _hassym(o):
        return np.array(o)
    if type(o) in (R, B):
        a = np.empty((), dtype=object)
        a[()] = o
        return a
    if isinstance(o, np.ndarray):
        return np.asarray(_base(o), dtype=object)
    if isinstance(o, (list, tuple)):
        ch = [_build(e) for e in o]
        shp = set(c.shape for c in ch)
        if len(shp) > 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        shp = shp.pop() if shp else ()
        a = np.empty((len(ch),) + shp, dtype=object)
        for i, c in enumerate(ch):
            if c.ndim == 0:
                a[i] = c[()]
            else:
                a[i, ...] = c
        return a
    return np.array(o)


def asarray(obj, dtype=None, order=None, **k):
    if isinstance(obj, np.ndarray) and type(obj) not in (R, B):
        kind = None if dtype is None else _kind(dtype)
        if type(obj) is SArr:
            return obj if kind in (None, "f", "O") else obj.astype(_realdtype(dtype))
        if obj.dtype == object:
            return obj.view(SArr)
        if obj.dtype.kind == "f" or kind == "f":
            return _lift_arr(obj)
        return obj if kind is None else obj.astype(_realdtype(dtype))
    return array(obj, dtype=dtype)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num.__index__()) if hasattr(num, "__index__") else num
    if num < 0:
        raise ValueError("Number of samples, %s, must be non-negative." % num)
    a0, b0 = array(start), array(stop)
    div = (num - 1) if endpoint else num
    rows = []
    d = b0 - a0
    for i in range(num):
        if endpoint and num > 1 and i == num - 1:
            rows.append(b0 + 0)
        elif div <= 0:
            rows.append(a0 + 0)
        else:
            rows.append(a0 + d * Fraction(i, div))
    if not rows:
        return _full((0,), ZERO)
    a = array(rows, dtype=float)
    if retstep:
        return a, (d / div if div else math.nan)
    return a


def arange(*a, dtype=None, **k):
    a = [int(x) if type(x) is R and x.const and x.v.denominator == 1 else x for x in a]
    if any(type(x) is R for x in a):
        if all((not x.const and x.v.is_int()) if type(x) is R else isinstance(x, int) for x in a):
            a = [x.__index__() if type(x) is R else x for x in a]
        else:
            start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
            out, x = [], start
            while bool(x < stop):
                out.append(x)
                x = x + step
            return array(out, dtype=float) if out else zeros(0)
    r = np.arange(*a, dtype=None if dtype is None else _realdtype(dtype) if _kind(dtype) in "iu" else float, **k) if dtype is not None else np.arange(*a, **k)
    return _lift_arr(r) if r.dtype.kind == "f" else r


def where(c, x=None, y=None):
    if x is None:
        c = asarray(c) if not isinstance(c, np.ndarray) else c
        if c.dtype == object:
            return c.view(SArr).nonzero()
        return np.where(c)
    if type(c) in (R, B) or (isinstance(c, np.ndarray) and c.dtype == object) or _hassym(x) or _hassym(y):
        cc, xx, yy = [np.asarray(_base(asarray(e)), dtype=object) for e in (c, x, y)]
        return _wrap(_fp(core.ite, 3, 1)(cc, xx, yy))
    return np.where(c, x, y)


def dot(a, b, out=None):
    a, b = np.asarray(_base(asarray(a))), np.asarray(_base(asarray(b)))
    if a.dtype != object and b.dtype != object:
        r = np.dot(a, b)
    elif a.ndim == 0 or b.ndim == 0:
        r = SC["multiply"][0](a.astype(object), b.astype(object))
    else:
        r = np.dot(a.astype(object), b.astype(object))
        if isinstance(r, (int,)) and not isinstance(r, R):
            r = lift(r)
    if out is not None:
        out[...] = r
        return out
    return _wrap(r)


def einsum(spec, *ops, **k):
    k.pop("optimize", None)
    ops = [np.asarray(_base(asarray(o))).astype(object) for o in ops]
    spec = spec.replace(" ", "")
    ins, outp = spec.split("->") if "->" in spec else (spec, None)
    subs = ins.split(",")
    if any("..." in s for s in subs):
        nd = max(o.ndim - len(s.replace("...", "")) for s, o in zip(subs, ops) if "..." in s)
        lets = "ZYXWVU"[:nd]
        subs = [s.replace("...", lets[nd - (o.ndim - len(s.replace("...", ""))):]) for s, o in zip(subs, ops)]
        if outp is not None:
            outp = outp.replace("...", lets)
        else:
            free = sorted(c for c in set("".join(subs)) - set(lets) if "".join(subs).count(c) == 1)
            outp = lets + "".join(free)
    if outp is None:
        al = "".join(subs)
        outp = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    dims = {}
    for s, o in zip(subs, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string contains wrong number of dims")
        for c, n in zip(s, o.shape):
            if dims.get(c, n) != n:
                if dims[c] == 1:
                    dims[c] = n
                elif n != 1:
                    raise ValueError("operands could not be broadcast together in einsum")
            else:
                dims.setdefault(c, n)
    contr = [c for c in dims if c not in outp]
    out = np.empty([dims[c] for c in outp], dtype=object)
    for i in np.ndindex(*out.shape):
        env = dict(zip(outp, i))
        tot = ZERO
        for j in np.ndindex(*[dims[c] for c in contr]):
            env.update(zip(contr, j))
            t = ONE
            for s, o in zip(subs, ops):
                t = core.mul(t, o[tuple(env[c] if o.shape[q] > 1 else 0 for q, c in enumerate(s))])
            tot = core.add(tot, t)
        out[i] = tot
    if out.ndim == 0:
        return out[()]
    return out.view(SArr)


# -- linear algebra -----------------------------------------------------------------
def _lu_solve(A, Bm):
    """exact solve for constant/ symbolic matrices via cofactors (small n) with det != 0 assumed"""
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if all(type(e) is not R or e.const for e in A.flat):
        M = [[lift(e).v for e in r] for r in A]
        X = [[lift(e) for e in r] for r in Bm]
        for c in range(n):
            p = next((r for r in range(c, n) if M[r][c] != 0), None)
            if p is None:
                raise np.linalg.LinAlgError("Singular matrix")
            M[c], M[p] = M[p], M[c]
            X[c], X[p] = X[p], X[c]
            for r in range(n):
                if r != c and M[r][c] != 0:
                    f = M[r][c] / M[c][c]
                    M[r] = [a - f * b for a, b in zip(M[r], M[c])]
                    X[r] = [core.sub(a, core.mul(f, b)) for a, b in zip(X[r], X[c])]
        out = np.empty(Bm.shape, dtype=object)
        for r in range(n):
            for j in range(Bm.shape[1]):
                out[r, j] = core.div(X[r][j], M[r][r])
        return out
    if n > 4:
        # contract: the unique X with A X = B (nonsingular by definedness)
        if n > 12:
            raise Unsupported("solve of a symbolic %dx%d system" % (n, n))
        out = np.empty(Bm.shape, dtype=object)
        for j in range(Bm.shape[1]):
            for i in range(n):
                out[i, j] = R(core.CUR.fresh("lin"))
            for i in range(n):
                v = ZERO
                for k in range(n):
                    v = core.add(v, core.mul(A[i, k], out[k, j]))
                core.CUR.assume(core.eq(v, Bm[i, j]))
        return out
    d = det(A)
    if bool(core.eq(d, 0)) if core.CUR.opts.get("strict_div") else False:
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty(Bm.shape, dtype=object)
    adj = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            mnr = np.delete(np.delete(A, i, 0), j, 1)
            c = det(mnr) if n > 1 else ONE
            adj[j, i] = c if (i + j) % 2 == 0 else core.sub(0, c)
    for i in range(n):
        for j in range(Bm.shape[1]):
            s = ZERO
            for k in range(n):
                s = core.add(s, core.mul(adj[i, k], Bm[k, j]))
            out[i, j] = core.div(s, d)
    return out


def det(A):
    A = np.asarray(_base(A), dtype=object)
    if A.ndim > 2:
        out = np.empty(A.shape[:-2], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = det(A[i])
        return out.view(SArr)
    n = A.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return lift(A[0, 0])
    if n == 2:
        return core.sub(core.mul(A[0, 0], A[1, 1]), core.mul(A[0, 1], A[1, 0]))
    s = ZERO
    for j in range(n):
        a = lift(A[0, j])
        if a.const and a.v == 0:
            continue
        m = np.delete(np.delete(A, 0, 0), j, 1)
        t = core.mul(a, det(m))
        s = core.add(s, t) if j % 2 == 0 else core.sub(s, t)
    return s


def solve(a, b, **k):
    A, Bm = np.asarray(_base(asarray(a)), dtype=object), np.asarray(_base(asarray(b)), dtype=object)
    if A.ndim > 2:
        vec = Bm.ndim == 1
        lead = np.broadcast_shapes(A.shape[:-2], Bm.shape[:-2] if not vec else ())
        A2 = np.broadcast_to(A, lead + A.shape[-2:])
        B2 = Bm[:, None] if vec else Bm
        B2 = np.broadcast_to(B2, lead + B2.shape[-2:])
        out = np.empty(lead + (A.shape[-1], B2.shape[-1]), dtype=object)
        for i in np.ndindex(*lead):
            out[i] = _lu_solve(A2[i], B2[i])
        out = out[..., 0] if vec else out
        return out.view(SArr)
    if Bm.ndim == 1:
        if Bm.shape[0] != A.shape[0]:
            raise ValueError("solve: mismatch in core dimension")
        return _lu_solve(A, Bm[:, None])[:, 0].view(SArr)
    if Bm.shape[0] != A.shape[0]:
        raise ValueError("solve: mismatch in core dimension")
    return _lu_solve(A, Bm).view(SArr)


def inv(a):
    A = np.asarray(_base(asarray(a)), dtype=object)
    if A.ndim > 2:
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(*A.shape[:-2]):
            out[i] = _lu_solve(A[i], np.asarray(_base(eye(A.shape[-1]))))
        return out.view(SArr)
    return _lu_solve(A, np.asarray(_base(eye(A.shape[0])))).view(SArr)


def cholesky(a, lower=True):
    """L with L L' = a, computed from the lower triangle; pivots assumed positive"""
    A = np.asarray(_base(asarray(a)), dtype=object)
    n = A.shape[0]
    L = _full((n, n), ZERO)
    for j in range(n):
        s = A[j, j]
        for k in range(j):
            s = core.sub(s, core.mul(L[j, k], L[j, k]))
        s = lift(s)
        if s.const:
            if s.v <= 0:
                raise np.linalg.LinAlgError("Matrix is not positive definite")
        else:
            core.CUR.assume(core.lt(0, s))
        L[j, j] = core.sqrt(s)
        for i in range(j + 1, n):
            t = A[i, j]
            for k in range(j):
                t = core.sub(t, core.mul(L[i, k], L[j, k]))
            L[i, j] = core.div(t, L[j, j])
    return L


def norm(x, ord=None, axis=None, keepdims=False):
    a = asarray(x)
    if axis is None and ord is None:
        return core.sqrt(np.add.reduce((a * a).ravel()))
    if ord in (np.inf, math.inf) and a.ndim == 1:
        return abs(a).max()
    if ord == 1 and a.ndim == 1:
        return abs(a).sum()
    if ord == "fro" and a.ndim == 2 and axis is None:
        return core.sqrt(np.add.reduce((a * a).ravel()))
    if ord in (np.inf, math.inf) and isinstance(axis, int):
        return abs(a).max(axis=axis)
    if ord == 1 and isinstance(axis, int):
        return abs(a).sum(axis=axis)
    if ord in (np.inf, math.inf) and a.ndim == 2 and axis is None:
        return abs(a).sum(axis=1).max()
    if ord in (None, 2) and (axis is not None or a.ndim == 1):
        return np.sqrt((a * a).sum(axis=axis, keepdims=keepdims))
    raise Unsupported("norm")


def lstsq(a, b, rcond=None):
    a, b = asarray(a), asarray(b)
    g = dot(a.T, a)
    return solve(g, dot(a.T, b)), None, a.shape[1], None


def matrix_power(a, n):
    r = eye(a.shape[0])
    for _ in range(n):
        r = dot(r, a)
    return r


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarray(a), asarray(b)
    return abs(a - b) <= (atol + rtol * abs(b))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return np.logical_and.reduce(r, axis=None) if isinstance(r, np.ndarray) else r


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    r = a == b
    return r.all() if isinstance(r, np.ndarray) else r


def searchsorted(a, v, side="left", sorter=None):
    a = asarray(a)
    if a.dtype != object and not _hassym(v):
        return np.searchsorted(a, v, side, sorter)
    def one(x):
        i = 0
        n = len(a)
        while i < n and bool(core.lt(a[i], x) if side == "left" else core.le(a[i], x)):
            i += 1
        return i
    if isinstance(v, np.ndarray) and type(v) not in (R, B) and v.ndim:
        return np.array([one(x) for x in v.ravel()]).reshape(v.shape)
    return one(v)


def diff(a, n=1, axis=-1):
    a = asarray(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = list(s1)
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a


def median(a, axis=None, **k):
    return quantile(a, 0.5, axis)


def interp(x, xp, fp, **k):
    xp, fp = asarray(xp), asarray(fp)
    def one(t):
        r = fp[-1]
        for i in range(len(xp) - 2, -1, -1):
            seg = fp[i] + (fp[i + 1] - fp[i]) * (t - xp[i]) / (xp[i + 1] - xp[i])
            r = core.ite(core.lt(t, xp[i + 1]), seg, r)
        return core.ite(core.lt(t, xp[0]), fp[0], r)
    x = asarray(x)
    if x.ndim == 0:
        return one(x[()])
    return _wrap(np.asarray(_fp(one, 1, 1)(np.asarray(_base(x), dtype=object))))


def atleast(n):
    real = {1: np.atleast_1d, 2: np.atleast_2d, 3: np.atleast_3d}[n]
    def f(*a):
        r = [asarray(x) for x in a]
        r = [_wrapdeep(real(np.asarray(_base(x)))) for x in r]
        return r[0] if len(r) == 1 else r
    return f


def _stack(realf):
    def f(arrs, *a, **k):
        k.pop("dtype", None)
        l = [asarray(x) for x in arrs]
        if any(x.dtype == object for x in l):
            l = [np.asarray(_base(x)).astype(object) for x in l]
        return _wrapdeep(realf(l, *a, **k))
    return f


def _viabase(realf):
    def f(a, *args, **k):
        return _wrapdeep(realf(np.asarray(_base(asarray(a))), *[_base(x) if type(x) is SArr else x for x in args], **k))
    return f


def kron(a, b):
    a, b = asarray(a), asarray(b)
    A, Bm = np.asarray(_base(a)), np.asarray(_base(b))
    if A.dtype != object and Bm.dtype != object:
        return np.kron(A, Bm)
    nd = max(A.ndim, Bm.ndim)
    if nd == 0:
        return core.mul(A[()], Bm[()])
    A = A.reshape((1,) * (nd - A.ndim) + A.shape).astype(object)
    Bm = Bm.reshape((1,) * (nd - Bm.ndim) + Bm.shape).astype(object)
    shp = tuple(i * j for i, j in zip(A.shape, Bm.shape))
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        ia = tuple(x // n for x, n in zip(i, Bm.shape))
        ib = tuple(x % n for x, n in zip(i, Bm.shape))
        out[i] = core.mul(A[ia], Bm[ib])
    return out.view(SArr)


def outer(a, b, out=None):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return a[:, None] * b[None, :]


def tensordot(a, b, axes=2):
    A, Bm = np.asarray(_base(asarray(a))).astype(object), np.asarray(_base(asarray(b))).astype(object)
    return _wrapdeep(np.tensordot(A, Bm, axes))


def _red(name):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, **k):
        if not isinstance(a, np.ndarray) or type(a) in (R, B):
            if hasattr(a, "__next__"):
                a = list(a)
            a = asarray(a)
        if a.dtype != object:
            m = {"sum": np.sum, "prod": np.prod, "max": np.max, "min": np.min, "any": np.any, "all": np.all, "mean": np.mean}[name]
            r = m(a, axis=axis, keepdims=keepdims)
            return lift(r) if name in ("mean",) and np.ndim(r) == 0 else r
        a = a.view(SArr)
        if name == "mean":
            return a.mean(axis=axis, keepdims=keepdims)
        u = {"sum": np.add, "prod": np.multiply, "max": np.maximum, "min": np.minimum,
             "any": np.logical_or, "all": np.logical_and}[name]
        r = u.reduce(a, axis=axis, keepdims=keepdims)
        if initial is not None:
            r = u(r, initial)
        if out is not None:
            out[...] = r
            return out
        return r
    return f


def prod(a, axis=None, **k):
    if isinstance(a, (list, tuple)) and not _hassym(a):
        return np.prod(a, axis=axis)
    return _red("prod")(a, axis)


def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    r = asarray(a)
    if a_min is not None:
        r = NP.maximum(r, a_min)
    if a_max is not None:
        r = NP.minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val


def diag(v, k=0):
    v = asarray(v)
    if v.ndim == 1:
        n = len(v) + abs(k)
        r = zeros((n, n), dtype=v.dtype)
        for i in range(len(v)):
            r[(i, i + k) if k >= 0 else (i - k, i)] = v[i]
        return r
    return _wrapdeep(np.diag(np.asarray(_base(v)), k)).copy()


def meshgrid(*xs, **k):
    return _wrapdeep(list(np.meshgrid(*[np.asarray(_base(asarray(x))) for x in xs], **k)))


def average(a, axis=None, weights=None, **k):
    a = asarray(a)
    if weights is None:
        return a.mean(axis=axis)
    w = asarray(weights)
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        shp = [1] * a.ndim
        shp[axis] = -1
        w2 = w.reshape(shp)
        return (a * w2).sum(axis=axis) / w.sum()
    return (a * w).sum(axis=axis) / w.sum(axis=axis)


def nonzero(a):
    a = asarray(a)
    return a.nonzero()


def copyto(dst, src, where=True, **k):
    if where is not True:
        dst[where] = src if not isinstance(src, np.ndarray) else src[where]
    else:
        dst[...] = src


def unique(a, **k):
    if k:
        raise Unsupported("unique on symbolic")
    a = asarray(a).ravel()
    a = a[a.argsort()]
    keep = [i for i in range(len(a)) if i == 0 or not bool(core.eq(a[i - 1], a[i]))]
    return a[keep].copy()


def quantile(a, q, axis=None, **k):
    if k or axis is not None or (isinstance(q, np.ndarray) and q.ndim):
        raise Unsupported("quantile")
    a = asarray(a).ravel()
    a = a[a.argsort()]
    if _hassym(q):
        raise Unsupported("quantile")
    h = (len(a) - 1) * Fraction(float(q)).limit_denominator(10 ** 6)
    i = int(h)
    j = min(i + 1, len(a) - 1)
    return core.add(a[i], core.mul(R(h - i), core.sub(a[j], a[i])))


def digitize(x, bins, right=False):
    # numpy: increasing bins; right=False means bins[i-1] <= x < bins[i]
    return searchsorted(bins, asarray(x), side="left" if right else "right")


def select(conds, choices, default=0):
    r = asarray(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def fromiter(it, dtype=float, count=-1):
    return array(list(it))


def bincount(x, weights=None, minlength=0):
    if weights is None or not _hassym(weights):
        return np.bincount(x, weights=weights, minlength=minlength)
    w = asarray(weights)
    x = [int(i) for i in np.asarray(x)]
    r = zeros(max(max(x) + 1 if x else 0, minlength))
    for i, k in enumerate(x):
        r[k] = r[k] + w[i]
    return r


def frompyfunc(f, nin, nout, **k):
    if nout != 1:
        raise Unsupported("frompyfunc")
    return vectorize(f)


def vectorize(f, *a, **k):
    def g(*args):
        args = [np.asarray(_base(asarray(x)), dtype=object) for x in args]
        r = _fp(f, len(args), 1)(*args)
        return _wrap(r)
    return g


def apply_along_axis(f, axis, a, *args, **k):
    a = asarray(a)
    m = np.moveaxis(a.view(np.ndarray) if type(a) is SArr else a, axis, -1)
    res = [f(_wrapdeep(m[i]), *args, **k) for i in np.ndindex(*m.shape[:-1])]
    r = array(res)
    r = r.reshape(m.shape[:-1] + r.shape[1:])
    if r.ndim > len(m.shape[:-1]):
        r = np.moveaxis(r, -1, axis)
    return r


def _nan(name):
    return lambda a, axis=None, **k: _red(name)(a, axis)


FUN = {
    np.unique: lambda a, **k: unique(a, **k), np.quantile: quantile, np.percentile: lambda a, q, **k: quantile(a, q / 100, **k),
    np.digitize: digitize, np.select: select, np.nansum: _nan("sum"), np.nanmean: _nan("mean"), np.nanmax: _nan("max"), np.nanmin: _nan("min"),
    np.bincount: bincount,
    np.where: where, np.dot: dot, np.einsum: einsum, np.kron: kron, np.outer: outer,
    np.linalg.solve: solve, np.linalg.inv: inv, np.linalg.det: det, np.linalg.cholesky: cholesky,
    np.linalg.norm: norm, np.linalg.lstsq: lstsq, np.clip: clip, np.isclose: isclose, np.allclose: allclose,
    np.array_equal: array_equal, np.searchsorted: searchsorted, np.diff: diff, np.tensordot: tensordot,
    np.linspace: linspace, np.zeros_like: zeros_like, np.ones_like: ones_like, np.empty_like: empty_like,
    np.full_like: full_like, np.max: _red("max"), np.min: _red("min"), np.amax: _red("max"), np.amin: _red("min"),
    np.sum: _red("sum"), np.prod: prod, np.any: _red("any"), np.all: _red("all"), np.mean: _red("mean"),
    np.median: median, np.interp: interp, np.diag: diag, np.fill_diagonal: fill_diagonal, np.average: average,
    np.nonzero: nonzero, np.copyto: copyto,
    np.concatenate: _stack(np.concatenate), np.vstack: _stack(np.vstack), np.hstack: _stack(np.hstack),
    np.stack: _stack(np.stack), np.column_stack: _stack(np.column_stack), np.dstack: _stack(np.dstack),
    np.apply_along_axis: apply_along_axis,
    np.real_if_close: lambda a, tol=100: a, np.real: lambda a: a,
    np.nan_to_num: lambda a, **k: a, np.round: lambda a, *k, **kw: a, np.around: lambda a, *k, **kw: a,
    np.sort: lambda a, axis=-1, **k: (lambda c: (c.sort(axis), c)[1])(a.copy()),
    np.argsort: lambda a, axis=-1, **k: a.argsort(axis),
    np.argmax: lambda a, axis=None, **k: a.argmax(axis), np.argmin: lambda a, axis=None, **k: a.argmin(axis),
    np.cumsum: lambda a, axis=None, dtype=None, out=None: a.cumsum(axis),
    np.cumprod: lambda a, axis=None, dtype=None, out=None: a.cumprod(axis),
    np.trace: lambda a, *r, **k: a.trace(), np.iscomplexobj: lambda a: False, np.isrealobj: lambda a: True,
    np.trapezoid: lambda y, x=None, dx=1.0, axis=-1: ((y[1:] + y[:-1]) / 2 * (diff(x) if x is not None else dx)).sum(),
}


class _Facade(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_sx_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self.__dict__["_sx_real"], k)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0, *a):
        return to_float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


def to_float(x=0.0):
    if type(x) is R:
        return x
    if type(x) is B:
        return x.num()
    if isinstance(x, np.ndarray) and x.dtype == object:
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return to_float(np.asarray(_base(x)).reshape(-1)[0])
    f = float(x)
    if f != f or f in (math.inf, -math.inf):
        return f
    return f


class sx_float(metaclass=_FloatMeta):
    __sx_kind__ = "f"
    __sx_real__ = float
    fromhex = float.fromhex


class _F64(metaclass=_FloatMeta):
    __sx_kind__ = "f"
    __sx_real__ = np.float64
    dtype = np.dtype("float64")


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        if type(x) is R:
            return to_int(x)
        if type(x) is SArr:
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return to_int(x.view(np.ndarray).reshape(-1)[0])
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


def to_int(x):
    if type(x) is not R:
        return int(x)
    if x.const:
        return int(x.v)
    if x.v.is_int():
        return x
    return core.fix(x)


class sx_int(metaclass=_IntMeta):
    __sx_kind__ = "i"
    __sx_real__ = int


def sx_max(*a, **k):
    l = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(type(e) is R for e in l):
        return builtins.max(*a, **k)
    r = l[0]
    for e in l[1:]:
        r = core.ite(core.lt(r, e), e, r)
    return r


def sx_min(*a, **k):
    l = list(a[0]) if len(a) == 1 else list(a)
    if k or not any(type(e) is R for e in l):
        return builtins.min(*a, **k)
    r = l[0]
    for e in l[1:]:
        r = core.ite(core.lt(e, r), e, r)
    return r


def _uf(name):
    realu = getattr(np, name)
    fp, fn = SC[name]
    nin = realu.nin

    class U:
        __name__ = name
        nin_ = nin
        def __call__(self, *a, out=None, **k):
            if len(a) > nin:
                out, a = a[nin], a[:nin]
            if out is not None and not isinstance(out, tuple):
                out = (out,)
            if any(_hassym(x) for x in a) or (out is not None and out[0].dtype == object):
                a = [asarray(x) if isinstance(x, (list, tuple)) else x for x in a]
                kw = dict(k)
                if out is not None:
                    kw["out"] = out
                return ufunc_dispatch(realu, "__call__", a, kw)
            if name in ("sqrt", "exp", "log", "divide", "true_divide", "power", "sin", "cos", "tan", "tanh", "arctan", "arctanh", "sinh", "cosh", "log10", "reciprocal"):
                a = [asarray(x) if isinstance(x, (list, tuple, np.ndarray)) else x for x in a]
                if any(isinstance(x, np.ndarray) for x in a) and not (name == "power" and all(getattr(x, "dtype", np.dtype(int)).kind in "iu" for x in map(np.asarray, a))):
                    return ufunc_dispatch(realu, "__call__", [_lift_arr(x) if isinstance(x, np.ndarray) else x for x in a], {})
                if all(isinstance(x, (int, float, np.number)) for x in a) and name != "power":
                    return fn(*a)
            r = realu(*a, **k) if out is None else realu(*a, out=out, **k)
            return r
        def _m(self, meth, a, k):
            return ufunc_dispatch(realu, meth, a, k)
        def reduce(self, a, axis=0, **k): return _red_u(self, realu, "reduce", a, axis, k)
        def accumulate(self, a, axis=0, **k): return _red_u(self, realu, "accumulate", a, axis, k)
        def outer(self, a, b): return realu.outer(asarray(a), asarray(b))
        def at(self, *a): return realu.at(*a)
    return U()


def _red_u(self, realu, meth, a, axis, k):
    a = asarray(a)
    return getattr(realu, meth)(a, axis=axis, **k)


over = dict(
    array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, asfortranarray=asarray,
    zeros=zeros, ones=ones, empty=empty, full=full, eye=eye, identity=lambda n, dtype=None: eye(n),
    zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like,
    linspace=linspace, arange=arange, where=where, dot=dot, einsum=einsum, kron=kron, outer=outer,
    matmul=lambda a, b, **k: asarray(a) @ asarray(b), inner=lambda a, b: tensordot(a, b, ([-1], [-1])),
    tensordot=tensordot, isclose=isclose, allclose=allclose, array_equal=array_equal, searchsorted=searchsorted,
    diff=diff, interp=interp, median=median, diag=diag, fill_diagonal=fill_diagonal, meshgrid=meshgrid,
    average=average, nonzero=nonzero, copyto=copyto, vectorize=vectorize, apply_along_axis=apply_along_axis,
    atleast_1d=atleast(1), atleast_2d=atleast(2), atleast_3d=atleast(3),
    concatenate=_stack(np.concatenate), vstack=_stack(np.vstack), row_stack=_stack(np.vstack),
    hstack=_stack(np.hstack), stack=_stack(np.stack), column_stack=_stack(np.column_stack), dstack=_stack(np.dstack),
    repeat=_viabase(np.repeat), tile=_viabase(np.tile), reshape=_viabase(np.reshape), ravel=_viabase(np.ravel),
    transpose=_viabase(np.transpose), swapaxes=_viabase(np.swapaxes), rollaxis=_viabase(np.rollaxis),
    moveaxis=_viabase(np.moveaxis), roll=_viabase(np.roll), flip=_viabase(np.flip), squeeze=_viabase(np.squeeze),
    expand_dims=_viabase(np.expand_dims), broadcast_to=_viabase(np.broadcast_to), delete=_viabase(np.delete),
    triu=_viabase(np.triu), tril=_viabase(np.tril), take=_viabase(np.take), fliplr=_viabase(np.fliplr), flipud=_viabase(np.flipud),
    sum=_red("sum"), prod=prod, product=prod, max=_red("max"), min=_red("min"), amax=_red("max"), amin=_red("min"),
    any=_red("any"), all=_red("all"), mean=_red("mean"), clip=clip,
    cumsum=lambda a, axis=None, **k: asarray(a).cumsum(axis), cumprod=lambda a, axis=None, **k: asarray(a).cumprod(axis),
    argmax=lambda a, axis=None, **k: asarray(a).argmax(axis), argmin=lambda a, axis=None, **k: asarray(a).argmin(axis),
    trace=lambda a: asarray(a).trace(), std=lambda a, **k: asarray(a).std(**k), var=lambda a, **k: asarray(a).var(**k),
    sort=lambda a, axis=-1, **k: (lambda c: (c.sort(axis), c)[1])(array(a)), argsort=lambda a, axis=-1, **k: asarray(a).argsort(axis),
    quantile=quantile, percentile=lambda a, q, **k: quantile(a, q / 100, **k), digitize=digitize, select=select, fromiter=fromiter,
    bincount=bincount, frompyfunc=frompyfunc, nansum=_nan("sum"), nanmean=_nan("mean"), nanmax=_nan("max"), nanmin=_nan("min"),
    copy=lambda a, **k: array(a), real_if_close=lambda a, tol=100: a, real=lambda a: a, isscalar=lambda x: type(x) in (R, B) or np.isscalar(x),
    fix=lambda a: core.fix(a) if not isinstance(a, np.ndarray) or type(a) in (R, B) else _wrap(_fp(core.fix, 1, 1)(np.asarray(_base(a), dtype=object))),
    nan_to_num=lambda a, **k: a, round=lambda a, *k: a, around=lambda a, *k: a,
    shape=lambda a: asarray(a).shape, ndim=lambda a: asarray(a).ndim, size=lambda a: asarray(a).size,
    float64=_F64, float_=_F64, double=_F64, inf=math.inf, nan=math.nan, pi=math.pi,
    seterr=lambda **k: {}, errstate=np.errstate, trapezoid=FUN[np.trapezoid], trapz=FUN[np.trapezoid],
    iscomplexobj=lambda a: False, unique=lambda a, **k: np.unique(a, **k) if not _hassym(a) else unique(a),
)
for _n in SC:
    if hasattr(np, _n):
        over[_n] = _uf(_n)
over["abs"] = over["absolute"]
over["divmod"] = lambda a, b: (over["floor_divide"](a, b), over["remainder"](a, b))

LINALG = _Facade("numpy.linalg", np.linalg, dict(
    solve=solve, inv=inv, det=det, cholesky=lambda a, upper=False: cholesky(a).T if upper else cholesky(a), norm=norm, lstsq=lstsq, matrix_power=matrix_power,
    pinv=inv))


class Rand:
    """stand-in for numpy.random: every draw is an arbitrary value of its support"""
    def __init__(self):
        self.n = 0

    def _need(self, what):
        raise Unsupported("random draw %s without a harness provided stream" % what)


def _norand(name):
    def f(*a, **k):
        h = RANDOM_HOOK.get(name)
        if h is None and name == "seed":
            return None
        if h is None:
            raise Unsupported("random draw numpy.random.%s not provided by the harness" % name)
        return h(*a, **k)
    f.__name__ = name
    return f


RANDOM_HOOK = {}
RANDOM = _Facade("numpy.random", np.random, {n: _norand(n) for n in (
    "random", "uniform", "normal", "multivariate_normal", "choice", "randint", "beta", "lognormal", "rand", "randn",
    "standard_normal", "permutation", "shuffle", "seed", "binomial", "random_sample")})

NP = _Facade("numpy", np, over)
NP.__dict__["linalg"] = LINALG
NP.__dict__["random"] = RANDOM

MATH = _Facade("math", math, {n: getattr(core, {"fabs": "absolute", "atan": "arctan", "atanh": "arctanh", "pow": "power"}.get(n, n)) for n in
                              ("sqrt", "exp", "log", "sin", "cos", "tan", "tanh", "floor", "ceil", "fabs", "atan", "atanh", "pow", "sinh", "cosh", "isinf", "isnan", "isfinite")})
