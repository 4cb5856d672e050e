"""Symbolic scalars (z3 terms behind Python numbers), path exploration and the
decision procedure front end.

R : symbolic real / integer.  ``v`` is an exact ``Fraction`` or a z3 arithmetic term.
B : symbolic boolean.        ``v`` is a z3 Bool term (constants are plain Python bools).

Evaluating ``bool(B)`` asks the current path explorer for a decision; both outcomes are
explored when the solver says both are possible.
"""
import sys, math, time, itertools
from fractions import Fraction

ZP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if ZP not in sys.path:
    sys.path.append(ZP)
import z3

CUR = None  # current Path
STR_HOOK = None


class PathAbort(BaseException):
    """path is infeasible / assumption false"""


class Unsupported(BaseException):
    """the encoding does not cover this operation: no verdict"""


_frac_cache = {}


def frac(x):
    """read a Python number exactly; floats as the simplest rational that rounds to them"""
    if isinstance(x, Fraction):
        return x
    tx = type(x)
    if tx is int or tx is bool:
        return Fraction(int(x))
    if tx is float or hasattr(x, "dtype"):
        if hasattr(x, "dtype"):
            if x.dtype.kind in "iub":
                return Fraction(int(x))
            x = float(x)
        f = _frac_cache.get(x)
        if f is None:
            if x == int(x) and abs(x) < 1e15:
                f = Fraction(int(x))
            else:
                g = Fraction(repr(x))
                s = Fraction(x).limit_denominator(10000)
                f = s if s != 0 and abs(s - Fraction(x)) <= abs(Fraction(x)) * Fraction(1, 2**51) else g
            _frac_cache[x] = f
        return f
    return Fraction(int(x))


def is_num(x):
    return isinstance(x, (int, float)) or hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0


def zc(f):
    """z3 constant of a Fraction"""
    if f.denominator == 1:
        return z3.RealVal(f.numerator)
    return z3.Q(f.numerator, f.denominator)


class R:
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v

    # pretend to be a float/int to isinstance checks in the code under analysis
    @property
    def __class__(self):
        v = self.v
        if isinstance(v, Fraction):
            return float
        return int if v.is_int() else float

    # numpy scalar look-alike
    ndim = 0
    shape = ()
    size = 1
    T = property(lambda s: s)
    real = property(lambda s: s)
    imag = property(lambda s: R(Fraction(0)))
    dtype = property(lambda s: _np_dtype())

    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def copy(self): return self
    def item(self): return self
    def ravel(self): return _arr([self])
    def conjugate(self): return self
    def any(self): return self != 0
    def all(self): return self != 0
    def astype(self, t): return self
    def is_integer(self):
        if isinstance(self.v, Fraction):
            return self.v.denominator == 1
        return B.mk(z3.IsInt(self.z))
    def repeat(self, *a, **k):
        return _arr([self]).repeat(*a, **k)
    def reshape(self, *a, **k):
        return _arr([self]).reshape(*a, **k)
    def __getitem__(self, k):
        import numpy as np
        a = np.empty((), dtype=object)
        a[()] = self
        from .arr import SArr
        return a.view(SArr)[k]

    @property
    def z(self):
        v = self.v
        return zc(v) if isinstance(v, Fraction) else v

    @property
    def const(self):
        return isinstance(self.v, Fraction)

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __hash__(self):
        if isinstance(self.v, Fraction):
            return hash(self.v)
        return self.v.hash()

    def __repr__(self):
        v = self.v
        if isinstance(v, Fraction):
            return "R(%s)" % v
        s = v.sexpr()
        return "R<%s>" % (s if len(s) < 200 else s[:200] + "...")

    def __str__(self):
        # text that an expression evaluator (calibrations) reads back as the same value
        if STR_HOOK is not None:
            return STR_HOOK(self)
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    def __round__(self, n=None):
        if self.const:
            return round(float(self.v), n) if n is not None else round(self.v)
        raise Unsupported("round of symbolic")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    # conversions
    def __float__(self):
        if isinstance(self.v, Fraction):
            return float(self.v)
        raise Unsupported("float() of a symbolic value leaves the encoding")

    def __int__(self):
        if isinstance(self.v, Fraction):
            return int(self.v)
        if self.v.is_int():
            return CUR.concretize(self)
        raise TruncationError("symbolic real truncated to int")

    def __index__(self):
        if isinstance(self.v, Fraction):
            if self.v.denominator == 1:
                return int(self.v)
            raise TypeError("non integer index")
        if self.v.is_int():
            return CUR.concretize(self)
        raise TypeError("symbolic real used as index")

    def __trunc__(self):
        return self.__int__()

    def __bool__(self):
        r = self != 0
        return bool(r)

    # arithmetic
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __neg__(self): return sub(0, self)
    def __pos__(self): return self
    def __abs__(self): return absolute(self)
    def __floordiv__(self, o): return floordiv(self, o)
    def __rfloordiv__(self, o): return floordiv(o, self)
    def __mod__(self, o): return mod(self, o)
    def __rmod__(self, o): return mod(o, self)
    def __divmod__(self, o): return floordiv(self, o), mod(self, o)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)
    def __eq__(self, o): return eq(self, o)
    def __ne__(self, o): return ne(self, o)

    def exp(self): return exp(self)
    def log(self): return log(self)
    def sqrt(self): return sqrt(self)


class TruncationError(TypeError):
    pass


def _np_dtype():
    import numpy as np
    return np.dtype(object)


def _arr(l):
    from .arr import array
    return array(l)


class B:
    __slots__ = ("v",)
    ndim = 0
    shape = ()

    def __init__(self, v):
        self.v = v

    @staticmethod
    def mk(v):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return B(v)

    def __bool__(self):
        return CUR.decide(self.v)

    def __repr__(self):
        return "B<%s>" % self.v.sexpr()

    def __deepcopy__(self, memo): return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .arr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __and__(self, o): return b_and(self, o)
    __rand__ = __and__
    def __or__(self, o): return b_or(self, o)
    __ror__ = __or__
    def __xor__(self, o): return b_xor(self, o)
    __rxor__ = __xor__
    def __invert__(self): return b_not(self)
    def __hash__(self): return self.v.hash()
    def any(self): return self
    def all(self): return self
    def astype(self, t): return self.num() if t not in (bool,) else self

    def num(self):
        return R(z3.If(self.v, z3.RealVal(1), z3.RealVal(0)))

    def __mul__(self, o):
        if isinstance(o, B):
            return b_and(self, o).num() if isinstance(b_and(self, o), B) else b_and(self, o)
        if hasattr(o, "shape") and getattr(o, "ndim", 0) > 0:
            return NotImplemented
        return ite(self, o, 0)

    __rmul__ = __mul__
    def __add__(self, o): return add(self.num(), o)
    def __radd__(self, o): return add(o, self.num())
    def __sub__(self, o): return sub(self.num(), o)
    def __rsub__(self, o): return sub(o, self.num())
    def __neg__(self): return sub(0, self.num())
    def __eq__(self, o):
        if isinstance(o, B):
            return B.mk(z3.simplify(self.v == o.v))
        if isinstance(o, (bool,)) or type(o).__name__ in ("bool_", "bool"):
            return self if o else b_not(self)
        return eq(self.num(), o)
    def __ne__(self, o): return b_not(self.__eq__(o))
    def __lt__(self, o): return lt(self.num(), o)
    def __gt__(self, o): return lt(o, self.num())
    def __le__(self, o): return le(self.num(), o)
    def __ge__(self, o): return le(o, self.num())
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __truediv__(self, o): return div(self.num(), o)


def isR(x):
    return type(x) is R


def isB(x):
    return type(x) is B


def lift(x):
    """-> R or special float (inf / nan); None if not a number"""
    tx = type(x)
    if tx is R:
        return x
    if tx is B:
        return x.num()
    if tx is int or tx is bool or tx is Fraction:
        return R(Fraction(x))
    if tx is float:
        if x != x or x in (math.inf, -math.inf):
            return x
        return R(frac(x))
    if tx is complex:
        if x.imag == 0:
            return lift(x.real)
        raise Unsupported("complex value")
    if hasattr(x, "dtype"):
        if getattr(x, "ndim", 1) == 0:
            if x.dtype == object:
                return lift(x.item())
            if x.dtype.kind in "iubf":
                return lift(x.item())
            if x.dtype.kind == "c":
                return lift(complex(x))
    if z3.is_expr(x):
        return R(x)
    return None


def _special(x):
    return type(x) is float


def _arrish(o):
    return hasattr(o, "__array_ufunc__") and not isinstance(o, (R, B)) and getattr(o, "ndim", 0) > 0


def _two(a, b):
    if _arrish(a) or _arrish(b):
        return NotImplemented
    a, b = lift(a), lift(b)
    if a is None or b is None:
        return NotImplemented
    return a, b


def _sign(x):
    """sign of R as python int, deciding (forking) if symbolic"""
    if x.const:
        return (x.v > 0) - (x.v < 0)
    if bool(lt(R(Fraction(0)), x)):
        return 1
    if bool(lt(x, R(Fraction(0)))):
        return -1
    return 0


def _rc(fr):
    """constant-only arithmetic: very long rationals are rounded to double, as the program would"""
    if fr.denominator.bit_length() > (64 if CUR is not None and CUR.opts.get("round_const") else 600):
        return R(Fraction(float(fr)))
    return R(fr)


def add(a, b):
    t = _two(a, b)
    if t is NotImplemented:
        return t
    a, b = t
    if _special(a) or _special(b):
        return (a if _special(a) else 0.0) + (b if _special(b) else 0.0)
    av, bv = a.v, b.v
    ca, cb = isinstance(av, Fraction), isinstance(bv, Fraction)
    if ca and cb:
        return _rc(av + bv)
    if ca:
        if av == 0:
            return b
        return R(zc_like(av, bv) + bv)
    if cb:
        if bv == 0:
            return a
        return R(av + zc_like(bv, av))
    return R(av + bv)


def zc_like(f, other):
    if other.is_int() and f.denominator == 1:
        return z3.IntVal(f.numerator)
    return zc(f)


def sub(a, b):
    t = _two(a, b)
    if t is NotImplemented:
        return t
    a, b = t
    if _special(a) or _special(b):
        return (a if _special(a) else 0.0) - (b if _special(b) else 0.0)
    av, bv = a.v, b.v
    ca, cb = isinstance(av, Fraction), isinstance(bv, Fraction)
    if ca and cb:
        return _rc(av - bv)
    if cb:
        if bv == 0:
            return a
        return R(av - zc_like(bv, av))
    if ca:
        if av == 0:
            return R(-bv)
        return R(zc_like(av, bv) - bv)
    if av.eq(bv):
        return R(Fraction(0))
    return R(av - bv)


def mul(a, b):
    if type(a) is B and type(b) is not B and not _arrish(b):
        l = lift(b)
        if l is not None:
            return ite(a, l, 0)
    if type(b) is B and type(a) is not B and not _arrish(a):
        l = lift(a)
        if l is not None:
            return ite(b, l, 0)
    t = _two(a, b)
    if t is NotImplemented:
        return t
    a, b = t
    if _special(a) or _special(b):
        x = a if _special(a) else float(_sign(a))
        y = b if _special(b) else float(_sign(b))
        return x * y
    av, bv = a.v, b.v
    ca, cb = isinstance(av, Fraction), isinstance(bv, Fraction)
    if ca and cb:
        return _rc(av * bv)
    if ca:
        if av == 0:
            return R(Fraction(0))
        if av == 1:
            return b
        return R(zc_like(av, bv) * bv)
    if cb:
        if bv == 0:
            return R(Fraction(0))
        if bv == 1:
            return a
        return R(zc_like(bv, av) * av)
    return R(av * bv)


def div(a, b):
    t = _two(a, b)
    if t is NotImplemented:
        return t
    a, b = t
    if _special(a) or _special(b):
        if _special(b):
            if _special(a) or b != b:
                return math.nan
            return R(Fraction(0))
        return a * (_sign(b) or 1)
    av, bv = a.v, b.v
    if isinstance(bv, Fraction):
        if bv == 0:
            return CUR.div_zero(a)
        if isinstance(av, Fraction):
            return _rc(av / bv)
        if bv == 1:
            return a
        if av.is_int():
            av = z3.ToReal(av)
        return R(av / zc(bv))
    if bv.is_int():
        bv = z3.ToReal(bv)
    z = CUR.require_nonzero(bv)
    if z is not None:
        return CUR.div_zero(a)
    if isinstance(av, Fraction):
        if av == 0:
            return a
        av = zc(av)
    elif av.is_int():
        av = z3.ToReal(av)
    if av.eq(bv):
        return R(Fraction(1))
    return R(av / bv)


def floordiv(a, b):
    t = _two(a, b)
    if t is NotImplemented:
        return t
    a, b = t
    if a.const and b.const:
        return R(Fraction(a.v // b.v))
    if (not a.const and a.v.is_int()) and b.const and b.v.denominator == 1 and b.v > 0:
        return R(a.v / z3.IntVal(b.v.numerator))
    return floor(div(a, b))


def mod(a, b):
    t = _two(a, b)
    if t is NotImplemented:
        return t
    a, b = t
    if a.const and b.const:
        return R(a.v % b.v)
    if (not a.const and a.v.is_int()) and b.const and b.v.denominator == 1 and b.v > 0:
        return R(a.v % z3.IntVal(b.v.numerator))
    return sub(a, mul(b, floor(div(a, b))))


def floor(a):
    a = lift(a)
    if _special(a):
        return a
    if a.const:
        return R(Fraction(math.floor(a.v)))
    if a.v.is_int():
        return a
    return R(z3.ToInt(a.v))


def ceil(a):
    return sub(0, floor(sub(0, a)))


def fix(a):
    a = lift(a)
    if _special(a):
        return a
    if a.const:
        return R(Fraction(int(a.v)))
    return ite(lt(a, 0), ceil(a), floor(a))


def rint(a):
    a = lift(a)
    if _special(a):
        return a
    if a.const:
        return R(Fraction(round(a.v)))
    n = floor(add(a, R(Fraction(1, 2))))
    # ties go to the even neighbour
    tie = eq(sub(n, a), R(Fraction(1, 2)))
    odd = eq(mod(n, R(Fraction(2))), R(Fraction(1)))
    return ite(b_and(tie, odd), sub(n, R(Fraction(1))), n)


def absolute(a):
    a = lift(a)
    if _special(a):
        return abs(a)
    if a.const:
        return R(abs(a.v))
    return R(z3.If(a.v >= 0, a.v, -a.v))


def cmp_special(a, b, op):
    x = a if _special(a) else 0.0
    y = b if _special(b) else 0.0
    return op(x, y)


def lt(a, b):
    t = _two(a, b)
    if t is NotImplemented:
        return t
    a, b = t
    if _special(a) or _special(b):
        return cmp_special(a, b, lambda x, y: x < y)
    if a.const and b.const:
        return a.v < b.v
    return B.mk(z3.simplify(a.z < b.z)) if _small(a, b) else B(a.z < b.z)


def le(a, b):
    t = _two(a, b)
    if t is NotImplemented:
        return t
    a, b = t
    if _special(a) or _special(b):
        return cmp_special(a, b, lambda x, y: x <= y)
    if a.const and b.const:
        return a.v <= b.v
    return B.mk(z3.simplify(a.z <= b.z)) if _small(a, b) else B(a.z <= b.z)


def eq(a, b):
    t = _two(a, b)
    if t is NotImplemented:
        return t
    a, b = t
    if _special(a) or _special(b):
        return cmp_special(a, b, lambda x, y: x == y) if _special(a) and _special(b) else False
    if a.const and b.const:
        return a.v == b.v
    return B.mk(z3.simplify(a.z == b.z)) if _small(a, b) else B(a.z == b.z)


def ne(a, b):
    r = eq(a, b)
    if r is NotImplemented:
        return r
    return b_not(r)


def _small(a, b):
    return True


def b_not(x):
    if isB(x):
        if z3.is_not(x.v):
            return B.mk(x.v.arg(0))
        return B(z3.Not(x.v))
    if isR(x):
        return eq(x, 0)
    return not x


def zb(x):
    if isB(x):
        return x.v
    if isR(x):
        return zb(ne(x, 0))
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


def b_and(a, b):
    if _arrish(a) or _arrish(b):
        return NotImplemented
    if not isB(a) and not isR(a):
        return (b if isB(b) else (ne(b, 0) if isR(b) else bool(b))) if a else False
    if not isB(b) and not isR(b):
        return (a if isB(a) else ne(a, 0)) if b else False
    return B.mk(z3.simplify(z3.And(zb(a), zb(b))))


def b_or(a, b):
    if _arrish(a) or _arrish(b):
        return NotImplemented
    if not isB(a) and not isR(a):
        return True if a else (b if isB(b) else (ne(b, 0) if isR(b) else bool(b)))
    if not isB(b) and not isR(b):
        return True if b else (a if isB(a) else ne(a, 0))
    return B.mk(z3.simplify(z3.Or(zb(a), zb(b))))


def b_xor(a, b):
    return B.mk(z3.simplify(z3.Xor(zb(a), zb(b))))


def ite(c, a, b):
    if not isB(c) and not isR(c):
        return a if c else b
    if isR(c):
        return ite(ne(c, 0), a, b)
    if isB(a) or isB(b):
        return B.mk(z3.simplify(z3.If(c.v, zb(a), zb(b))))
    x, y = lift(a), lift(b)
    if x is None or y is None or _special(x) or _special(y):
        return a if bool(c) else b
    if x.const and y.const and x.v == y.v:
        return x
    if not x.const and not y.const and x.v.eq(y.v):
        return x
    if CUR is not None and CUR.opts.get("prune", True):
        k = CUR.implied(c.v)
        if k is not None:
            return x if k else y
    xz, yz = x.z, y.z
    return R(z3.If(c.v, xz, yz))


def maximum(a, b):
    t = _two(a, b)
    if t is NotImplemented:
        return t
    a, b = t
    if _special(a) or _special(b):
        if a != a or b != b:
            return math.nan
        if _special(a):
            return a if a > 0 else b
        return b if b > 0 else a
    c = le(b, a)
    if isB(c) and CUR.opts.get("fork_minmax"):
        c = bool(c)
    return ite(c, a, b)


def minimum(a, b):
    t = _two(a, b)
    if t is NotImplemented:
        return t
    a, b = t
    if _special(a) or _special(b):
        if a != a or b != b:
            return math.nan
        if _special(a):
            return b if a > 0 else a
        return a if b > 0 else b
    c = le(a, b)
    if isB(c) and CUR.opts.get("fork_minmax"):
        c = bool(c)
    return ite(c, a, b)


def sign(a):
    a = lift(a)
    if _special(a):
        return math.copysign(1.0, a)
    return ite(lt(0, a), 1, ite(lt(a, 0), -1, 0))


def power(a, b):
    t = _two(a, b)
    if t is NotImplemented:
        return t
    a, b = t
    if _special(a) or _special(b):
        return float(a if _special(a) else float(a)) ** float(b if _special(b) else float(b))
    if b.const:
        n = b.v
        if n.denominator == 1:
            n = int(n)
            if a.const:
                if a.v == 0 and n < 0:
                    return CUR.div_zero(R(Fraction(1)))
                return _rc(a.v ** n)
            if n == 0:
                return R(Fraction(1))
            if abs(n) <= 24:
                r = a
                for _ in range(abs(n) - 1):
                    r = mul(r, a)
                return r if n > 0 else div(1, r)
        if n == Fraction(1, 2):
            return sqrt(a)
        if n == Fraction(-1, 2):
            return div(1, sqrt(a))
        if n == Fraction(3, 2):
            return mul(a, sqrt(a))
    if a.const and b.const and a.v > 0:
        return lift(float(a.v) ** float(b.v))
    return CUR.app("pow", a, b)


def sqrt(a):
    a = lift(a)
    if _special(a):
        return math.sqrt(a) if a > 0 else math.nan
    if a.const:
        if a.v < 0:
            return math.nan
        n, d = a.v.numerator, a.v.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return R(Fraction(rn, rd))
        if CUR is None or CUR.opts.get("round_const"):
            return R(frac(math.sqrt(float(a.v))))
    return CUR.sqrt(a)


def _fn(name, pyf):
    def f(a):
        a = lift(a)
        if _special(a):
            import numpy as np
            return float(getattr(np, {"asin": "arcsin"}.get(name, name))(a))
        if a.const:
            c = _exact.get((name, a.v))
            if c is not None:
                return R(Fraction(c))
        return CUR.app(name, a)
    f.__name__ = name
    return f


_exact = {("exp", Fraction(0)): 1, ("log", Fraction(1)): 0, ("sin", Fraction(0)): 0,
          ("cos", Fraction(0)): 1, ("tan", Fraction(0)): 0, ("tanh", Fraction(0)): 0,
          ("arctan", Fraction(0)): 0}
exp = _fn("exp", math.exp)
log = _fn("log", math.log)
sin = _fn("sin", math.sin)
cos = _fn("cos", math.cos)
tan = _fn("tan", math.tan)
tanh = _fn("tanh", math.tanh)
arctan = _fn("arctan", math.atan)
arctanh = _fn("arctanh", math.atanh)
sinh = _fn("sinh", math.sinh)
cosh = _fn("cosh", math.cosh)
log10 = _fn("log10", math.log10)


def expm1(a): return sub(exp(a), 1)
def log1p(a): return log(add(1, a))


def isinf(a):
    return type(lift(a)) is float and math.isinf(lift(a))


def isnan(a):
    l = lift(a)
    return type(l) is float and l != l


def isfinite(a):
    return type(lift(a)) is not float
