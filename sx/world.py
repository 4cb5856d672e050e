"""Load the package under analysis from its current source, either symbolically (numeric
libraries replaced by the facade) or for real (replay)."""
import sys, os, types, builtins, importlib, importlib.abc, importlib.machinery, importlib.util, re, itertools
import warnings

REPO = os.environ.get("SX_REPO", "/repo")
warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True


class World:
    """what a harness sees: module access plus a numpy"""

    def __init__(self, mode, np):
        self.mode = mode
        self.np = np

    def mod(self, name):
        if self.mode == "sym" and name in SHIM:
            return SHIM[name]
        return importlib.import_module(name)

    def get(self, path):
        m, a = path.rsplit(":", 1) if ":" in path else path.rsplit(".", 1)
        o = self.mod(m)
        for x in a.split("."):
            o = getattr(o, x)
        return o

    def name(self, nm, value):
        """make `value` available under a name to expressions evaluated by the package (calibration strings)"""
        d = BI if self.mode == "sym" else builtins.__dict__
        d[nm] = value
        return nm

    def value(self, nm):
        return (BI if self.mode == "sym" else builtins.__dict__)[nm]

    def py(self, f):
        """undecorated python function of a compiled one"""
        return getattr(f, "py_func", f)


class Dummy(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        d = Dummy(self.__name__ + "." + k)
        setattr(self, k, d)
        return d

    def __call__(self, *a, **k):
        from .core import Unsupported
        raise Unsupported("call of stubbed library function " + self.__name__)

    def __mro_entries__(self, bases):
        return (object,)


# ---- numba ------------------------------------------------------------------------
class _Ty:
    def __getitem__(self, k):
        return self

    def __call__(self, *a):
        return self


def _jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not isinstance(a[0], (_Ty, str)) and (not k or isinstance(a[0], types.FunctionType)):
        return _mark(a[0])
    return _mark


def _mark(f):
    try:
        f.py_func = f
    except Exception:
        pass
    return f


class GU:
    def __init__(self, f, sig, types_):
        self.f = f
        self.__name__ = getattr(f, "__name__", "gufunc")
        self.py_func = f
        sig = sig.replace(" ", "")
        ins, outs = sig.split("->") if "->" in sig else (sig, "")
        p = lambda s: [tuple(x for x in g.split(",") if x) for g in re.findall(r"\(([^)]*)\)", s)]
        self.ins, self.outs = p(ins), p(outs)
        ty = types_[0] if isinstance(types_, (list, tuple)) and types_ else types_
        self.scal = None
        if isinstance(ty, str):
            self.scal = None

    def __call__(self, *args, **kw):
        import numpy as np
        from . import arr
        from .arr import SArr
        args = list(args)
        if "out" in kw:
            o = kw.pop("out")
            args += list(o) if isinstance(o, tuple) else [o]
        kw.pop("axes", None)
        nin, nout = len(self.ins), len(self.outs)
        if len(args) not in (nin, nin + nout):
            raise TypeError("%s() takes from %d to %d positional arguments but %d were given" % (self.__name__, nin, nin + nout, len(args)))
        A = [arr.asarray(a) for a in args]
        dims = {}
        allc = self.ins + self.outs
        leads = []
        for a, core_ in zip(A, allc):
            nd = len(core_)
            if a.ndim < nd:
                raise ValueError("%s: Input operand does not have enough dimensions" % self.__name__)
            leads.append(a.shape[: a.ndim - nd])
            for n, s in zip(core_, a.shape[a.ndim - nd:]):
                if dims.setdefault(n, s) != s:
                    raise ValueError("%s: Input operand has a mismatch in its core dimension" % self.__name__)
        lead = np.broadcast_shapes(*leads[:nin])
        given = len(args) == nin + nout
        outs = []
        for k, core_ in enumerate(self.outs):
            if given:
                outs.append(A[nin + k])
            else:
                outs.append(arr.zeros(lead + tuple(dims[n] for n in core_)))
        bi = []
        for a, c in zip(A[:nin], self.ins):
            full = lead + a.shape[a.ndim - len(c):]
            # inputs of the full shape are handed over as they are (kernels may work in place)
            bi.append(a if tuple(a.shape) == tuple(full) else np.broadcast_to(a, full, subok=True))
        for ix in np.ndindex(*lead):
            call = []
            for a, c in zip(bi, self.ins):
                e = a[ix]
                if len(c) == 0:
                    call.append(e)
                else:
                    call.append(e)
            post = []
            for o, c in zip(outs, self.outs):
                if len(c) == 0:
                    t = arr.zeros(1)
                    post.append((o, t))
                    call.append(t)
                else:
                    call.append(o[ix])
            if nout == 0:
                # signature without arrow: the last arguments are written in place
                full = [A[i][ix] if A[i].shape[:A[i].ndim - len(c)] == lead else call[i] for i, c in enumerate(self.ins)]
                self.f(*full)
                continue
            self.f(*call)
            for o, t in post:
                if o.ndim == 0:
                    o[()] = t[0]
                else:
                    o[ix] = t[0]
        if nout == 0:
            return None
        res = [o[()] if o.ndim == 0 else o for o in outs]
        return res[0] if len(res) == 1 else tuple(res)


def _guvectorize(types_=None, sig=None, **k):
    if sig is None:
        types_, sig = None, types_
    def d(f):
        return GU(f, sig, types_)
    return d


def _vectorize(*a, **k):
    from . import arr
    if len(a) == 1 and callable(a[0]) and not isinstance(a[0], _Ty):
        return arr.vectorize(a[0])
    return lambda f: arr.vectorize(f)


def make_numba():
    m = types.ModuleType("numba")
    m.jit = m.njit = m.generated_jit = _jit
    m.guvectorize = _guvectorize
    m.vectorize = _vectorize
    m.prange = range
    for t in ("float64", "double", "int64", "int32", "void", "boolean", "float32", "f8", "i8", "complex128"):
        setattr(m, t, _Ty())
    ext = types.ModuleType("numba.extending")
    ext.overload = lambda *a, **k: (lambda f: f)
    ext.register_jitable = _jit
    m.extending = ext
    m.types = _Ty()
    return m, ext


# ---- interpolation (contract: multilinear interpolant; cubic spline opaque) ----------
def _axis_weights(g, x):
    """list of (index, weight) for a 1d grid given as (a,b,n) or node array; linear extrapolation"""
    from . import core, arr
    if isinstance(g, tuple):
        a, b, n = g
        n = int(n)
        nodes = [core.add(core.lift(a), core.mul(core.sub(b, a), core.frac(i) / (n - 1) if n > 1 else 0)) for i in range(n)]
    else:
        nodes = [core.lift(e) for e in g]
        n = len(nodes)
    if n == 1:
        return [(0, 1)]
    w = [0] * n
    x = core.lift(x)
    # weight of node i as ite over cells
    for c in range(n - 1):
        lo, hi = nodes[c], nodes[c + 1]
        cond = True
        if c > 0:
            cond = core.b_and(cond, core.le(lo, x))
        if c < n - 2:
            cond = core.b_and(cond, core.lt(x, hi))
        lam = core.div(core.sub(x, lo), core.sub(hi, lo))
        w[c] = core.add(w[c], core.ite(cond, core.sub(1, lam), 0))
        w[c + 1] = core.add(w[c + 1], core.ite(cond, lam, 0))
    return list(enumerate(w))


def eval_linear(grid, values, points, out=None, *a):
    import numpy as np
    from . import core, arr
    V = arr.asarray(values)
    P = arr.asarray(points)
    grid = list(grid)
    d = len(grid)
    ns = [int(g[2]) if isinstance(g, tuple) else len(g) for g in grid]
    if V.ndim not in (d, d + 1):
        raise ValueError("eval_linear: values have %d dimensions for a %d-dimensional grid" % (V.ndim, d))
    if tuple(V.shape[:d]) != tuple(ns):
        raise ValueError("eval_linear: values of shape %s do not match grid %s" % (V.shape, ns))
    single = P.ndim == 1
    PP = P[None, :] if single else P
    if PP.shape[1] != d:
        raise ValueError("eval_linear: points of dimension %d for a %d-dimensional grid" % (PP.shape[1], d))
    vec = V.ndim == d + 1
    res = arr.zeros((PP.shape[0],) + ((V.shape[-1],) if vec else ()))
    for k in range(PP.shape[0]):
        ws = [_axis_weights(g, PP[k, j]) for j, g in enumerate(grid)]
        for combo in itertools.product(*ws):
            w = 1
            for (_, u) in combo:
                w = core.mul(w, u)
                if core.isR(w) and w.const and w.v == 0:
                    break
            if core.isR(w) and w.const and w.v == 0:
                continue
            idx = tuple(i for i, _ in combo)
            if vec:
                for q in range(V.shape[-1]):
                    res[k, q] = res[k, q] + w * V[idx + (q,)]
            else:
                res[k] = res[k] + w * V[idx]
    r = res[0] if single else res
    if out is not None:
        out[...] = r
        return out
    return r


class CubicCoefs:
    """opaque spline coefficients of given nodal values"""
    def __init__(self, grid, values):
        self.grid, self.values = grid, values

    def copy(self):
        return self

    @property
    def shape(self):
        return tuple(s + 2 for s in self.values.shape[:-1]) + self.values.shape[-1:]


def prefilter_cubic(grid, values, *a):
    from . import arr
    V = arr.array(values)
    ns = [int(g[2]) if isinstance(g, tuple) else len(g) for g in grid]
    if tuple(V.shape[:len(ns)]) != tuple(ns):
        raise ValueError("prefilter: values of shape %s do not match grid %s" % (V.shape, ns))
    return CubicCoefs(grid, V)


def eval_cubic(grid, coefs, points, out=None, *a):
    """contract: the spline reproduces the nodal values at the nodes; elsewhere it is an
    uninterpreted linear functional -- modelled as multilinear plus an arbitrary function
    vanishing at nodes, i.e. only nodal evaluation is claimed"""
    from .core import Unsupported
    if not isinstance(coefs, CubicCoefs):
        raise Unsupported("eval_cubic on foreign coefficients")
    same = len(grid) == len(coefs.grid)
    if not same:
        raise ValueError("eval_cubic: grid and coefficients differ")
    return eval_linear(grid, coefs.values, points)


class SmolyakGrid:
    """contract of the sparse grid of the library: the affine image, on the given bounds, of the nodes of level mu
    (nested extrema of the Chebyshev polynomials)"""

    def __init__(self, d, mu, lb=None, ub=None):
        import math
        from . import arr
        levels = [[0.0], [-1.0, 1.0]]
        while len(levels) < mu + 1:
            m = 2 ** len(levels)
            levels.append([-math.cos(math.pi * k / m) for k in range(1, m, 2)])
        pts = []
        for ind in itertools.product(range(mu + 1), repeat=d):
            if sum(ind) <= mu:
                pts += list(itertools.product(*[levels[i] for i in ind]))
        self.d, self.mu = d, mu
        self.lb, self.ub = arr.asarray(lb), arr.asarray(ub)
        self.cube_grid = arr.array([list(e) for e in pts])
        self.grid = self.cube_grid * ((self.ub - self.lb) / 2) + (self.lb + (self.ub - self.lb) / 2)


def make_interpolation():
    mods = {}
    root = Dummy("interpolation")
    sp = Dummy("interpolation.splines")
    sp.eval_linear = eval_linear
    sp.eval_cubic = eval_cubic
    pf = Dummy("interpolation.splines.prefilter_cubic")
    pf.prefilter_cubic = prefilter_cubic
    sp.prefilter_cubic = pf
    root.splines = sp
    sm = Dummy("interpolation.smolyak")
    sm.SmolyakGrid = SmolyakGrid
    root.smolyak = sm
    mods.update({"interpolation": root, "interpolation.splines": sp, "interpolation.splines.prefilter_cubic": pf,
                 "interpolation.smolyak": sm, "interpolation.splines.filter_cubic": Dummy("interpolation.splines.filter_cubic")})
    return mods


def qe_cartesian(nodes, order="C"):
    from . import arr
    l = [arr.asarray(n) for n in nodes]
    sizes = [len(n) for n in l]
    rows = [[l[k][i] for k, i in enumerate(ix)] for ix in itertools.product(*[range(s) for s in sizes])]
    if order == "F":
        rows = [[l[k][i] for k, i in enumerate(ix[::-1])] for ix in itertools.product(*[range(s) for s in sizes[::-1]])]
    return arr.array(rows)


# ---- scipy ---------------------------------------------------------------------------
def make_scipy():
    import scipy, scipy.linalg, scipy.stats, scipy.optimize, scipy.sparse, scipy.sparse.linalg, scipy.signal, scipy.integrate
    from . import arr, core
    from .arr import _Facade
    def chol(a, lower=False, overwrite_a=False, check_finite=True):
        L = arr.cholesky(a)
        return L if lower else L.T
    LA = _Facade("scipy.linalg", scipy.linalg, dict(
        cholesky=chol, solve=lambda a, b, **k: arr.solve(a, b), inv=lambda a, **k: arr.inv(a),
        det=arr.det, norm=arr.norm, lstsq=arr.lstsq,
        block_diag=lambda *a: arr._wrapdeep(scipy.linalg.block_diag(*[arr.np.asarray(arr._base(arr.asarray(x))) for x in a]))))

    class Dist:
        def __init__(self, name):
            self.name = name
        def _map(self, kind, x, k):
            import numpy as np
            keys = sorted(k)
            args = [k[q] for q in keys]
            nm = "%s_%s_%s" % (kind, self.name, "_".join(keys))
            def one(t):
                t = core.lift(t)
                if type(t) is float:
                    return (1.0 if t > 0 else 0.0) if kind == "cdf" else t
                if kind == "ppf" and t.const and t.v in (0, 1) and self.name in ("norm",):
                    return float("-inf") if t.v == 0 else float("inf")
                if self.name == "uniform":
                    loc, sc = core.lift(k.get("loc", 0)), core.lift(k.get("scale", 1))
                    if kind == "ppf":
                        return core.add(loc, core.mul(sc, t))
                    return core.minimum(core.maximum(core.div(core.sub(t, loc), sc), 0), 1)
                return core.CUR.app(nm, t, *[core.lift(a) for a in args])
            if isinstance(x, np.ndarray) and type(x) not in (core.R, core.B):
                return arr._wrap(np.asarray(np.frompyfunc(one, 1, 1)(np.asarray(arr._base(arr.asarray(x)), dtype=object)), dtype=object))
            if isinstance(x, (list, tuple)):
                return arr.array([one(t) for t in x])
            return one(x)
        def cdf(self, x, *a, **k):
            k.update({"a%d" % i: v for i, v in enumerate(a)})
            return self._map("cdf", x, self._norm(k))
        def ppf(self, x, *a, **k):
            k.update({"a%d" % i: v for i, v in enumerate(a)})
            return self._map("ppf", x, self._norm(k))
        def _norm(self, k):
            # same law whatever the way parameters are passed
            names = {"beta": ("a", "b", "loc", "scale"), "uniform": ("loc", "scale")}.get(self.name, ())
            k = {(names[int(q[1:])] if q[0] == "a" and q[1:].isdigit() else q): v for q, v in k.items()}
            for q, v in (("loc", 0), ("scale", 1)):
                if q in k and not isinstance(k[q], (core.R,)) and k[q] == v:
                    del k[q]
            return k
        def __call__(self, *a, **k):
            f = types.SimpleNamespace()
            for m in ("ppf", "cdf", "sf", "pdf"):
                if hasattr(self, m):
                    setattr(f, m, (lambda m: lambda x: getattr(self, m)(x, *a, **k))(m))
            return f
        def sf(self, x, *a, **k):
            return 1 - self.cdf(x, *a, **k)

    class NormDist(Dist):
        """location-scale family of a symmetric law"""
        def cdf(self, x, loc=0, scale=1):
            return self._loc(x, loc, scale, "cdf")
        def ppf(self, x, loc=0, scale=1):
            import numpy as np
            z = self._map("ppf", x, {})
            return loc + scale * z
        def pdf(self, x, loc=0, scale=1):
            z = (arr.asarray(x) - loc) / scale
            return arr.NP.exp(-z * z / 2) / arr.NP.sqrt(2 * arr.NP.pi) / scale
        def _loc(self, x, loc, scale, kind):
            if not isinstance(x, list):
                z = (x - loc) / scale if not (loc == 0 and scale == 1) else x
            else:
                z = arr.array([(t - loc) / scale for t in x])
            return self._map("cdf", z, {})

    class LogNormDist(Dist):
        """by definition the exponential of a normal law"""
        def ppf(self, x, s=1, loc=0, scale=1):
            z = ND._map("ppf", x, {})
            return loc + scale * arr.NP.exp(s * z)
        def cdf(self, x, s=1, loc=0, scale=1):
            return ND._map("cdf", arr.NP.log((arr.asarray(x) - loc) / scale) / s, {})
    ND = NormDist("norm")
    ST = _Facade("scipy.stats", scipy.stats, dict(
        norm=ND, uniform=Dist("uniform"), lognorm=LogNormDist("lognorm"), beta=Dist("beta"),
        multivariate_normal=_mvn))
    OPT = _Facade("scipy.optimize", scipy.optimize, dict(root=_nocall("scipy.optimize.root"), minimize=_nocall("scipy.optimize.minimize"), fsolve=_nocall("fsolve")))
    SP = make_sparse(scipy.sparse)
    SG = _Facade("scipy.signal", scipy.signal, dict(fftconvolve=_conv))
    S = _Facade("scipy", scipy, dict(linalg=LA, stats=ST, optimize=OPT, sparse=SP, signal=SG))
    return {"scipy": S, "scipy.linalg": LA, "scipy.stats": ST, "scipy.optimize": OPT, "scipy.sparse": SP,
            "scipy.sparse.linalg": SP.linalg, "scipy.signal": SG}


def _mvn(mean=None, cov=1, **k):
    from . import arr
    def rvs(size=1, random_state=None):
        h = arr.RANDOM_HOOK.get("multivariate_normal")
        if h is None:
            from .core import Unsupported
            raise Unsupported("multivariate_normal.rvs not provided by the harness")
        r = arr.asarray(h(mean, cov, size)).squeeze()
        return r
    return types.SimpleNamespace(mean=mean, cov=cov, rvs=rvs)


def _conv(a, b, mode="full"):
    from . import arr
    import numpy as np
    a, b = arr.asarray(a), arr.asarray(b)
    if a.ndim == 1:
        n, m = len(a), len(b)
        r = arr.zeros(n + m - 1)
        for i in range(n):
            for j in range(m):
                r[i + j] = r[i + j] + a[i] * b[j]
    else:
        (n, p), (m, q) = a.shape, b.shape
        r = arr.zeros((n + m - 1, p + q - 1))
        for i in range(n):
            for j in range(m):
                for k in range(p):
                    for l in range(q):
                        r[i + j, k + l] = r[i + j, k + l] + a[i, k] * b[j, l]
    if mode == "full":
        return r
    if mode == "same":
        s = [(x - y) // 2 for x, y in zip(r.shape, a.shape)]
        return r[tuple(slice(o, o + w) for o, w in zip(s, a.shape))]
    sh = [abs(x - y) + 1 for x, y in zip(a.shape, b.shape)]
    s = [(x - y) // 2 for x, y in zip(r.shape, sh)]
    return r[tuple(slice(o, o + w) for o, w in zip(s, sh))]


def _nocall(name):
    def f(*a, **k):
        h = HOOKS.get(name)
        if h is None:
            from .core import Unsupported
            raise Unsupported("call of %s" % name)
        return h(*a, **k)
    return f


HOOKS = {}


class SpMat:
    """sparse matrices as their dense meaning"""
    def __init__(self, a, shape=None, dtype=None, copy=None):
        from . import arr
        if isinstance(a, SpMat):
            self.a = a.a.copy()
        elif isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple):
            v, (i, j) = a
            if shape is None:
                shape = (int(max(i)) + 1, int(max(j)) + 1)
            self.a = arr.zeros(shape)
            for x, p, q in zip(v, i, j):
                p, q = int(p), int(q)
                if p >= shape[0] or q >= shape[1]:
                    raise ValueError("row index exceeds matrix dimensions")
                self.a[p, q] = self.a[p, q] + x
        elif isinstance(a, tuple):
            self.a = arr.zeros(a)
        else:
            self.a = arr.array(a, dtype=float)
        self.shape = self.a.shape

    @property
    def T(self):
        return SpMat(self.a.T)

    def transpose(self):
        return SpMat(self.a.T)

    def _o(self, o):
        return o.a if isinstance(o, SpMat) else o

    def __getitem__(self, k):
        r = self.a[k]
        return SpMat(r) if getattr(r, "ndim", 0) == 2 else r

    def __setitem__(self, k, v):
        v = self._o(v)
        self.a[k] = v

    def __add__(self, o): return SpMat(self.a + self._o(o)) if isinstance(o, SpMat) else self.a + o
    __radd__ = __add__
    def __sub__(self, o): return SpMat(self.a - self._o(o)) if isinstance(o, SpMat) else self.a - o
    def __rsub__(self, o): return SpMat(self._o(o) - self.a)
    def __neg__(self): return SpMat(-self.a)
    def __mul__(self, o):
        from .core import R
        import numpy as np
        if isinstance(o, SpMat):
            return SpMat(self.a @ o.a)
        if isinstance(o, np.ndarray) and type(o) is not R and o.ndim:
            return self.a @ o
        return SpMat(self.a * o)
    def __rmul__(self, o): return SpMat(o * self.a)
    def __truediv__(self, o): return SpMat(self.a / o)
    def __matmul__(self, o): return SpMat(self.a @ o.a) if isinstance(o, SpMat) else self.a @ o
    def __rmatmul__(self, o): return o @ self.a
    __array_ufunc__ = None
    def dot(self, o): return self @ o
    def multiply(self, o): return SpMat(self.a * self._o(o))
    def toarray(self): return self.a.copy()
    todense = toarray
    def tocsr(self, *a, **k): return self
    tocsc = tocoo = tolil = tobsr = todia = asformat = copy = tocsr
    def eliminate_zeros(self): pass
    def sum_duplicates(self): pass
    def sum(self, axis=None): return self.a.sum(axis=axis)
    def diagonal(self): return self.a.diagonal()
    @property
    def ndim(self): return 2


def make_sparse(real):
    from . import arr
    from .arr import _Facade
    def spsolve(A, b, **k):
        r = arr.solve(A.a if isinstance(A, SpMat) else A, b.a if isinstance(b, SpMat) else b)
        return r
    class LinOp:
        def __init__(self, shape=None, matvec=None, **k):
            self.shape = shape
            self.matvec_ = matvec
            self.dtype = k.get("dtype")
        def matvec(self, x):
            return self.matvec_(x) if self.matvec_ else self._matvec(x)
        dot = __matmul__ = __mul__ = matvec
    L = _Facade("scipy.sparse.linalg", __import__("scipy.sparse.linalg").sparse.linalg, dict(
        spsolve=spsolve, LinearOperator=LinOp, eigs=_nocall("scipy.sparse.linalg.eigs"), gmres=_nocall("scipy.sparse.linalg.gmres"),
        bicgstab=_nocall("bicgstab"), factorized=lambda A: (lambda b: spsolve(A, b)), splu=lambda A: types.SimpleNamespace(solve=lambda b: spsolve(A, b))))
    mk = lambda a, shape=None, dtype=None, **k: SpMat(a, shape)
    def bmat(blocks, format=None, dtype=None):
        rows = []
        hs = [next(b.shape[0] for b in r if b is not None) for r in blocks]
        ws = [next(r[j].shape[1] for r in blocks if r[j] is not None) for j in range(len(blocks[0]))]
        for i, r in enumerate(blocks):
            rows.append(arr.NP.concatenate([(b.a if isinstance(b, SpMat) else arr.asarray(b)) if b is not None else arr.zeros((hs[i], ws[j])) for j, b in enumerate(r)], axis=1))
        return SpMat(arr.NP.concatenate(rows, axis=0))
    return _Facade("scipy.sparse", real, dict(
        csr_matrix=mk, csc_matrix=mk, coo_matrix=mk, lil_matrix=mk, dok_matrix=mk, bsr_matrix=mk, csr_array=mk, csc_array=mk, coo_array=mk,
        eye=lambda n, m=None, k=0, **kw: SpMat(arr.eye(n, m, k)), identity=lambda n, **k: SpMat(arr.eye(n)), issparse=lambda x: isinstance(x, SpMat), isspmatrix=lambda x: isinstance(x, SpMat),
        bmat=bmat, block_diag=lambda l, **k: SpMat(make_scipy.__globals__["_bd"](l)), hstack=lambda l, **k: SpMat(arr.NP.concatenate([x.a for x in l], axis=1)),
        vstack=lambda l, **k: SpMat(arr.NP.concatenate([x.a for x in l], axis=0)), kron=lambda a, b, **k: SpMat(arr.kron(a.a, b.a)),
        diags=lambda d, offsets=0, shape=None, **k: SpMat(_diags(d, offsets, shape)), linalg=L))


def _diags(d, offsets, shape):
    from . import arr
    if isinstance(offsets, int):
        d, offsets = [d], [offsets]
    if shape is None:
        n = len(d[0]) + abs(offsets[0])
        shape = (n, n)
    r = arr.zeros(shape)
    for v, o in zip(d, offsets):
        v = arr.asarray(v)
        i = 0
        while max(0, -o) + i < shape[0] and max(0, o) + i < shape[1]:
            r[max(0, -o) + i, max(0, o) + i] = v if v.ndim == 0 else (v[0] if len(v) == 1 else v[i])
            i += 1
    return r


def _bd(l):
    from . import arr
    l = [x.a if isinstance(x, SpMat) else arr.asarray(x) for x in l]
    r = arr.zeros((sum(x.shape[0] for x in l), sum(x.shape[1] for x in l)))
    i = j = 0
    for x in l:
        r[i:i + x.shape[0], j:j + x.shape[1]] = x
        i += x.shape[0]
        j += x.shape[1]
    return r


SHIM = {}
BI = {}


def _as_name(r):
    """name under which `eval` finds the value"""
    nm = "SYMBOLIC%d" % len(BI)
    assert nm not in BI
    BI[nm] = r
    return nm

ENCODED = set()


def _install_shims():
    from . import arr, core
    nb, nbext = make_numba()
    SHIM.update({
        "numpy": arr.NP, "numpy.linalg": arr.LINALG, "numpy.random": arr.RANDOM, "math": arr.MATH,
        "numba": nb, "numba.extending": nbext, "numba.core": Dummy("numba.core"), "numba.experimental": Dummy("numba.experimental"),
        "matplotlib": Dummy("matplotlib"), "matplotlib.pyplot": Dummy("matplotlib.pyplot"),
    })
    import random
    SHIM["random"] = arr._Facade("random", random, {n: arr._norand("py_" + n) for n in ("random", "uniform", "gauss", "choice", "randint", "seed", "normalvariate")})
    qe = Dummy("quantecon")
    qe.cartesian = qe_cartesian
    SHIM["quantecon"] = qe
    SHIM.update(make_interpolation())
    SHIM.update(make_scipy())


_builtin_import = builtins.__import__


def _sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split(".")[0]
        if root in SHIM:
            if fromlist:
                if name in SHIM:
                    return SHIM[name]
                m = _builtin_import(name, globals, locals, fromlist, level)
                return m
            if name not in SHIM:
                try:
                    _builtin_import(name, globals, locals, (), level)
                except ImportError:
                    if root not in ("matplotlib", "numba", "interpolation", "quantecon"):
                        raise
            return SHIM[root]
    return _builtin_import(name, globals, locals, fromlist, level)


def _sx_builtins():
    from . import arr
    d = dict(builtins.__dict__)
    d["__import__"] = _sx_import
    d["float"] = arr.sx_float
    d["int"] = arr.sx_int
    d["max"] = arr.sx_max
    d["min"] = arr.sx_min
    d["print"] = lambda *a, **k: None
    return d


class Loader(importlib.abc.Loader):
    def __init__(self, path, bi):
        self.path, self.bi = path, bi

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        code = compile(src, self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = self.bi
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots, bi):
        self.roots, self.bi = roots, bi

    def find_spec(self, name, path, target=None):
        root = name.split(".")[0]
        if root not in self.roots:
            return None
        base = os.path.join(self.roots[root], *name.split(".")[1:])
        p = os.path.join(base, "__init__.py")
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, self.bi), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(base + ".py", self.bi))
        return None


def load_symbolic():
    import numpy, scipy, pandas, xarray, sympy, yaml, multipledispatch, lark  # real ones first
    from . import arr
    _install_shims()
    bi = _sx_builtins()
    global BI
    BI = bi
    from . import core
    core.STR_HOOK = _as_name
    dolang = importlib.util.find_spec("dolang").submodule_search_locations[0]
    sys.meta_path.insert(0, Finder({"dolo": os.path.join(REPO, "dolo"), "dolang": dolang}, bi))
    trace_on()
    return World("sym", arr.NP)


def trace_on():
    """record which functions of the package are executed symbolically"""
    mon = sys.monitoring
    tid = mon.PROFILER_ID
    try:
        mon.use_tool_id(tid, "sx")
    except ValueError:
        return
    pre = os.path.join(REPO, "dolo") + os.sep
    def start(code, off):
        if code.co_filename.startswith(pre) and code.co_name != "<module>":
            ENCODED.add(code.co_filename[len(REPO) + 1:] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def load_real():
    import numpy
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return World("conc", numpy)
