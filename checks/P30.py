"""Complementarity solver for big systems: the real main loop of `lmmcp` (projection, preprocessor, restart, line search,
watchdog) is executed with an arbitrary residual function, arbitrary derivatives, an arbitrary reformulation and an
arbitrary answer of the least-squares routine.  Whatever happens, a point is only returned when the reformulation is
below the tolerance at that very point; what the reformulation means is P16."""
from sxh import H
import math, contextlib, io

BOUNDS = "1..2 unknowns; at most 1..2 preprocessing and 2..3 main iterations, 1 back-step per line search; watchdog after 0 or 1 iterations"
OUTSIDE = "whether and how fast iterations converge; least squares (LAPACK); more iterations (same loop)"
LM = "dolo.numeric.extern.lmmcp"


def bounds(p, np, kinds):
    lb, ub = [], []
    for i, k in enumerate(kinds):
        l = p.real("lb%d" % i, -3, 3) if k in ("both", "lower") else -math.inf
        u = p.real("ub%d" % i, -3, 6) if k in ("both", "upper") else math.inf
        if k == "both":
            p.assume(l + 0.5 <= u)
        lb.append(l)
        ub.append(u)
    return np.array(lb), np.array(ub)


@contextlib.contextmanager
def patched(p, w, m, n, K, kwatch, back):
    """bounded loops; in symbolic runs library calls and the reformulation are arbitrary"""
    stub = p.mode == "sym" or "ufun:phi" in p.values
    if not stub:
        m.kwatch, saved = kwatch, dict(kwatch=m.kwatch)
        try:
            yield None, [1]
        finally:
            m.kwatch = saved["kwatch"]
        return
    np = w.np
    names = dict(kmax=K, kwatch=kwatch, tmin=0.6 if back else 1)
    one = p.ufun("phi", 2 * n, -2, 2, table=True)
    calls = []
    def phi(x, Fx, *a):
        calls.append(1)
        z = [x[i] for i in range(n)] + [Fx[i] for i in range(n)]
        return np.array([one(*z)] + [0.0] * (2 * n - 1))
    count = [0]
    def fresh(sh):
        count[0] += 1
        return p.reals("any%d" % count[0], sh, lo=-4, hi=4)
    names["Phi3MCPPFB"] = phi
    names["DPhi3MCPPFB"] = lambda *a: np.zeros((2 * n, n))
    saved = {k: getattr(m, k, None) for k in names}
    for k, v in names.items():
        setattr(m, k, v)
    if p.mode == "sym":
        from sx import arr
        L = arr.LINALG.__dict__
    else:
        L = np.linalg.__dict__
    def cond(*a):
        count[0] += 1
        return 1e30 if bool(p.boolean("cond%d" % count[0])) else 1.0
    old = {k: L.get(k) for k in ("lstsq", "cond")}
    L["lstsq"] = lambda *a, **k: (fresh(n), None, n, None)
    L["cond"] = cond if n == 1 else (lambda *a: 1.0)
    try:
        yield phi, calls
    finally:
        for k, v in saved.items():
            setattr(m, k, v)
        for k, v in old.items():
            if v is None:
                L.pop(k, None)
            else:
                L[k] = v


def solver(p, w, kinds, presteps, K, kwatch, back=False, tol=0.01):
    np = w.np
    n = len(kinds)
    m = w.mod(LM)
    lb, ub = bounds(p, np, kinds)
    x0 = p.reals("x0", n, lo=-6, hi=6)
    g = [p.ufun("F%d" % i, n, -3, 3, table=True) for i in range(n)]
    seen = []
    stub = p.mode == "sym" or "ufun:phi" in p.values
    if stub:
        F = lambda x: np.array([f(*[x[j] for j in range(n)]) for f in g])
        DF = lambda x: np.zeros((n, n))
    else:
        def F(x):
            return np.array([f(*[x[j] for j in range(n)]) for f in g]) + 1.5 * x
        def DF(x):
            return np.array([[(F(x + 1e-6 * e)[i] - F(x - 1e-6 * e)[i]) / 2e-6 for e in np.eye(n)] for i in range(n)])
    def fun(x):
        seen.append(x.copy())
        return F(x)
    start = [x for x in x0]
    lb0, ub0 = [l for l in lb], [u for u in ub]
    proj = [x for x in x0]
    for i in range(n):
        if not (type(lb[i]) is float and math.isinf(lb[i])):
            proj[i] = lb[i] if bool(proj[i] < lb[i]) else proj[i]
        if not (type(ub[i]) is float and math.isinf(ub[i])):
            proj[i] = ub[i] if bool(ub[i] < proj[i]) else proj[i]
    verbose = not stub and kwatch == 1
    opts = dict(presteps=presteps, preprocess=presteps > 0)
    if stub:
        opts["eps2"] = tol
    with patched(p, w, m, n, K, kwatch, back) as (phi, calls):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                x = m.lmmcp(fun, DF, x0, lb, ub, verbose=verbose, options=opts)
        except Exception as e:
            if type(e).__module__.startswith("sx") or "onverge" not in str(e):
                raise
            x = None
        if not calls:
            # the reformulation is computed elsewhere than the stub: nothing to decide here
            if p.mode == "sym":
                from sx.core import Unsupported
                raise Unsupported("reformulation not called")
            return
        for i in range(n):
            p.eq(seen[0][i], proj[i], "first evaluation at the guess moved inside the bounds")
            p.eq(x0[i], start[i], "initial guess unchanged")
            if kinds[i] in ("both", "lower"):
                p.eq(lb[i], lb0[i], "bounds unchanged")
            if kinds[i] in ("both", "upper"):
                p.eq(ub[i], ub0[i], "bounds unchanged")
        for z in seen[:1 + min(presteps, 1)]:
            for i in range(n):
                if kinds[i] in ("both", "lower"):
                    p.le(lb[i], z[i], "preprocessing stays inside the bounds")
                if kinds[i] in ("both", "upper"):
                    p.le(z[i], ub[i], "preprocessing stays inside the bounds")
        if x is None:
            return
        if stub:
            v = phi(x, F(x))
            s = v[0] * v[0]
            for e in v[1:]:
                s = s + e * e
            p.le(0.5 * s, tol, "points are only returned when the reformulation is below the tolerance")
        else:
            f = F(x)
            for i in range(n):
                c = max(x[i] - ub[i], min(x[i] - lb[i], f[i]))
                p.check(abs(c) < 1e-4, "points are only returned when the reformulation is below the tolerance")
                p.check(lb[i] - 1e-4 <= x[i] <= ub[i] + 1e-4, "returned points are inside the bounds")


class Stop(Exception):
    pass


def accept(p, w, kinds, given, pre=False):
    """the guess is returned at once exactly when it solves the problem, for each kind of bounds; the reformulation is
    the real one (for points that solve the problem, and for arbitrary points)"""
    np = w.np
    n = len(kinds)
    m = w.mod(LM)
    big = 1e12
    lb, ub = np.zeros(n), np.zeros(n)
    x0, f = p.reals("x", n, lo=-6, hi=6), p.reals("F", n, lo=-3, hi=3)
    res = []
    for i, k in enumerate(kinds):
        lb[i] = p.real("lb%d" % i, -3, 3) if k in ("both", "lower") else -big
        ub[i] = p.real("ub%d" % i, -3, 6) if k in ("both", "upper") else big
        if k in ("both", "lower"):
            p.assume(lb[i] <= x0[i])
        if k in ("both", "upper"):
            p.assume(x0[i] <= ub[i])
        if k == "both":
            p.assume(lb[i] + 0.5 <= ub[i])
        y = x0[i] - f[i]
        if k in ("both", "lower"):
            y = np.maximum(y, lb[i])
        if k in ("both", "upper"):
            y = np.minimum(y, ub[i])
        res.append(x0[i] - y)
    if given == "solution":
        for i, k in enumerate(kinds):
            at = p.boolean("at%d" % i) if k in ("both", "lower") else False
            to = p.boolean("to%d" % i) if k in ("both", "upper") else False
            if bool(at):
                x0[i] = lb[i]
                f[i] = abs(f[i])
            elif bool(to):
                x0[i] = ub[i]
                f[i] = -abs(f[i])
            else:
                f[i] = 0.0
    seen = []
    def fun(x):
        if seen:
            raise Stop()
        seen.append(x)
        return f.copy()
    start = x0.copy()
    sym = p.mode == "sym"
    old = m.__dict__.get("DPhi3MCPPFB")
    if sym:
        m.DPhi3MCPPFB = lambda *a: np.zeros((2 * n, n))
        from sx import arr
        L = arr.LINALG.__dict__
        lib = {k: L.get(k) for k in ("lstsq", "cond")}
        L["lstsq"] = lambda *a, **k: (np.zeros(n), None, n, None)
        L["cond"] = lambda *a: 1.0
    eps = 1e-10 if given == "solution" else (0.0 if sym else 1e-20)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            x = m.lmmcp(fun, lambda x: np.eye(n), x0, lb, ub, verbose=False, options=dict(eps2=eps, preprocess=int(pre), presteps=1 if pre else 0))
    except Stop:
        x = None
    finally:
        if sym:
            m.DPhi3MCPPFB = old
            for k, v in lib.items():
                if v is None:
                    L.pop(k, None)
                else:
                    L[k] = v
    if given == "solution":
        p.check(x is not None, "a solution is accepted at once")
        if x is not None:
            p.eq(x, start, "the solution is returned unchanged")
    elif x is not None:
        for i in range(n):
            p.le(abs(res[i]), 1e-6, "accepted points solve the problem")
        p.eq(x, start, "the solution is returned unchanged")


def _c(kinds, presteps, K, kwatch, back=False):
    return dict(kinds=kinds, presteps=presteps, K=K, kwatch=kwatch, back=back)


HARNESSES = [
    H("solver", solver, [_c(("both",), 1, 2, 20), _c(("free",), 0, 2, 20, True), _c(("lower",), 0, 2, 0), _c(("free",), 0, 3, 0), _c(("upper",), 1, 2, 0), _c(("lower", "upper"), 1, 2, 1)],
      [_c(("both",), 2, 3, 0), _c(("lower",), 0, 2, 0, True)], labels=("first evaluation", "points are only returned"), opts=dict(max_paths=2000)),
    H("accept", accept, [dict(kinds=(k,), given=g) for k in ("free", "lower", "upper", "both") for g in ("solution", "point")]
      + [dict(kinds=("lower", "upper"), given="solution", pre=True), dict(kinds=("free", "both"), given="solution")],
      [dict(kinds=("lower", "upper"), given="point")], labels=("the solution is returned",)),
]
