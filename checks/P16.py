"""Complementarity conditions: every semismooth reformulation in the package is executed with symbolic values,
bounds and residuals; the solver shows that it vanishes exactly at the solutions of the mixed complementarity
problem, and that the derivatives it reports are those of its value (chain rule applied to the reported
residual derivatives) away from kinks."""
from sxh import H

BOUNDS = "1..2 equations, 1..2 observations; bounds finite or infinite on either side; every value symbolic"
OUTSIDE = "values of derivatives at kinks (residual and distance to a bound both zero)"
NCP = "dolo.numeric.optimize.ncpsolve:"
FB = "dolo.algos.fb:"
ITI = "dolo.algos.improved_time_iteration:"
LM = "dolo.numeric.extern.lmmcp:"
INF = float("inf")


def bounds(p, np, kind, tag="", big=INF):
    a = p.real("a" + tag, -1000, 1000) if kind in ("both", "lower") else -big
    b = p.real("b" + tag, -1000, 1000) if kind in ("both", "upper") else big
    if kind == "both":
        p.assume(a + 0.01 <= b)
    return a, b


def mcp(np, f, x, a, b, kind):
    """natural residual x - clip(x - f, a, b): zero exactly when f >= 0 at a, f <= 0 at b, f = 0 in between"""
    y = x - f
    if kind in ("both", "lower"):
        y = np.maximum(y, a)
    if kind in ("both", "upper"):
        y = np.minimum(y, b)
    return x - y


def phi(np, u, v):
    """value and directional derivative of u + v - sqrt(u^2 + v^2)"""
    s = np.sqrt(u[0] * u[0] + v[0] * v[0])
    return (u[0] + v[0] - s, u[1] + v[1] - (u[0] * u[1] + v[0] * v[1]) / s)


def away(p, *pairs):
    for u, v in pairs:
        p.assume(u * u + v * v > 0.01)


def fbs(p, w):
    np = w.np
    a, b = bounds(p, np, "both")
    f, x, df = p.real("f"), p.real("x"), p.real("df")
    v = w.get(FB + "smooth_FB")(f, x, a, b)
    p.zero_iff(v, mcp(np, f, x, a, b, "both"), "zero exactly at solutions of the complementarity problem")
    P, dP = w.get(FB + "smooth_FB_")(f, x, a, b, df)
    p.eq(P, v, "value and value-with-derivative agree")


def fbd(p, w):
    np = w.np
    a, b = bounds(p, np, "both")
    f, x, df = p.real("f"), p.real("x"), p.real("df")
    v1 = phi(np, (f, df), (x - a, 1))
    away(p, (f, x - a), (v1[0], b - x))
    P, dP = w.get(FB + "smooth_FB_")(f, x, a, b, df)
    v2 = phi(np, (-v1[0], -v1[1]), (b - x, -1))
    p.eq(dP, v2[1], "derivative of the value")


def fbarr(p, w):
    """array versions apply the scalar one to each entry"""
    np = w.np
    sh = (1, 2, 1)
    f, x = p.reals("f", sh), p.reals("x", sh)
    a, b = p.reals("a", sh), p.reals("b", sh)
    df = p.reals("df", sh + (1,))
    for V in (w.get(FB + "smooth")(f, x, a, b, df), w.get(FB + "smooth_")(f, x, a, b)):
        p.eq(V.shape, sh, "shape")
        for n in range(2):
            p.eq(V[0, n, 0], w.get(FB + "smooth_FB")(f[0, n, 0], x[0, n, 0], a[0, n, 0], b[0, n, 0]), "entry by entry")


def ncp(p, w, kinds, jac, N=1, big=INF, what="value"):
    np = w.np
    n = len(kinds)
    sh = (N, n)
    x, f = p.reals("x", sh), p.reals("f", sh)
    J = p.reals("J", (N, n, n))
    A, B = np.zeros(sh), np.zeros(sh)
    for k in range(N):
        for i in range(n):
            A[k, i], B[k, i] = bounds(p, np, kinds[i], "%d%d" % (k, i), big)
    fl = lambda v: v if jac == "serial" else v[0]
    Jx = J.copy() if jac == "serial" else J[0].copy()
    if jac == "sparse":
        Jx = w.mod("scipy.sparse").csc_matrix(Jx)
    if what == "deriv":
        # u = phi(-f, x-a), v = phi(-u, b-x), away from kinks
        T = {}
        for k in range(N):
            for i in range(n):
                for j in range(n):
                    d = 1 if i == j else 0
                    v = (f[k, i], J[k, i, j])
                    if kinds[i] in ("both", "lower"):
                        if j == 0:
                            away(p, (v[0], x[k, i] - A[k, i]))
                        v = phi(np, v, (x[k, i] - A[k, i], d))
                    if kinds[i] in ("both", "upper"):
                        if j == 0:
                            away(p, (v[0], B[k, i] - x[k, i]))
                        v = phi(np, (-v[0], -v[1]), (B[k, i] - x[k, i], -d))
                        v = (-v[0], -v[1])
                    T[k, i, j] = v
    f0, x0 = f.copy(), x.copy()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        R, JN = w.get(NCP + "smooth")(fl(x), fl(A), fl(B), fl(-f), -1 * Jx, jactype=jac)
    p.eq(x, x0, "evaluation point unchanged")
    p.eq(f, f0, "residuals unchanged")
    if jac == "sparse":
        JN = np.asarray(JN.todense())
    if jac != "serial":
        R, JN = R[None, :], JN[None, :, :]
    p.eq(R.shape, sh, "shape of residuals")
    p.eq(JN.shape, (N, n, n), "shape of derivatives")
    for k in range(N):
        for i in range(n):
            if what == "value":
                p.zero_iff(R[k, i], mcp(np, f0[k, i], x0[k, i], A[k, i], B[k, i], kinds[i]), "zero exactly at solutions")
                if kinds[i] == "free":
                    p.eq(R[k, i], -f0[k, i], "free variables: the equation itself")
            else:
                for j in range(n):
                    p.eq(-R[k, i], T[k, i, j][0], "value")
                    p.eq(-JN[k, i, j], T[k, i, j][1], "derivative with respect to each variable")


def kink(p, w, kind, jac, which):
    """residual and distance to the bound both zero: an element of the generalized derivative"""
    np = w.np
    x = p.reals("x", (1, 2))
    f = p.reals("f", (1, 2))
    f[0, 0] = 0.0
    A, B = x - 1, x + 1
    A[0, 0] = x[0, 0] if kind in ("lower",) else -INF
    B[0, 0] = x[0, 0] if kind in ("upper",) else INF
    J = np.array([[[0.75, 2.0], [-1.0, 0.5]]])
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if which == "ncp":
            fl = lambda v: v if jac == "serial" else v[0]
            Jx = J.copy() if jac == "serial" else J[0].copy()
            if jac == "sparse":
                Jx = w.mod("scipy.sparse").csc_matrix(Jx)
            R, D = w.get(NCP + "smooth")(fl(x), fl(A), fl(B), fl(-f), -1 * Jx, jactype=jac)
            if jac == "sparse":
                D = np.asarray(D.todense())
            R, D = (R, D) if jac == "serial" else (R[None, :], D[None, :, :])
            D = D[0]
        else:
            dx, pos = (x - A, 1.0) if kind == "lower" else (B - x, -1.0)
            g = -1.0 if kind == "upper" else 1.0
            R, D, _ = w.get(ITI + "smooth")(g * f[None, :, :], g * J[None, :, :, :], np.zeros((1, 1, 1, 2, 2)), dx[None, :, :], pos=pos)
            R, D = R[0], -g * D[0, 0]
    p.eq(R[0, 0], 0, "zero at a degenerate solution")
    a = -D[0, 1] / 2.0
    b = -D[0, 0] - a * 0.75
    p.le((a - 1) ** 2 + (b - 1) ** 2, 1, "generalized derivative at a degenerate solution")


class Second(Exception):
    pass


def solve(p, w, kind, jac, N=1):
    """the solver for complementarity problems takes Newton steps on the reformulation of the user's problem: first
    point evaluated, full step, stopping test and count are decided with arbitrary values and derivatives"""
    np = w.np
    x, f, J = p.reals("x", (N, 1)), p.reals("f", (N, 1)), p.reals("J", (N, 1, 1))
    A, B = np.zeros((N, 1)), np.zeros((N, 1))
    tol = p.real("tol", 0.001, 1)
    T = []
    for k in range(N):
        A[k, 0], B[k, 0] = bounds(p, np, kind, str(k))
        v = (f[k, 0], J[k, 0, 0])
        if kind in ("both", "lower"):
            away(p, (v[0], x[k, 0] - A[k, 0]))
            v = phi(np, v, (x[k, 0] - A[k, 0], 1))
        if kind in ("both", "upper"):
            away(p, (v[0], B[k, 0] - x[k, 0]))
            v = phi(np, (-v[0], -v[1]), (B[k, 0] - x[k, 0], -1))
            v = (-v[0], -v[1])
        p.assume(v[1] * v[1] > 0.01)
        T.append(v)
    fl = lambda v: v if jac == "serial" else v[0]
    seen = []

    def fun(z):
        seen.append(np.array(z).copy())
        if len(seen) > 1:
            raise Second()
        Jx = fl(J).copy()
        if jac == "sparse":
            Jx = w.mod("scipy.sparse").csc_matrix(Jx)
        return [fl(f).copy(), Jx]

    x0 = fl(x).copy()
    import warnings
    err = np.abs(np.array([v[0] for v in T])).max()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            sol, nit = w.get(NCP + "ncpsolve")(fun, fl(A), fl(B), fl(x), tol=tol, maxit=3, jactype=jac)
        except Second:
            sol = None
    p.eq(seen[0], x0, "starts at the guess")
    if sol is not None:
        p.eq(len(seen), 1, "evaluations before stopping")
        p.le(err, tol, "stops only when the reformulation is below the tolerance")
        p.eq(sol, x0, "solution returned")
        p.eq(nit, 0, "number of iterations")
    else:
        p.le(tol, err, "goes on only when the reformulation is above the tolerance")
        for k in range(N):
            p.eq((x[k, 0] - seen[1].reshape((N, 1))[k, 0]) * T[k][1], T[k][0], "full Newton step on the reformulation")
    p.eq(fl(x), x0, "guess unchanged")


def iti(p, w, kind, what, n=1):
    """the sequence of calls of improved_time_iteration"""
    np = w.np
    sh = (1, 1, n)
    f, x = p.reals("f", sh), p.reals("x", sh)
    d = p.reals("d", sh + (n,))
    j = p.reals("j", (1, 2) + sh[1:] + (n,))
    A, B = np.zeros(sh), np.zeros(sh)
    for i in range(n):
        A[0, 0, i], B[0, 0, i] = bounds(p, np, kind, "%d" % i)
    for i in range(n):
        for bd, k in ((A, "lower"), (B, "upper")):
            if kind in ("both", k):
                p.assume(abs(x[0, 0, i] - bd[0, 0, i]) < 99999)
    f0 = f.copy()
    sm, nd = w.get(ITI + "smooth"), w.get(ITI + "smooth_nodiff")
    if what == "value":
        r = nd(f, x - A)
        r = nd(-r, B - x)
        p.eq(f, f0, "residuals unchanged")
        for i in range(n):
            p.zero_iff(r[0, 0, i], mcp(np, f0[0, 0, i], x[0, 0, i], A[0, 0, i], B[0, 0, i], kind), "zero exactly at solutions")
        return
    exp, exj = {}, {}
    for i in range(n):
        for q in range(n + 2):
            # directions: own controls of each equation, then future controls (two nodes, first column)
            v = (f[0, 0, i], d[0, 0, i, q] if q < n else j[0, q - n, 0, i, 0])
            e = 1 if q == i else 0
            if kind in ("both", "lower"):
                if q == 0:
                    away(p, (v[0], x[0, 0, i] - A[0, 0, i]))
                v = phi(np, v, (x[0, 0, i] - A[0, 0, i], e))
            v = (-v[0], -v[1])
            if kind in ("both", "upper"):
                if q == 0:
                    away(p, (v[0], B[0, 0, i] - x[0, 0, i]))
                v = phi(np, v, (B[0, 0, i] - x[0, 0, i], -e))
            exp[i, q] = v
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r, dr, jr = sm(f, d, j, x - A)
        r, dr, jr = sm(-r, -dr, -jr, B - x, pos=-1.0)
    for i in range(n):
        for q in range(n):
            p.eq(r[0, 0, i], exp[i, q][0], "value")
            p.eq(dr[0, 0, i, q], exp[i, q][1], "derivative with respect to controls")
        for q in range(2):
            p.eq(jr[0, q, 0, i, 0], exp[i, n + q][1], "derivative with respect to future controls")


def lmval(p, w, kinds):
    np = w.np
    n = len(kinds)
    x, F = p.reals("x", n), p.reals("F", n)
    lb, ub = np.zeros(n), np.zeros(n)
    l1 = p.real("l1", 0.1, 1)
    l2 = 1 - l1
    code = dict(free=0, lower=1, upper=2, both=3)
    r = []
    for i in range(n):
        lb[i], ub[i] = bounds(p, np, kinds[i], "%d" % i, 1e12)
        r.append(mcp(np, F[i], x[i], lb[i], ub[i], kinds[i]))
    ix = [code[k] for k in kinds]
    y = w.get(LM + "Phi3MCPPFB")(x, F, lb, ub, l1, l2, n, ix)
    p.eq(y.shape, (2 * n,), "two residuals by equation")
    for i in range(n):
        p.zero_iff(y[i], r[i], "zero exactly at solutions")
        p.zero_iff(abs(r[i]) + abs(y[n + i]), r[i], "second residual is zero at solutions")


def lmder(p, w, kinds):
    np = w.np
    n = len(kinds)
    x, F = p.reals("x", n), p.reals("F", n)
    DF = p.reals("J", (n, n))
    lb, ub = np.zeros(n), np.zeros(n)
    l1 = p.real("l1", 0.1, 1)
    l2 = 1 - l1
    code = dict(free=0, lower=1, upper=2, both=3)
    ex = {}
    for i in range(n):
        k = kinds[i]
        lb[i], ub[i] = bounds(p, np, k, "%d" % i, 1e12)
        for q in [x[i] - lb[i] if k in ("both", "lower") else None, ub[i] - x[i] if k in ("both", "upper") else None, F[i]]:
            if q is not None:
                p.assume((q > 1e-3) | (q < -1e-3))
        for j in range(n):
            e = 1 if i == j else 0
            v = (F[i], DF[i, j])
            lo, up = (x[i] - lb[i], e), (ub[i] - x[i], -e)
            pos = lambda t: t if t[0] > 0 else (0, 0)
            neg = lambda t: (-t[0], -t[1])
            mul = lambda s, t: (s[0] * t[0], s[0] * t[1] + s[1] * t[0])
            if k in ("both", "upper"):
                u = phi(np, neg(v), up)
                u = neg(u)
            else:
                u = v
            r = phi(np, u, lo) if k in ("both", "lower") else u
            if k == "both" and j == 0:
                away(p, (u[0], lo[0]))
            ex[i, j] = -l1 * r[1]
            if k == "free":
                ex[n + i, j] = -l2 * v[1]
            else:
                t = (0, 0)
                if k in ("both", "lower"):
                    m = mul(pos(lo), pos(v))
                    t = (t[0] + m[0], t[1] + m[1])
                if k in ("both", "upper"):
                    m = mul(pos(up), pos(neg(v)))
                    t = (t[0] + m[0], t[1] + m[1])
                ex[n + i, j] = l2 * t[1]
    D = w.get(LM + "DPhi3MCPPFB")(x, F, DF, lb, ub, l1, l2, n, [code[k] for k in kinds])
    p.eq(D.shape, (2 * n, n), "shape")
    for (i, j), v in ex.items():
        p.eq(D[i, j], v, "derivative with respect to each variable")


K = ("both", "lower", "upper", "free")
HARNESSES = [
    H("fb", fbs, [dict()]),
    H("fb_deriv", fbd, [dict()]),
    H("fb_arrays", fbarr, [dict()]),
    H("ncp", ncp, [dict(kinds=(k,), jac="serial") for k in K] + [dict(kinds=("both",), jac="full"), dict(kinds=("lower", "upper"), jac="serial", N=2), dict(kinds=("free", "both"), jac="sparse")]
      + [dict(kinds=("upper",), jac="serial", big=1e20), dict(kinds=("lower",), jac="sparse", big=1e20)]),
    H("ncp_deriv", ncp, [dict(kinds=(k,), jac="serial", what="deriv") for k in K] + [dict(kinds=("lower", "upper"), jac=j, what="deriv") for j in ("serial", "full", "sparse")]
      + [dict(kinds=("lower", "free"), jac="serial", N=2, what="deriv")], [dict(kinds=("both", "lower"), jac=j, what="deriv") for j in ("serial", "full", "sparse")]),
    H("ncpsolve", solve, [dict(kind=k, jac=j) for k in ("free", "lower", "upper") for j in ("serial", "full", "sparse")] + [dict(kind="free", jac="serial", N=2)]),
    H("kink", kink, [dict(kind=k, jac=j, which="ncp") for k in ("lower", "upper") for j in ("serial", "full", "sparse")] + [dict(kind=k, jac="serial", which="iti") for k in ("lower", "upper")]),
    H("iti", iti, [dict(kind=k, what=v) for k in K for v in ("value", "deriv")] + [dict(kind="lower", what="deriv", n=2)]),
    H("lmmcp", lmval, [dict(kinds=(k,)) for k in K] + [dict(kinds=("lower", "upper"))]),
    H("lmmcp_deriv", lmder, [dict(kinds=(k,)) for k in K] + [dict(kinds=("lower", "upper"))], [dict(kinds=("both", "free"))], opts=dict(fork_minmax=True)),
]
