"""Newton solver and numerical derivatives: `newton` is executed on affine systems with symbolic matrices (where
it must end on the exact solution, whatever the storage of the jacobian) and on arbitrary (uninterpreted)
functions, where it must never report convergence with a large residual and never accept a step that a shorter
one would improve on; the finite-difference helpers are executed on quadratic functions with symbolic
coefficients."""
from sxh import H
import warnings

BOUNDS = "systems of 1..2 equations, 1..2 observations; at most 2 Newton iterations for arbitrary functions, back-steps limited to 2"
OUTSIDE = "rate of convergence on nonlinear systems; truncation errors beyond quadratic functions"
NW = "dolo.numeric.optimize.newton"


def det(A):
    return A[0, 0] if A.shape[0] == 1 else A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]


def affine(p, w, N, n, jac):
    np = w.np
    A = p.reals("A", (N, n, n), lo=-8, hi=8)
    b = p.reals("b", (N, n), lo=-8, hi=8)
    for k in range(N):
        p.assume((det(A[k]) > 1e-2) | (det(A[k]) < -1e-2))
    x0 = p.reals("x0", (N, n), lo=-8, hi=8)
    if jac != "serial":
        x0 = x0[0]
    start = x0.copy()

    def f(x):
        if jac == "serial":
            v = np.zeros((N, n))
            for k in range(N):
                v[k] = A[k] @ x[k] - b[k]
            return [v, A.copy()]
        v = A[0] @ x - b[0]
        J = A[0].copy()
        if jac == "sparse":
            J = w.mod("scipy.sparse").csc_matrix(J)
        return [v, J]
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        x, it = w.get(NW + ":newton")(f, x0, jactype=jac)
    p.eq(x0, start, "starting point unchanged")
    p.check(not any("onverge" in str(e.message) for e in ws), "affine systems converge")
    r = f(x)[0]
    if it == 0:
        p.eq(x, start, "no iteration: starting point returned")
        p.check((abs(r) < 1e-6).all(), "no iteration: residual below tolerance")
    else:
        p.check(p.mode == "conc" or it == 1, "one step suffices")
        p.eq(r, r * 0, "exact solution of affine systems")


def general(p, w, maxit, good):
    """scalar equation with arbitrary residuals at the points visited"""
    np = w.np
    x0 = p.real("x0")
    f0 = p.real("f0")
    d0 = p.real("d0", 0.1, 10)
    vals = [p.real("f%d" % k) for k in range(1, 4)]
    seen = []
    big = [None]

    def f(x):
        # every visited point gets an arbitrary residual, the same each time it is visited
        for y, v in seen:
            if y is x or (p.mode == "conc" and float(y[0, 0]) == float(x[0, 0])):
                return [np.array([[v]]), np.array([[[d0]]])]
        k = len(seen)
        v = f0 if k == 0 else vals[(k - 1) % 3]
        seen.append((x, v))
        return [np.array([[v]]), np.array([[[d0]]])]
    # some step among the first `good`+1 lowers the residual
    p.assume(abs(vals[good]) < abs(f0))
    for k in range(good):
        p.assume(abs(vals[k]) >= abs(f0))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        x, it = w.get(NW + ":newton")(f, np.array([[x0]]), maxit=maxit)
    warned = any("onverge" in str(e.message) for e in ws)
    res = [v for y, v in seen if y is x or (p.mode == "conc" and float(y[0, 0]) == float(x[0, 0]))]
    p.check(len(res) > 0, "returned point was evaluated")
    r = res[0]
    if not warned:
        p.lt(abs(r), 1e-6, "reported convergence means a small residual")
    p.le(it, maxit, "iteration limit")
    if it == 0:
        p.check(not warned, "no iteration only when converged at the start")
    else:
        if it == 1 or not (maxit > 1):
            p.lt(abs(r), abs(f0), "accepted step lowers the residual")
            p.eq(x[0, 0], x0 - f0 / d0 * 0.5 ** good, "longest step that lowers the residual")


def serialdiff(p, w, N, n, q):
    np = w.np
    C = p.reals("c", (q,), lo=-3, hi=3)
    L = p.reals("l", (q, n), lo=-3, hi=3)
    Q = p.reals("q", (q, n, n), lo=-1, hi=1)
    x = p.reals("x", (N, n), lo=-2, hi=2)

    def f(x):
        v = np.zeros((x.shape[0], q))
        for k in range(x.shape[0]):
            for i in range(q):
                v[k, i] = C[i] + L[i] @ x[k] + x[k] @ Q[i] @ x[k]
        return v
    x0 = x.copy()
    v, J = w.get(NW + ":SerialDifferentiableFunction")(f)(x)
    p.eq(x, x0, "evaluation point unchanged")
    p.eq(v, f(x0), "value")
    p.eq(J.shape, (N, q, n), "shape of derivatives")
    for k in range(N):
        for i in range(q):
            for j in range(n):
                ex = L[i, j] + sum((Q[i, j, a] + Q[i, a, j]) * x0[k, a] for a in range(n))
                p.le(abs(J[k, i, j] - ex), 1e-5, "derivative of each output with respect to each input")


def ndiff(p, w, which, n, q, N):
    np = w.np
    L = p.reals("l", (q, n), lo=-3, hi=3)
    Q = p.reals("q", (q, n), lo=-1, hi=1)
    if which == "jac":
        x = p.reals("x", n, lo=-2, hi=2)

        def f(x):
            return L @ x + Q @ (x * x)
        x0 = x.copy()
        J = w.get("dolo.numeric.misc:MyJacobian")(f)(x)
        p.eq(J.shape, (q, n), "shape")
        for i in range(q):
            for j in range(n):
                p.le(abs(J[i, j] - (L[i, j] + 2 * Q[i, j] * x0[j])), 1e-5, "derivative")
    elif which == "one":
        x = p.reals("x", (n, N), lo=-2, hi=2)

        def f(x):
            return L @ x + Q @ (x * x)
        x0 = x.copy()
        J = w.get("dolo.numeric.serial_operations:numdiff1")(f, x)
        p.eq(J.shape, (q, n, N), "shape")
        for i in range(q):
            for j in range(n):
                for k in range(N):
                    p.le(abs(J[i, j, k] - (L[i, j] + 2 * Q[i, j] * x0[j, k])), 1e-5, "derivative by observation")
    else:
        x = p.reals("x", (n,), lo=-2, hi=2)
        sc = p.reals("sc", N, lo=0.5, hi=2)

        def f(x):
            return (L @ x + Q @ (x * x))[:, None] * sc[None, :]
        x0 = x.copy()
        J = w.get("dolo.numeric.serial_operations:numdiff2")(f, x)
        p.eq(J.shape, (q, n, N), "shape")
        for i in range(q):
            for j in range(n):
                for k in range(N):
                    p.le(abs(J[i, j, k] - sc[k] * (L[i, j] + 2 * Q[i, j] * x0[j])), 1e-5, "derivative of parameters")
    p.eq(x, x0, "evaluation point unchanged")


HARNESSES = [
    H("affine", affine, [dict(N=1, n=1, jac="serial"), dict(N=2, n=1, jac="serial"), dict(N=1, n=2, jac="serial"), dict(N=1, n=2, jac="full"), dict(N=1, n=2, jac="sparse"), dict(N=1, n=1, jac="full")],
      [dict(N=2, n=2, jac="serial")], labels=("exact solution",), opts=dict(strict_div=True)),
    H("general", general, [dict(maxit=1, good=0), dict(maxit=1, good=1), dict(maxit=1, good=2)], labels=("accepted step", "reported")),
    H("serial_derivative", serialdiff, [dict(N=1, n=2, q=2), dict(N=2, n=2, q=1), dict(N=2, n=1, q=2)]),
    H("numdiff", ndiff, [dict(which=k, n=2, q=2, N=2) for k in ("jac", "one", "two")] + [dict(which="one", n=1, q=2, N=1)]),
]
