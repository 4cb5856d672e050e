"""Gauss-Hermite discretization of normal distributions: `hermgauss`, `gauss_hermite_nodes`, `UNormal` and
`Normal` are executed with symbolic mean and symbolic covariance Sigma = L L'; the quadrature roots and
weights computed by the real iteration are constants, and the weighted mean, covariance (and, in one
dimension, the higher moments an n-point rule must integrate exactly) are compared with those of the law."""
from sxh import H
import itertools

BOUNDS = "orders 1..8 in one dimension, up to 5x5 in two and 3x3x3 in three dimensions; mu, L unbounded reals (moments to 1e-8 relative)"
OUTSIDE = "quadrature orders above the bound"
D = "dolo.numeric.distribution:"


def chol(p, w, d, zero=()):
    np = w.np
    L = np.zeros((d, d))
    for i in range(d):
        if i in zero:
            continue
        for j in range(i):
            if j not in zero:
                L[i, j] = p.real("l%d%d" % (i, j), -10, 10)
        L[i, i] = p.real("l%d%d" % (i, i), 0, 10, lo_open=True)
    return L


def moments(p, w, X, W, mu, S):
    np = w.np
    n, d = X.shape
    p.eq(W.sum(), 1, "weights sum to one", tol=1e-10)
    p.le(0, W, "weights nonnegative")
    m = W @ X
    p.eq(m, mu, "mean", tol=1e-7)
    for i in range(d):
        for j in range(d):
            c = W @ ((X[:, i] - mu[i]) * (X[:, j] - mu[j]))
            p.eq(c, S[i, j], "covariance", tol=1e-6)


def mv(p, w, orders, zero=(), direct=False):
    np = w.np
    d = len(orders)
    L = chol(p, w, d, zero)
    S = L @ L.T
    keep = S.copy()
    mu = p.reals("mu", d, lo=-10, hi=10)
    if direct:
        X, W = w.get("dolo.numeric.discretization:gauss_hermite_nodes")(list(orders), S, mu=mu)
        p.eq(S, keep, "covariance argument left unchanged")
    else:
        dist = w.get(D + "Normal")(Σ=S, Μ=mu)
        dist.discretize(to="iid", N=2)      # an earlier request does not matter
        fd = dist.discretize(N=list(orders)) if len(set(orders)) > 1 else dist.discretize(to="iid", N=orders[0])
        X, W = fd.points, fd.weights
        p.eq(dist.Σ, keep, "covariance of the distribution left unchanged")
        p.eq(dist.Μ, mu, "mean of the distribution left unchanged")
    n = 1
    for o in orders:
        n *= o
    p.eq(X.shape, (n, d), "number of points")
    if min(orders) > 1:
        moments(p, w, X, W, mu, keep)
    else:
        p.eq(W @ X, mu, "mean", tol=1e-7)
    for i in zero:
        p.eq(X[:, i], mu[i] * np.ones(n), "variable without noise stays at its mean")


def default_mean(p, w, d):
    np = w.np
    L = chol(p, w, d)
    S = L @ L.T
    dist = w.get(D + "Normal")(Σ=S)
    fd = dist.discretize(to="iid", N=3)
    moments(p, w, fd.points, fd.weights, np.zeros(d), S)
    mc = dist.discretize(to="mc", N=3)
    m = mc.nodes
    p.eq(m, fd.points, "chain nodes are the quadrature points")
    P = mc.transitions
    p.eq(P.sum(axis=1), np.ones(len(m)), "chain rows sum to one", tol=1e-10)
    p.eq(P @ m, np.zeros(m.shape), "chain mean", tol=1e-6)


def unormal(p, w, N):
    np = w.np
    mu = p.real("mu", -10, 10)
    s = p.real("s", 0, 10, lo_open=True)
    dist = w.get(D + "UNormal")(σ=s, μ=mu)
    dist.discretize(to="iid", N=N + 1, method="gauss-hermite")      # an earlier request does not matter
    fd = dist.discretize(to="iid", N=N, method="gauss-hermite")
    X, W = fd.points, fd.weights
    p.eq(X.shape, (N, 1), "number of points")
    if N > 1:
        moments(p, w, X, W, np.array([mu]), np.array([[s * s]]))
    else:
        p.eq(W @ X, np.array([mu]), "mean", tol=1e-7)
    # an N point rule is exact for polynomials of degree 2N-1: standardized central moments
    z = (X[:, 0] - mu) / s
    mom = 1.0
    for k in range(1, min(2 * N, 9)):
        if k % 2 == 0:
            mom = mom * (k - 1)
            p.eq(W @ z ** k, mom, "even moment", tol=1e-6 * mom)
        else:
            p.eq(W @ z ** k, 0.0, "odd moment", tol=1e-6)


def integrate(p, w):
    """expectations are integrals over the whole line of the function times the density of the law"""
    import math, types
    np = w.np
    mu, s = p.real("mu", -10, 10), p.real("s", 0.1, 10)
    u = w.get(D + "UNormal")(σ=s, μ=mu)
    if p.mode != "sym":
        a, b, c = p.real("a", -2, 2), p.real("b", -2, 2), p.real("c", -2, 2)
        r = u.integrate(lambda x: a + b * x + c * x ** 2)
        p.eq(r, a + b * mu + c * (mu ** 2 + s ** 2), "expectation of a quadratic function", tol=1e-5)
        p.check(True, "integrand")
        return
    from sx.world import SHIM
    import scipy.integrate as si
    fun = p.ufun("fun", 1, -5, 5)
    seen, res = [], p.real("result", -5, 5)
    x0 = p.real("x", -20, 20)
    def f(y):
        seen.append(y)
        return fun(y)
    def quad(g, lo, hi, **k):
        p.check(lo == -math.inf and hi == math.inf, "whole line")
        g0 = g(x0)
        y0, n = seen[-1], len(seen)
        p.check(n == 1, "one evaluation")
        g(x0 + 1)
        slope = seen[-1] - y0    # the code may change variables y = alpha + slope x
        z = (y0 - mu) / s
        p.eq(g0 * s * np.sqrt(2 * np.pi), fun(y0) * slope * np.exp(-(z * z) / 2), "integrand", tol=1e-9)
        return (res, 0.0)
    saved = si.quad
    si.quad = quad
    try:
        r = u.integrate(f)
    finally:
        si.quad = saved
    p.eq(r, res, "value of the integral")


RC = dict(round_const=True)
HARNESSES = [
    H("normal", mv, [dict(orders=(n,)) for n in (1, 2, 5)] + [dict(orders=(2, 2)), dict(orders=(3, 2)), dict(orders=(5, 5)), dict(orders=(2, 2, 2)), dict(orders=(3, 3), zero=(1,)), dict(orders=(3, 3), zero=(0,)),
                      dict(orders=(2, 2, 2), zero=(1,))], [dict(orders=(2, 3, 2)), dict(orders=(3, 3, 3)), dict(orders=(7, 7))], labels=("mean",), opts=RC),
    H("nodes", mv, [dict(orders=(3,), direct=True), dict(orders=(2, 3), direct=True), dict(orders=(2, 2), zero=(0,), direct=True)], labels=("mean", "covariance"), opts=RC),
    H("default_mean", default_mean, [dict(d=1), dict(d=2)], labels=("mean",), opts=RC),
    H("unormal", unormal, [dict(N=n) for n in (1, 2, 3, 4, 5, 8)], [dict(N=n) for n in (6, 7, 10)], labels=("mean",), opts=RC),
    H("integrate", integrate, [{}], labels=("integrand",)),
]
