"""Tauchen discretization of a scalar AR(1): `tauchen` is executed with symbolic mean, persistence,
standard deviation and width; the normal CDF is an uninterpreted nondecreasing function with values in
[0,1], strictly increasing shape is not needed.  Rows must be probability vectors and every cell must
hold exactly the probability that the next value falls into that node's cell."""
from sxh import H

BOUNDS = "N = 2..5 (thorough ..8) nodes; all other inputs are unbounded reals in their domain"
OUTSIDE = "values of the normal CDF itself (scipy contract: a nondecreasing function into [0,1])"


def tau(p, w, N):
    rho = p.real("rho", -1, 1, True, True)
    sig = p.real("sigma", pos=True)
    mu = p.real("mu")
    m = p.real("m", pos=True)
    np = w.np
    Z, P = w.get("dolo.numeric.discretization:tauchen")(N, mu, rho, sig, m)
    P = np.asarray(P)
    z = np.asarray(Z).reshape(-1)
    p.eq(P.sum(axis=1), np.ones(N), "rows sum to one")
    p.eq(z + z[::-1], 2 * mu * np.ones(N), "nodes symmetric around the mean")
    p.eq((z[-1] - mu) ** 2 * (1 - rho ** 2), m ** 2 * sig ** 2, "outer node is m unconditional standard deviations away")
    p.lt(z[:-1], z[1:], "nodes increasing")
    if N > 2:
        p.eq(z[2:] - z[1:-1], z[1:-1] - z[:-2], "nodes evenly spaced")
    p.le(0, P, "probabilities nonnegative")
    p.le(P, 1, "probabilities at most one")
    # exact cell probabilities
    import scipy.stats
    cdf = w.mod("dolo.numeric.discretization.discretization").sp.stats.norm.cdf
    for j in range(N):
        cm = (1 - rho) * mu + rho * z[j]
        for k in range(N - 1):
            cut = (z[k] + z[k + 1]) / 2
            p.eq(P[j, :k + 1].sum(), cdf((cut - cm) / sig), "cumulative probability of the first %d cells" % (k + 1))


HARNESSES = [H("tauchen", tau, [dict(N=n) for n in (2, 3, 4, 5)], [dict(N=n) for n in (6, 7, 8)], labels=("rows sum", "probabilities non"))]
