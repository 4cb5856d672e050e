"""Markov chains built from AR(1)/VAR(1) processes: the real discretization code is run on symbolic
covariance matrices written Sigma = L L' (every positive definite matrix has this form), symbolic scalar
persistence and symbolic mean; in every state the conditional mean must be mu + rho (x - mu) and the
conditional covariance exactly Sigma; variables without noise must stay constant."""
from sxh import H

BOUNDS = "dimension 1..3, N = 2..3 nodes per dimension (quick), 2..4 (thorough); rho, mu, L unbounded reals in their domain"
OUTSIDE = "the Tauchen variant of the multivariate routine (its covariance is approximate by construction)"


def _chol(p, w, d, zero=()):
    np = w.np
    L = np.zeros((d, d))
    for i in range(d):
        if i in zero:
            continue
        for j in range(i):
            if j not in zero:
                L[i, j] = p.real("l%d%d" % (i, j))
        L[i, i] = p.real("l%d%d" % (i, i), pos=True)
    return L


def _moments(p, w, nodes, P, rho, mu, Sigma, lab=""):
    np = w.np
    n = nodes.shape[0]
    p.eq(P.shape, (n, n), "one transition row per state")
    p.eq(P.sum(axis=1), np.ones(n), "rows sum to one" + lab)
    p.le(0, P, "probabilities nonnegative")
    m = P @ nodes
    d = nodes.shape[1]
    p.eq(m, mu[None, :] + rho * (nodes - mu[None, :]), "conditional mean" + lab)
    for i in range(d):
        for j in range(d):
            c = P @ (nodes[:, i] * nodes[:, j]) - m[:, i] * m[:, j]
            p.eq(c, Sigma[i, j] * np.ones(n), "conditional covariance" + lab)


def var(p, w, d, N, zero=()):
    np = w.np
    rho = p.real("rho", -1, 1, True, True)
    mu = p.reals("mu", d)
    L = _chol(p, w, d, zero)
    S = L @ L.T
    keep = S.copy()
    pr = w.get("dolo.numeric.processes:VAR1")(ρ=rho, Σ=S, μ=mu)
    if d < 3:
        pr.discretize(to="mc", N=N - 1)     # an earlier request does not matter
    mc = pr.discretize(to="mc", N=N)
    nodes, P = mc.nodes, mc.transitions
    p.eq(nodes.shape, (N ** d, d), "states")
    _moments(p, w, nodes, P, rho, mu, keep)
    for i in zero:
        p.eq(nodes[:, i], mu[i] * np.ones(len(nodes)), "variable without noise is constant")
    p.eq(S, keep, "covariance argument left unchanged")


def md(p, w, d, N):
    np = w.np
    rho = p.real("rho", -1, 1, True, True)
    L = _chol(p, w, d)
    S = L @ L.T
    nodes, P = w.get("dolo.numeric.discretization:multidimensional_discretization")(rho, S, N=N)
    _moments(p, w, nodes, P, rho, np.zeros(d), L @ L.T)
    p.eq(S, L @ L.T, "covariance argument left unchanged")


def ar1(p, w, N):
    np = w.np
    rho = p.real("rho", -1, 1, True, True)
    mu = p.real("mu")
    s = p.real("v", pos=True)
    pr = w.get("dolo.numeric.processes:AR1")(ρ=rho, σ=s, μ=mu)
    pr.discretize(to="mc", N=N + 1)
    mc = pr.discretize(to="mc", N=N)
    p.eq(mc.nodes.shape, (N, 1), "number of states")
    nodes, P = mc.nodes, mc.transitions
    n = N
    p.eq(P.sum(axis=1), np.ones(n), "rows sum to one")
    p.le(0, P, "probabilities nonnegative")
    m = P @ nodes
    p.eq(m, mu + rho * (nodes - mu), "conditional mean")
    c = P @ (nodes[:, 0] * nodes[:, 0]) - m[:, 0] * m[:, 0]
    p.eq(c, c[0] * np.ones(n), "conditional variance is the same in every state")


def reject(p, w, d):
    """persistence matrices that are not a scalar times identity are refused, never silently replaced"""
    np = w.np
    r = p.reals("rho", d, lo=-1, hi=1, lo_open=True, hi_open=True)
    # coefficients are equal or differ by more than the tolerance of the check
    p.assume((r[0] == r[1]) | ((r[0] - r[1]) * (r[0] - r[1]) > 1e-6))
    L = _chol(p, w, d)
    S = L @ L.T
    try:
        mc = w.get("dolo.numeric.processes:VAR1")(ρ=r, Σ=S).discretize(to="mc", N=2)
    except Exception as e:
        p.check("scalar" in str(e), "refusal explains that the autocorrelation must be scalar")
        return
    m = mc.transitions @ mc.nodes
    p.eq(m, mc.nodes * r[None, :], "conditional mean with a diagonal persistence matrix")


HARNESSES = [
    H("var1", var, [dict(d=1, N=3), dict(d=2, N=2), dict(d=2, N=3), dict(d=3, N=2), dict(d=2, N=2, zero=(1,)), dict(d=2, N=3, zero=(0,)), dict(d=3, N=2, zero=(1,))],
      [dict(d=3, N=3), dict(d=2, N=4)], labels=("rows sum", "conditional mean", "conditional covariance")),
    H("multidimensional", md, [dict(d=1, N=3), dict(d=2, N=2), dict(d=2, N=3)], [dict(d=3, N=2)], labels=("conditional covariance",)),
    H("ar1", ar1, [dict(N=2), dict(N=3)], [dict(N=4), dict(N=5)], labels=("conditional mean",)),
    H("nonscalar_persistence", reject, [dict(d=2)], opts=dict(max_witnesses=4)),
]
