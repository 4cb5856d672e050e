"""Rouwenhorst discretization of a scalar AR(1): for symbolic persistence rho in (-1,1) and symbolic
innovation standard deviation sigma > 0, `rouwenhorst` is executed for each number of states N and the
returned nodes and transition matrix are required to be a stochastic matrix whose conditional mean is
rho*node and whose conditional variance is sigma^2 in every state, on symmetric evenly spaced nodes."""
from sxh import H

BOUNDS = "number of states N = 1..5 (thorough: ..8); rho, sigma unbounded reals in their domain"
OUTSIDE = "N above the bound; rho = +-1; floating point rounding"


def rouw(p, w, N):
    rho = p.real("rho", -1, 1, True, True)
    sig = p.real("sigma", pos=True)
    nodes, P = w.get("dolo.numeric.discretization:rouwenhorst")(rho, sig, N)
    np = w.np
    nodes, P = np.asarray(nodes).reshape(-1), np.asarray(P)
    p.eq(P.shape, (N, N), "shape of transition matrix")
    p.eq(P.sum(axis=1), np.ones(N), "rows sum to one")
    p.le(0, P, "probabilities nonnegative")
    p.eq(P @ nodes, rho * nodes, "conditional mean")
    p.eq(nodes + nodes[::-1], np.zeros(N), "nodes symmetric")
    if N > 1:
        m = P @ nodes
        p.eq(P @ (nodes * nodes) - m * m, sig * sig * np.ones(N), "conditional variance")
        p.lt(nodes[:-1], nodes[1:], "nodes increasing")
    if N > 2:
        p.eq(nodes[2:] - nodes[1:-1], nodes[1:-1] - nodes[:-2], "nodes evenly spaced")


HARNESSES = [H("rouwenhorst", rouw, [dict(N=n) for n in (1, 2, 3, 4, 5)], [dict(N=n) for n in (6, 7, 8)],
               labels=("rows sum", "conditional mean"))]
