"""Discretized processes: `discretize_gdp` of AR(1)/VAR(1) processes, the conversion of Markov chains and the
common interface (nodes, inodes, iweights, iteritems) are executed with symbolic persistence, mean, variance,
transition matrices and values.  In every state of a generalised process the integration nodes and weights must
carry the conditional mean and variance of the process, and iterating must give exactly the tabulated laws."""
from sxh import H

BOUNDS = "2..4 nodes for generalised processes, chains with 1..3 states and 1..2 variables; all numbers symbolic"
OUTSIDE = "conditional moments above the second; weights below 1e-16 are dropped when iterating, as documented"
M = "dolo.numeric.processes:"


def gdp(p, w, kind, N):
    np = w.np
    rho = p.real("rho", -1, 1, True, True)
    mu = p.real("mu")
    sd = p.real("sd", pos=True)
    s = sd * sd
    if kind == "ar1":
        pr = w.get(M + "AR1")(ρ=rho, σ=s, μ=mu)
        S = s
    elif kind == "var1":
        pr = w.get(M + "VAR1")(ρ=rho, Σ=np.array([[s]]), μ=np.array([mu]))
        S = s
    else:
        pr = w.get(M + "VAR1")(ρ=np.array([[rho]]), Σ=s)
        S, mu = s, 0
    pr.discretize(to="mc", N=N)
    pr.discretize(to="gdp", N=N + 1)    # earlier requests do not matter
    g = pr.discretize(to="gdp", N=N)
    p.eq(g.n_nodes, N, "number of nodes")
    x = g.nodes
    p.eq(x.shape, (N, 1), "shape of nodes")
    p.eq(x + x[::-1], 2 * mu * np.ones((N, 1)), "nodes symmetric around the mean")
    p.lt(x[:-1], x[1:], "nodes increase")
    p.eq((x[-1, 0] - mu) ** 2 * (1 - rho ** 2), S * 2.5 ** 2, "nodes span 2.5 unconditional standard deviations")
    if N > 2:
        p.eq(x[2:] - x[1:-1], x[1:-1] - x[:-2], "nodes evenly spaced")
    p.eq(g.grid.nodes, x, "grid holds the nodes")
    for i in range(N):
        p.eq(g.node(i), x[i], "node by index")
        K = g.n_inodes(i)
        W = [g.iweight(i, j) for j in range(K)]
        X = [g.inode(i, j) for j in range(K)]
        p.eq(sum(W), 1, "conditional weights sum to one", tol=1e-9)
        for v in W:
            p.le(0, v, "weights nonnegative")
        tgt = mu + rho * (x[i, 0] - mu)
        dev = [b[0] - tgt for b in X]
        # quadrature points and weights are floats: the errors scale with the standard deviation
        p.le(abs(sum(a * b for a, b in zip(W, dev))), 1e-8 * sd, "conditional mean")
        p.le(abs(sum(a * b ** 2 for a, b in zip(W, dev)) - S), 1e-8 * S, "conditional variance")
        it = list(g.iteritems(i))
        p.eq(len(it), K, "all integration nodes are visited")
        for (a, b), c, e in zip(it, W, X):
            p.eq(a, c, "iterated weight")
            p.eq(b, e, "iterated node")


def chain(p, w, n, d):
    np = w.np
    P = np.zeros((n, n))
    for i in range(n):
        P[i] = p.simplex("P%d" % i, n)
        for j in range(n):
            # weights are zero or not negligible
            p.assume((P[i, j] == 0) | (P[i, j] > 1e-10))
    V = p.reals("v", (n, d))
    mc = w.get(M + "MarkovChain")(P, V)
    g = mc.discretize(to="gdp")
    p.check(mc.discretize(to="mc") is mc, "a chain is its own discretization")
    p.check(mc.discretize() is mc, "a chain is its own discretization")
    for o, lab in ((mc, "chain: "), (g, "generalised: ")):
        p.eq(o.n_nodes, n, lab + "number of nodes")
        p.eq(o.nodes, V, lab + "nodes")
        for i in range(n):
            p.eq(o.node(i), V[i], lab + "node by index")
            p.eq(o.n_inodes(i), n, lab + "number of integration nodes")
            for j in range(n):
                p.eq(o.inode(i, j), V[j], lab + "integration node")
                p.eq(o.iweight(i, j), P[i, j], lab + "integration weight")
            pos = [j for j in range(n) if bool(P[i, j] > 0)]
            it = list(o.iteritems(i))
            p.eq(len(it), len(pos), lab + "iterates over states of positive probability")
            for (a, b), j in zip(it, pos):
                p.eq(a, P[i, j], lab + "iterated weight")
                p.eq(b, V[j], lab + "iterated node")
            big = list(o.iteritems(i, 0.3))
            p.eq(sum(1 for j in range(n) if bool(P[i, j] > 0.3)), len(big), lab + "threshold of the iteration")
    p.eq(mc.grid.nodes, V, "exogenous grid holds the values")
    P0 = P.copy()
    p.eq(P, P0, "transition matrix unchanged")


HARNESSES = [
    H("gdp", gdp, [dict(kind=k, N=n) for k in ("ar1", "var1", "default") for n in (2, 3)], [dict(kind="ar1", N=5), dict(kind="var1", N=4)], opts=dict(round_const=True), labels=("conditional mean", "conditional variance")),
    H("interface", chain, [dict(n=1, d=1), dict(n=2, d=2), dict(n=2, d=1)], [dict(n=3, d=1)], labels=("chain: iterated",)),
]
