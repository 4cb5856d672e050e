"""Products of Markov chains: `tensor_markov`, `product_mc` and `ProductProcess.discretize` are executed on
symbolic chains of given sizes.  States of the product are all combinations (first chain slowest), values are
the concatenated values of the components, the probability of a joint transition is the product of the
component probabilities, so that each component keeps its own law and the components move independently."""
from sxh import H
import itertools

BOUNDS = "2 or 3 chains with 1..3 states each (4 chains in thorough), 1..2 variables per chain; probabilities and values symbolic"
OUTSIDE = "more chains or states"


def chain(p, w, k, n, d):
    np = w.np
    P = p.reals("P%d" % k, (n, n), lo=0, hi=1)
    V = p.reals("V%d" % k, (n, d))
    for i in range(n):
        # rows sum to one: last entry is the complement
        P[i, n - 1] = 1 - P[i, :n - 1].sum() if n > 1 else 1
        p.assume(P[i, n - 1] >= 0)
    return P, V


def expected(p, w, chains):
    np = w.np
    ns = [c[0].shape[0] for c in chains]
    idx = list(itertools.product(*[range(n) for n in ns]))
    N = len(idx)
    Q = np.zeros((N, N))
    for a, i in enumerate(idx):
        for b, j in enumerate(idx):
            q = 1
            for k, c in enumerate(chains):
                q = q * c[0][i[k], j[k]]
            Q[a, b] = q
    vals = np.concatenate([np.concatenate([chains[k][1][i[k], :] for k in range(len(ns))])[None, :] for i in idx], axis=0)
    return vals, Q, idx


def prod(p, w, how, sizes, dims):
    np = w.np
    chains = [chain(p, w, k, n, d) for k, (n, d) in enumerate(zip(sizes, dims))]
    vals, Q, idx = expected(p, w, chains)
    MC = w.get("dolo.numeric.processes:MarkovChain")
    if how == "tensor":
        V, P = w.get("dolo.numeric.discretization:tensor_markov")(*[(v, t) for t, v in chains])
    elif how == "product_mc":
        m = w.get("dolo.numeric.processes:product_mc")([MC(t, v) for t, v in chains])
        V, P = m.values, m.transitions
    else:
        pp = w.get("dolo.numeric.processes:ProductProcess")(*[MC(t, v) for t, v in chains])
        m = pp.discretize(to="mc") if how == "process_mc" else pp.discretize()
        p.eq(pp.d, sum(dims), "dimension of the product")
        p.eq(m.d, sum(dims), "dimension of the discretized product")
        V, P = m.nodes, m.transitions
        n = len(idx)
        for a in range(n):
            p.eq(m.node(a), vals[a], "node")
            p.eq(m.n_inodes(a), n, "number of successors")
            for b in range(n):
                p.eq(m.inode(a, b), vals[b], "successor node")
                p.eq(m.iweight(a, b), Q[a, b], "successor weight")
    p.eq(V, vals, "joint states combine component states, first component slowest")
    p.eq(P, Q, "joint probability is the product of component probabilities")
    p.eq(P.sum(axis=1), np.ones(len(idx)), "rows sum to one")
    # marginal law of each component
    for k, (t, v) in enumerate(chains):
        for a, i in enumerate(idx):
            for s in range(sizes[k]):
                p.eq(sum(P[a, b] for b, j in enumerate(idx) if j[k] == s), t[i[k], s], "component keeps its own transition law")


def approximated(p, w, sizes, common):
    """components that are not chains are approximated first, each with its own options; what was asked
    of the same product before does not matter"""
    np = w.np
    mods = w.get("dolo.numeric.processes:AR1")
    procs = []
    for k in range(len(sizes)):
        r = p.real("rho%d" % k, -1, 1)
        p.assume((r > -1) & (r < 1))
        procs.append(mods(ρ=r, σ=p.real("sig%d" % k, pos=True), μ=p.real("mu%d" % k)))
    opts = [dict(N=n) for n in sizes]
    alone = [q.discretize(to="mc", **o) for q, o in zip(procs, opts)]
    pp = w.get("dolo.numeric.processes:ProductProcess")(*procs)
    pp.discretize(to="mc", options=dict(N=sizes[0] + 1))
    m = pp.discretize(to="mc", options=opts[0] if common else opts)
    vals, Q, idx = expected(p, w, [(c.transitions, c.nodes) for c in alone])
    p.eq(m.nodes, vals, "joint states combine the states of the approximations")
    p.eq(m.transitions, Q, "joint probability is the product of those of the approximations")


def mismatch(p, w, how):
    """inconsistent node / transition counts are refused"""
    np = w.np
    P = p.reals("P", (2, 2), lo=0, hi=1)
    V = p.reals("V", (3, 1))
    P2 = p.reals("Q", (2, 2), lo=0, hi=1)
    V2 = p.reals("U", (2, 1))
    a, b = (V, P), (V2, P2)
    try:
        w.get("dolo.numeric.discretization:tensor_markov")(*((a, b) if how == 0 else (b, a)))
    except Exception:
        p.check(True, "inconsistent chain refused")
        return
    p.check(False, "inconsistent chain refused")


HARNESSES = [
    H("tensor", prod, [dict(how="tensor", sizes=(2, 2), dims=(1, 1)), dict(how="tensor", sizes=(2, 3), dims=(2, 1)), dict(how="tensor", sizes=(3, 2), dims=(1, 2)), dict(how="tensor", sizes=(2, 3, 2), dims=(1, 1, 1)),
                       dict(how="tensor", sizes=(1, 2), dims=(1, 1)), dict(how="tensor", sizes=(2, 2, 2), dims=(1, 2, 1)), dict(how="tensor", sizes=(2, 2, 2, 2), dims=(1, 1, 1, 1))],
      [dict(how="tensor", sizes=(3, 3, 2), dims=(1, 1, 2))]),
    H("product", prod, [dict(how="product_mc", sizes=(2, 3), dims=(1, 1)), dict(how="process", sizes=(2, 2), dims=(1, 2)), dict(how="process", sizes=(3,), dims=(2,)), dict(how="process_mc", sizes=(2,), dims=(1,)), dict(how="process_mc", sizes=(2, 1, 2), dims=(1, 1, 1))],
      [dict(how="process", sizes=(2, 3, 2), dims=(1, 2, 1))]),
    H("approximated", approximated, [dict(sizes=(2, 2), common=True), dict(sizes=(2, 3), common=False)], labels=("joint states",)),
    H("mismatch", mismatch, [dict(how=0), dict(how=1)], conc=True),
]
