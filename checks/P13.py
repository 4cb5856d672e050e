"""Decision rules: `DecisionRule` on every supported pair of exogenous/endogenous grids and interpolation type is
built from symbolic nodal values on grids with symbolic bounds and evaluated through all its entry points
(indexed, by exogenous value, by pair of indices, call syntax).  The rule must reproduce its values at the nodes,
linear rules must reproduce affine functions everywhere, and later changes to the array of values or to the
grids must not alter the rule; constant rules are constant."""
from sxh import H
import itertools

BOUNDS = "1..2 exogenous states or 2 exogenous nodes, endogenous grids 1..2 dimensions with 2..4 points, 1..2 controls; values, bounds, evaluation points symbolic"
OUTSIDE = "values of cubic splines between nodes (interpolation library, by contract); Smolyak rules"
G = "dolo.numeric.grids:"


def endo_grid(p, w, kind, n):
    np = w.np
    d = len(n)
    if kind == "uniform":
        a = p.reals("a", d)
        b = a + p.reals("len", d, pos=True)
        return w.get(G + "UniformCartesianGrid")(a, b, n)
    ax = []
    for k in range(d):
        x = [p.real("x%d" % k)]
        for i in range(1, n[k]):
            x.append(x[-1] + p.real("dx%d_%d" % (k, i), 0.05, 3, True))
        ax.append(np.array(x))
    return w.get(G + "NonUniformCartesianGrid")(ax)


def exo_grid(p, w, kind, n, d):
    np = w.np
    if kind == "empty":
        return w.get(G + "EmptyGrid")(), None
    if kind == "unstructured":
        return w.get(G + "UnstructuredGrid")(p.reals("m", (n, d))), None
    if kind == "nonuniform":
        y = [p.real("y0")]
        for i in range(1, n):
            y.append(y[-1] + p.real("dy%d" % i, 0.05, 3, True))
        return w.get(G + "NonUniformCartesianGrid")([np.array(y)]), None
    # Cartesian grid of a generalised discretized process
    a = p.reals("ya", 1)
    g = w.get(G + "UniformCartesianGrid")(a, a + p.reals("yl", 1, pos=True), [n])
    inodes = p.reals("yi", (n, 2, 1))
    wts = np.ones((n, 2)) / 2
    return g, w.get("dolo.numeric.processes:GDP")(g.nodes, inodes, wts, grid=g)


def nodal(p, w, exo, endo, n_m, n, n_x, method):
    np = w.np
    eg = endo_grid(p, w, endo, n)
    mg, dp = exo_grid(p, w, exo, n_m, 1)
    N = eg.n_nodes
    nm = 1 if exo == "empty" else n_m
    X = p.reals("X", (nm, N, n_x))
    ref = X.copy()
    dr = w.get("dolo.numeric.decision_rule:DecisionRule")(mg, eg, interp_method=method, dprocess=dp, values=X)
    p.eq(X, ref, "values are not modified")
    X[:] = 7.0
    s = eg.nodes
    for i in range(nm):
        r = dr.eval_is(i, s)
        p.eq(r.shape, (N, n_x), "shape of values")
        p.eq(r, ref[i], "indexed evaluation at the nodes")
        p.eq(dr(i, s), ref[i], "call with an index and several states")
        p.eq(dr(i, s[N - 1]), ref[i, N - 1], "call with an index and one state")
        if exo == "empty":
            p.eq(dr.eval_s(s), ref[0], "evaluation at the nodes")
            p.eq(dr(s), ref[0], "call with several states")
            p.eq(dr(s[1]), ref[0, 1], "call with one state")
            p.eq(dr.eval_ms(None, s), ref[0], "exogenous value is ignored")
            p.eq(dr.eval_ijs(0, 0, s), ref[0], "evaluation by pair of indices")
        elif exo == "unstructured":
            for j in range(nm):
                p.eq(dr.eval_ijs(i, j, s), ref[j], "evaluation by pair of indices: second index is the state")
        else:
            m = mg.node(i)
            mm = m[None, :].repeat(N, axis=0)
            p.eq(dr.eval_ms(mm, s), ref[i], "evaluation by exogenous value")
            p.eq(dr(mm, s), ref[i], "call with exogenous values and states")
            p.eq(dr(m, s), ref[i], "call with one exogenous value and several states")
            p.eq(dr(m, s[0]), ref[i, 0], "call with one exogenous value and one state")
            p.eq(dr(mm[:2], s[1]), ref[[i, i], 1], "call with several exogenous values and one state")
            if dp is not None:
                K = dp.n_inodes(i)
                for j in (0, K - 1):
                    mj = dp.inode(i, j)[None, :].repeat(N, axis=0)
                    p.eq(dr.eval_ijs(i, j, s), dr.eval_ms(mj, s), "evaluation by pair of indices: integration node")
    # new values
    Y = p.reals("Y", (nm, N, n_x))
    dr.set_values(Y)
    for i in range(nm):
        p.eq(dr.eval_is(i, s), Y[i], "values can be replaced")


def affine(p, w, exo, endo, n_m, n, method):
    """linear interpolation of an affine function is that function, inside the grid"""
    np = w.np
    eg = endo_grid(p, w, endo, n)
    mg, dp = exo_grid(p, w, exo, n_m, 1)
    d = len(n)
    nm = 1 if exo == "empty" else n_m
    c = p.reals("c", (nm if exo == "unstructured" else 1, d + 2))
    N = eg.n_nodes

    def f(i, m, s):
        q = c[i if exo == "unstructured" else 0]
        r = q[0] + sum(q[1 + k] * s[k] for k in range(d))
        if m is not None and exo not in ("unstructured", "empty"):
            r = r + q[d + 1] * m[0]
        return r
    X = np.zeros((nm, N, 1))
    for i in range(nm):
        for j in range(N):
            X[i, j, 0] = f(i, None if exo == "empty" else mg.node(i), eg.nodes[j])
    dr = w.get("dolo.numeric.decision_rule:DecisionRule")(mg, eg, interp_method=method, dprocess=dp, values=X)
    lo, hi = eg.nodes[0], eg.nodes[N - 1]
    lam = p.reals("lam", d, lo=0, hi=1)
    s = lo + lam * (hi - lo)
    for i in range(nm):
        m = None if exo == "empty" else mg.node(i)
        p.eq(dr.eval_is(i, s[None, :])[0, 0], f(i, m, s), "affine rule is reproduced between the nodes")
    if exo not in ("unstructured", "empty"):
        a, b = mg.node(0), mg.node(nm - 1)
        m = a + p.real("kap", 0, 1) * (b - a)
        p.eq(dr.eval_ms(m[None, :], s[None, :])[0, 0], f(0, m, s), "affine rule is reproduced between exogenous nodes")


def constant(p, w, n_x, N):
    np = w.np
    x0 = p.reals("x0", n_x)
    dr = w.get("dolo.numeric.decision_rule:ConstantDecisionRule")(x0)
    s = p.reals("s", (N, 2))
    m = p.reals("m", (N, 1))
    full = np.zeros((N, n_x)) + x0[None, :]
    p.eq(dr.eval_s(s), full, "constant rule")
    p.eq(dr.eval_is(0, s), full, "constant rule by index")
    p.eq(dr.eval_ms(m, s), full, "constant rule by exogenous value")
    p.eq(dr(s), full, "constant rule called")
    p.eq(dr(s[0]), x0, "constant rule called with one state")
    p.eq(dr(0, s), full, "constant rule called with index")
    p.eq(dr(0, s[0]), x0, "constant rule called with index and one state")
    p.eq(dr(m, s), full, "constant rule called with exogenous values")
    p.eq(dr(m[0], s[0]), x0, "constant rule called with one exogenous value and one state")


def unknown(p, w):
    eg = endo_grid(p, w, "uniform", (3,))
    mg, _ = exo_grid(p, w, "unstructured", 2, 1)
    try:
        w.get("dolo.numeric.decision_rule:DecisionRule")(mg, eg, interp_method="nearest")
    except Exception as e:
        p.check("interpolation" in str(e), "unknown interpolation types are refused")
        return
    p.check(False, "unknown interpolation types are refused")


_q = [dict(exo=e, endo=g, n_m=2, n=n, n_x=nx, method=m)
      for e, g, n, nx, m in [
          ("unstructured", "uniform", (3,), 2, "linear"), ("unstructured", "uniform", (2, 3), 1, "linear"), ("unstructured", "uniform", (2, 3), 2, "multilinear"),
          ("unstructured", "nonuniform", (2, 3), 1, "linear"), ("unstructured", "uniform", (4, 3), 2, "cubic"), ("unstructured", "uniform", (4,), 1, "cubic"),
          ("empty", "uniform", (3,), 2, "linear"), ("empty", "uniform", (2, 3), 1, "linear"), ("empty", "nonuniform", (2, 3), 1, "linear"), ("empty", "uniform", (4, 3), 1, "cubic"), ("empty", "uniform", (4,), 2, "cubic"),
          ("cartesian", "uniform", (3,), 2, "linear"), ("cartesian", "uniform", (2, 3), 1, "linear"), ("nonuniform", "nonuniform", (3,), 2, "linear")]]
_q += [dict(exo="cartesian", endo="uniform", n_m=4, n=(3,), n_x=1, method="cubic")]

HARNESSES = [
    H("nodal", nodal, _q, [dict(exo="cartesian", endo="uniform", n_m=3, n=(3, 3), n_x=2, method="linear"), dict(exo="unstructured", endo="uniform", n_m=3, n=(3, 2, 3), n_x=2, method="linear")],
      labels=("indexed evaluation",)),
    H("affine", affine, [dict(exo=e, endo=g, n_m=2, n=n, method="linear") for e, g, n in [
        ("unstructured", "uniform", (3,)), ("unstructured", "uniform", (2, 3)), ("unstructured", "nonuniform", (3,)), ("empty", "uniform", (3,)), ("empty", "nonuniform", (2, 2)), ("cartesian", "uniform", (3,)), ("nonuniform", "nonuniform", (2,))]],
      [dict(exo="cartesian", endo="uniform", n_m=2, n=(2, 3), method="linear")], labels=("affine rule",)),
    H("constant", constant, [dict(n_x=1, N=2), dict(n_x=2, N=3)]),
    H("unknown", unknown),
]
