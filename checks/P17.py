"""Residuals of the optimality conditions: the functions that build them for time iteration, improved time
iteration, value-function and steady-state computations run with arbitrary (uninterpreted) model functions,
symbolic grids, decision rules and transition probabilities.  Residuals must be the conditional expectation of
the optimality conditions over the integration nodes of the current exogenous state, with tomorrow's states
taken from the transition and tomorrow's controls from the decision rule at tomorrow's exogenous state; the
derivative operators must be the exact derivatives."""
from sxh import H
import itertools

BOUNDS = "1..3 exogenous nodes, 1..2 integration nodes, 2..4 endogenous points, 1..2 states and controls; model functions arbitrary"
OUTSIDE = "non-finite values of model functions"
TI = "dolo.algos.time_iteration:"
IT = "dolo.algos.improved_time_iteration:"
G = "dolo.numeric.grids:"


def process(p, w, kind, n):
    np = w.np
    if kind == "mc":
        P = np.zeros((n, n))
        for i in range(n):
            P[i] = p.simplex("P%d" % i, n)
        return w.get("dolo.numeric.processes:MarkovChain")(P, p.reals("m", (n, 1)))
    if kind == "iid":
        return w.get("dolo.numeric.distribution:FiniteDistribution")(p.reals("e", (n, 1)), p.simplex("w", n))
    a = p.real("ya")
    g = w.get(G + "UniformCartesianGrid")(np.array([a]), np.array([a + p.real("yl", pos=True)]), [n])
    W = np.zeros((n, 2))
    for i in range(n):
        W[i] = p.simplex("w%d" % i, 2)
    inodes = np.zeros((n, 2, 1))
    for i in range(n):
        for j in range(2):
            # inside the grid
            inodes[i, j, 0] = g.nodes[0, 0] + p.real("t%d%d" % (i, j), 0, 1) * (g.nodes[n - 1, 0] - g.nodes[0, 0])
    return w.get("dolo.numeric.processes:GDP")(g.nodes, inodes, W, grid=g)


def rowwise(p, np, name, nargs, n_out):
    """arbitrary function of the rows of its arguments"""
    F = [p.ufun("%s%d" % (name, k), nargs) for k in range(n_out)]

    def f(*args, diff=False):
        args = args[:-1]  # parameters
        assert not diff
        arrs = [np.asarray(a) for a in args]
        N = max([a.shape[0] for a in arrs if a.ndim == 2] or [0])
        out = np.zeros((max(N, 1), n_out))
        for k in range(max(N, 1)):
            z = []
            for a in arrs:
                z += list(a[k if a.shape[0] > 1 else 0]) if a.ndim == 2 else list(a)
            for q in range(n_out):
                out[k, q] = F[q](*z)
        return out if N else out[0]
    return f


def setup(p, w, kind, n_m, n_s, n_x, pts):
    np = w.np
    dp = process(p, w, kind, n_m)
    lo = p.reals("lo", n_s)
    eg = w.get(G + "UniformCartesianGrid")(lo, lo + p.reals("ln", n_s, pos=True), [pts] * n_s)
    N = eg.n_nodes
    nm = max(dp.n_nodes, 1)
    X = p.reals("X", (nm, N, n_x))
    dr = w.get("dolo.numeric.decision_rule:DecisionRule")(dp.grid, eg, interp_method="linear", dprocess=dp, values=X)
    return np, dp, eg, N, nm, X, dr


def inside(p, np, eg, S):
    for k in range(S.shape[0]):
        for j in range(S.shape[1]):
            p.assume((S[k, j] >= eg.nodes[0, j]) & (S[k, j] <= eg.nodes[-1, j]))


def expected(np, dp, dr, kind, f, g, s, x, i, k, parms):
    tot = 0
    for j in range(dp.n_inodes(i)):
        m, M = dp.node(i), dp.inode(i, j)
        S = g(m, s[k], x[i, k], M, parms)
        if kind == "mc":
            XM = dr.eval_is(j, S[None, :])[0]
        elif kind == "iid":
            XM = dr.eval_s(S[None, :])[0]
        else:
            XM = dr.eval_ms(M[None, :], S[None, :])[0]
        tot = tot + dp.iweight(i, j) * f(m, s[k], x[i, k], M, S, XM, parms)
    return tot


def simple(p, w, kind, n_m, n_s, n_x, pts, which):
    np, dp, eg, N, nm, X, dr = setup(p, w, kind, n_m, n_s, n_x, pts)
    parms = np.array([1.0])
    # without exogenous nodes the current exogenous state is not defined: the functions see its stated placeholder
    f = rowwise(p, np, "f", 2 * (1 + n_s + n_x), n_x)
    # tomorrow's states: arbitrary function with values in the grid
    G0 = [p.ufun("g%d" % q, 1 + n_s + n_x + 1, eg.nodes[0, q], eg.nodes[-1, q]) for q in range(n_s)]
    seen = []

    def g(m, s, x, M, pr, diff=False):
        m, s, x, M = [np.asarray(v) for v in (m, s, x, M)]
        one = s.ndim == 1
        rows = [tuple(list(v if v.ndim == 1 else v[k if v.shape[0] > 1 else 0]) for v in (m, s, x, M)) for k in range(1 if one else s.shape[0])]
        out = np.zeros((len(rows), n_s))
        for k, (a, b, c, d) in enumerate(rows):
            for q in range(n_s):
                v = G0[q](*(a + b + c + d))
                out[k, q] = v
        return out[0] if one else out
    s = eg.nodes
    x = p.reals("x", (nm, N, n_x))
    if which == "ti":
        R = w.get(TI + "residuals_simple")(f, g, s, x, dr, dp, parms)
        cur = dr
    else:
        R = w.get(IT + "euler_residuals")(f, g, s, x, dr, dp, parms, diff=False, set_dr=(which == "iti_set"))
    p.eq(R.shape, x.shape, "shape")
    if which == "iti_set":
        for i in range(nm):
            p.eq(dr.eval_is(i, s), x[i], "decision rule takes the new values")
    for i in range(nm):
        for k in range(N):
            p.eq(R[i, k], expected(np, dp, dr, kind, f, g, s, x, i, k, parms), "conditional expectation of the optimality conditions")


def jac(p, w, kind, n_m, n_s, n_x, pts):
    """affine model: derivative of the residuals with respect to future controls, futures states"""
    np, dp, eg, N, nm, X, dr = setup(p, w, kind, n_m, n_s, n_x, pts)
    parms = np.array([1.0])
    Fx = p.reals("Fx", (n_x, n_x), lo=-3, hi=3)
    FX = p.reals("FX", (n_x, n_x), lo=-3, hi=3)
    Fm = p.reals("Fm", (n_x, 2), lo=-3, hi=3)

    def f(m, s, x, M, S, X, pr, diff=False):
        m, M = [np.asarray(v) for v in (m, M)]
        out = np.zeros((s.shape[0], n_x))
        for k in range(s.shape[0]):
            mk = m if m.ndim == 1 else m[k]
            Mk = M if M.ndim == 1 else M[k]
            out[k] = Fx @ x[k] + FX @ X[k] + Fm[:, 0] * mk[0] + Fm[:, 1] * Mk[0]
        return out
    sig = p.reals("sg", n_s, lo=0, hi=1)

    def g(m, s, x, M, pr, diff=False):
        # a point inside the grid
        return eg.nodes[0] + sig * (eg.nodes[-1] - eg.nodes[0]) + 0 * s
    s = eg.nodes
    R, J, S = w.get(IT + "euler_residuals")(f, g, s, X, dr, dp, parms, diff=False, with_jres=True, set_dr=False)
    n_i = dp.n_inodes(0)
    p.eq(J.shape, (nm, n_i, N, n_x, n_x), "shape of derivatives")
    R2 = w.get(IT + "euler_residuals")(f, g, s, X, dr, dp, parms, diff=False, set_dr=False)
    p.eq(R, R2, "same residuals with and without derivatives")
    for i in range(nm):
        for j in range(n_i):
            for k in range(N):
                p.eq(S[i, j, k], eg.nodes[0] + sig * (eg.nodes[-1] - eg.nodes[0]), "future states")
                p.le(abs(J[i, j, k] - dp.iweight(i, j) * FX), 1e-4, "derivative with respect to future controls")


def operator(p, w, kind, n_m, n_s, n_x, pts):
    """d_filt_dx / Operator: pi -> sum_j M_ij pi(future state)"""
    np, dp, eg, N, nm, X, dr = setup(p, w, kind, n_m, n_s, n_x, pts)
    n_i = dp.n_inodes(0)
    M = p.reals("M", (nm, n_i, N, n_x, n_x))
    lam = p.reals("lam", (nm, n_i, N, n_s), lo=0, hi=1)
    S = eg.nodes[0] + lam * (eg.nodes[-1] - eg.nodes[0])
    pi = p.reals("pi", (nm, N, n_x))
    dum = w.get("dolo.numeric.decision_rule:DecisionRule")(dp.grid, eg, interp_method="linear", dprocess=dp)
    ref = w.get("dolo.numeric.decision_rule:DecisionRule")(dp.grid, eg, interp_method="linear", dprocess=dp, values=pi)
    ex = np.zeros((nm, N, n_x))
    for i in range(nm):
        for j in range(n_i):
            for k in range(N):
                ex[i, k] = ex[i, k] + M[i, j, k] @ ref.eval_ijs(i, j, S[i, j, k][None, :])[0]
    L = w.get(IT + "Operator")(M, S, dum)
    p0 = pi.copy()
    p.eq(L.shape, (nm * N * n_x,) * 2, "shape of the operator")
    p.eq(L.apply(pi), ex, "operator: expectation of the rule times the derivatives")
    p.eq(pi, p0, "argument unchanged")
    p.eq(L._matvec(pi.ravel()), ex.ravel(), "product with a vector")
    L.addid = True
    p.eq(L._matvec(pi.ravel()), (p0 - ex).ravel(), "identity minus the operator")
    A = L.as_matrix()
    p.eq(A @ p0.ravel(), ex.ravel(), "matrix of the operator")
    r = w.get(IT + "d_filt_dx")(pi, M, S, nm, N, n_x, dum)
    p.eq(r, ex, "in-place operator")
    p.eq(pi, ex, "in-place operator modifies its argument")


def neumann(p, w, n_x, n_it):
    """invert_jac: partial sums of the Neumann series"""
    np, dp, eg, N, nm, X, dr = setup(p, w, "iid", 1, 1, n_x, 2)
    M = p.reals("M", (1, 1, N, n_x, n_x))
    lam = p.reals("lam", (1, 1, N, 1), lo=0, hi=1)
    S = eg.nodes[0] + lam * (eg.nodes[-1] - eg.nodes[0])
    res = p.reals("r", (1, N, n_x))
    D = p.reals("D", (1, N, n_x, n_x))
    for k in range(N):
        d = D[0, k]
        dd = d[0, 0] if n_x == 1 else d[0, 0] * d[1, 1] - d[0, 1] * d[1, 0]
        p.assume((dd > 0.1) | (dd < -0.1))
    # no residual is zero
    for k in range(N):
        for q in range(n_x):
            p.assume(res[0, k, q] > 0.1)
    dum = w.get("dolo.numeric.decision_rule:DecisionRule")(dp.grid, eg, interp_method="linear", dprocess=dp)
    L = w.get(IT + "Operator")(M, S, dum)
    tot, nn, lam_ = w.get(IT + "invert_jac")(res, D, M, S, dum, tol=float("-inf"), maxit=n_it)
    y = tot
    # tot = sum_k L^k D^-1 res  <=>  tot - L^{n+1} D^-1 res = D^-1 res + L (tot - L^{n} ..)
    t = np.zeros((1, N, n_x))
    for k in range(N):
        d = D[0, k]
        if n_x == 1:
            t[0, k, 0] = res[0, k, 0] / d[0, 0]
        else:
            dd = d[0, 0] * d[1, 1] - d[0, 1] * d[1, 0]
            t[0, k, 0] = (d[1, 1] * res[0, k, 0] - d[0, 1] * res[0, k, 1]) / dd
            t[0, k, 1] = (d[0, 0] * res[0, k, 1] - d[1, 0] * res[0, k, 0]) / dd
    acc = t.copy()
    for q in range(n_it):
        t = L.apply(t)
        acc = acc + t
    p.eq(tot, acc, "partial sums of the series")


def steady(p, w, n_s, n_x):
    np = w.np
    f = rowwise(p, np, "f", 2 * (1 + n_s + n_x), n_x)
    g = rowwise(p, np, "g", 2 + n_s + n_x, n_s)
    m, s, x = p.reals("m", 1), p.reals("s", n_s), p.reals("x", n_x)
    par = np.array([1.0])

    class Mod:
        pass
    mod = Mod()
    mod.functions = dict(arbitrage=f, transition=g)
    mod.calibration = dict(exogenous=m, states=s, controls=x, parameters=par)
    for cal in (None, dict(exogenous=2 * m, states=s + 1, controls=3 * x, parameters=par)):
        c = cal or mod.calibration
        R = w.get("dolo.algos.steady_state:residuals")(mod, cal) if cal else w.get("dolo.algos.steady_state:residuals")(mod)
        M = w.get("dolo.compiler.model:Model")
        R2 = M.residuals(mod, cal) if cal else M.residuals(mod)
        p.eq(R2["transition"], R["transition"], "residuals as a method of the model")
        p.eq(R2["arbitrage"], R["arbitrage"], "residuals as a method of the model")
        a, b, d = c["exogenous"], c["states"], c["controls"]
        p.eq(R["transition"], g(a, b, d, a, par) - b, "states reproduce themselves")
        p.eq(R["arbitrage"], f(a, b, d, a, b, d, par), "optimality conditions at constant values")


_k = [dict(kind="mc", n_m=2, n_s=1, n_x=2, pts=2), dict(kind="iid", n_m=2, n_s=1, n_x=1, pts=3), dict(kind="gdp", n_m=2, n_s=1, n_x=1, pts=2)]
HARNESSES = [
    H("residuals", simple, [dict(which=v, **k) for k in _k for v in ("ti", "iti", "iti_set")],
      [dict(which=v, kind="mc", n_m=3, n_s=2, n_x=1, pts=2) for v in ("ti", "iti")], labels=("conditional expectation",)),
    H("jacobian", jac, [dict(k, pts=2) for k in _k], labels=("derivative with respect to future controls",)),
    H("operator", operator, [dict(k, pts=2) for k in _k], labels=("operator",)),
    H("series", neumann, [dict(n_x=1, n_it=2), dict(n_x=2, n_it=1)]),
    H("steady", steady, [dict(n_s=1, n_x=2), dict(n_s=2, n_x=1)]),
]
