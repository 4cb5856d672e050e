"""Global solution algorithms: `time_iteration`, `improved_time_iteration` and `egm` are executed for a bounded number
of iterations on models with symbolic coefficients.  The nonlinear solvers are replaced by their contract (an arbitrary
solution of the system they are given; P15 and P16 check the solvers against it).  Each iterate must solve the
complementarity problem given the previous rule, bounds must be those of the same exogenous state and grid point,
and the reported convergence must be that of the returned rule."""
from sxh import H
import sys, os, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from P16 import mcp

BOUNDS = "2 exogenous nodes, 2..3 endogenous points, 1..2 controls, at most 2 iterations; affine models with symbolic coefficients"
OUTSIDE = "whether iterations converge, in how many steps; cubic interpolation between nodes"
G = "dolo.numeric.grids:"
TI = "dolo.algos.time_iteration:"
IT = "dolo.algos.improved_time_iteration:"


class Obj:
    pass


def process(p, w, kind, free=True):
    np = w.np
    row = lambda n: p.simplex(n, 2) if free else np.array([0.375, 0.625] if n[-1] != "1" else [0.75, 0.25])
    if kind == "mc":
        P = np.zeros((2, 2))
        for i in range(2):
            P[i] = row("P%d" % i)
        return w.get("dolo.numeric.processes:MarkovChain")(P, np.array([[0.75], [1.5]]))
    if kind == "iid":
        return w.get("dolo.numeric.distribution:FiniteDistribution")(np.array([[-0.5], [1.25]]), row("w"))
    g = w.get(G + "UniformCartesianGrid")(np.array([-1.0]), np.array([1.0]), [2])
    W = np.zeros((2, 2))
    for i in range(2):
        W[i] = row("w%d" % i)
    return w.get("dolo.numeric.processes:GDP")(g.nodes, np.array([[[-0.75], [0.5]], [[-0.25], [1.0]]]), W, grid=g)


def model(p, w, kind, n_x, pts, bounds, weights=True):
    np = w.np
    dp = process(p, w, kind, weights)
    eg = w.get(G + "UniformCartesianGrid")(np.array([0.5]), np.array([2.5]), [pts])
    A = np.array([1.5, 0.75])
    C = np.array([[0.25, -0.125], [0.0625, 0.375]])
    c = np.array([[0.5, -1.0, 0.25, 0.75, -0.5, 1.0], [-0.25, 0.5, 1.0, -0.75, 0.5, 0.25]])
    sig = [0.25, 0.5]
    parms = np.array([p.real("par", -1, 1), 0.5])

    def rows(*a):
        a = [np.asarray(v) for v in a]
        N = max([v.shape[0] for v in a if v.ndim == 2])
        return N, [[v[k if v.shape[0] > 1 else 0] if v.ndim == 2 else v for v in a] for k in range(N)]

    def f(m, s, x, M, S, X, pr, diff=False):
        N, R = rows(m, s, x, M, S, X)
        out = np.zeros((N, n_x))
        for k in range(N):
            m_, s_, x_, M_, S_, X_ = R[k]
            for q in range(n_x):
                out[k, q] = A[q] * x_[q] + sum(C[q, r] * X_[r] for r in range(n_x)) + c[q, 0] + c[q, 1] * m_[0] + c[q, 2] * s_[0] + c[q, 3] * M_[0] + c[q, 4] * S_[0] + c[q, 5] * parms[0]
        return out

    def g(m, s, x, M, pr, diff=False):
        N, R = rows(m, s, x, M)
        a, b = eg.nodes[0, 0], eg.nodes[-1, 0]
        out = np.zeros((N, 1))
        for k in range(N):
            # moves part of the way to one end
            s_ = R[k][1][0]
            out[k, 0] = s_ + sig[0] * (b - s_) if kind == "iid" else a + sig[0] * (b - a)
        return out
    B = p.reals("B", n_x, lo=-1, hi=1)
    wid = p.reals("wid", n_x, lo=0.1, hi=2)

    def lb(m, s, pr):
        N, R = rows(m, s)
        out = np.zeros((N, n_x))
        for k in range(N):
            for q in range(n_x):
                out[k, q] = B[q] + 0.5 * R[k][0][0] - 0.25 * R[k][1][0] + 0.125 * (np.asarray(pr)[k if np.asarray(pr).shape[0] > 1 else 0][1] if np.asarray(pr).ndim == 2 else pr[1])
        return out

    def ub(m, s, pr):
        return lb(m, s, pr) + wid
    x0 = np.array([0.5, -0.25][:n_x]) if weights else p.reals("xc", n_x, lo=-1, hi=1)
    mo = Obj()
    mo.functions = dict(arbitrage=f, transition=g)
    if bounds:
        mo.functions.update(arbitrage_lb=lb, arbitrage_ub=ub)
    mo.calibration = dict(controls=x0, parameters=parms, states=eg.nodes[0], exogenous=dp.node(0))
    mo.symbols = dict(states=["s"], controls=["x%d" % k for k in range(n_x)], exogenous=["m"], parameters=["par"])
    grid = w.get(G + "ProductGrid")(dp.grid, eg, names=["exo", "endo"])
    mo.discretize = lambda *a, **k: [grid, dp]
    return mo, dp, eg, f, g, lb, ub


class stubs:
    """the solvers, by contract"""

    def __init__(self, p, w):
        self.p, self.w = p, w
        self.calls = []

    def __enter__(self):
        p, w, np = self.p, self.w, self.w.np
        self.saved = []
        if p.mode != "sym":
            return self
        k = [0]

        def fresh(x):
            k[0] += 1
            return p.reals("sol%d" % k[0], np.asarray(x).shape)

        def newton(f, x, *a, **kw):
            y = fresh(x)
            v = f(y)[0]
            for e in np.asarray(v).ravel():
                p.assume(e == 0)
            self.calls.append("newton")
            return [y, 1]

        def ncpsolve(f, a, b, x, *r, **kw):
            y = fresh(x)
            v = np.asarray(f(y)[0])
            a, b = np.asarray(a), np.asarray(b)
            for e, q, l, u in zip(v.ravel(), y.ravel(), a.ravel(), b.ravel()):
                p.assume(mcp(np, e, q, l, u, "both") == 0)
            self.calls.append("ncpsolve")
            return [y, 1]
        for mod, name, fn in (("dolo.numeric.optimize.newton", "newton", newton), ("dolo.numeric.optimize.ncpsolve", "ncpsolve", ncpsolve)):
            m = w.mod(mod)
            self.saved.append((m, name, getattr(m, name)))
            setattr(m, name, fn)
        return self

    def __exit__(self, *a):
        for m, n, v in self.saved:
            setattr(m, n, v)


def expect(np, dp, kind, f, g, prev, x, i, s, parms):
    tot = 0
    for j in range(dp.n_inodes(i)):
        m, M = dp.node(i), dp.inode(i, j)
        S = g(m, s[None, :], x[None, :], M, parms)
        X = prev.eval_is(j, S) if kind == "mc" else prev.eval_s(S) if kind == "iid" else prev.eval_ms(M[None, :], S)
        tot = tot + dp.iweight(i, j) * f(m, s[None, :], x[None, :], M, S, X, parms)[0]
    return tot


def ti(p, w, kind, n_x, pts, bounds, maxit, guess=None, ignore=False, weights=True):
    np = w.np
    mo, dp, eg, f, g, lb, ub = model(p, w, kind, n_x, pts, bounds, weights and not guess and maxit == 1)
    parms = mo.calibration["parameters"]
    s = eg.nodes
    N, nm = s.shape[0], dp.n_nodes
    X0 = np.zeros((nm, N, n_x)) + mo.calibration["controls"]
    dr0 = None
    if guess:
        X0 = p.reals("X0", (nm, N, n_x), lo=-2, hi=2)
        dr0 = w.get("dolo.numeric.decision_rule:DecisionRule")(dp.grid, eg, interp_method="linear", dprocess=dp, values=X0)
        if guess == "result":
            r = w.get("dolo.algos.results:AlgoResult")()
            r.dr = dr0
            dr0 = r
        elif guess == "function":
            rule = dr0

            def dr0(m, s):
                if not hasattr(m, "shape"):
                    raise TypeError("needs values")
                for i in range(nm):
                    if all(bool(a == b) for a, b in zip(m, dp.node(i))):
                        return rule.eval_is(i, s)
    tol = p.real("tol", 1e-8, 5)
    with stubs(p, w) as st, warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        sol = w.get(TI + "time_iteration")(mo, dr0=dr0, verbose=False, trace=True, maxit=maxit, inner_maxit=60, tol=tol, interp_method="linear", ignore_constraints=ignore)
    if any("onverge" in str(e.message) for e in ws):
        p.assume(p.mode == "sym")
    active = bounds and not ignore
    tr = [t["dr"] for t in sol.trace]
    p.eq(len(tr), sol.iterations + 1, "one rule by iteration")
    p.check(1 <= sol.iterations <= maxit, "iteration limit")
    vals = [np.array([[r.eval_is(i, s)[k] for k in range(N)] for i in range(nm)]) for r in tr]
    p.eq(vals[0], X0, "starts from the guess")
    last = [sol.dr.eval_is(i, s) for i in range(nm)]
    p.eq(np.array(last), vals[-1], "returned rule is the last iterate")
    tl = 1e-5 if p.mode == "conc" else 0
    errs = []
    for n in range(1, len(tr)):
        errs.append(abs(vals[n] - vals[n - 1]).max())
        for i in range(nm):
            for k in range(N):
                R = expect(np, dp, kind, f, g, tr[n - 1], vals[n][i, k], i, s[k], parms)
                x = vals[n][i, k]
                if not active:
                    p.eq(R, R * 0, "iterate solves the optimality conditions given the previous rule", tol=tl)
                else:
                    l, u = lb(dp.node(i), s[k][None, :], parms)[0], ub(dp.node(i), s[k][None, :], parms)[0]
                    for q in range(n_x):
                        p.eq(mcp(np, R[q], x[q], l[q], u[q], "both"), 0, "iterate solves the complementarity problem given the previous rule", tol=tl)
                        p.le(l[q], x[q] + tl, "lower bound holds")
                        p.le(x[q], u[q] + tl, "upper bound holds")
    p.eq(sol.err, errs[-1], "reported error is the last change of the rule")
    p.check(bool(sol.x_converged) == bool(errs[-1] < tol), "convergence reported exactly when the change is below the tolerance")
    for e in errs[:-1]:
        p.check(e > tol, "continues while the change is above the tolerance")
    if sol.iterations < maxit:
        p.check(errs[-1] <= tol, "stops early only when converged")
    p.check(sol.dprocess is dp, "process reported")
    p.eq(sol.complementarities, active, "constraints reported")


def resid(p, w, mo, dp, eg, kind, fs, rule, X, bounds):
    """what the reported error measures: residuals, with bounds through u + v - sqrt(u^2 + v^2)"""
    np = w.np
    f, g, lb, ub = fs
    parms = mo.calibration["parameters"]
    s = eg.nodes
    R = np.zeros(X.shape)
    for i in range(X.shape[0]):
        for k in range(X.shape[1]):
            r = expect(np, dp, kind, f, g, rule, X[i, k], i, s[k], parms)
            l, u = lb(dp.node(i), s[k][None, :], parms)[0], ub(dp.node(i), s[k][None, :], parms)[0]
            for q in range(X.shape[2]):
                v = r[q]
                if bounds:
                    a = X[i, k, q] - l[q]
                    v = v + a - np.sqrt(v * v + a * a)
                    d = u[q] - X[i, k, q]
                    v = -(-v + d - np.sqrt(v * v + d * d))
                R[i, k, q] = v
    return R


def iti(p, w, kind, n_x, pts, bounds, maxit=1, ignore=False):
    np = w.np
    mo, dp, eg, f, g, lb, ub = model(p, w, kind, n_x, pts, True, False)
    fs = (f, g, lb, ub)
    if not bounds:
        far = lambda fn, sgn: (lambda *a: fn(*a) * 0 + sgn * float("inf"))
        mo.functions.update(arbitrage_lb=far(lb, -1), arbitrage_ub=far(ub, 1))
    active = bounds and not ignore
    s = eg.nodes
    N, nm = s.shape[0], dp.n_nodes
    X0 = p.reals("X0", (nm, N, n_x), lo=-2, hi=2)
    dr0 = w.get("dolo.numeric.decision_rule:DecisionRule")(dp.grid, eg, interp_method="linear", dprocess=dp, values=X0)
    tol = p.real("tol", 1e-4, 1)
    sol = w.get(IT + "improved_time_iteration")(mo, dr0=dr0, verbose=False, maxit=maxit, smaxit=1, maxbsteps=2, tol=tol, interp_method="linear", ignore_constraints=ignore)
    last = np.array([sol.dr.eval_is(i, s) for i in range(nm)])
    r1 = abs(resid(p, w, mo, dp, eg, kind, fs, sol.dr, last, active)).max()
    if bool(sol.x_converged):
        p.lt(r1, tol, "reported convergence means small residuals of the returned rule")
        p.eq(last, X0, "a solution is returned unchanged")
    r0 = abs(resid(p, w, mo, dp, eg, kind, fs, dr0, X0, active)).max()
    p.check(bool(sol.x_converged) == bool(r0 < tol), "converges at once exactly when the guess is a solution")
    p.eq(sol.f_x, r0, "reported residual")


def search(p, w, kind, nb, n_x=1, pts=2):
    """the safeguard: along the direction found, the largest of the steps 1, 1/2, 1/4... that reduces the residuals of
    the rule is taken (the smallest one when none does)"""
    np = w.np
    mo, dp, eg, f, g, lb, ub = model(p, w, kind, n_x, pts, True, kind == "iid")
    fs = (f, g, lb, ub)
    s = eg.nodes
    N, nm = s.shape[0], dp.n_nodes
    X0 = p.reals("X0", (nm, N, n_x), lo=-2, hi=2)
    T = p.reals("T", (nm, N, n_x), lo=-2, hi=2)
    DR = w.get("dolo.numeric.decision_rule:DecisionRule")
    rule = lambda X: DR(dp.grid, eg, interp_method="linear", dprocess=dp, values=X)
    m = w.mod(IT[:-1])
    if getattr(m, "invert_jac", None) is None or getattr(m, "solve_tensor", None) is None:
        return
    saved = [(n, getattr(m, n)) for n in ("solve_tensor", "invert_jac")]
    used = []

    def invert_jac(*a, **kw):
        used.append(1)
        return T.copy(), 1, 0.5
    m.invert_jac, m.solve_tensor = invert_jac, lambda A, B: None
    try:
        sol = w.get(IT + "improved_time_iteration")(mo, dr0=rule(X0), verbose=False, maxit=1, smaxit=1, maxbsteps=nb, tol=1e-8, interp_method="linear", ignore_constraints=True)
    finally:
        for n, v in saved:
            setattr(m, n, v)
    if not used or bool(sol.x_converged):
        return
    X1 = np.array([sol.dr.eval_is(i, s) for i in range(nm)])
    err = lambda X: abs(resid(p, w, mo, dp, eg, kind, fs, rule(X), X, False)).max()
    e0 = err(X0)
    for b in range(nb):
        Xb = X0 - T * 0.5 ** b
        if b == nb - 1 or bool(err(Xb) < e0):
            p.eq(X1, Xb, "largest step that reduces the residuals")
            break
    p.eq(sol.f_x, e0, "reported residual")


def system(p, w, kind, n_x, bounds):
    """the linearised system that each improved step solves"""
    np = w.np
    mo, dp, eg, f, g, lb, ub = model(p, w, kind, n_x, 2, True, False)
    fs = (f, g, lb, ub)
    s = eg.nodes
    N, nm, ni = s.shape[0], dp.n_nodes, dp.n_inodes(0)
    X0 = p.reals("X0", (nm, N, n_x), lo=-2, hi=2)
    dr0 = w.get("dolo.numeric.decision_rule:DecisionRule")(dp.grid, eg, interp_method="linear", dprocess=dp, values=X0)
    parms = mo.calibration["parameters"]
    if bounds:
        # away from kinks
        for i in range(nm):
            for k in range(N):
                l, u = lb(dp.node(i), s[k][None, :], parms)[0], ub(dp.node(i), s[k][None, :], parms)[0]
                for q in range(n_x):
                    p.assume((X0[i, k, q] > l[q] + 0.1) | (X0[i, k, q] < l[q] - 0.1))
                    p.assume((X0[i, k, q] > u[q] + 0.1) | (X0[i, k, q] < u[q] - 0.1))
    m = w.mod(IT[:-1])
    got = {}
    saved = [(n, getattr(m, n, None)) for n in ("invert_jac",) + (("solve_tensor",) if bounds else ())]
    left = []

    def solve_tensor(A, B):
        left.append(1)

    class Done(Exception):
        pass

    def invert_jac(res, dres, jres, fut_S, *a, **kw):
        got.update(res=res.copy(), dres=dres.copy(), jres=jres.copy(), S=fut_S.copy())
        raise Done()
    if any(v is None for n, v in saved):
        return
    m.invert_jac = invert_jac
    if bounds:
        # left undone: the quotients are too hard; without bounds they are made
        m.solve_tensor = solve_tensor
    try:
        w.get(IT + "improved_time_iteration")(mo, dr0=dr0, verbose=False, maxit=1, smaxit=1, maxbsteps=1, interp_method="linear", ignore_constraints=not bounds)
    except Done:
        pass
    finally:
        for n, v in saved:
            setattr(m, n, v)
    if not got:
        return
    R0 = resid(p, w, mo, dp, eg, kind, fs, dr0, X0, bounds)
    F0 = resid(p, w, mo, dp, eg, kind, fs, dr0, X0, False)
    p.eq(got["res"], R0, "residuals of the system")
    A = np.array([1.5, 0.75])[:n_x]
    C = np.array([[0.25, -0.125], [0.0625, 0.375]])
    for i in range(nm):
        for k in range(N):
            l, u = lb(dp.node(i), s[k][None, :], parms)[0], ub(dp.node(i), s[k][None, :], parms)[0]
            for q in range(n_x):
                for r in range(n_x):
                    # derivatives with respect to future controls come multiplied by the inverse of the others
                    back = [sum(got["dres"][i, k, q, h] * got["jres"][i, j, k, h, r] for h in range(n_x)) if not left else got["jres"][i, j, k, q, r] for j in range(ni)]
                    e = 1 if q == r else 0
                    D = [A[q] * e] + [dp.iweight(i, j) * C[q, r] for j in range(ni)]
                    if bounds:
                        a, d = X0[i, k, q] - l[q], u[q] - X0[i, k, q]
                        v = F0[i, k, q]
                        s1 = np.sqrt(v * v + a * a)
                        v1 = v + a - s1
                        s2 = np.sqrt(v1 * v1 + d * d)
                        D = [(1 - v / s1) * t + (1 - a / s1) * (e if n == 0 else 0) for n, t in enumerate(D)]
                        # second transformation of -v1, then minus
                        D = [(1 + v1 / s2) * t + (1 - d / s2) * (e if n == 0 else 0) for n, t in enumerate(D)]
                    p.eq(got["dres"][i, k, q, r], D[0], "derivatives with respect to controls", tol=1e-4)
                    for j in range(ni):
                        p.eq(back[j], -D[1 + j], "derivatives with respect to future controls", tol=1e-4)


def egm(p, w, iid, maxit):
    np = w.np
    kind = "iid" if iid else "mc"
    dp = process(p, w, kind, iid or maxit == 1)
    eg = w.get(G + "UniformCartesianGrid")(np.array([0.5]), np.array([2.5]), [4])
    parms = np.array([p.real("par", -1, 1), 0.5])
    hh = [0.5, -0.25, 0.75, 0.5]
    tt = [0.25, 0.5, 0.375, 0.25]
    gg = [0.5, 0.25, 0.5, -0.25]
    rr = [0.25, 0.0]
    bb = np.array([p.real("b0", -0.5, 0.75), p.real("b1", 0, 1)])

    def mv(m):
        m = np.asarray(m)
        return m[..., 0:1] if m.ndim == 2 else m[0]
    h = lambda M, S, X, pr: hh[0] + hh[1] * mv(M) + hh[2] * S + hh[3] * X
    gt = lambda m, a, M, pr: gg[0] + gg[1] * mv(m) + gg[2] * a + gg[3] * mv(M)
    tau = lambda m, a, z, pr: tt[0] + tt[1] * mv(m) + tt[2] * a + tt[3] * z
    at = lambda m, a, x, pr: rr[0] * mv(m) + 3 * a + x
    lb = lambda m, s, pr: s * 0 + bb[0]
    ub = lambda m, s, pr: s * bb[1] + 1
    mo = Obj()
    mo.__original_gufunctions__ = dict(expectation=h, half_transition=gt, direct_response_egm=tau, reverse_state=at, arbitrage_lb=lb, arbitrage_ub=ub)
    x0 = p.reals("xc", 1, lo=-1, hi=1)
    mo.calibration = dict(controls=x0, parameters=parms)
    mo.symbols = dict(states=["s"], controls=["x"], exogenous=["m"], parameters=["par"], expectations=["z"])
    mo.exogenous = w.get("dolo.numeric.distribution:UNormal")(μ=0.0, σ=1.0) if iid else dp
    grid = dict(exo=dp.grid, endo=eg)
    mo.discretize = lambda *a, **k: [grid, dp]
    A = np.array([0.0, 1.5])
    nm = dp.n_nodes
    n_i = dp.n_inodes(0)
    f0 = lambda i, s: np.zeros((s.shape[0], 1)) + x0
    rule = f0
    states = None
    for it in range(maxit):
        xa, sa = np.zeros((nm, 2)), np.zeros((nm, 2))
        for i in range(nm):
            for q in range(2):
                z = 0
                for j in range(n_i):
                    S = gt(dp.node(i), A[q:q + 1], dp.inode(i, j), parms)
                    z = z + dp.iweight(i, j) * h(dp.inode(i, j), S, rule(j, S[None, :])[0], parms)
                xa[i, q] = tau(dp.node(i), A[q:q + 1], z, parms)[0]
                sa[i, q] = at(dp.node(i), A[q:q + 1], xa[i, q:q + 1], parms)[0]
            # larger post-states come from larger states
            p.assume(sa[i, 1] - sa[i, 0] > 0.05)
        if it == maxit - 1 and maxit == 1:
            break

        def rule(i, s, xa=xa, sa=sa):
            i = 0 if iid else i
            t = (s[:, 0:1] - sa[i, 0]) / (sa[i, 1] - sa[i, 0])
            x = (1 - t) * xa[i, 0] + t * xa[i, 1]
            return np.maximum(np.minimum(x, ub(dp.node(i), s, parms)), lb(dp.node(i), s, parms))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sol = w.get("dolo.algos.egm:egm")(mo, a_grid=A, maxit=maxit, verbose=False)
    p.check(not bool(sol.a_converged), "no convergence reported after the first steps")
    s = eg.nodes
    for i in range(nm):
        p.eq(sol.dr.eval_is(i, s), rule(i, s), "rule built from the endogenous grid, within its bounds")


HARNESSES = [
    H("time_iteration", ti, [dict(kind="mc", n_x=2, pts=2, bounds=False, maxit=1), dict(kind="mc", n_x=1, pts=2, bounds=True, maxit=1, weights=False), dict(kind="iid", n_x=1, pts=2, bounds=True, maxit=1),
                             dict(kind="gdp", n_x=1, pts=2, bounds=False, maxit=1), dict(kind="mc", n_x=1, pts=2, bounds=True, maxit=1, ignore=True, guess="rule"),
                             dict(kind="mc", n_x=1, pts=2, bounds=False, maxit=1, guess="result"), dict(kind="mc", n_x=1, pts=2, bounds=False, maxit=1, guess="function"),
                             dict(kind="iid", n_x=1, pts=2, bounds=False, maxit=2)], labels=("iterate solves",)),
    H("improved", iti, [dict(kind="iid", n_x=1, pts=2, bounds=False), dict(kind="mc", n_x=1, pts=2, bounds=False)], labels=("converges at once",)),
    H("system", system, [dict(kind="iid", n_x=1, bounds=False), dict(kind="iid", n_x=1, bounds=True), dict(kind="mc", n_x=2, bounds=False)], labels=("derivatives with respect to future",)),
    H("search", search, [dict(kind="iid", nb=3), dict(kind="mc", nb=2)], [dict(kind="mc", nb=4)], labels=("largest step",)),
    H("egm", egm, [dict(iid=False, maxit=1), dict(iid=False, maxit=2), dict(iid=True, maxit=2)], labels=("rule built",)),
]
