"""Value functions: the real `update_value`, `choice_value`, `evaluate_policy` and `value_iteration` are executed with
arbitrary (uninterpreted) felicities and transitions, symbolic transition laws, rules and values.  The optimizer is
replaced by its contract (an arbitrary answer), what it is asked to minimize is compared with the Bellman operator."""
from sxh import H
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from P19 import affine, names, Obj, CG

BOUNDS = "1..3 exogenous states, 2..3 grid points, 1..2 states, controls and values, at most 3 policy evaluation steps and 3 value iterations"
OUTSIDE = "the optimizer (scipy), convergence of the iterations; interpolation of values is P13"
V = "dolo.algos.value_iteration:"


class Rule:
    """arbitrary function of the exogenous state and the endogenous states; records which one is used"""

    def __init__(self, p, w, name, n_i, n_s, n_o):
        self.np = w.np
        self.f = [[p.ufun("%s%d_%d" % (name, i, q), n_s) for q in range(n_o)] for i in range(n_i)]

    def at(self, i, s):
        return self.np.array([h(*list(s)) for h in self.f[int(i)]])

    def eval_is(self, i, s):
        return self.np.array([self.at(i, r) for r in self.np.asarray(s)])

    def eval_ijs(self, i, j, s):
        return self.eval_is(j, s)

    def __call__(self, i, s):
        np = self.np
        s = np.asarray(s)
        return self.at(i, s) if s.ndim == 1 else self.eval_is(i, s)


def process(p, w, n, n_m, kind="chain"):
    np = w.np
    if kind == "chain":
        P = np.zeros((n, n))
        for i in range(n):
            P[i] = p.simplex("P%d" % i, n)
        return w.get("dolo.numeric.processes:MarkovChain")(P, p.reals("V", (n, n_m), lo=-1, hi=1))
    q = p.simplex("q", n)
    return w.get("dolo.numeric.distribution:FiniteDistribution")(p.reals("V", (n, n_m), lo=-1, hi=1), q)


def vec(w, fs, sizes):
    """vectorised function from scalar functions of all the arguments but the parameters"""
    np = w.np

    def fun(*args):
        B = [np.asarray(a) for a in args[:len(sizes)]]
        if all(b.ndim == 1 for b in B):
            return np.array([f(*[e for b in B for e in b]) for f in fs])
        B = [np.atleast_2d(b) for b in B]
        N = max(b.shape[0] for b in B)
        return np.array([[f(*[e for b in B for e in b[t if b.shape[0] > 1 else 0]]) for f in fs] for t in range(N)])
    return fun


def update(p, w, n, n_m, n_s, n_x, n_v, N, kind="chain"):
    np = w.np
    dp = process(p, w, n, n_m, kind)
    n_e = dp.n_nodes
    g = vec(w, [p.ufun("g%d" % j, 2 * n_m + n_s + n_x) for j in range(n_s)], [n_m, n_s, n_x, n_m])
    val = vec(w, [p.ufun("v%d" % j, 2 * (n_m + n_s + n_x + n_v)) for j in range(n_v)], [n_m, n_s, n_x, n_v, n_m, n_s, n_x, n_v])
    s = p.reals("s", (N, n_s), lo=-1, hi=1)
    x = p.reals("x", (n_e, N, n_x), lo=-1, hi=1)
    v = p.reals("v", (n_e, N, n_v), lo=-1, hi=1)
    # the number of tomorrow's states is the number of points of the integration
    dr, drv = Rule(p, w, "dr", n, n_s, n_x), Rule(p, w, "drv", n, n_s, n_v)
    par = np.array([1.0])
    out = w.get(V + "update_value")(val, g, s, x, v, dr, drv, dp, par)
    p.eq(out.shape, (n_e, N, n_v), "shape")
    for i in range(n_e):
        m = dp.node(i)
        for k in range(N):
            tot = 0
            for j in range(dp.n_inodes(i)):
                M = dp.inode(i, j)
                S = g(m, s[k], x[i, k], M)
                tot = tot + dp.iweight(i, j) * val(m, s[k], x[i, k], v[i, k], M, S, dr.at(j, S), drv.at(j, S))
            p.eq(out[i, k], tot, "value is the expectation over tomorrow's exogenous states")


def choice(p, w, n, n_m, n_s, n_x, kind="chain"):
    np = w.np
    dp = process(p, w, n, n_m, kind)
    g = vec(w, [p.ufun("g%d" % j, 2 * n_m + n_s + n_x) for j in range(n_s)], [n_m, n_s, n_x, n_m])
    u = vec(w, [p.ufun("u", n_m + n_s + n_x)], [n_m, n_s, n_x])
    s, x = p.reals("s", n_s, lo=-1, hi=1), p.reals("x", n_x, lo=-1, hi=1)
    drv = Rule(p, w, "drv", n, n_s, 1)
    beta = p.real("beta", 0, 1)
    par = np.array([1.0])
    for i in range(dp.n_nodes):
        out = w.get(V + "choice_value")(g, u, i, s, x, drv, dp, par, beta)
        m = dp.node(i)
        tot = sum(dp.iweight(i, j) * drv.at(j, g(m, s, x, dp.inode(i, j)))[0] for j in range(dp.n_inodes(i)))
        p.eq(np.asarray(out).ravel()[0], u(m, s, x)[0] + beta * tot, "value of a choice: felicity plus discounted expected value")


class Nodal:
    """stand-in for decision rules on a grid: arbitrary between the nodes, exact at the nodes (P13)"""
    def __init__(self, exo, endo, *a, **k):
        self.exo_grid, self.endo_grid = exo, endo
        self.n_set = 0
        self.values = None
        if k.get("values") is not None:
            self.set_values(k["values"])

    def set_values(self, v):
        self.n_set += 1
        self.values = Nodal.np.array(v)

    def eval_is(self, i, s):
        np = Nodal.np
        s = np.asarray(s)
        v = self.values[int(i)]
        # one point: the rule is constant in the endogenous state; otherwise linear in the first one
        nodes = self.endo_grid.nodes
        if len(nodes) == 1:
            return np.array([v[0]] * s.shape[0])
        a, b = nodes[0][0], nodes[1][0]
        return np.array([v[0] + (v[1] - v[0]) * (r[0] - a) / (b - a) for r in s])

    def eval_ijs(self, i, j, s):
        return self.eval_is(j, s)

    def __call__(self, i, s):
        np = Nodal.np
        s = np.asarray(s)
        return self.eval_is(i, s[None, :])[0, :] if s.ndim == 1 else self.eval_is(i, s)


class patched:
    """solver and interpolation replaced by their contracts, in both worlds"""
    def __init__(self, p, w, answers=None, trial=None):
        self.p, self.w, self.answers, self.trial, self.calls = p, w, answers, trial, []

    def __enter__(self):
        w = self.w
        Nodal.np = w.np
        m = w.mod("dolo.algos.value_iteration")
        self.m = m
        self.saved = m.DecisionRule
        m.DecisionRule = Nodal
        import scipy.optimize
        so = m.scipy.optimize
        self.so, self.sm = so, so.minimize

        def minimize(fun, x0, *a, **k):
            x0 = self.w.np.array(x0)
            y = self.answers(len(self.calls))
            self.calls.append(dict(fun=fun, x0=x0, y=y, bounds=k.get("bounds"), at=fun(y), trial=None if self.trial is None else fun(self.trial)))
            r = Obj()
            r.x, r.fun, r.success = y, self.calls[-1]["at"], True
            return r
        if self.answers is not None:
            so.minimize = minimize
        return self

    def __exit__(self, *a):
        self.m.DecisionRule = self.saved
        self.so.minimize = self.sm


def vmodel(p, w, n, N, n_x, const=False):
    """one endogenous state, linear quadratic, with coefficients that depend on the exogenous state"""
    np = w.np
    P = np.zeros((n, n))
    for i in range(n):
        P[i] = [1.0] if n == 1 else [0.75, 0.25] if i == 0 else [0.375, 0.625]
    Vn = np.array([[0.5 - 0.75 * i] for i in range(n)])
    dp = w.get("dolo.numeric.processes:MarkovChain")(P, Vn)
    G = w.mod("dolo.numeric.grids")
    endo = G.UniformCartesianGrid([0.5], [1.5 if N == 2 else 2.5], [N])
    beta = p.real("beta", 0.1, 0.9) if not const else 0.5
    c = 0.25 if const else p.real("c", -1, 1)
    g = affine(np, [1, 1, n_x, 1], 1, [[0.25, 0.5] + [0.25, -0.125][:n_x] + [0.125]], [c])
    u = affine(np, [1, 1, n_x], 1, [[0.5, 0.75] + [-0.25, 0.375][:n_x]], [1.0])

    def val(m, s, x, v, M, S, X, Vt, par):
        return u(m, s, x, par) + beta * np.asarray(Vt)

    class Cal(dict):
        pass
    mo = Obj()
    mo.symbols = dict(states=["k"], controls=["i", "n"][:n_x], exogenous=["e"], values=["v"], parameters=["beta"])
    mo.calibration = dict(exogenous=np.array([0.25]), states=np.array([1.0]), controls=p.reals("x0", n_x, lo=-1, hi=1), parameters=np.array([1.0]), values=p.reals("v0", 1, lo=-4, hi=6), beta=beta)
    lb = lambda m, s, pr: np.array([-2.0 + 0.25 * m[0] + 0.5 * s[0]] * n_x)
    ub = lambda m, s, pr: np.array([2.0 + 0.5 * m[0] + 0.25 * s[0]] * n_x)
    mo.functions = dict(transition=g, felicity=u, value=val, controls_lb=lb, controls_ub=ub)
    mo.exogenous = dp
    mo.discretize = lambda *a, **k: (dict(exo=G.UnstructuredGrid(Vn), endo=endo), dp)
    return mo, dp, endo, beta, g, u, val


def bellman(w, mo, dp, g, u, beta, i, s, x, vfun):
    par = mo.calibration["parameters"]
    m = dp.node(i)
    tot = sum(dp.iweight(i, j) * vfun(j, g(m, s, x, dp.inode(i, j), par)) for j in range(dp.n_inodes(i)))
    return u(m, s, x, par)[0] + beta * tot


def evaluate(p, w, n, N, maxit, form, init):
    """each step is the expectation operator, the reported iterations and error are those of the returned values"""
    np = w.np
    mo, dp, endo, beta, g, u, val = vmodel(p, w, n, N, 1, const=True)
    ctr = np.array([[[((5 * i + 3 * k) % 7) / 7 - 0.5] for k in range(N)] for i in range(n)])
    s = endo.nodes
    kw = dict(verbose=False, details=True, maxit=maxit, tol=0.05)
    with patched(p, w) as st:
        rule = Nodal(dp.grid, endo)
        rule.set_values(ctr if N == 2 else ctr)
        if N == 3:
            ctr = np.array([rule.eval_is(i, s) for i in range(n)])
        v0 = np.array([[mo.calibration["values"]] * N] * n)
        if init:
            d0 = Nodal(dp.grid, endo)
            d0.set_values(p.reals("d0", (n, N, 1), lo=-4, hi=6))
            kw["dr0"] = d0
            v0 = np.array([d0.eval_is(i, s) for i in range(n)])
        res = w.get(V + "evaluate_policy")(mo, rule, **kw)
        if form == "plain":
            # without details, the values alone
            del kw["details"]
            p.eq(w.get(V + "evaluate_policy")(mo, rule, **kw).values, res.solution.values, "values without details")
        v = v0
        it = int(res.iterations)
        p.check(1 <= it <= maxit, "number of iterations")
        for k in range(it):
            prev = v
            lin = Nodal(dp.grid, endo)
            lin.set_values(prev)
            v = np.array([[[bellman(w, mo, dp, g, u, beta, i, s[q], ctr[i, q], lambda j, S: lin(j, S)[0])] for q in range(N)] for i in range(n)])
            err = abs(v - prev).max()
            if k < it - 1:
                p.lt(0.05, err, "iterations go on while the error is above the tolerance")
        p.eq(res.error, err, "reported error")
        p.eq(res.solution.endo_grid.nodes, s, "values on the grid of the states")
        if not init:
            p.eq(res.solution.exo_grid.nodes, dp.values, "values on the grid of the exogenous states")
        p.check((err <= 0.05) | (it == maxit), "iterations end below the tolerance")
        sol = res.solution.values
        # the values returned are those of the last or last but one iteration: they solve the equation up to the reported error
        lin = Nodal(dp.grid, endo)
        lin.set_values(sol)
        out = np.array([[[bellman(w, mo, dp, g, u, beta, i, s[q], ctr[i, q], lambda j, S: lin(j, S)[0])] for q in range(N)] for i in range(n)])
        if N == 2:
            # a contraction on this grid only if images stay inside; the residual of the returned values is the reported error
            p.check((abs(abs(out - sol).max() - err) <= 1e-9) | (abs(sol - v).max() <= 1e-9), "returned values are those of the reported error")


def optimize(p, w, n, N, n_x, maxit, details=True):
    np = w.np
    mo, dp, endo, beta, g, u, val = vmodel(p, w, n, N, n_x, const=True)
    s = endo.nodes
    par = mo.calibration["parameters"]
    cache = {}

    def answers(k):
        if k not in cache:
            cache[k] = p.reals("y%d" % k, n_x, lo=-4, hi=4)
        return cache[k]
    pol = []
    z = p.reals("z", n_x, lo=-1, hi=1)
    with patched(p, w, answers, z) as st:
        ev0 = st.m.evaluate_policy

        def evaluate_policy(model, mdr, *a, **k):
            """contract: some values attached to the policy"""
            q = len(pol)
            r = Obj()
            r.solution = Nodal(dp.grid, endo)
            r.solution.set_values(p.reals("ev%d" % q, (n, N, 1), lo=-4, hi=6) if n == 1 else np.array([[[8 * (((5 * i + 3 * k + 2 * q) % 7) / 7 - 0.25)] for k in range(N)] for i in range(n)]))
            r.iterations = 7
            keep = Nodal(dp.grid, endo)  # the solution object may be reused later
            keep.set_values(r.solution.values)
            pol.append((np.array(mdr.values), keep, len(st.calls)))
            return r
        st.m.evaluate_policy = evaluate_policy
        try:
            res = w.get(V + "value_iteration")(mo, verbose=False, maxit=maxit, tol=1e-6, details=details)
        finally:
            st.m.evaluate_policy = ev0
        it = len(pol)
        p.check(1 <= it <= maxit, "number of iterations")
        p.eq(len(st.calls), it * n * N, "every exogenous state and grid point is optimized at each iteration")
        ctr = np.array([[mo.calibration["controls"]] * N] * n)
        for q in range(it):
            cv, sol, first = pol[q]
            p.eq(cv, ctr, "the policy evaluated is the current one")
            new, vals = np.array(ctr), np.zeros((n, N, 1))
            nodal = np.array([sol.eval_is(i, s) for i in range(n)])
            # points can be visited in any order: each call is recognized by its bounds, all different
            todo = {}
            for c in st.calls[q * n * N:(q + 1) * n * N]:
                bd = c["bounds"]
                bd = [(float(l), float(h)) for l, h in (zip(bd.lb, bd.ub) if hasattr(bd, "lb") else bd)]
                hit = None
                for i in range(n):
                    for k in range(N):
                        l, h = mo.functions["controls_lb"](dp.node(i), s[k], par), mo.functions["controls_ub"](dp.node(i), s[k], par)
                        if len(bd) == n_x and all(abs(bd[j][0] - float(l[j])) + abs(bd[j][1] - float(h[j])) < 1e-9 for j in range(n_x)):
                            hit = (i, k)
                p.check(hit is not None and hit not in todo, "each optimization has the bounds of its state and point")
                todo[hit] = c
            for (i, k), c in todo.items():
                b = lambda x: bellman(w, mo, dp, g, u, beta, i, s[k], x, lambda j, S: sol(j, S)[0])
                p.eq(c["trial"], -b(z), "the objective is the value of a choice with continuation values of the current policy")
                p.eq(c["at"], -b(c["y"]), "the objective is the value of a choice with continuation values of the current policy")
                new[i, k] = c["y"]
                vals[i, k, 0] = -c["at"]
            err_x, err_v = abs(new - ctr).max(), abs(vals - nodal).max()
            ctr = new
            if q < it - 1:
                p.check((err_x > 1e-5) | (err_v > 1e-6), "iterations go on until controls and values settle")
        p.check(((err_x <= 1e-5) & (err_v <= 1e-6)) | (it == maxit), "iterations end when controls and values settle")
        if details:
            dr, drv = res.dr, res.drv
            p.eq(res.iterations, it, "reported iterations")
            p.eq(res.x_err, err_x, "reported error on controls")
            p.eq(res.v_err, err_v, "reported error on values")
            p.check(bool(res.x_converged) == bool(err_x < res.x_tol), "convergence of controls")
            p.check(bool(res.v_converged) == bool(err_v < res.v_tol), "convergence of values")
        else:
            dr, drv = res
        for r in (dr, drv):
            p.check(r.endo_grid is endo or r.endo_grid.nodes.shape == endo.nodes.shape, "rules on the grid of the states")
            p.eq(r.endo_grid.nodes, s, "rules on the grid of the states")
            p.eq(r.exo_grid.nodes, dp.values, "rules on the grid of the exogenous states")
        p.eq(dr.values, ctr, "returned rule is the last one")
        p.eq(drv.values, vals, "returned values are the last ones")


_u = dict(n_m=1, n_s=1, n_x=1, n_v=1)
HARNESSES = [
    H("update", update, [dict(_u, n=2, N=2), dict(n_m=2, n_s=2, n_x=2, n_v=2, n=2, N=2), dict(_u, n=3, N=1), dict(n_m=1, n_s=2, n_x=1, n_v=1, n=3, N=2, kind="iid")], labels=("value is the expectation",)),
    H("choice", choice, [dict(n_m=1, n_s=1, n_x=1, n=2), dict(n_m=2, n_s=2, n_x=2, n=3), dict(n_m=1, n_s=2, n_x=1, n=3, kind="iid")], labels=("value of a choice",)),
    H("evaluate", evaluate, [dict(n=1, N=2, maxit=1, form="plain", init=False), dict(n=1, N=2, maxit=2, form="rule", init=False), dict(n=2, N=2, maxit=1, form="rule", init=True), dict(n=2, N=2, maxit=2, form="rule", init=True)], [dict(n=2, N=3, maxit=3, form="rule", init=False)], labels=("reported error",)),
    H("optimize", optimize, [dict(n=1, N=2, n_x=1, maxit=1), dict(n=2, N=2, n_x=2, maxit=1), dict(n=1, N=2, n_x=1, maxit=2, details=False), dict(n=2, N=2, n_x=1, maxit=2)], labels=("the objective is",)),
]
