"""Perfect foresight: `det_residual`, `deterministic_solve`, the conversion of exogenous paths and `find_steady_state`
are executed with symbolic paths, states, guesses and coefficients; the nonlinear solvers are replaced by their contract
(an arbitrary solution of the system they are given).  The returned path must satisfy the documented stacked system
(initial state, transitions, optimality under the bounds at every date, exogenous path) and its derivatives are exact."""
from sxh import H
import sys, os, warnings, inspect
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from P16 import mcp

BOUNDS = "horizons 2..4, 1..2 states, controls and exogenous variables; affine model functions"
OUTSIDE = "existence and convergence; the terminal condition is that of the code (last controls constant), the manual states another one; non constant bounds (refused)"
PF = "dolo.algos.perfect_foresight:"
SS = "dolo.algos.steady_state:"
names = dict(exogenous=["e", "u"], states=["k", "z"], controls=["i", "n"], parameters=["par"], auxiliaries=["y"])

CF = [[0.75, -0.5, 0.25, 1.5, 0.125, -1.25, 0.375, 0.5, -0.75, 0.625, 0.3, -0.2], [-0.25, 0.5, -1.0, 0.375, 0.25, 1.75, -0.625, 0.125, 0.5, -0.375, 0.1, 0.4]]
CG = [[0.5, -0.25, 0.875, 0.25, 0.5, -0.125, 0.75, 0.35], [-0.375, 0.5, 0.125, 0.625, -0.5, 0.25, 0.2, -0.45]]


def affine(np, sizes, nx, C, c, grad=True):
    """affine vectorised function of several blocks with constant jacobian"""
    n = sum(sizes)
    J = np.array([[C[q][k] for k in range(n)] for q in range(nx)])

    def fun(*args, diff=False):
        blocks = args[:len(sizes)]
        par = args[len(sizes)]
        one = all(np.asarray(b).ndim == 1 for b in blocks)
        B = [np.asarray(b)[None, :] if np.asarray(b).ndim == 1 else np.asarray(b) for b in blocks]
        N = max(b.shape[0] for b in B)
        out = np.zeros((N, nx))
        for t in range(N):
            row = []
            for b in B:
                row += list(b[t if b.shape[0] > 1 else 0])
            for q in range(nx):
                out[t, q] = c[q] * np.asarray(par).ravel()[0] + sum(J[q, k] * row[k] for k in range(n))
        if one:
            return out[0]
        if not diff:
            return out
        res, k = [out], 0
        for m in sizes:
            res.append(np.array([J[:, k:k + m]] * N))
            k += m
        return res
    return fun


class Obj:
    pass


def model(p, w, n_m, n_s, n_x, bounds=None, aux=False, sym_coef=False, dom=1):
    np = w.np
    cf = p.reals("cf", n_x, lo=-1, hi=1)
    cg = p.reals("cg", n_s, lo=-1, hi=1)
    CF_, CG_ = CF, CG
    if sym_coef:
        CF_ = [[p.real("F%d_%d" % (q, k), -2, 2) for k in range(2 * (n_m + n_s + n_x))] for q in range(n_x)]
        CG_ = [[p.real("G%d_%d" % (q, k), -2, 2) for k in range(2 * n_m + n_s + n_x)] for q in range(n_s)]
    f = affine(np, [n_m, n_s, n_x, n_m, n_s, n_x], n_x, [[a if not (dom and k == n_m + n_s + q) else 4.0 for k, a in enumerate(r)] for q, r in enumerate(CF_)] if not sym_coef else CF_, cf)
    g = affine(np, [n_m, n_s, n_x, n_m], n_s, CG_, cg)
    mo = Obj()
    mo.functions = dict(arbitrage=f, transition=g)
    if aux:
        mo.functions["auxiliary"] = affine(np, [n_m, n_s, n_x], 1, CG, [0.5])
    mo.symbols = {k: v[:dict(exogenous=n_m, states=n_s, controls=n_x).get(k, 1)] for k, v in names.items()}
    mo.calibration = dict(exogenous=p.reals("mc", n_m, lo=-1, hi=1), states=p.reals("sc", n_s, lo=-1, hi=1), controls=np.array([0.5, -0.25][:n_x]), parameters=np.array([1.0]))
    mo.x_bounds = None
    if bounds:
        lb = p.reals("lb", n_x, lo=-1, hi=1) if bounds in ("both", "lower") else np.array([-float("inf")] * n_x)
        ub = np.array([float("inf")] * n_x)
        if bounds == "both":
            ub = lb + p.reals("wid", n_x, lo=0.1, hi=2)
        if bounds == "upper":
            ub = p.reals("ub", n_x, lo=-1, hi=1)
        rep = lambda b: lambda m, s, pr: np.array([b] * np.asarray(m).shape[0])
        mo.x_bounds = [rep(lb), rep(ub)]
        mo.lb, mo.ub = lb, ub
    return mo, f, g


def residual(p, w, n_m, n_s, n_x, N, kind):
    np = w.np
    sym = kind == "coef"
    mo, f, g = model(p, w, n_m, n_s, n_x, sym_coef=sym)
    R = w.get(PF + "det_residual")
    v = p.reals("v", (N, n_s + n_x), lo=-2, hi=2)
    start = p.reals("start", n_s, lo=-2, hi=2)
    m = p.reals("m", (N, n_m), lo=-2, hi=2)
    par = mo.calibration["parameters"]
    v0 = v.copy()
    r0 = R(mo, v, start, None, m, diff=False)
    p.eq(v, v0, "guess unchanged")
    s, x = v[:, :n_s], v[:, n_s:]
    one = lambda fun, *a: fun(*a, par)
    # zero exactly on the stacked system: sign conventions of each block do not matter for states
    for t in range(N - 1):
        p.eq(r0[t, n_s:], one(f, m[t], s[t], x[t], m[t + 1], s[t + 1], x[t + 1]), "optimality conditions at each date")
        e = one(g, m[t], s[t], x[t], m[t + 1]) - s[t + 1]
        p.eq(r0[t + 1, :n_s] * r0[t + 1, :n_s], e * e, "transitions at each date")
    p.eq(r0[0, :n_s] * r0[0, :n_s], (s[0] - start) * (s[0] - start), "initial state")
    p.eq(r0[N - 1, n_s:] * r0[N - 1, n_s:], (x[N - 1] - x[N - 2]) * (x[N - 1] - x[N - 2]), "terminal controls")
    d = p.reals("d", (N, n_s + n_x), lo=-1, hi=1)
    r2 = R(mo, v + d, start, None, m, diff=False)
    for jt in ("sparse", "full"):
        r1, J = R(mo, v, start, None, m, jactype=jt)
        p.eq(r1, r0.ravel(), "same residuals with derivatives")
        J = J.toarray() if hasattr(J, "toarray") else J
        p.eq(np.asarray(J).dot(d.ravel()), (r2 - r0).ravel(), "derivatives of the stacked system")


def shocks(p, w, n_m, T, form, n):
    np = w.np
    mo, f, g = model(p, w, n_m, 1, 1)
    S = w.get(PF + "_shocks_to_epsilons")
    E = p.reals("E", (n, n_m))
    cal = mo.calibration["exogenous"]
    nm = mo.symbols["exogenous"]
    if form == "none":
        out = S(mo, None, T)
        exp = lambda t, j: cal[j]
    else:
        exp = lambda t, j: E[min(t, n - 1), j]
        if form == "array":
            out = S(mo, E, T)
        elif form == "flat":
            out = S(mo, E.ravel(), T)
        elif form == "list":
            out = S(mo, [list(r) for r in E], T)
        elif form == "dict":
            out = S(mo, {k: list(E[:, j]) for j, k in enumerate(nm)}, T)
        elif form == "frame":
            import pandas as pd
            out = S(mo, pd.DataFrame({k: list(E[:, j]) for j, k in enumerate(nm)}), T)
        elif form == "partial":
            # one variable only, the other one calibrated
            out = S(mo, {nm[-1]: list(E[:, n_m - 1])}, T)
            exp = lambda t, j: E[min(t, n - 1), j] if j == n_m - 1 else cal[j]
        elif form == "ragged":
            out = S(mo, {k: list(E[:n - j, j]) for j, k in enumerate(nm)}, T)
            exp = lambda t, j: E[min(t, n - j - 1), j]
    p.eq(out.shape, (T + 1, n_m), "one row per date")
    for t in range(T + 1):
        for j in range(n_m):
            p.eq(out[t, j], exp(t, j), "value at each date, last value kept")


class stubs:
    """the solvers, by contract (only in symbolic mode)"""

    def __init__(self, p, w, n_s, n_x):
        self.p, self.w, self.opts = p, w, []
        self.n = 0

    def __enter__(self):
        p, w, np = self.p, self.w, self.w.np
        self.saved = []
        self.inside = 0

        def fresh(x):
            self.n += 1
            return p.reals("sol%d" % self.n, np.asarray(x).shape, lo=-50, hi=50)

        def solve(f, a, b, x):
            y = fresh(x)
            v = np.asarray(f(y)[0]).ravel()
            for k in range(len(v)):
                l, u = (None, None) if a is None else (np.asarray(a).ravel()[k], np.asarray(b).ravel()[k])
                fin = lambda q: q is not None and not (isinstance(q, float) and abs(q) == float("inf"))
                kind = "both" if fin(l) and fin(u) else "lower" if fin(l) else "upper" if fin(u) else "free"
                p.assume(mcp(np, v[k], y[k], l, u, kind) == 0)
            return y

        def newton(f, x, **kw):
            return [solve(f, None, None, x), 1]

        def ncpsolve(f, a, b, x, **kw):
            return [solve(f, a, b, x), 1]

        def lmmcp(fun, Dfun, x0, lb, ub, **kw):
            D = Dfun(x0)
            return solve(lambda y: [fun(y)], lb, ub, x0)

        def root(fun, x0, *a, **kw):
            y = fresh(x0)
            for e in np.asarray(fun(y)).ravel():
                p.assume(e == 0)
            r = Obj()
            r.x, r.success = y, True
            self.steady = y
            return r
        for mod, name, fn in (("dolo.numeric.optimize.newton", "newton", newton), ("dolo.algos.perfect_foresight", "ncpsolve", ncpsolve), ("dolo.numeric.optimize.ncpsolve", "ncpsolve", ncpsolve),
                              ("dolo.numeric.extern.lmmcp", "lmmcp", lmmcp), ("scipy.optimize", "root", root), ("dolo.algos.perfect_foresight", "root", root),
                              ("dolo.algos.perfect_foresight", "newton", newton), ("dolo.algos.perfect_foresight", "lmmcp", lmmcp), ("dolo.algos.steady_state", "root", root)):
            m = w.mod(mod)
            if hasattr(m, name):
                real = getattr(m, name)
                self.saved.append((m, name, real))
                if p.mode != "sym" and name == "root":
                    continue
                setattr(m, name, self.recorded(name, real, fn if p.mode == "sym" else real))
        return self

    def recorded(self, name, real, fn):
        """the solver, noting the arguments it is given (those of its own signature)"""
        if name == "root":
            return fn
        sig = inspect.signature(getattr(real, "__wrapped__", real))

        def call(*a, **kw):
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            if not self.inside:
                self.opts.append((name, dict(b.arguments), list(b.arguments.values())[dict(newton=1, ncpsolve=3, lmmcp=2)[name]]))
            self.inside += 1
            try:
                if fn is real:
                    return real(*a, **kw)
                return fn(*list(b.arguments.values())[:dict(newton=2, ncpsolve=4, lmmcp=5)[name]])
            finally:
                self.inside -= 1
        call.__signature__ = sig
        return call

    def __exit__(self, *a):
        for m, n, v in reversed(self.saved):
            setattr(m, n, v)


def path(p, w, n_m, n_s, n_x, T, bounds=None, start="given", solver="ncpsolve", guess=None, keep=False, aux=False, ignore=False):
    np = w.np
    mo, f, g = model(p, w, n_m, n_s, n_x, bounds=bounds, aux=aux)
    par = mo.calibration["parameters"]
    kw = dict(T=T, verbose=False, tol=1e-10, maxit=200)
    if solver != "ncpsolve":
        kw["solver"] = solver
    if ignore:
        kw["ignore_constraints"] = True
    cal = mo.calibration
    if start == "given":
        kw["s0"] = s0 = p.reals("s0", n_s, lo=-1, hi=1)
        m = [cal["exogenous"]] * (T + 1)
    elif start == "both":
        kw["s0"] = s0 = p.reals("s0", n_s, lo=-1, hi=1)
        kw["m0"] = m0 = p.reals("m0", n_m, lo=-1, hi=1)
        m = [m0] + [cal["exogenous"]] * T
    elif start == "calibrated":
        s0 = cal["states"]
        m = [cal["exogenous"]] * (T + 1)
    else:
        n = 2
        E = p.reals("E", (n, n_m), lo=-1, hi=1)
        kw["shocks" if start == "deprecated" else "exogenous"] = E if start != "dict" else {k: list(E[:, j]) for j, k in enumerate(mo.symbols["exogenous"])}
        m = [E[min(t, n - 1)] for t in range(T + 1)]
        s0 = None
    if keep:
        kw["keep_steady_state"] = True
    if guess is not None:
        # numbers do not matter, the shape does
        G = p.reals("guess", (T + 1 + (guess == "kept"), n_s + n_x), lo=-1, hi=1)
        G0 = G.copy()
        if guess == "frame":
            import pandas as pd
            G = pd.DataFrame(np.column_stack([G[:, n_s:], G[:, :n_s]]), columns=mo.symbols["controls"] + mo.symbols["states"])
        kw["initial_guess"] = G
    with stubs(p, w, n_s, n_x) as st, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ts = w.get(PF + "deterministic_solve")(mo, **kw)
    for name, o, z in st.opts:
        if name != "lmmcp":
            p.check(o.get("tol") == 1e-10 and o.get("maxit") == 200, "options reach the solver")
        if guess is not None:
            G_ = G0[-(T + 1):, :n_s + n_x]
            p.eq(np.asarray(z).ravel(), G_.ravel(), "the solver starts at the given guess")
    col = lambda k: np.array(list(ts[k]))
    allv = {k: col(k) for g_ in ("exogenous", "states", "controls") for k in mo.symbols[g_]}
    vec = lambda grp, t: np.array([allv[k][t] for k in mo.symbols[grp]])
    first = -1 if keep and start not in ("given", "both", "calibrated") else 0
    p.check(list(ts.index) == list(range(first, T + 1)), "dates")
    o = -first
    tol = 1e-6 if p.mode != "sym" else 0
    for t in range(T + 1):
        p.eq(vec("exogenous", o + t), m[t], "exogenous path")
    S = [vec("states", o + t) for t in range(T + 1)]
    X = [vec("controls", o + t) for t in range(T + 1)]
    if s0 is not None:
        p.eq(S[0], s0, "initial state", tol=tol)
    else:
        # the economy was at the steady state of the first exogenous value
        if first == -1:
            p.eq(vec("exogenous", 0), m[0], "steady state at date -1", tol=tol)
            sx, xx = vec("states", 0), vec("controls", 0)
            p.eq(S[0], sx, "initial state", tol=tol)
            p.eq(g(m[0], sx, xx, m[0], par), sx, "steady state at date -1", tol=tol)
            p.eq(f(m[0], sx, xx, m[0], sx, xx, par), 0 * xx, "steady state at date -1", tol=tol)
        elif p.mode == "sym":
            p.eq(S[0], st.steady[:n_s], "initial state")
    for t in range(T):
        p.eq(g(m[t], S[t], X[t], m[t + 1], par), S[t + 1], "transitions along the path", tol=tol)
        v = f(m[t], S[t], X[t], m[t + 1], S[t + 1], X[t + 1], par)
        for q in range(n_x):
            if bounds and not ignore:
                p.eq(mcp(np, v[q], X[t][q], mo.lb[q], mo.ub[q], bounds), 0, "optimality under the bounds along the path", tol=tol)
            else:
                p.eq(v[q], 0, "optimality along the path", tol=tol)
    p.eq(X[T], X[T - 1], "controls constant at the end", tol=10 * tol)
    if aux:
        for t in range(T + 1):
            p.eq(col("y")[o + t], mo.functions["auxiliary"](m[t], S[t], X[t], par)[0], "auxiliary variables along the path", tol=tol)


def steady(p, w, n_m, n_s, n_x, given):
    np = w.np
    mo, f, g = model(p, w, n_m, n_s, n_x)
    par = mo.calibration["parameters"]
    m = p.reals("m", n_m, lo=-1, hi=1) if given else mo.calibration["exogenous"]
    tol = 1e-6 if p.mode != "sym" else 0
    with stubs(p, w, n_s, n_x):
        w.get(SS + "find_steady_state")(mo, m=m + 1)    # what was asked before does not matter
        r = w.get(SS + "find_steady_state")(mo, m=m) if given else w.get(SS + "find_steady_state")(mo)
    s, x = r["states"], r["controls"]
    p.eq(r["exogenous"], m, "exogenous values")
    p.eq(r["parameters"], par, "parameters")
    p.eq(g(m, s, x, m, par), s, "states reproduce themselves", tol=tol)
    p.eq(f(m, s, x, m, s, x, par), 0 * x, "optimality at the steady state", tol=tol)
    for k, j in [(k, j) for k in ("exogenous", "states", "controls") for j in range(len(mo.symbols[k]))]:
        p.eq(r[mo.symbols[k][j]], r[k][j], "values by name")


_d = dict(n_m=1, n_s=1, n_x=1, T=2)
HARNESSES = [
    H("residual", residual, [dict(n_m=1, n_s=1, n_x=1, N=3, kind="coef"), dict(n_m=2, n_s=1, n_x=2, N=3, kind="const"), dict(n_m=1, n_s=2, n_x=1, N=4, kind="const"), dict(n_m=1, n_s=2, n_x=2, N=2, kind="const")],
      [dict(n_m=1, n_s=2, n_x=1, N=3, kind="coef"), dict(n_m=2, n_s=2, n_x=2, N=5, kind="const")], labels=("derivatives of the stacked",)),
    H("shocks", shocks, [dict(n_m=a, T=3, form=k, n=n) for k in ("array", "flat", "list", "dict", "frame") for a, n in ((1, 2), (2, 3))] + [dict(n_m=1, T=2, form="array", n=3), dict(n_m=1, T=2, form="array", n=1), dict(n_m=1, T=2, form="dict", n=1), dict(n_m=2, T=3, form="partial", n=2),
                        dict(n_m=2, T=4, form="ragged", n=3), dict(n_m=2, T=2, form="none", n=1)], labels=("value at each date",)),
    H("path", path, [dict(_d), dict(_d, start="both"), dict(_d, start="calibrated"), dict(_d, start="array"), dict(_d, start="dict", keep=True), dict(_d, start="deprecated"),
                     dict(_d, bounds="both"), dict(_d, bounds="lower", start="array"), dict(_d, bounds="upper"), dict(_d, bounds="both", solver="lmmcp"), dict(_d, bounds="both", ignore=True),
                     dict(_d, guess="array"), dict(_d, guess="frame"), dict(_d, guess="kept"), dict(_d, guess="frame", bounds="both"), dict(_d, guess="array", bounds="lower", solver="lmmcp"), dict(_d, start="array", keep=True, aux=True), dict(_d, aux=True), dict(n_m=2, n_s=2, n_x=2, T=2, start="array"), dict(n_m=1, n_s=2, n_x=1, T=3)],
      [dict(n_m=2, n_s=1, n_x=2, T=3, start="dict", keep=True), dict(n_m=1, n_s=1, n_x=2, T=2, bounds="both")], labels=("transitions along",)),
    H("steady", steady, [dict(n_m=1, n_s=1, n_x=1, given=True), dict(n_m=2, n_s=2, n_x=1, given=True), dict(n_m=1, n_s=1, n_x=2, given=False)], labels=("states reproduce",)),
]
