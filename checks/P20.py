"""Model simulations: the real `simulate`, `response`, `tabulate` and `tabulate_2d` are executed on models with
symbolic coefficients, states and exogenous paths, with an arbitrary (uninterpreted) decision rule and random numbers;
every date of the output must satisfy the law of motion of the model."""
from sxh import H
from sx.rand import Stream
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from P19 import affine, CG, CF, names, Obj

BOUNDS = "2..4 dates, 1..2 simulations, 1..2 exogenous variables, states and controls; affine transitions, arbitrary decision rules"
OUTSIDE = "the quality of the random generators; processes are those of P08-P10"
SI = "dolo.algos.simulations:"
PR = "dolo.numeric.processes:"


def model(p, w, n_m, n_s, n_x, aux=True):
    np = w.np
    cg = p.reals("cg", n_s, lo=-1, hi=1)
    g = affine(np, [n_m, n_s, n_x, n_m], n_s, CG, cg)
    mo = Obj()

    def f(*a, **k):
        raise Exception("not needed")
    mo.functions = dict(arbitrage=f, transition=g)
    mo.symbols = {k: list(v[:dict(exogenous=n_m, states=n_s, controls=n_x).get(k, 1)]) for k, v in names.items()}
    if aux:
        mo.functions["auxiliary"] = affine(np, [n_m, n_s, n_x], 1, CF, [0.5])
    mo.calibration = dict(exogenous=p.reals("mc", n_m, lo=-1, hi=1), states=p.reals("sc", n_s, lo=-1, hi=1), controls=p.reals("xc", n_x), parameters=np.array([1.0]))
    return mo, g


class Rule:
    """arbitrary decision rule (real decision rules are the subject of P13)"""

    def __init__(self, p, w, n_m, n_s, n_x, n_i=0, vals=None):
        np = w.np
        self.np = np
        self.f = [p.ufun("dr%d" % q, n_m + n_s) for q in range(n_x)]
        self.fi = [[p.ufun("dri%d_%d" % (i, q), n_s) for q in range(n_x)] for i in range(n_i)]
        if vals is not None:
            self.exo_grid = w.get("dolo.numeric.grids:UnstructuredGrid")(vals)

    def one(self, m, s):
        return self.np.array([h(*(list(m) + list(s))) for h in self.f])

    def onei(self, i, s):
        return self.np.array([h(*list(s)) for h in self.fi[int(i)]])

    def eval_ms(self, m, s):
        np = self.np
        m, s = np.asarray(m), np.asarray(s)
        if s.ndim == 1 and m.ndim == 1:
            return self.one(m, s)
        m, s = np.atleast_2d(m), np.atleast_2d(s)
        N = max(m.shape[0], s.shape[0])
        assert m.shape[0] in (1, N) and s.shape[0] in (1, N)
        return np.array([self.one(m[k if m.shape[0] > 1 else 0], s[k if s.shape[0] > 1 else 0]) for k in range(N)])

    def eval_is(self, i, s):
        np = self.np
        s = np.asarray(s)
        if s.ndim == 1:
            return self.onei(i, s)
        return np.array([self.onei(i if np.ndim(i) == 0 else i[k], s[k]) for k in range(s.shape[0])])

    def __call__(self, a, s=None):
        return self.eval_ms(a, s)


def blocks(p, w, mo, sim, aux):
    np = w.np
    v = list(sim.coords["V"].data)
    cols = {k: sim.data[:, :, v.index(k)] for k in v}
    get = lambda grp: np.concatenate([np.asarray(cols[k])[:, :, None] for k in mo.symbols[grp]], axis=2)
    return get, cols


def laws(p, w, mo, g, sim, M, rule, s0, N, T, aux):
    """every date satisfies the model"""
    np = w.np
    p.check(tuple(sim.dims) == ("T", "N", "V"), "dimensions")
    p.eq(sim.shape[:2], (T, N), "dates and simulations")
    get, cols = blocks(p, w, mo, sim, aux)
    S, X = get("states"), get("controls")
    par = mo.calibration["parameters"]
    if aux:
        E = get("exogenous")
        p.eq(E, M, "exogenous path of the simulation")
    for k in range(N):
        p.eq(S[0, k], s0, "simulations start at the initial state")
        for t in range(T):
            p.eq(X[t, k], rule(t, k, S[t, k]), "controls follow the decision rule")
            if t < T - 1:
                p.eq(S[t + 1, k], g(M[t, k], S[t, k], X[t, k], M[t + 1, k], par), "states follow the transitions")
            if aux:
                p.eq(get("auxiliaries")[t, k], mo.functions["auxiliary"](M[t, k], S[t, k], X[t, k], par), "auxiliary variables")
    return cols


def driven(p, w, n_m, n_s, n_x, N, T, start=True, aux=True):
    np = w.np
    mo, g = model(p, w, n_m, n_s, n_x, aux)
    dr = Rule(p, w, n_m, n_s, n_x)
    M = p.reals("m", (T, N, n_m), lo=-2, hi=2)
    M0 = M.copy()
    kw = {}
    s0 = mo.calibration["states"]
    if start:
        s0 = kw["s0"] = p.reals("s0", n_s, lo=-2, hi=2)
    sim = w.get(SI + "simulate")(mo, dr, N=N, T=T, driving_process=M, **kw)
    p.eq(M, M0, "driving process unchanged")
    laws(p, w, mo, g, sim, M, lambda t, k, s: dr.one(M[t, k], s), s0, N, T, aux)


def indices(p, w, n_m, n_s, n_x, N, T, given, aux=True):
    np = w.np
    mo, g = model(p, w, n_m, n_s, n_x, aux)
    n = 3
    V = p.reals("V", (n, n_m), lo=-2, hi=2)
    dr = Rule(p, w, n_m, n_s, n_x, n, V)
    inds = __import__("numpy").array([[(2 * t + k + 1) % n for k in range(N)] for t in range(T)])
    kw = dict(i0=int(inds[0, 0])) if given else {}
    s0 = kw["s0"] = p.reals("s0", n_s, lo=-2, hi=2)
    sim = w.get(SI + "simulate")(mo, dr, N=N, T=T, driving_process=inds, **kw)
    M = np.array([[V[inds[t, k]] for k in range(N)] for t in range(T)])
    cols = laws(p, w, mo, g, sim, M, lambda t, k, s: dr.onei(inds[t, k], s), s0, N, T, aux)
    p.eq(cols["_i_m"], inds, "reported exogenous state")


def chain(p, w, n, n_m, n_s, n_x, N, T, where, start, same=False, aux=True, stochastic=True):
    np = w.np
    mo, g = model(p, w, n_m, n_s, n_x, aux)
    P = np.zeros((n, n))
    for i in range(n):
        P[i] = p.simplex("P%d" % i, n)
    V = p.reals("V", (n, n_m), lo=-2, hi=2)
    if same:
        V[1] = V[0]
    mc = w.get(PR + "MarkovChain")(P, V)
    dr = Rule(p, w, n_m, n_s, n_x, n)
    kw = {}
    if where == "rule":
        dr.dprocess = mc
        mo.exogenous = None
    elif where == "model":
        mo.exogenous = mc
    else:
        kw["process"] = mc
    i0 = 0
    if start:
        i0 = kw["i0"] = int(p.int("i0", 0, n - 1))
    with Stream(p, w) as st:
        sim = w.get(SI + "simulate")(mo, dr, N=N, T=T, stochastic=stochastic, **kw)
    _, cols = blocks(p, w, mo, sim, aux)
    inds = __import__("numpy").array([[int(cols["_i_m"][t, k]) for k in range(N)] for t in range(T)])
    for k in range(N):
        p.eq(inds[0, k], i0, "exogenous process starts at the requested state")
        for t in range(1, T):
            p.check(0 <= inds[t, k] < n, "state exists")
            if not stochastic:
                p.eq(inds[t, k], i0, "no shocks")
            elif N == 1 and len(st.us) in (T - 1, T):
                u = st.us[t - (T - len(st.us))]
                lo = sum([P[inds[t - 1, k], q] for q in range(inds[t, k])], 0)
                p.check((u >= lo) & (u <= lo + P[inds[t - 1, k], inds[t, k]]), "moves follow the tabulated probabilities")
    M = np.array([[V[inds[t, k]] for k in range(N)] for t in range(T)])
    laws(p, w, mo, g, sim, M, lambda t, k, s: dr.onei(inds[t, k], s), mo.calibration["states"], N, T, aux)


def process(p, w, kind, n_s, n_x, N, T, start, aux=True, stochastic=True):
    np = w.np
    n_m = 1 if kind in ("ar1", "unormal") else 2
    mo, g = model(p, w, n_m, n_s, n_x, aux)
    mu = p.reals("mu", n_m, lo=-1, hi=1)
    if kind == "ar1":
        rho = p.real("rho", -0.9, 0.9)
        pr = w.get(PR + "AR1")(ρ=rho, σ=p.real("sig", 0.1, 2), μ=mu[0])
        R = np.array([[rho]])
    elif kind == "var1":
        R = p.reals("rho", (2, 2), lo=-1, hi=1)
        pr = w.get(PR + "VAR1")(ρ=R, Σ=np.array([[1.0, 0.5], [0.5, 2.0]]), μ=mu)
    elif kind == "normal":
        pr = w.get("dolo.numeric.distribution:Normal")(Σ=np.array([[1.0, 0.5], [0.5, 2.0]]), Μ=mu)
    else:
        pr = w.get("dolo.numeric.distribution:UNormal")(σ=p.real("sig", 0.1, 2), μ=mu[0])
    mo.exogenous = pr
    dr = Rule(p, w, n_m, n_s, n_x)
    kw = {}
    if start:
        m0 = kw["m0"] = p.reals("m0", n_m, lo=-2, hi=2)
    s0 = kw["s0"] = p.reals("s0", n_s, lo=-2, hi=2)
    z = p.reals("z", N * T * n_m, lo=-2, hi=2)
    with Stream(p, w, normals=lambda k: z[k]) as st:
        sim = w.get(SI + "simulate")(mo, dr, N=N, T=T, stochastic=stochastic, **kw)
    get, cols = blocks(p, w, mo, sim, aux)
    M = get("exogenous")
    laws(p, w, mo, g, sim, M, lambda t, k, s: dr.one(M[t, k], s), s0, N, T, aux)
    if kind in ("ar1", "var1"):
        for k in range(N):
            p.eq(M[0, k], m0 if start else mu, "exogenous process starts at the requested value")
            if not stochastic:
                for t in range(1, T):
                    p.eq(M[t, k] - mu, R @ (M[t - 1, k] - mu), "exogenous process without noise")


def seeds(p, w, kind):
    """same seed, same simulation: the generator is seeded before any draw, and only that generator is used"""
    np = w.np
    n_m, n_s, n_x, N, T = 1, 1, 1, 2, 4
    mo, g = model(p, w, n_m, n_s, n_x)
    dr = Rule(p, w, n_m, n_s, n_x, 2)
    if kind == "chain":
        mo.exogenous = w.get(PR + "MarkovChain")(np.array([[0.5, 0.5], [0.5, 0.5]]), np.array([[1.0], [2.0]]))
        if p.mode == "sym":
            # the moves themselves are the subject of `chain`
            mo.exogenous = w.get(PR + "MarkovChain")(np.array([[1.0, 0.0], [0.0, 1.0]]), np.array([[1.0], [2.0]]))
    elif kind == "ar1":
        mo.exogenous = w.get(PR + "AR1")(ρ=0.5, σ=1.0)
    else:
        mo.exogenous = w.get("dolo.numeric.distribution:UNormal")(σ=1.0, μ=0.0)
    seed = int(p.int("seed", 1, 3))
    log = []
    run = lambda: w.get(SI + "simulate")(mo, dr, N=N, T=T, seed=seed)
    if p.mode == "sym":
        class S(Stream):
            def u(self):
                log.append("draw")
                return 0.25

            def z(self):
                log.append("draw")
                return 0

            def seed(self, *a):
                log.append(("seed",) + a)
        st = S(p, w)
        from sx import arr
        with st:
            for k in list(arr.RANDOM_HOOK):
                if k.startswith("py_"):
                    arr.RANDOM_HOOK[k] = lambda *a: (log.append("other"), 0.25)[1]
            run()
        p.check("other" not in log, "draws come from the seeded generator")
        p.check(len(log) > 0 and log[0] == ("seed", seed), "seeded before any draw")
        p.check([e for e in log if e != "draw"] == [("seed", seed)], "seeded once")
    else:
        a = run()
        numpy = __import__("numpy")
        numpy.random.rand(7)
        b = run()
        for lab in ("draws come from the seeded generator", "seeded before any draw", "seeded once"):
            p.check(bool((a.data == b.data).all()), lab)


def irf(p, w, kind, n_s, n_x, T, default=False):
    np = w.np
    n_m = 1 if kind in ("ar1", "unormal") else 2
    mo, g = model(p, w, n_m, n_s, n_x)
    if kind == "ar1":
        rho = p.real("rho", -0.9, 0.9)
        sd = p.real("sd", 0.1, 2)
        pr = w.get(PR + "AR1")(ρ=rho, σ=sd * sd)
        R = np.array([[rho]])
    elif kind == "var1":
        R = p.reals("rho", (2, 2), lo=-1, hi=1)
        sd = p.real("sd", 0.1, 2)
        pr = w.get(PR + "VAR1")(ρ=R, Σ=np.array([[1.0, 0.5], [0.5, sd * sd + 1]]))
        sd = None
    elif kind == "normal":
        sd = p.real("sd", 0.1, 2)
        pr = w.get("dolo.numeric.distribution:Normal")(Σ=np.array([[1.0, 0.0], [0.0, sd * sd]]))
    else:
        sd = p.real("sd", 0.1, 2)
        pr = w.get("dolo.numeric.distribution:UNormal")(σ=sd, μ=0.0)
    mo.exogenous = pr
    dr = Rule(p, w, n_m, n_s, n_x)
    name = mo.symbols["exogenous"][-1]
    if default:
        sim = w.get(SI + "response")(mo, dr, name, T=T)
        imp = sd
    else:
        imp = p.real("imp", -2, 2)
        sim = w.get(SI + "response")(mo, dr, name, T=T, impulse=imp)
    p.check(tuple(sim.dims) == ("T", "V"), "dimensions")
    v = list(sim.coords["V"].data)
    e = np.zeros(n_m)
    e[n_m - 1] = imp
    M = [e]
    if kind in ("ar1", "var1"):
        for t in range(1, T):
            M.append(R @ M[-1])
    else:
        M = [e * 0, e] + [e * 0] * (T - 2)
    M = M[:T]
    get = lambda grp: np.concatenate([np.asarray(sim.data[:, v.index(k)])[:, None] for k in mo.symbols[grp]], axis=1)
    S, X, E = get("states"), get("controls"), get("exogenous")
    p.eq(S.shape, (T, n_s), "dates")
    par = mo.calibration["parameters"]
    p.eq(S[0], mo.calibration["states"], "response starts at the calibrated state")
    for t in range(T):
        p.eq(E[t], M[t], "response of the exogenous process")
        p.eq(X[t], dr.one(M[t], S[t]), "controls follow the decision rule")
        if t < T - 1:
            p.eq(S[t + 1], g(M[t], S[t], X[t], M[t + 1], par), "states follow the transitions")


def tab(p, w, how, n_m, n_s, n_x, n, which, aux=True, bounds=True, s0=True):
    np = w.np
    mo, g = model(p, w, n_m, n_s, n_x, aux)
    V = p.reals("V", (3, n_m), lo=-2, hi=2)
    dr = Rule(p, w, n_m, n_s, n_x, 3)
    mc = w.get(PR + "MarkovChain")(np.array([[0.5, 0.25, 0.25]] * 3), V)
    kw = {}
    if how != "calibrated":
        dr.dprocess = mc
    else:
        dr.dprocess = w.get("dolo.numeric.distribution:FiniteDistribution")(V, np.array([0.5, 0.25, 0.25]))
    lo = p.reals("lo", n_s, lo=-1, hi=1)
    hi = lo + p.reals("wid", n_s, lo=0.1, hi=2)
    st = mo.symbols["states"][which]
    a, b = lo[which], hi[which]
    if bounds:
        kw["bounds"] = [a, b]
    else:
        dr.endo_grid = Obj()
        dr.endo_grid.min, dr.endo_grid.max = lo, hi
    base = mo.calibration["states"]
    if s0:
        base = kw["s0"] = p.reals("s0", n_s, lo=-2, hi=2)
    base = base.copy()
    m = mo.calibration["exogenous"]
    if how == "i0":
        i0 = kw["i0"] = int(p.int("i0", 0, 2))
        m = V[i0]
    elif how == "m0":
        m = kw["m0"] = p.reals("m0", n_m, lo=-2, hi=2)
    elif how == "default":
        i0, m = 1, V[1]
    df = w.get(SI + "tabulate")(mo, dr, st, n_steps=n, **kw)
    p.eq(len(df), n, "number of points")
    col = lambda k: list(df[k])
    p.eq(mo.calibration["states"] if not s0 else kw["s0"], base, "inputs unchanged")
    for q in range(n):
        s = base.copy()
        s[which] = a + (b - a) * q / (n - 1)
        x = dr.onei(i0, s) if how in ("i0", "default") else dr.one(m, s)
        for j, k in enumerate(mo.symbols["states"]):
            p.eq(col(k)[q], s[j], "tabulated state moves between the bounds, the others are fixed")
        for j, k in enumerate(mo.symbols["exogenous"]):
            p.eq(col(k)[q], m[j], "exogenous values")
        for j, k in enumerate(mo.symbols["controls"]):
            p.eq(col(k)[q], x[j], "tabulated controls are those of the rule")
        if aux:
            p.eq(col("y")[q], mo.functions["auxiliary"](m, s, x, mo.calibration["parameters"])[0], "auxiliary variables")


def tab2(p, w, n_s, n, order, s0):
    np = w.np
    mo, g = model(p, w, 1, 2, 2, False)
    if n_s == 3:
        mo.symbols["states"] = ["k", "z", "b"]
        mo.calibration["states"] = p.reals("s3", 3)
    st = mo.symbols["states"]
    lo = p.reals("lo", n_s, lo=-1, hi=1)
    hi = lo + p.reals("wid", n_s, lo=0.1, hi=2)
    dom = {k: [lo[j], hi[j]] for j, k in enumerate(st)}
    mo.get_domain = lambda: dom
    mo.domain = dom
    dr = Rule(p, w, 1, n_s, 2, 3)
    i0 = int(p.int("i0", 0, 2))
    kw = {}
    base = mo.calibration["states"]
    if s0:
        base = kw["s0"] = p.reals("s0", n_s, lo=-2, hi=2)
    base = base.copy()
    sel = [st[j] for j in order]
    if n_s > 2 or list(order) != [0, 1]:
        kw["states"] = sel
    out = w.get(SI + "tabulate_2d")(mo, dr, i0=i0, n=list(n), **kw)
    p.check(tuple(out.dims) == tuple(sel) + ("V",), "dimensions")
    p.eq(out.shape, tuple(n) + (n_s + 2,), "shape")
    p.eq(kw["s0"] if s0 else mo.calibration["states"], base, "inputs unchanged")
    v = list(out.coords["V"].data)
    for a in range(n[0]):
        for b in range(n[1]):
            s = base.copy()
            for j, q, nn in ((order[0], a, n[0]), (order[1], b, n[1])):
                s[j] = lo[j] + (hi[j] - lo[j]) * q / (nn - 1)
            x = dr.onei(i0, s)
            for j, k in enumerate(st):
                p.eq(out.data[a, b, v.index(k)], s[j], "states")
            for j, k in enumerate(mo.symbols["controls"]):
                p.eq(out.data[a, b, v.index(k)], x[j], "tabulated controls are those of the rule")
    for j, q in ((order[0], 0), (order[1], 1)):
        c = list(out.coords[st[j]].data)
        for t in range(n[q]):
            p.eq(c[t], lo[j] + (hi[j] - lo[j]) * t / (n[q] - 1), "coordinates")


_d = dict(n_m=1, n_s=1, n_x=1, N=1, T=3)
_2 = dict(n_m=2, n_s=2, n_x=2, N=2, T=3)
HARNESSES = [
    H("driven", driven, [dict(_d), dict(_2), dict(_d, N=2, T=4, start=False), dict(_2, aux=False)], [dict(_2, T=6)], labels=("states follow",)),
    H("indices", indices, [dict(_d, given=True), dict(_2, given=False), dict(_2, given=True, aux=False)], [dict(_2, T=6, given=False)], labels=("states follow",)),
    H("chain", chain, [dict(_d, n=2, where="rule", start=True), dict(_d, n=3, where="model", start=False), dict(_2, n=2, where="given", start=True, T=2), dict(_d, n=3, where="rule", start=True, same=True), dict(_d, n=2, where="given", start=True, aux=False),
                       dict(_2, n=3, where="rule", start=True, stochastic=False)], [dict(_d, n=3, T=5, where="rule", start=True)], labels=("states follow",)),
    H("process", process, [dict(kind=k, n_s=1, n_x=1, N=2, T=3, start=False) for k in ("ar1", "var1", "normal", "unormal")] + [dict(kind="ar1", n_s=2, n_x=1, N=1, T=3, start=True), dict(kind="var1", n_s=1, n_x=2, N=2, T=3, start=True, stochastic=False)], labels=("states follow",)),
    H("seeds", seeds, [dict(kind=k) for k in ("chain", "ar1", "unormal")], labels=("seeded before",)),
    H("response", irf, [dict(kind=k, n_s=1, n_x=1, T=4) for k in ("ar1", "var1", "normal", "unormal")] + [dict(kind="ar1", n_s=2, n_x=2, T=3, default=True), dict(kind="unormal", n_s=1, n_x=1, T=3, default=True), dict(kind="normal", n_s=2, n_x=1, T=3, default=True)], labels=("states follow",)),
    H("tabulate", tab, [dict(how="i0", n_m=1, n_s=2, n_x=2, n=3, which=1), dict(how="m0", n_m=2, n_s=2, n_x=1, n=4, which=0), dict(how="default", n_m=1, n_s=1, n_x=1, n=3, which=0, bounds=False), dict(how="calibrated", n_m=1, n_s=2, n_x=1, n=3, which=1, s0=False, aux=False)], labels=("tabulated controls",)),
    H("tabulate_2d", tab2, [dict(n_s=2, n=(2, 3), order=(0, 1), s0=True), dict(n_s=2, n=(3, 2), order=(1, 0), s0=False), dict(n_s=3, n=(2, 3), order=(2, 0), s0=True)], labels=("tabulated controls",)),
]
