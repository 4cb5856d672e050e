"""Equiprobable discretization of univariate laws: the quantile function is an uninterpreted nondecreasing
function, so the claim covers every distribution: `discretize` must place its N points at the requested
quantiles of N equally likely cells (median, left, right end, or middle of the cell), each with weight 1/N;
a truncated law must be discretized at the corresponding quantiles of the parent law."""
from sxh import H

BOUNDS = "N = 1..6 points (thorough ..10), parameters of the laws unbounded reals in their domain"
OUTSIDE = "values of scipy's quantile functions; quantile levels 0 and 1 where the law is unbounded"
D = "dolo.numeric.distribution:"


def make(p, w, name):
    if name == "UNormal":
        return w.get(D + "UNormal")(σ=p.real("s", 0, 5, True), μ=p.real("mu", -5, 5))
    if name == "Uniform":
        a = p.real("a", -5, 5)
        return w.get(D + "Uniform")(a=a, b=a + p.real("len", 0, 5, True))
    if name == "LogNormal":
        return w.get(D + "LogNormal")(σ=p.real("s", 0, 2, True), μ=p.real("mu", -2, 2))
    if name == "Beta":
        return w.get(D + "Beta")(α=p.real("al", 0, 5, True), β=p.real("be", 0, 5, True))
    if name == "custom":
        f = p.ufun("quantile", 1)
        np = w.np

        class Law(w.get(D + "UnivariateContinuousDistribution")):
            def ppf(self, q):
                q = np.asarray(q)
                return np.array([f(e) for e in q.ravel()]).reshape(q.shape)
        return Law()


LEVELS = dict(median=lambda i, N: [(2 * i + 1) / (2 * N)], left=lambda i, N: [i / N], right=lambda i, N: [(i + 1) / N],
              middle=lambda i, N: [i / N, (i + 1) / N])


def levels(p, w, i, N, mp):
    from fractions import Fraction as F
    one = {"median": [F(2 * i + 1, 2 * N)], "left": [F(i, N)], "right": [F(i + 1, N)], "middle": [F(i, N), F(i + 1, N)]}[mp]
    return one if p.mode == "sym" else [float(e) for e in one]


def ep(p, w, law, N, mp):
    np = w.np
    dist = make(p, w, law)
    dist.discretize(to="iid", N=N + 1, method="equiprobable", mass_point="left" if mp != "left" and law == "Uniform" else "median")    # an earlier request does not matter
    d = dist.discretize(to="iid", N=N, method="equiprobable", mass_point=mp) if mp != "median" else dist.discretize(N=N)
    p.eq(d.n, N, "number of points")
    p.eq(d.d, 1, "dimension")
    for i in range(N):
        q = levels(p, w, i, N, mp)
        v = dist.ppf(np.array(q))
        p.eq(d.point(i), [sum(v[k] for k in range(len(q))) / len(q)], "point sits at the quantile of its cell", tol=1e-9)
        p.eq(d.weight(i), 1 / N, "equal weights")


def law_params(p, w, law, names):
    """the parameters reach the quantile and distribution functions with the documented meaning"""
    np = w.np
    st = w.mod("scipy.stats")
    q = p.real("q", 0.01, 0.99)
    sg, mu = p.real("s", 0, 3, True), p.real("mu", -2, 2)
    L = w.get(D + law)
    if names == "default":
        # location of the normal law is zero unless given
        kw = dict(σ=sg)
        mu = 0
    elif names == "latin":
        kw = dict(sigma=sg, mu=mu)
    else:
        kw = dict(σ=sg, μ=mu)
    if law == "UNormal":
        dist = L(**kw)
        std = st.norm.ppf(np.array([q]))[0]
        x = dist.ppf(np.array([q]))[0]
        p.eq(x, mu + sg * std, "normal quantile scales with mu and sigma")
        t = p.real("t", -3, 3)
        p.eq(dist.cdf(np.array([mu + sg * t]))[0], st.norm.cdf(np.array([t]))[0], "normal distribution function scales with mu and sigma")
    elif law == "Uniform":
        a, b = mu, mu + sg
        dist = L(a=a, b=b) if names == "greek" else L(a, b)
        x = dist.ppf(np.array([q]))[0]
        p.eq(x, a + q * (b - a), "uniform quantile")
        p.eq(dist.cdf(np.array([x]))[0], q, "uniform cdf inverts its quantile")
    elif law == "LogNormal":
        dist = L(**kw)
        x = dist.ppf(np.array([q]))[0]
        z = st.norm.ppf(np.array([q]))[0]
        p.eq(x, np.exp(mu) * np.exp(sg * z), "lognormal quantile is the exponential of the normal one")
    elif law == "Beta":
        al, be = sg, p.real("be", 0, 3, True)
        dist = L(α=al, β=be) if names == "greek" else L(al, be)
        p.eq(dist.ppf(np.array([q]))[0], st.beta.ppf(np.array([q]), al, be)[0], "beta quantile of shapes alpha and beta")


def chain(p, w, law, N, mp, method):
    """the Markov chain form has the points of the requested discretization"""
    np = w.np
    dist = make(p, w, law)
    mc = dist.discretize(to="mc", N=N, mass_point=mp, method=method)
    d = dist.discretize(to="iid", N=N, mass_point=mp, method=method)
    p.eq(mc.nodes, d.points, "chain nodes are the discretization points")
    for i in range(N):
        p.eq(mc.transitions[i, :], d.weights, "every row is the law")


def trunc(p, w, N, side):
    np = w.np
    a = p.real("a", -5, 5)
    L = p.real("len", 0, 5, True)
    parent = w.get(D + "Uniform")(a=a, b=a + L)
    lo, hi = a, a + L
    kw = {}
    if side in ("lb", "both"):
        lo = a + L * p.real("u", 0, 0.5)
        kw["lb"] = lo
    if side in ("ub", "both"):
        hi = a + L * p.real("v", 0.5, 1)
        kw["ub"] = hi
    p.assume(hi > lo)
    t = w.get(D + "Truncation")(parent, **kw)
    d = t.discretize(N=N)
    from fractions import Fraction as F
    for i in range(N):
        q = F(2 * i + 1, 2 * N) if p.mode == "sym" else (2 * i + 1) / (2 * N)
        p.eq(d.point(i), [lo + q * (hi - lo)], "uniform law truncated to [lb, ub] has uniform quantiles on it", tol=1e-9)
        p.eq(d.weight(i), 1 / N, "equal weights")


def trunc_general(p, w, N):
    """any parent law, through its own cdf and quantile function"""
    np = w.np
    dist = make(p, w, "UNormal")
    lb = p.real("lb", -5, 5)
    ub = p.real("ub", -5, 5)
    p.assume(lb < ub)
    t = w.get(D + "Truncation")(dist, lb=lb, ub=ub)
    d = t.discretize(N=N)
    from fractions import Fraction as F
    l, u = dist.cdf(np.array([lb]))[0], dist.cdf(np.array([ub]))[0]
    if p.mode != "sym" and u - l < 1e-4:
        return
    for i in range(N):
        q = F(2 * i + 1, 2 * N) if p.mode == "sym" else (2 * i + 1) / (2 * N)
        p.eq(d.point(i), [dist.ppf(np.array([l + q * (u - l)]))[0]], "truncated quantile", tol=1e-9)


HARNESSES = [
    H("equiprobable", ep, [dict(law="custom", N=n, mp=m) for m in ("median", "left", "right", "middle") for n in (1, 2, 3, 5)] +
      [dict(law=l, N=3, mp="median") for l in ("UNormal", "Uniform", "LogNormal", "Beta")] + [dict(law="Uniform", N=4, mp="middle")],
      [dict(law="custom", N=n, mp=m) for m in ("median", "left", "right", "middle") for n in (4, 6, 8, 10)], labels=("point sits",), opts=dict(round_const=True)),
    H("parameters", law_params, [dict(law=l, names=n) for l in ("UNormal", "Uniform", "LogNormal", "Beta") for n in ("greek", "latin")] + [dict(law="UNormal", names="default")]),
    H("chain", chain, [dict(law="custom", N=n, mp=m, method="equiprobable") for n, m in ((2, "median"), (3, "left"), (7, "middle"))] + [dict(law="UNormal", N=3, mp="median", method="gauss-hermite")], opts=dict(round_const=True)),
    H("truncation", trunc, [dict(N=n, side=s) for n in (1, 3) for s in ("lb", "ub", "both")], opts=dict(round_const=True)),
    H("truncation_any", trunc_general, [dict(N=2), dict(N=3)], opts=dict(round_const=True)),
]
