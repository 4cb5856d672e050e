"""AR(1)/VAR(1) simulation and impulse responses: the real `simulate` is run with symbolic persistence, mean
and Sigma = L L'; the generator is expressed through standard normal numbers fed one at a time (zero, then each
unit vector), which determines the affine map from noise to path exactly.  Innovations must be centered, have
covariance Sigma, and be independent over dates and simulations; responses must decay by the persistence matrix."""
from sxh import H
from sx.rand import Stream

BOUNDS = "dimension 1..2, horizon 2..4, 1..2 simulations; persistence matrix, mean, L symbolic"
OUTSIDE = "non-normal reparametrisations of the generator (draws must be affine in standard normals)"
M = "dolo.numeric.processes:"


def mk(p, w, d, kind):
    np = w.np
    mu = p.reals("mu", d)
    L = np.zeros((d, d))
    for i in range(d):
        for j in range(i):
            L[i, j] = p.real("l%d%d" % (i, j))
        L[i, i] = p.real("l%d%d" % (i, i), pos=True)
    S = L @ L.T
    if kind == "product":    # a scalar process and an independent process with the other variables
        r0, r1 = p.real("rho0"), p.real("rho1")
        R, S2 = r1 * np.eye(d), S[1:, 1:].copy()
        R[0, 0] = r0
        s0 = S[0, 0]
        S = np.zeros((d, d))
        S[0, 0] = s0
        S[1:, 1:] = S2
        pr = w.get(M + "Product")(w.get(M + "AR1")(ρ=r0, σ=s0, μ=mu[0]), w.get(M + "VAR1")(ρ=r1, Σ=S2, μ=mu[1:]))
        p.check(pr.d == d, "number of variables")
    elif kind == "ar1":
        rho = p.real("rho")
        pr = w.get(M + "AR1")(ρ=rho, σ=S[0, 0], μ=mu[0])
        R = np.array([[rho]])
    elif kind == "scalar":
        rho = p.real("rho")
        pr = w.get(M + "VAR1")(ρ=rho, Σ=S, μ=mu)
        R = rho * np.eye(d)
    elif kind == "diag":
        r = p.reals("rho", d)
        pr = w.get(M + "VAR1")(ρ=r, Σ=S, μ=mu)
        R = np.diag(r)
    else:
        R = p.reals("rho", (d, d))
        pr = w.get(M + "VAR1")(ρ=R, Σ=S, μ=mu)
    return pr, R, mu, S


def innov(p, w, sim, R, mu):
    np = w.np
    x = sim - mu
    return [[x[t, k] - R @ x[t - 1, k] for k in range(sim.shape[1])] for t in range(1, sim.shape[0])]


def simul(p, w, d, N, T, kind):
    np = w.np
    pr, R, mu, S = mk(p, w, d, kind)
    with Stream(p, w, normals=lambda k: 0) as st:
        base = pr.simulate(N, T)
    nz = st.nz
    p.eq(base.shape, (T, N, d), "dates, simulations, variables")
    for k in range(N):
        p.eq(base[0, k], mu, "paths start at the mean")
    e0 = innov(p, w, base, R, mu)
    for l in e0:
        for e in l:
            p.eq(e, np.zeros(d), "innovations are centered")
    p.check(nz >= (T - 1) * N * d, "enough independent noise")
    cols = []
    for q in range(nz):
        with Stream(p, w, normals=lambda k, q=q: 1 if k == q else 0) as st:
            sim = pr.simulate(N, T)
        for k in range(N):
            p.eq(sim[0, k], mu, "initial date carries no noise")
        cols.append(np.concatenate([e for l in innov(p, w, sim, R, mu) for e in l]))
    A = np.concatenate([c[:, None] for c in cols], axis=1)
    C = A @ A.T
    n = (T - 1) * N
    exp = np.kron(np.eye(n), S)
    if kind == "ar1":
        exp = np.eye(n) * C[0, 0]
        # the same number is the conditional variance of the discretized process
        rho = R[0, 0]
        p.assume((rho > -1) & (rho < 1))
        mc = pr.discretize(to="mc", N=3)
        m = mc.transitions @ mc.nodes[:, 0]
        p.eq((mc.transitions @ (mc.nodes[:, 0] ** 2) - m * m)[0], C[0, 0], "simulated and discretized processes have the same innovation variance")
    p.eq(C, exp, "innovations have covariance Sigma, independent over dates and simulations")


def nonstoch(p, w, d, N, T, kind):
    np = w.np
    pr, R, mu, S = mk(p, w, d, kind)
    m0 = p.reals("m0", d)
    sim = pr.simulate(N, T, m0=m0, stochastic=False) if kind != "product" else None    # no initial value for products
    if sim is not None:
        p.eq(sim.shape, (T, N, d), "dates, simulations, variables")
    for k in range(N if sim is not None else 0):
        p.eq(sim[0, k], m0, "paths start at the requested value")
        for t in range(1, T):
            p.eq(sim[t, k] - mu, R @ (sim[t - 1, k] - mu), "without noise deviations decay by the persistence matrix")
    sim = pr.simulate(N, T, stochastic=False)
    for k in range(N):
        for t in range(T):
            p.eq(sim[t, k], mu, "without noise a path started at the mean stays there")


def resp(p, w, d, T, kind):
    np = w.np
    pr, R, mu, S = mk(p, w, d, kind)
    imp = p.reals("imp", d)
    pr.response(T + 1, imp + 1)     # what was asked before does not matter
    r = pr.response(T, imp)
    v = r.data
    p.check(tuple(r.dims) == ("T", "V"), "dimensions T and V")
    p.eq(v.shape, (T + 1, d), "T+1 dates")
    x = imp
    for t in range(T + 1):
        p.eq(v[t] - mu, x, "response is the impulse multiplied by powers of the persistence matrix")
        x = R @ x


HARNESSES = [
    H("simulate", simul, [dict(d=1, N=1, T=4, kind="ar1"), dict(d=1, N=2, T=3, kind="ar1"), dict(d=1, N=2, T=3, kind="scalar"), dict(d=2, N=1, T=3, kind="scalar"), dict(d=2, N=2, T=2, kind="diag"), dict(d=2, N=1, T=3, kind="full"), dict(d=2, N=2, T=2, kind="product"), dict(d=3, N=1, T=2, kind="product")],
      [dict(d=2, N=2, T=3, kind="full"), dict(d=3, N=1, T=3, kind="full")], labels=("innovations have",)),
    H("deterministic", nonstoch, [dict(d=1, N=1, T=3, kind="ar1"), dict(d=2, N=2, T=4, kind="full"), dict(d=2, N=1, T=3, kind="diag"), dict(d=3, N=2, T=3, kind="product")], [dict(d=3, N=2, T=5, kind="full")]),
    H("response", resp, [dict(d=1, T=3, kind="ar1"), dict(d=2, T=3, kind="full"), dict(d=2, T=2, kind="scalar"), dict(d=2, T=2, kind="diag")], [dict(d=3, T=5, kind="full")]),
]
