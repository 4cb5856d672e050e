"""Random draws of iid laws: with the generator replaced by arbitrary uniform numbers and standard normals,
every draw has the documented shape and lies in the support of the law; points of zero probability are never
drawn and certain points always are; normal draws are mean plus noise with the stated covariance; a mixture
returns the draw of the component selected by its index; simulated iid paths are made of such draws."""
from sxh import H
from sx.rand import Stream

BOUNDS = "1..3 points, 1..3 draws, 1..2 variables; weights, points, mean, L and the uniform numbers symbolic"
OUTSIDE = "laws whose draws come from other library generators"
D = "dolo.numeric.distribution:"


def earlier(p, w, f, *a):
    """a first draw, with other numbers, which later draws must not repeat"""
    k = [0]

    def u(i):
        k[0] += 1
        return [0.25, 0.75, 0.5][k[0] % 3]
    with Stream(p, w, uniforms=u):
        f(*a)


def finite(p, w, n, N, d):
    np = w.np
    wts = p.reals("w", n, lo=0, hi=1)
    if n > 1:
        wts[n - 1] = 1 - wts[:n - 1].sum()
        p.assume(wts[n - 1] >= 0)
    else:
        wts[0] = 1
    pts = p.reals("x", (n, d))
    for i in range(n):
        pts[i, 0] = float(i)
    dist = w.get(D + "FiniteDistribution")(pts, wts)
    earlier(p, w, dist.draw, N)
    with Stream(p, w) as st:
        x = dist.draw(N)
    p.eq(x.shape, (N, d), "N draws of d variables")
    for k in range(N):
        j = int(x[k, 0])
        p.check(0 <= j < n, "a point of the support")
        p.eq(x[k], pts[j], "whole point")
        lo = sum([wts[q] for q in range(j)], 0)
        p.check((st.us[k] >= lo) & (st.us[k] <= lo + wts[j]), "drawn with its probability")
    p.check(len(st.us) >= N, "independent draws")


def equi(p, w, n, N):
    np = w.np
    pts = p.reals("x", (n, 2))
    for i in range(n):
        pts[i, 0] = float(i)
    dist = w.get(D + "EquiprobableDistribution")(pts)
    earlier(p, w, dist.draw, N)
    with Stream(p, w) as st:
        x = dist.draw(N)
    p.eq(x.shape, (N, 2), "N draws of d variables")
    seen = set()
    for k in range(N):
        j = int(x[k, 0])
        p.check(0 <= j < n, "a point of the support")
        p.eq(x[k], pts[j], "whole point")
    p.check(len(st.us) >= N, "independent draws")


def bern(p, w, N):
    np = w.np
    pi = p.real("pi", 0, 1)
    b = w.get(D + "Bernouilli")(π=pi)
    earlier(p, w, b.draw, N)
    with Stream(p, w) as st:
        x = b.draw(N)
    p.eq(x.shape, (N, 1), "N draws of one variable")
    for k in range(N):
        j = int(x[k, 0])
        p.check(j in (0, 1), "zero or one")
        if j == 1:
            p.check(pi > 0, "one is drawn only if it has positive probability")
        else:
            p.check(pi < 1, "zero is drawn only if it has positive probability")
        u = st.us[k]
        one_is_low = (u <= pi) if j == 1 else (u >= pi)
        one_is_high = (u >= 1 - pi) if j == 1 else (u <= 1 - pi)
        p.check(one_is_low | one_is_high, "drawn with probability pi")


def normal(p, w, d, N, kind):
    np = w.np
    mu = p.reals("mu", d)
    L = np.zeros((d, d))
    for i in range(d):
        for j in range(i):
            L[i, j] = p.real("l%d%d" % (i, j))
        L[i, i] = p.real("l%d%d" % (i, i), 0.1, 3)
    S = L @ L.T
    dist = w.get(D + "Normal")(Σ=S, Μ=mu) if kind == "mv" else w.get(D + "UNormal")(σ=L[0, 0], μ=mu[0])
    draw = (lambda: dist.draw(N)) if kind != "sim" else None
    with Stream(p, w, normals=lambda k: 0) as st:
        base = dist.draw(N)
    p.eq(base.shape, (N, d), "N draws of d variables")
    p.eq(base, np.zeros((N, d)) + mu, "centered on the mean")
    nz = st.nz
    cols = []
    for q in range(nz):
        with Stream(p, w, normals=lambda k, q=q: 1 if k == q else 0) as st:
            x = dist.draw(N)
        cols.append((x - base).reshape(-1))
    A = np.concatenate([c[:, None] for c in cols], axis=1)
    p.eq(A @ A.T, np.kron(np.eye(N), S), "covariance of the draws")


def simulate(p, w, d, N, T):
    """paths of an iid law are independent draws of it at every date"""
    np = w.np
    mu = p.reals("mu", d)
    L = np.zeros((d, d))
    for i in range(d):
        for j in range(i):
            L[i, j] = p.real("l%d%d" % (i, j))
        L[i, i] = p.real("l%d%d" % (i, i), 0.1, 3)
    S = L @ L.T
    dist = w.get(D + "Normal")(Σ=S, Μ=mu)
    with Stream(p, w, normals=lambda k: 0) as st:
        base = dist.simulate(N=N, T=T)
    p.check(tuple(base.dims) == ("T", "N", "V"), "dimensions")
    base = base.data
    p.eq(base.shape, (T, N, d), "dates, simulations, variables")
    p.eq(base, np.zeros((T, N, d)) + mu, "centered on the mean")
    cols = []
    for q in range(st.nz):
        with Stream(p, w, normals=lambda k, q=q: 1 if k == q else 0):
            x = dist.simulate(N=N, T=T).data
        cols.append((x - base).reshape(-1))
    A = np.concatenate([c[:, None] for c in cols], axis=1)
    p.eq(A @ A.T, np.kron(np.eye(N * T), S), "independent over dates and simulations")


def response(p, w, d, T):
    np = w.np
    dist = w.get(D + "Normal")(Σ=np.eye(d))
    imp = p.reals("imp", d)
    r = dist.response(T, imp).data
    p.eq(r.shape, (T + 1, d), "T+1 dates")
    p.eq(r[1], imp, "the impulse hits at date one")
    for t in range(T + 1):
        if t != 1:
            p.eq(r[t], np.zeros(d), "and nowhere else")


def uniform(p, w, N):
    np = w.np
    a = p.real("a")
    b = a + p.real("len", pos=True)
    dist = w.get(D + "Uniform")(a=a, b=b)
    earlier(p, w, dist.draw, N)
    with Stream(p, w) as st:
        x = dist.draw(N)
    p.eq(x.shape, (N, 1), "N draws of one variable")
    for k in range(N):
        up = x[k, 0] == a + (b - a) * st.us[k]
        p.le(a, x[k, 0], "inside the interval")
        p.le(x[k, 0], b, "inside the interval")
        p.eq(x[k, 0], a + (b - a) * st.us[k], "uniform on the interval")


def mixture(p, w, N, d):
    """component k of the mixture draws values recognizable as k"""
    np = w.np
    pi = p.real("pi", 0, 1)
    index = w.get(D + "Bernouilli")(π=pi)
    FD = w.get(D + "FiniteDistribution")
    x0, x1 = p.reals("a", (1, d), lo=1, hi=2), p.reals("b", (1, d), lo=3, hi=4)
    one = np.ones(1)
    mix = w.get(D + "Mixture")(index=index, distributions={"0": FD(x0, one), "1": FD(x1, one)})
    earlier(p, w, mix.draw, N)
    with Stream(p, w) as st:
        x = mix.draw(N)
    p.check(len(st.us) >= N, "independent draws")
    p.eq(x.shape, (N, d), "N draws of d variables")
    for k in range(N):
        if x[k, 0] < 2.5:
            p.eq(x[k], x0[0], "draw of the selected component")
            p.check(pi < 1, "component selected only with positive probability")
        else:
            p.eq(x[k], x1[0], "draw of the selected component")
            p.check(pi > 0, "component selected only with positive probability")


def product(p, w, N):
    np = w.np
    a, b = p.real("a"), p.real("b", pos=True)
    U = w.get(D + "Uniform")
    pd = w.get(D + "ProductDistribution")([U(a=a, b=a + b), U(a=0.0, b=1.0)])
    earlier(p, w, pd.draw, N)
    with Stream(p, w) as st:
        x = pd.draw(N)
    p.eq(x.shape, (N, 2), "N draws of all variables")
    for k in range(N):
        p.le(a, x[k, 0], "first component")
        p.le(x[k, 0], a + b, "first component")
        p.le(0, x[k, 1], "second component")
        p.le(x[k, 1], 1, "second component")
    p.check(len(st.us) >= 2 * N, "components are drawn independently")


HARNESSES = [
    H("finite", finite, [dict(n=1, N=1, d=1), dict(n=2, N=2, d=2), dict(n=3, N=2, d=1)], [dict(n=4, N=2, d=1)]),
    H("equiprobable", equi, [dict(n=1, N=1), dict(n=3, N=2)], [dict(n=4, N=3)]),
    H("bernouilli", bern, [dict(N=1), dict(N=3)]),
    H("normal", normal, [dict(d=1, N=1, kind="mv"), dict(d=1, N=3, kind="mv"), dict(d=2, N=1, kind="mv"), dict(d=2, N=2, kind="mv"), dict(d=1, N=2, kind="u"), dict(d=1, N=1, kind="u")], [dict(d=3, N=2, kind="mv")]),
    H("simulate", simulate, [dict(d=1, N=2, T=3), dict(d=2, N=1, T=2), dict(d=2, N=2, T=2), dict(d=1, N=1, T=1)], [dict(d=2, N=3, T=3)]),
    H("response", response, [dict(d=1, T=3), dict(d=2, T=2)]),
    H("uniform", uniform, [dict(N=1), dict(N=3)]),
    H("mixture", mixture, [dict(N=1, d=1), dict(N=2, d=2)]),
    H("product", product, [dict(N=2)]),
]
