"""Discrete iid distributions: weights and points handed out by every discrete distribution, by products and
by mixtures are compared with the law they stand for, with symbolic points and probabilities: weights are a
probability vector, products are independent, a mixture mixes the component laws with the index
probabilities, and turning an iid law into a Markov chain repeats that law in every row."""
from sxh import H
import itertools

BOUNDS = "1..3 components with 1..3 points each, 1..2 variables; probabilities, points symbolic; equiprobable points 1..5"
OUTSIDE = "the random number generator itself"
D = "dolo.numeric.distribution:"


def weights(p, w, name, n):
    return p.simplex(name, n)


def interface(p, w, dist, pts, wts, lab):
    np = w.np
    n = len(wts)
    p.eq(dist.n, n, lab + ": number of points")
    p.eq(dist.d, pts.shape[1], lab + ": dimension")
    p.eq(dist.n_nodes, 1, lab + ": a single conventional node")
    p.eq(dist.n_inodes(0), n, lab + ": number of integration points")
    for j in range(n):
        p.eq(dist.inode(0, j), pts[j], lab + ": integration point")
        p.eq(dist.iweight(0, j), wts[j], lab + ": integration weight")
        p.eq(dist.point(j), pts[j], lab + ": point")
        p.eq(dist.weight(j), wts[j], lab + ": weight")
    tot = sum(dist.iweight(0, j) for j in range(n))
    p.eq(tot, 1, lab + ": weights sum to one")
    it = list(dist.items())
    p.eq(len(it), n, lab + ": items cover every point")
    for (ww, x), j in zip(it, range(n)):
        p.eq(ww, wts[j], lab + ": items weight")
        p.eq(x, pts[j], lab + ": items point")
    f = p.ufun("f", pts.shape[1])
    g = lambda x: f(*[x[k] for k in range(pts.shape[1])])
    p.eq(dist.integrate(g), sum(wts[j] * g(pts[j]) for j in range(n)), lab + ": expectation")
    # what integration over the exogenous process actually uses
    thr = p.opts.get("eps", 1e-16)
    it = list(dist.iteritems(0))
    p.eq(sum(ww * g(x) for ww, x in it), sum([wts[j] * g(pts[j]) for j in range(n) if w.mode == "sym" and bool(wts[j] > thr) or w.mode != "sym"]), lab + ": iteritems expectation")


def as_chain(p, w, mc, pts, wts, lab):
    np = w.np
    n = len(wts)
    p.eq(mc.nodes, pts, lab + ": chain values")
    p.eq(mc.transitions, np.array([list(wts)] * n), lab + ": every row is the law")


def finite(p, w, n, d):
    np = w.np
    wts = weights(p, w, "w", n)
    pts = p.reals("x", (n, d))
    dist = w.get(D + "FiniteDistribution")(pts, wts)
    interface(p, w, dist, pts, wts, "finite")
    as_chain(p, w, dist.discretize(to="mc"), pts, wts, "finite")
    p.check(dist.discretize(to="iid") is dist, "already discrete")


def equi(p, w, n, d):
    np = w.np
    pts = p.reals("x", (n, d))
    dist = w.get(D + "EquiprobableDistribution")(pts)
    wts = np.ones(n) / n
    p.eq(dist.weights, wts, "equiprobable: weights attribute")
    interface(p, w, dist, pts, wts, "equiprobable")
    as_chain(p, w, dist.discretize(to="mc"), pts, wts, "equiprobable")


def bern(p, w):
    np = w.np
    pi = p.real("pi", 0, 1)
    b = w.get(D + "Bernouilli")(π=pi)
    dist = b.discretize(to="iid")
    pts = np.array([[0.0], [1.0]])
    wts = np.array([1 - pi, pi])
    interface(p, w, dist, pts, wts, "bernouilli")
    as_chain(p, w, b.discretize(to="mc"), pts, wts, "bernouilli")


def product(p, w, ns, ds, how):
    np = w.np
    W = [weights(p, w, "w%d" % k, n) for k, n in enumerate(ns)]
    X = [p.reals("x%d" % k, (n, d)) for k, (n, d) in enumerate(zip(ns, ds))]
    FD = w.get(D + "FiniteDistribution")
    fs = [FD(x, q) for x, q in zip(X, W)]
    if how == "iid":
        dist = w.get(D + "product_iid")(fs)
    elif how == "process":
        dist = w.get("dolo.numeric.processes:ProductProcess")(*fs).discretize()
    elif how == "process_iid":
        dist = w.get("dolo.numeric.processes:ProductProcess")(*fs).discretize(to="iid")
    elif how == "distribution":
        dist = w.get(D + "ProductDistribution")(fs)
        p.eq(dist.d, sum(ds), "product: dimension")
        dist = dist.discretize()
    elif how == "process_mc":
        dist = w.get("dolo.numeric.processes:ProductProcess")(*fs).discretize(to="mc")
    idx = list(itertools.product(*[range(n) for n in ns]))
    pts = np.concatenate([np.concatenate([X[k][i[k]] for k in range(len(ns))])[None, :] for i in idx], axis=0)
    wl = []
    for i in idx:
        q = 1
        for k in range(len(ns)):
            q = q * W[k][i[k]]
        wl.append(q)
    wts = np.array(wl)
    if how == "process_mc":
        as_chain(p, w, dist, pts, wts, "product")
    else:
        interface(p, w, dist, pts, wts, "product")


def mixture(p, w, n, m, d, to):
    np = w.np
    pi = p.real("pi", 0, 1) if n == 2 else None
    FD = w.get(D + "FiniteDistribution")
    if n == 2:
        index = w.get(D + "Bernouilli")(π=pi)
        iw = np.array([1 - pi, pi])
    else:
        iw = weights(p, w, "iw", n)
        index = FD(np.array([[float(i)] for i in range(n)]), iw)
    W = [weights(p, w, "w%d" % k, m[k]) for k in range(n)]
    X = [p.reals("x%d" % k, (m[k], d)) for k in range(n)]
    mix = w.get(D + "Mixture")(index=index, distributions={str(k): FD(X[k], W[k]) for k in (range(n) if n != 3 else (1, 2, 0))})
    p.eq(mix.d, d, "mixture: dimension")
    mix.discretize(to="iid" if to == "mc" else "mc")
    dist = mix.discretize(to=to)
    pts = np.concatenate(X, axis=0)
    wts = np.concatenate([iw[k] * W[k] for k in range(n)])
    if to == "mc":
        as_chain(p, w, dist, pts, wts, "mixture")
    else:
        interface(p, w, dist, pts, wts, "mixture")


def const(p, w, d, N):
    np = w.np
    mu = p.reals("mu", d)
    c = w.get("dolo.numeric.processes:ConstantProcess")(μ=mu)
    p.eq(c.d, d, "constant: dimension")
    dist = c.discretize(to="iid")
    interface(p, w, dist, np.array([list(mu)]), np.ones(1), "constant")
    mc = c.discretize(to="mc", N=N)
    p.eq(mc.transitions @ mc.nodes, mc.nodes, "constant: chain never moves")
    p.eq(mc.transitions.sum(axis=1), np.ones(N), "constant: rows sum to one")
    p.le(0, mc.transitions, "constant: probabilities")
    p.eq(mc.nodes, np.array([list(mu)] * N), "constant: all nodes equal the constant")
    for v in (0.25, 2):
        c = w.get("dolo.numeric.processes:ConstantProcess")(μ=v)
        p.eq(c.d, 1, "constant: dimension")
        interface(p, w, c.discretize(to="iid"), np.array([[v + 0.0]]), np.ones(1), "constant")


HARNESSES = [
    H("finite", finite, [dict(n=1, d=1), dict(n=2, d=1), dict(n=3, d=2)], [dict(n=5, d=1)]),
    H("equiprobable", equi, [dict(n=1, d=1), dict(n=3, d=1), dict(n=5, d=2)], [dict(n=7, d=1)]),
    H("bernouilli", bern, [{}]),
    H("product", product, [dict(ns=(2, 3), ds=(1, 2), how="iid"), dict(ns=(2, 2, 2), ds=(1, 1, 1), how="iid"), dict(ns=(3, 2), ds=(1, 1), how="process"), dict(ns=(2, 2), ds=(2, 1), how="process_iid"),
                           dict(ns=(2, 2), ds=(1, 1), how="process_mc"), dict(ns=(2, 3), ds=(1, 1), how="distribution")], [dict(ns=(3, 2, 2), ds=(1, 2, 1), how="iid")], opts=dict(max_paths=800)),
    H("mixture", mixture, [dict(n=2, m=(2, 2), d=1, to="iid"), dict(n=2, m=(1, 3), d=2, to="iid"), dict(n=3, m=(1, 2, 1), d=1, to="iid"), dict(n=2, m=(2, 1), d=1, to="mc")]),
    H("constant", const, [dict(d=1, N=1), dict(d=2, N=3)]),
]
