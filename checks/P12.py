"""Grids: uniform and non-uniform Cartesian grids, sums/products of grids, unstructured grids and the Cartesian
product helpers are executed with symbolic bounds and node values.  The nodes of a Cartesian grid must be all
combinations of the nodes of each dimension, last dimension fastest, and the description handed to the
interpolation routines must describe those same nodes."""
from sxh import H
import itertools

BOUNDS = "1..3 dimensions with 1..4 points; bounds and nodes symbolic"
OUTSIDE = "Smolyak nodes (computed by the interpolation library)"
G = "dolo.numeric.grids:"


def bounds(p, w, d, k=""):
    a = p.reals("a" + k, d)
    l = p.reals("len" + k, d, pos=True)
    return a, a + l


def axis(np, a, b, n):
    return [a + (b - a) * i / (n - 1) for i in range(n)] if n > 1 else [a]


def combos(p, w, grid, axes, lab):
    np = w.np
    exp = list(itertools.product(*axes))
    p.eq(grid.n_nodes, len(exp), lab + "number of nodes")
    p.eq(grid.nodes.shape, (len(exp), len(axes)), lab + "shape of nodes")
    for k, e in enumerate(exp):
        for j in range(len(axes)):
            p.eq(grid.nodes[k, j], e[j], lab + "node coordinates")
            p.eq(grid.node(k)[j], e[j], lab + "node by index")
    f = w.mod("dolo.numeric.grids")
    p.eq(f.nodes(grid), grid.nodes, lab + "functional interface")
    p.eq(f.n_nodes(grid), grid.n_nodes, lab + "functional interface")
    p.eq(f.node(grid, len(exp) - 1), grid.nodes[len(exp) - 1], lab + "functional interface")


def repr_uniform(p, w, grid, a, b, n):
    r = grid.__numba_repr__()
    p.eq(len(r), len(n), "description has one entry per dimension")
    for k, (x, y, z) in enumerate(r):
        p.eq(x, a[k], "description: lower bound")
        p.eq(y, b[k], "description: upper bound")
        p.eq(int(z), n[k], "description: number of points")


def uniform(p, w, n):
    np = w.np
    d = len(n)
    a, b = bounds(p, w, d)
    g = w.get(G + "UniformCartesianGrid")(a, b, n)
    combos(p, w, g, [axis(np, a[k], b[k], n[k]) for k in range(d)], "uniform: ")
    p.eq(g.min, a, "lower bounds")
    p.eq(g.max, b, "upper bounds")
    p.eq(tuple(int(e) for e in g.n), tuple(n), "orders")
    repr_uniform(p, w, g, a, b, n)


def default_n(p, w, d):
    np = w.np
    a, b = bounds(p, w, d)
    g = w.get(G + "UniformCartesianGrid")(a, b)
    p.eq(tuple(int(e) for e in g.n), (20,) * d, "default number of points")
    p.eq(g.n_nodes, 20 ** d, "default number of nodes")
    p.eq(g.nodes[0], a, "first node")
    p.eq(g.nodes[-1], b, "last node")


def nonuniform(p, w, n):
    np = w.np
    ax = [p.reals("x%d" % k, m) for k, m in enumerate(n)]
    g = w.get(G + "NonUniformCartesianGrid")(ax)
    combos(p, w, g, [list(e) for e in ax], "nonuniform: ")
    p.eq(tuple(int(e) for e in g.n), tuple(n), "orders")
    for k in range(len(n)):
        for e in ax[k]:
            p.le(g.min[k], e, "lower bound is the smallest node")
            p.le(e, g.max[k], "upper bound is the largest node")
        p.check(w.np.array([g.min[k] == e for e in ax[k]]).any(), "lower bound is a node")
        p.check(w.np.array([g.max[k] == e for e in ax[k]]).any(), "upper bound is a node")
        p.eq(g.__numba_repr__()[k], ax[k], "description holds the nodes")


def add(p, w, kind, n1, n2, how):
    np = w.np
    if kind == "uniform":
        a1, b1 = bounds(p, w, len(n1), "1")
        a2, b2 = bounds(p, w, len(n2), "2")
        g1 = w.get(G + "UniformCartesianGrid")(a1, b1, n1)
        g2 = w.get(G + "UniformCartesianGrid")(a2, b2, n2)
        axes = [axis(np, a1[k], b1[k], n1[k]) for k in range(len(n1))] + [axis(np, a2[k], b2[k], n2[k]) for k in range(len(n2))]
    else:
        A = [p.reals("x%d" % k, m) for k, m in enumerate(n1)]
        B = [p.reals("y%d" % k, m) for k, m in enumerate(n2)]
        g1 = w.get(G + "NonUniformCartesianGrid")(A)
        g2 = w.get(G + "NonUniformCartesianGrid")(B)
        axes = [list(e) for e in A + B]
    N1, N2 = g1.nodes.copy(), g2.nodes.copy()
    g = {"add": lambda: g1 + g2, "mul": lambda: g1 * g2, "cat": lambda: w.get(G + "cat_grids")(g1, g2)}[how]()
    combos(p, w, g, axes, "combined: ")
    if kind == "uniform":
        repr_uniform(p, w, g, np.concatenate([a1, a2]), np.concatenate([b1, b2]), tuple(n1) + tuple(n2))
    else:
        for e, f in zip(g.__numba_repr__(), axes):
            p.eq(e, np.array(f), "description holds the nodes")
    p.eq(g1.nodes, N1, "operands unchanged")
    p.eq(g2.nodes, N2, "operands unchanged")
    E = w.get(G + "EmptyGrid")()
    p.check((E + g1) is g1, "empty grid adds nothing")
    p.check((E * g1) is g1, "empty grid adds nothing")
    pg = w.get(G + "ProductGrid")(g1, g2, names=["exo", "endo"])
    p.check(pg["exo"] is g1 and pg["endo"] is g2, "product grid gives back its components")


def unstructured(p, w, n, d):
    np = w.np
    X = p.reals("x", (n, d))
    g = w.get(G + "UnstructuredGrid")(X)
    p.eq(g.n_nodes, n, "number of nodes")
    p.eq(g.nodes, X, "nodes")
    for i in range(n):
        p.eq(g.node(i), X[i], "node by index")
        p.le(g.min, X[i], "lower bound is the smallest node")
        p.le(X[i], g.max, "upper bound is the largest node")


def cart(p, w, n, ints):
    np = w.np
    ax = [np.array([1 + i + 3 * k for i in range(m)]) if k in ints else p.reals("x%d" % k, m) for k, m in enumerate(n)]
    c = w.get("dolo.numeric.misc:cartesian")(ax)
    exp = list(itertools.product(*[list(e) for e in ax]))
    p.eq(c.shape, (len(exp), len(n)), "shape of the product")
    for k, e in enumerate(exp):
        for j in range(len(n)):
            p.eq(c[k, j], e[j], "every combination, last factor fastest")
    out = np.zeros((len(exp), len(n)))
    w.get("dolo.numeric.misc:cartesian")(ax, out=out)
    p.eq(out, c, "preallocated output")
    a, b = bounds(p, w, len(n))
    m = w.get("dolo.numeric.misc:mlinspace")(a, b, list(n))
    exp = list(itertools.product(*[axis(np, a[k], b[k], n[k]) for k in range(len(n))]))
    for k, e in enumerate(exp):
        for j in range(len(n)):
            p.eq(m[k, j], e[j], "evenly spaced combinations")


HARNESSES = [
    H("uniform", uniform, [dict(n=(3,)), dict(n=(2, 3)), dict(n=(4, 2)), dict(n=(2, 3, 2)), dict(n=(1, 2))], [dict(n=(3, 4, 2)), dict(n=(2, 2, 2, 2))]),
    H("default_n", default_n, [dict(d=1), dict(d=2)]),
    H("nonuniform", nonuniform, [dict(n=(3,)), dict(n=(2, 3)), dict(n=(2, 1, 2))], [dict(n=(3, 3))]),
    H("combined", add, [dict(kind=k, n1=a, n2=b, how=h) for k in ("uniform", "nonuniform") for a, b in (((2,), (3,)), ((2, 2), (2,))) for h in ("add", "mul", "cat")],
      [dict(kind=k, n1=(2, 3), n2=(3, 2), how="add") for k in ("uniform", "nonuniform")]),
    H("unstructured", unstructured, [dict(n=1, d=2), dict(n=3, d=2), dict(n=2, d=1)]),
    H("cartesian", cart, [dict(n=(3,), ints=()), dict(n=(2, 3), ints=(0,)), dict(n=(3, 2), ints=()), dict(n=(2, 2, 2), ints=(0, 2)), dict(n=(2, 2), ints=(0, 1))], [dict(n=(3, 2, 3), ints=(0,))]),
]
