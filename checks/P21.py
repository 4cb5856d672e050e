"""Ergodic distributions: the real `trembling_hand` and `ergodic_distribution` are executed with symbolic images,
weights, grid bounds, transition probabilities and model coefficients."""
from sxh import H
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from P19 import affine, names, Obj

BOUNDS = "1..2 endogenous states with 2..3 points each (4 thorough), 1..2 exogenous states, 1..2 controls"
OUTSIDE = "uniqueness of the ergodic distribution (assumed by asking for a nonsingular linear system); third and higher dimensions are refused by the code"
E = "dolo.algos.ergodic:"


def clip(np, x):
    return np.minimum(np.maximum(x, 0), 1)


def hand(p, w, dims, N, kind):
    """one image per row: all the weight goes to the corners of the cell containing the image, with the right mean"""
    np = w.np
    d = len(dims)
    lo, hi = (0, 1) if kind == "inside" else (-1, 2)
    x = p.reals("x", (N, d), lo=lo, hi=hi)
    wt = p.real("w", 0, 1)
    A0 = p.reals("A", (N,) + tuple(dims), lo=0, hi=1)
    A = A0.copy()
    x0 = x.copy()
    w.get(E + "trembling_hand")(A, x, wt)
    p.eq(x, x0, "images unchanged")
    B = A - A0
    grids = [[k / (n - 1) for k in range(n)] for n in dims]
    import itertools
    for k in range(N):
        tot = 0
        first = [0] * d
        cells = list(itertools.product(*[range(n) for n in dims]))
        for c in cells:
            b = B[(k,) + c]
            p.le(0, b, "weights are nonnegative")
            tot = tot + b
            for j in range(d):
                first[j] = first[j] + b * grids[j][c[j]]
                near = abs(grids[j][c[j]] - clip(np, x[k, j])) <= 1 / (dims[j] - 1)
                p.check(near | (abs(b) <= 1e-9), "only the surrounding nodes receive weight")
        p.eq(tot, wt, "all the weight is allocated")
        for j in range(d):
            p.eq(first[j], wt * clip(np, x[k, j]), "mean image is kept")
        if d == 2:
            cross = sum(B[(k,) + c] * grids[0][c[0]] * grids[1][c[1]] for c in cells)
            p.eq(cross, wt * clip(np, x[k, 0]) * clip(np, x[k, 1]), "images are split independently along each dimension")


CS = [[0.5, 0.25, 0.25, 0.25], [-0.25, 0.5, 0.125, 0.5]]


def ergo(p, w, dims, n_m, exo, mu=True, short=False, sym=True):
    np = w.np
    d = len(dims)
    n_x = 1
    G = w.mod("dolo.numeric.grids")
    # with sym=False only the rule and the constants of the transition are symbolic
    a = [p.real("a%d" % j, -1, 1) if j == 0 and sym is True else -0.25 for j in range(d)]
    b = [a[j] + (p.real("wid%d" % j, 0.5, 2) if j == 0 and sym is True else 1.0) for j in range(d)]
    simplex = p.simplex if sym is True else lambda nm, n: np.array([[1.0], [0.75, 0.25], [0.5, 0.125, 0.375]][n - 1])
    grid = G.UniformCartesianGrid(a, b, list(dims))
    V = np.array([[0.5 * i - 0.25] for i in range(n_m)])
    c = np.array([0.125, -0.25][:d]) if sym in ("one", "none") else p.reals("c", d, lo=-1, hi=1)
    # the next state depends on everything
    g = affine(np, [1, d, n_x, 1], d, [[0.25, 0.5 if j == 0 else 0.125, 0.25, 0.375, 0.75][:1 + d] + [0.5, 0.75] for j in range(d)], c)
    mo = Obj()
    Model = w.get("dolo.compiler.model:Model")
    mo = Model.__new__(Model)
    mo.__dict__["functions"] = None
    xr = None if sym in ("one", "none") else p.reals("xr", (n_m, grid.n_nodes, n_x), lo=-1, hi=1)
    if sym in ("one", "none"):
        r = p.real("r", -1, 1) if sym == "one" else 0.125
        xr = np.array([[[r + ((7 * k + 3 * i) % 5) / 5 - 0.5] for k in range(grid.n_nodes)] for i in range(n_m)])
    DR = w.get("dolo.numeric.decision_rule:DecisionRule")
    cal = dict(exogenous=np.array([0.25]), parameters=np.array([1.0]))
    states = names["states"][:d]

    class M(Model):
        functions = dict(transition=g)
        calibration = cal
        symbols = dict(states=states, exogenous=["e"], controls=["i"])

        def __init__(self):
            pass
    mo = M()

    class Rule(DR):
        def __init__(self, eg, dp):
            self.exo_grid, self.endo_grid, self.dprocess = eg, grid, dp

        def __call__(self, *args):
            # only ever asked for its values on the grid
            s = np.asarray(args[-1])
            p.eq(s, grid.nodes, "rule evaluated on the grid")
            return xr[int(args[0]) if len(args) == 2 else 0]
    if exo == "chain":
        P = np.zeros((n_m, n_m))
        for i in range(n_m):
            P[i] = simplex("P%d" % i, n_m)
        dp = w.get("dolo.numeric.processes:MarkovChain")(P, V)
        eg = G.UnstructuredGrid(V)
        law = lambda i: [(k, P[i, k], V[k]) for k in range(n_m)]
        m_of = lambda i: V[i]
        n_e = n_m
    else:
        q = simplex("q", n_m)
        dp = w.get("dolo.numeric.distribution:FiniteDistribution")(V, q)
        eg = G.EmptyGrid()
        law = lambda i: [(0, q[k], V[k]) for k in range(n_m)]
        m_of = lambda i: cal["exogenous"]
        n_e = 1
    dr = Rule(eg, dp)
    f = w.get(E + "ergodic_distribution")
    if short:
        out = f(mo, dr)
    else:
        out = f(mo, dr, eg, grid, dp, mu) if not mu else f(mo, dr, eg, grid, dp)
    Pi = out[0] if mu else out
    Ns = grid.n_nodes
    s = grid.nodes
    p.eq(Pi.shape, (n_e, Ns, n_e, Ns) if exo == "chain" else (Ns, Ns), "shape of the transition matrix")
    Pi4 = np.asarray(Pi).reshape((n_e, Ns, n_e, Ns))
    for i in range(n_e):
        for k in range(Ns):
            exp = [[0] * (d + 1) for _ in range(n_e)]
            for (j, pr, Mv) in law(i):
                S = g(m_of(i), s[k], xr[i, k], Mv, cal["parameters"])
                exp[j][0] = exp[j][0] + pr
                for q_ in range(d):
                    exp[j][1 + q_] = exp[j][1 + q_] + pr * np.minimum(np.maximum(S[q_], grid.min[q_]), grid.max[q_])
            for j in range(n_e):
                row = Pi4[i, k, j]
                p.le(0 * row, row, "probabilities are nonnegative")
                p.eq(row.sum(), exp[j][0], "exogenous states move with their own probabilities")
                for q_ in range(d):
                    p.eq(sum(row[l] * s[l, q_] for l in range(Ns)), exp[j][1 + q_], "expected next endogenous state, truncated to the grid")
    if mu:
        D = out[1]
        p.check(tuple(D.dims) == (("i_m",) if exo == "chain" else ()) + tuple(states), "dimensions of the distribution")
        v = np.asarray(D.data).reshape((n_e * Ns,))
        p.eq(v.sum(), 1, "total mass one", tol=1e-9)
        T = Pi4.reshape((n_e * Ns, n_e * Ns))
        p.eq(v @ T, v, "the distribution reproduces itself", tol=1e-7 if p.mode != "sym" else 0)
        for j in range(d):
            cc = list(D.coords[states[j]].data)
            for k in range(dims[j]):
                p.eq(cc[k], grid.min[j] + (grid.max[j] - grid.min[j]) * k / (dims[j] - 1), "labels are the grid points")


O = dict(max_paths=4000)
HARNESSES = [
    H("allocate", hand, [dict(dims=(2,), N=1, kind="any"), dict(dims=(3,), N=1, kind="any"), dict(dims=(4,), N=2, kind="inside"), dict(dims=(2, 2), N=1, kind="any"), dict(dims=(3, 2), N=1, kind="any"), dict(dims=(2, 4), N=1, kind="inside")],
      [dict(dims=(6,), N=1, kind="any"), dict(dims=(4, 3), N=1, kind="any")], labels=("all the weight",), opts=O),
    H("ergodic", ergo, [dict(dims=(2,), n_m=2, exo="chain", mu=False), dict(dims=(2,), n_m=2, exo="iid", mu=False), dict(dims=(3,), n_m=2, exo="iid", mu=False, sym=False), dict(dims=(2, 2), n_m=1, exo="chain", mu=False), dict(dims=(2, 2), n_m=2, exo="iid", mu=False, sym=False),
                       dict(dims=(2,), n_m=2, exo="iid", short=True), dict(dims=(3,), n_m=1, exo="iid", short=True), dict(dims=(2,), n_m=2, exo="chain", short=True, sym=False),
                       dict(dims=(2, 3), n_m=2, exo="chain", mu=False, sym="one"), dict(dims=(3, 2), n_m=2, exo="iid", mu=False, sym="one"), dict(dims=(3,), n_m=3, exo="chain", mu=False, sym="one"),
                       dict(dims=(2, 3), n_m=2, exo="chain", sym="none"), dict(dims=(3, 2), n_m=2, exo="iid", sym="none")],
      [dict(dims=(3,), n_m=2, exo="chain", mu=False), dict(dims=(2, 2), n_m=2, exo="chain", mu=False)], labels=("expected next",), opts=O),
]
