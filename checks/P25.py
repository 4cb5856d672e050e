"""Model data: the calibration, the domain, the grids and the exogenous processes of a model file are computed by the
real `Model` (and the evaluator of dolang) with symbolic calibrated values; they must equal what the file says, before
and after changes of the calibration."""
from sxh import H
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

BOUNDS = "a fixed set of model files; all calibrated values"
OUTSIDE = "the expression grammar of dolang"
M = "dolo.compiler.model:"
G = "dolo.numeric.grids:"

BASE = """
name: Data
symbols:
  exogenous: [e, u]
  states: [a, b]
  controls: [x, y]
  parameters: [p, q, r]
definitions: |
  c[t] = a[t]*x[t] + e[t]
  d[t] = c[t]^2 - y[t]*p
equations:
  arbitrage: |
    c[t+1]*p - d[t] + y[t+1]
    x[t] + d[t+1] - q*y[t]
  transition: |
    a[t] = p*a[t-1] + u[t] + x[t-1]
    b[t] = q*b[t-1] + e[t-1]*d[t-1]
calibration:
@C
domain:
@D
exogenous:
@E
options:
@O
"""

def build(w, calib, dom=(("a", "[0.5*a, 3*a+q]"), ("b", "[-r, r+p^2]")), exo=("e,u: !Normal", "   Sigma: [[0.1, 0],[0, 0.2]]"), opt=("grid: !Cartesian", "    n: [3,4]")):
    import yaml
    t = BASE.replace("@C", "\n".join("  %s: %s" % e for e in calib)).replace("@D", "\n".join("  %s: %s" % e for e in dom))
    t = t.replace("@E", "\n".join("  " + e for e in exo)).replace("@O", "\n".join("  " + e for e in opt))
    if not dom:
        t = t.replace("domain:\n\n", "")
    return w.get(M + "Model")(yaml.compose(t), check=False)


def value(np, calib, defs, nm, depth=0):
    """independent evaluation of a calibrated symbol"""
    if depth > 30:
        raise Exception("circular")
    if nm in calib:
        ex = calib[nm]
    elif nm in defs:
        ex = defs[nm]
    else:
        return None
    if not isinstance(ex, str):
        return ex
    try:
        return float(ex)
    except ValueError:
        pass
    ex = re.sub(r"[^\W\d]\w*", lambda m: "V(%r)" % m.group(0) if m.group(0) not in ("exp", "log") else "np." + m.group(0), ex)
    return eval(ex.replace("^", "**"), dict(np=np, V=lambda n: value(np, calib, defs, n, depth + 1)))


def expr(np, calib, defs, ex):
    return value(np, dict(calib, __ex=ex), defs, "__ex")


def tokens(p, w, **extra):
    """calibrated values of the file that are arbitrary numbers"""
    vals = dict(TOKA=p.real("a", 1, 2), TOKP=p.real("p", 0.25, 0.75), TOKR=p.real("r", 1, 3))
    vals.update(extra)
    for k, v in vals.items():
        w.name(k, v)
    return vals


BASIC = [("q", "p*2 + k1"), ("b", "a/(1+r^2) - q"), ("x", "b*a"), ("y", "2"), ("a", "TOKA"), ("p", "TOKP"), ("r", "TOKR"), ("k1", "3.5"), ("e", "0.25")]
DEFS = dict(c="a*x + e", d="c^2 - y*p")
SYMS = dict(exogenous=["e", "u"], states=["a", "b"], controls=["x", "y"], parameters=["p", "q", "r"], auxiliaries=["c", "d"])
VARIANTS = dict(
    basic=BASIC,
    target=[("q", "d/4 + r"), ("x", "TOKA"), ("a", "TOKP"), ("y", "c - x"), ("r", "p*c"), ("p", "TOKR - c"), ("b", "-2.5"), ("e", "0.5"), ("u", "q")],
    functions=BASIC[:2] + [("x", "exp(a)*r"), ("y", "log(a) + p^r"), ("u", "1/a")] + BASIC[4:],
    nothing=[("p", "TOKP"), ("q", "2"), ("r", "TOKR")],
    override=BASIC + [("c", "TOKA - p")])


def agree(p, np, mo, calib, defs, msg):
    """the calibration of the model is the one described"""
    cal = mo.calibration
    for g, l in SYMS.items():
        vec = cal[g]
        p.eq(len(vec), len(l), "one value per symbol")
        for k, s in enumerate(l):
            v = value(np, calib, defs, s)
            if v is None:
                v = 0.0 if g == "exogenous" else float("nan")
            if type(v) is float and v != v:
                p.check(vec[k] != vec[k] and cal[s] != cal[s], "symbols without value are nan")
                continue
            p.eq(vec[k], v, msg)
            p.eq(cal[s], v, msg)
    for k, s in zip(cal["states", "x"][0], SYMS["states"]):
        v = value(np, calib, defs, s)
        if v is not None:
            p.eq(k, v, msg)
    a, b = cal["actions"], cal["controls"]
    p.check(all((x == y) or (x != x) for x, y in zip(a, b)), "equivalent names")
    try:
        cal["states"][0] = 1.0
        ok = False
    except ValueError:
        ok = True
    p.check(ok, "calibrated vectors are read only")


def calibration(p, w, which):
    np = w.np
    tok = tokens(p, w)
    cal = VARIANTS[which]
    mo = build(w, cal)
    c = dict(cal, **tok)
    p.real("dummy", 0, 1)
    if which == "nothing":
        # y, x unknown: definitions cannot be evaluated to numbers
        agree(p, np, mo, dict(c, c=float("nan"), d=float("nan")), DEFS, "calibrated value")
        return
    agree(p, np, mo, c, DEFS, "calibrated value")


def changes(p, w, how):
    """set_calibration changes the values given and everything that depends on them"""
    np = w.np
    tok = tokens(p, w, TOKN=p.real("n", 1, 2), TOKM=p.real("m", 1, 2))
    mo = build(w, BASIC)
    c = dict(BASIC, **tok)
    before = mo.calibration
    a0 = before["a"]
    dom0 = mo.domain
    if how == "dict":
        mo.set_calibration({"p": "TOKN"})
        c.update(p="TOKN")
    elif how == "keywords":
        mo.set_calibration(p="TOKN", a="TOKM")
        c.update(p="TOKN", a="TOKM")
    elif how == "expression":
        mo.set_calibration({"q": "p*r + TOKN"})
        c.update(q="p*r + TOKN")
    elif how == "number":
        mo.set_calibration(p=0.625, y=3)
        c.update(p=0.625, y=3)
    elif how == "sequence":
        mo.set_calibration(q="p*TOKN")
        mo.calibration
        mo.set_calibration({"p": "TOKM"})
        mo.calibration["q"]
        mo.domain
        mo.set_calibration(r="q - 3", p="TOKP")
        c.update(q="p*TOKN", r="q - 3", p="TOKP")
    agree(p, np, mo, c, DEFS, "calibrated value after changes")
    p.eq(before["a"], a0, "previous calibrations are not modified")
    p.eq(before["states"][0], a0, "previous calibrations are not modified")
    for k, s in enumerate(("a", "b")):
        lo, hi = [("0.5*a", "3*a+q"), ("-r", "r+p^2")][k]
        p.eq(mo.domain[s][0], expr(np, c, DEFS, lo), "domain after changes")
        p.eq(mo.domain[s][1], expr(np, c, DEFS, hi), "domain after changes")
        p.eq(mo.endo_grid.min[k], expr(np, c, DEFS, lo), "grid after changes")
        p.eq(mo.endo_grid.max[k], expr(np, c, DEFS, hi), "grid after changes")


DOM = (("a", "[0.5*a, 3*a+q]"), ("b", "[-r, r+p^2]"))


def domain(p, w, kind):
    """bounds and grids are those of the file, for the right states"""
    np = w.np
    tok = tokens(p, w)
    c = dict(BASIC, **tok)
    dom, opt, n = DOM, ("grid: !Cartesian", "    n: [3, 4]"), (3, 4)
    b = [e[1][1:-1].split(",") for e in DOM]
    if kind == "swapped":
        dom = DOM[::-1]
    elif kind == "more":
        dom = (("x", "[0, 1]"), DOM[1], ("zz", "[1, 2]"), DOM[0])
    elif kind == "orders":
        opt = ("grid: !CartesianGrid", "    orders: [2, 3]")
        n = (2, 3)
    elif kind == "type":
        opt = ("grid:", "    type: cartesian", "    n: [2, 3]")
        n = (2, 3)
    elif kind == "default":
        opt = ("grid: !Cartesian {}",)
        n = (20, 20)
    elif kind == "calibrated":
        opt = ("grid: !Cartesian", "    n: [k1-1.5, 3]")
        n = (2, 3)
    elif kind == "old":
        dom = ()
        opt = ("grid: !Cartesian", "    n: [3, 4]", "    a: [0.5*a, -r]", "    b: [3*a+q, r+p^2]")
    elif kind == "both":
        opt = ("grid: !Cartesian", "    n: [3, 4]", "    a: [-9, -9]", "    b: [9, 9]")
    elif kind == "missing":
        mo = build(w, BASIC, dom=DOM[:1])
        try:
            mo.domain
            ok = False
        except Exception as e:
            if type(e).__module__.startswith("sx"):
                raise
            ok = "b" in str(e)
        p.check(ok, "a state without bounds is refused")
        mo = build(w, BASIC, dom=())
        p.check(mo.domain is None, "no domain")
        p.eq(mo.calibration["a"], tok["TOKA"], "lower bounds of the grid need a domain")
        return
    mo = build(w, BASIC, dom=dom, opt=opt)
    d = mo.domain
    p.check(tuple(d.states) == ("a", "b"), "the domain lists the states")
    lo, hi = [[expr(np, c, DEFS, e[j]) for e in b] for j in range(2)]
    p.eq(d.min, lo, "lower bounds of the states")
    p.eq(d.max, hi, "upper bounds of the states")
    for k, s in enumerate("ab"):
        p.eq(d[s], [lo[k], hi[k]], "bounds by name")
    g = mo.endo_grid
    p.check(type(g).__name__ == "UniformCartesianGrid" and tuple(int(e) for e in g.n) == n, "geometry of the grid")
    p.eq(g.min, lo, "lower bounds of the grid")
    p.eq(g.max, hi, "upper bounds of the grid")
    if kind != "default":
        nodes = g.nodes
        for i in range(n[0]):
            for j in range(n[1]):
                p.eq(nodes[i * n[1] + j], [lo[0] + (hi[0] - lo[0]) * i / (n[0] - 1), lo[1] + (hi[1] - lo[1]) * j / (n[1] - 1)], "nodes of the grid")
    for o in ((2, 2), None):
        gg = d.discretize(n=None if o is None else (np.array(o) if kind == "basic" else list(o)))
        p.check(tuple(int(e) for e in gg.n) == (o or (10, 10)), "orders of a discretized domain")
        p.eq(gg.min, lo, "lower bounds of the grid")
        p.eq(gg.max, hi, "upper bounds of the grid")


def nonuniform(p, w):
    np = w.np
    tok = tokens(p, w)
    c = dict(BASIC, **tok)
    mo = build(w, BASIC, opt=("grid: !NonUniformCartesian", "  - [0, p, a]", "  - [1, 1+r]"))
    n = mo.endo_grid.nodes
    vals = [expr(np, c, DEFS, e) for e in ("p", "a", "1+r")]
    a = [0, vals[0], vals[1]]
    b = [1, vals[2]]
    for i in range(3):
        for j in range(2):
            p.eq(n[i * 2 + j], [a[i], b[j]], "nodes of the grid")


def smolyak(p, w, mu):
    """sparse grids: the level of the file, on the bounds of the states"""
    np = w.np
    tok = tokens(p, w)
    c = dict(BASIC, **tok)
    opt = ("grid: !Smolyak", "    mu: %s" % mu) if mu else ("grid: !SmolyakGrid {}",)
    mo = build(w, BASIC, dom=DOM[::-1], opt=opt)
    g = mo.endo_grid
    lo, hi = [[expr(np, c, DEFS, e[1][1:-1].split(",")[j]) for e in DOM] for j in range(2)]
    n = g.nodes
    level = {None: 2, 1: 1, 3: 3}[mu]
    N = {1: 5, 2: 13, 3: 29}[level]
    p.check(type(g).__name__ == "SmolyakGrid" and tuple(n.shape) == (N, 2) and g.n_nodes == N and g.d == 2, "geometry of the grid")
    p.eq(g.min, lo, "lower bounds of the grid")
    p.eq(g.max, hi, "upper bounds of the grid")
    second = {1: 2.0, 2: 7.0, 3: 15.0}[level]      # sum of the squares of the nodes of the reference grid, in one dimension
    for j in range(2):
        z = [n[k, j] - (lo[j] + hi[j]) / 2 for k in range(N)]
        p.eq(sum(z[1:], z[0]), 0.0, "nodes of the grid are centered", tol=1e-8)
        q = [e * e for e in z]
        p.eq(sum(q[1:], q[0]), second * (hi[j] - lo[j]) ** 2 / 4, "nodes of the grid spread between the bounds", tol=1e-7)


def exogenous(p, w, kind):
    """the exogenous process has the calibrated parameters"""
    np = w.np
    tok = tokens(p, w)
    c = dict(BASIC, **tok)
    v = lambda e: expr(np, c, DEFS, e)
    if kind == "normal":
        mo = build(w, BASIC, exo=("e,u: !Normal", "   Sigma: [[r, p],[p, 2*r]]", "   Μ: [q, a]"))
        d = mo.exogenous.processes[0] if hasattr(mo.exogenous, "processes") else mo.exogenous
        p.eq(d.Σ, [[v("r"), v("p")], [v("p"), v("2*r")]], "covariance")
        p.eq(d.Μ, [v("q"), v("a")], "mean")
    elif kind == "split":
        mo = build(w, BASIC, exo=("e: !UNormal", "   sigma: r*p", "u: !AR1", "   rho: p", "   sigma: a/r"))
        a, b = mo.exogenous.processes
        p.check(type(a).__name__ == "UNormal" and type(b).__name__ == "AR1", "processes of the file")
        p.eq(a.σ, v("r*p"), "standard deviation")
        p.eq(np.asarray(b.ρ).ravel()[0], v("p"), "persistence")
        p.eq(b.σ, v("a/r"), "innovations")
    elif kind == "var":
        mo = build(w, BASIC, exo=("e,u: !VAR1", "   rho: p", "   Sigma: [[r, 0],[0, a]]"))
        d = mo.exogenous.processes[0] if hasattr(mo.exogenous, "processes") else mo.exogenous
        p.eq(d.Σ, [[v("r"), 0], [0, v("a")]], "covariance")
        p.eq(np.asarray(d.ρ).ravel()[0], v("p"), "persistence")
    elif kind == "chain":
        mo = build(w, BASIC, exo=("e,u: !MarkovChain", "   values: [[a, p],[-r, q]]", "   transitions: [[1-p, p],[0.5, 0.5]]"))
        d = mo.exogenous.processes[0] if hasattr(mo.exogenous, "processes") else mo.exogenous
        p.eq(d.values, [[v("a"), v("p")], [v("-r"), v("q")]], "nodes")
        p.eq(d.transitions, [[v("1-p"), v("p")], [0.5, 0.5]], "transitions")
        grid, dp = mo.discretize()
        p.eq(grid["exo"].nodes, d.values, "exogenous nodes")
        p.eq(dp.inode(0, 1), [v("-r"), v("q")], "integration nodes")
        p.eq(dp.iweight(0, 1), v("p"), "integration weights")
        p.eq(grid["endo"].min, mo.endo_grid.min, "endogenous nodes")
        grid, dp = mo.discretize(grid_options=dict(n=[2, 5]))
        p.check(tuple(int(e) for e in grid["endo"].n) == (2, 5), "orders of the grid")
        p.eq(grid["endo"].max, mo.domain.max, "endogenous nodes")
        w.name("TOKP", p.real("p2", 0.25, 0.75))
        mo.set_calibration(p="TOKP")
        d2 = mo.exogenous.processes[0] if hasattr(mo.exogenous, "processes") else mo.exogenous
        p.eq(d2.transitions[0, 1], p2(p, w), "process after a change of calibration")
    elif kind == "order":
        mo = build(w, BASIC, exo=("u: !UNormal", "   sigma: r", "e: !UNormal", "   sigma: p"))
        try:
            mo.exogenous
            ok = False
        except Exception as e:
            if type(e).__module__.startswith("sx"):
                raise
            ok = type(e).__name__ == "ModelError"
        p.check(ok, "shocks in another order are refused")
        x = p.real("dummy", 0, 1)
        p.eq(x, x, "reached")
        return
    p.eq(mo.calibration["p"], mo.calibration["parameters"][0], "reached")


def p2(p, w):
    return w.value("TOKP")


HARNESSES = [
    H("calibration", calibration, [dict(which=k) for k in VARIANTS], [], labels=("calibrated value",)),
    H("changes", changes, [dict(how=k) for k in ("dict", "keywords", "expression", "number", "sequence")], [], labels=("domain after",)),
    H("domain", domain, [dict(kind=k) for k in ("basic", "swapped", "more", "orders", "type", "default", "calibrated", "old", "both", "missing")], [], labels=("lower bounds of the grid",)),
    H("nonuniform", nonuniform, [{}], [], labels=("nodes of",)),
    H("smolyak", smolyak, [dict(mu=k) for k in (None, 1, 3)], [], labels=("nodes of the grid spread",)),
    H("exogenous", exogenous, [dict(kind=k) for k in ("normal", "split", "var", "chain", "order")], [], labels=("reached",)),
]
