"""Rules given explicitly: the real `CustomDR` (compiled by dolang from formulas), `TaylorExpansion` and
`ConstantDecisionRule` are evaluated at symbolic points with symbolic coefficients; values must be those of the
formulas."""
from sxh import H
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from P19 import Obj

BOUNDS = "a fixed set of formulas; Taylor expansions of order 1..3 with 1..3 states and 1..2 controls; 1..3 points"
OUTSIDE = "the expression grammar of dolang; evaluation by exogenous index, which custom rules do not provide"
DRM = "dolo.numeric.decision_rule:"
TE = "dolo.numeric.taylor_expansion:"

EXO, ST, CT, PA = ["e", "u"], ["a", "b"], ["x", "y"], ["p", "q"]
RULES = dict(
    plain=(dict(y="a*p + e^2", x="b*u - q*a + 0.5"), dict(x="b*u - q*a + 0.5", y="a*p + e**2")),
    dated=(dict(x="b[t]*u[t] - q*a", y="a[t] - e"), dict(x="b*u - q*a", y="a - e")),
    helpers=(dict(x="g*p - h", h="a + 2*g", g="e*b", y="h^2*u"), dict(x="e*b*p - (a + 2*e*b)", y="(a + 2*e*b)**2*u")),
    shuffled=(dict(k1="k2 + k3*a", x="k1", k3="q*e", k2="k3*k4", y="k1*k4 - k2", k4="u - b"),
              dict(x="q*e*(u-b) + q*e*a", y="(q*e*(u-b) + q*e*a)*(u-b) - q*e*(u-b)")),
    functions=(dict(x="exp(a)*b", y="log(p)/(1 + b^2)"), dict(x="np.exp(a)*b", y="np.log(p)/(1 + b**2)")),
    chained=(dict(x="a*q", y="x + e"), dict(x="a*q", y="a*q + e")),
    constant=(dict(x="2", y="q"), dict(x="2 + 0*a", y="q + 0*a")),
)


def custom(p, w, rule):
    np = w.np
    vals, ref = RULES[rule]
    mo = Obj()
    mo.symbols = dict(exogenous=EXO, states=ST, controls=CT, parameters=PA)
    par = p.reals("par", 2, lo=0.5, hi=2)
    mo.calibration = dict(parameters=par)
    mo.exogenous = w.get("dolo.numeric.distribution:FiniteDistribution")(np.array([[0.0, 0.0]]), np.array([1.0]))
    mo.endo_grid = w.get("dolo.numeric.grids:UniformCartesianGrid")([0.0, 0.0], [1.0, 1.0], [2, 2])
    given = dict(vals)
    dr = w.get(DRM + "CustomDR")(given, mo)
    p.check(given == vals, "formulas are not modified")
    m, s = p.reals("m", (3, 2), lo=-1, hi=1), p.reals("s", (3, 2), lo=-1, hi=1)

    def at(mm, ss):
        d = dict(zip(EXO + ST + PA, list(mm) + list(ss) + list(par)), np=np)
        return np.array([eval(ref[c], d) for c in CT])
    tol = 1e-9 if p.mode != "sym" else 0
    for k in range(3):
        p.eq(dr(m[k], s[k]), at(m[k], s[k]), "value of a custom rule", tol=tol)
    p.eq(dr.eval_ms(m[0], s[1]), at(m[0], s[1]), "value of a custom rule", tol=tol)
    out = dr(m, s)
    p.eq(out.shape, (3, 2), "one row per point")
    for k in range(3):
        p.eq(out[k], at(m[k], s[k]), "values of a custom rule at several points", tol=tol)
    out = dr.eval_ms(m[1], s)
    for k in range(3):
        p.eq(out[k], at(m[1], s[k]), "values of a custom rule at several states", tol=tol)


def refuse(p, w):
    """a rule that does not define all controls is refused"""
    np = w.np
    mo = Obj()
    mo.symbols = dict(exogenous=EXO, states=ST, controls=CT, parameters=PA)
    mo.calibration = dict(parameters=p.reals("par", 2, lo=0.5, hi=2))
    try:
        w.get(DRM + "CustomDR")(dict(x="a"), mo)
        ok = False
    except Exception:
        ok = True
    p.check(ok, "incomplete rules are refused")


def taylor(p, w, order, n_s, n_x, form):
    np = w.np
    s0, x0 = p.reals("s0", n_s), p.reals("x0", n_x)
    C = [p.reals("X%d" % k, (n_x,) + (n_s,) * k) for k in range(1, order + 1)]
    T = w.get(TE + "TaylorExpansion")
    dr = T(*([s0, x0] + C)) if form == "args" else T([s0, x0] + C)
    s = p.reals("s", (2, n_s))

    def at(sv, rows=range(n_x)):
        d = [sv[i] - s0[i] for i in range(n_s)]
        out = []
        for n in rows:
            v = x0[n]
            fact = 1
            for k in range(1, order + 1):
                fact *= k
                idx = [()]
                for _ in range(k):
                    idx = [i + (j,) for i in idx for j in range(n_s)]
                for i in idx:
                    t = C[k - 1][(n,) + i]
                    for j in i:
                        t = t * d[j]
                    v = v + t / fact
            out.append(v)
        return np.array(out)
    tol = 1e-9 if p.mode != "sym" else 0
    p.check(dr.order == order, "order of the expansion")
    for k in range(2):
        p.eq(dr(s[k]), at(s[k]), "value of a Taylor expansion", tol=tol)
    p.eq(dr(s0), x0, "value of a Taylor expansion at its origin", tol=tol)
    out = dr(s)
    p.eq(out.shape, (2, n_x), "one row per point")
    for k in range(2):
        p.eq(out[k], at(s[k]), "values of a Taylor expansion at several points", tol=tol)
    m = p.reals("m", 1)
    p.eq(dr(m, s[0]), at(s[0]), "exogenous values do not matter", tol=tol)
    for sub in ([n_x - 1], list(range(n_x))[::-1]):
        d2 = dr[sub]
        p.eq(d2(s[1]), at(s[1], sub), "expansion of some of the controls", tol=tol)
        d2.X_bar[0] = 7.0
        p.eq(dr(s[1]), at(s[1]), "expansion of some of the controls is independent", tol=tol)


def constant(p, w, n_x):
    np = w.np
    x0 = p.reals("x0", n_x)
    dr = w.get(DRM + "ConstantDecisionRule")(x0)
    s, m = p.reals("s", (3, 2)), p.reals("m", (3, 1))
    i = int(p.int("i", 0, 2))
    for out in (dr(s[0]), dr(m[0], s[0]), dr(i, s[0])):
        p.eq(out, x0, "constant")
    for out in (dr(s), dr(m, s), dr(i, s), dr.eval_is(i, s), dr.eval_ms(m, s), dr.eval_s(s)):
        p.eq(out, np.array([x0] * 3), "constant at several points")


HARNESSES = [
    H("custom", custom, [dict(rule=k) for k in RULES], labels=("value of a custom",)),
    H("refuse", refuse, [{}], labels=("incomplete",)),
    H("taylor", taylor, [dict(order=1, n_s=2, n_x=2, form="args"), dict(order=2, n_s=2, n_x=2, form="list"), dict(order=3, n_s=2, n_x=1, form="args"), dict(order=3, n_s=1, n_x=2, form="list"), dict(order=2, n_s=3, n_x=1, form="args")],
      [dict(order=3, n_s=3, n_x=2, form="args")], labels=("value of a Taylor",)),
    H("constant", constant, [dict(n_x=1), dict(n_x=2)], labels=("constant",)),
]
