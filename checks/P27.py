"""Formulas: the real `eval_formula` and `Model.eval_formula` are executed on tables of symbolic values (one column per
variable) and on symbolic calibrations; results must be the value of the formula at each row, with leads and lags
read from the right rows, and missing where the table ends."""
from sxh import H
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from P19 import Obj

BOUNDS = "a fixed set of formulas; tables of 3..5 rows"
OUTSIDE = "the expression grammar of dolang; formatting of results"
EF = "dolo.compiler.eval_formula:eval_formula"

# formula, python of row t with V(name, lead) and parameters
FORMULAS = dict(
    leads=("k(1) - delta*k(0) - i(0)", lambda V, P, np: V("k", 1) - P["delta"] * V("k", 0) - V("i", 0)),
    dated=("k[t+1] - delta*k[t] - i[t]", lambda V, P, np: V("k", 1) - P["delta"] * V("k", 0) - V("i", 0)),
    documented=("k(1)-delta*k(0)-i", lambda V, P, np: V("k", 1) - P["delta"] * V("k", 0) - V("i", 0)),
    lags=("k[t-1]*i[t-2] - 2*k[t+1]^2", lambda V, P, np: V("k", -1) * V("i", -2) - 2 * V("k", 1) ** 2),
    both=("k(-1)/i(1) + delta^3 + k", lambda V, P, np: V("k", -1) / V("i", 1) + P["delta"] ** 3 + V("k", 0)),
    parameters=("(1-delta)*k + rho*i - 1", lambda V, P, np: (1 - P["delta"]) * V("k", 0) + P["rho"] * V("i", 0) - 1),
    index=("t_ + k[t]", lambda V, P, np: V(None, 0) + V("k", 0)),
    functions=("exp(delta)*k[t-1] + log(rho)", lambda V, P, np: np.exp(P["delta"]) * V("k", -1) + np.log(P["rho"])),
)


class Out(Exception):
    pass


def tables(p, w, formula, T, ctx, start):
    np = w.np
    import pandas as pd
    expr, fun = FORMULAS[formula]
    k, i = p.reals("k", T, lo=-5, hi=5), p.reals("i", T, lo=0.5, hi=5)
    P = dict(delta=p.real("delta", 0, 1), rho=p.real("rho", 0.1, 2))
    df = pd.DataFrame({"k": list(k), "i": list(i), "unused": [1.0] * T}, index=range(start, start + T))
    given = dict(P, k=100.0, i=200.0, unused=3.0, y=float("nan"))
    if ctx == "calibration":
        CD = w.get("dolo.compiler.misc:CalibrationDict")
        given = CD(dict(states=["k", "i", "unused", "y"], parameters=["delta", "rho"]),
                   dict(states=np.array([100.0, 200.0, 3.0, float("nan")]), parameters=np.array([P["delta"], P["rho"]])))
    elif ctx == "few":
        given = dict(P)
    keys = sorted(given.flat if ctx == "calibration" else given)
    if ctx == "model":
        mo = w.get("dolo.compiler.model:Model")
        o = Obj()
        o.calibration = given
        res = mo.eval_formula(o, expr, dataframe=df)
        other = dict(given, delta=P["delta"] + 1)
        res2 = mo.eval_formula(o, expr, df, other)
    else:
        res = w.get(EF)(expr, dataframe=df, context=given)
    p.check(sorted(given.flat if ctx == "calibration" else given) == keys, "the context is not modified")
    p.check(list(df.columns) == ["k", "i", "unused"], "the table is not modified")
    p.eq(df["k"].iloc[0], k[0], "the table is not modified")
    tol = 1e-9 if p.mode != "sym" else 0

    def check(res, P):
        p.check(list(res.index) == list(range(start, start + T)), "one value per row")
        for t in range(T):
            def V(nm, lead):
                if not 0 <= t + lead < T:
                    raise Out()
                return start + t if nm is None else (k if nm == "k" else i)[t + lead]
            got = res.iloc[t]
            try:
                v = fun(V, P, np)
            except Out:
                if p.mode != "sym":    # arithmetic with missing values is that of pandas: columns of symbols have none
                    p.check(got is None or got != got, "missing where the table ends")
                continue
            p.eq(got, v, "value of the formula at each date", tol=tol)
    check(res, P)
    if ctx == "model":
        check(res2, other)


def scalar(p, w, ctx):
    """without a table, formulas are evaluated at calibrated values"""
    np = w.np
    P = dict(delta=p.real("delta", 0.1, 1), rho=p.real("rho", 0.1, 2), k=p.real("k", 1, 2))
    given = dict(P)
    if ctx == "calibration":
        given = w.get("dolo.compiler.misc:CalibrationDict")(dict(states=["k"], parameters=["delta", "rho"]),
                                                            dict(states=np.array([P["k"]]), parameters=np.array([P["delta"], P["rho"]])))
    tol = 1e-9 if p.mode != "sym" else 0
    f = w.get(EF)
    p.eq(f("k^2*delta - rho/k", context=given), P["k"] ** 2 * P["delta"] - P["rho"] / P["k"], "value at the calibration", tol=tol)
    p.eq(f("exp(k)*log(rho) + 1", None, given), np.exp(P["k"]) * np.log(P["rho"]) + 1, "value at the calibration", tol=tol)
    p.eq(f("delta", None, given), P["delta"], "value at the calibration", tol=tol)
    p.check(not any(x in (given.flat if ctx == "calibration" else given) for x in ("exp", "log", "k_", "delta_")), "the context is not modified")
    try:
        f("k + other", None, given)
        ok = False
    except Exception:
        ok = True
    p.check(ok, "unknown symbols are refused")


HARNESSES = [
    H("tables", tables, [dict(formula=k, T=4, ctx=c, start=s) for k, c, s in (("leads", "dict", 0), ("dated", "few", 0), ("documented", "calibration", 0), ("documented", "few", 2), ("lags", "dict", 3), ("both", "calibration", 0), ("parameters", "model", 0), ("index", "dict", 5), ("functions", "calibration", 0), ("lags", "model", 0))],
      [dict(formula="both", T=6, ctx="dict", start=1)], labels=("value of the formula",)),
    H("scalar", scalar, [dict(ctx="dict"), dict(ctx="calibration")], labels=("value at the calibration",)),
]
