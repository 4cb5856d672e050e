"""History: the harnesses of the other checks are run again on symbolic inputs, now watching every call they make into
the package: arguments (arrays, calibrations, grids, rules, models...) are compared with their state before the call,
results returned earlier with their state before the call, and numerical functions are asked twice."""
from sxh import H
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx.watch import watched, snap, same
from sx.core import Unsupported

BOUNDS = "calls made by the harnesses of the other checks (their bounds)"
OUTSIDE = "functions no harness calls directly; the state of library objects; compiled functions writing to output arguments"

SOURCES = ["P01", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27", "P28", "P30"]


def make(h):
    def run(p, w, **cfg):
        watched(p, w, h.fn, cfg)
        p.check(True, "calls leave")
    return run



def printing(p, w, cal):
    """describing a model (text, html) does not change it"""
    np = w.np
    from checks import P25
    mo = P25.build(w, [(k, v) for k, v in (("a", 0.5), ("b", 0.25), ("x", 1.0), ("y", 0.5), ("p", 0.75), ("q", 0.25), ("r", 1.5), ("e", 0.0), ("u", 0.0))])
    z = [p.reals("v%d" % k, (1, n), lo=-2, hi=2) for k, n in enumerate((2, 2, 2))]
    pr = mo.calibration["parameters"]
    F = lambda: [mo.functions["arbitrage"](z[0], z[1], z[2], z[0], z[1], z[2], pr), mo.functions["transition"](z[0], z[1], z[2], z[0], pr)]
    f0 = F()
    eq, de, cb = snap(mo.equations), snap(mo.definitions), snap(mo.calibration)
    keys = sorted(mo.equations)
    if p.mode != "sym":
        a, b = str(mo), repr(mo)
        p.check(a == b, "calls leave the description")
        mo._repr_html_()
    else:
        sub = type(mo).__str__(mo)
        try:
            mo._repr_html_()
        except Unsupported:
            pass
    p.check(sorted(mo.equations) == keys, "describing a model leaves its equations as they were")
    same(p, snap(mo.equations), eq, "describing a model leaves its equations as they were")
    same(p, snap(mo.definitions), de, "describing a model leaves its definitions as they were")
    same(p, snap(mo.calibration), cb, "describing a model leaves its calibration as it was")
    for a, b in zip(F(), f0):
        p.eq(a, b, "describing a model leaves its functions as they were")


def owned(p, w, what):
    """objects built from arrays of the caller (or from one another) do not share them when they say they copy"""
    np = w.np
    if what == "calibration":
        CD = w.get("dolo.compiler.misc:CalibrationDict")
        v = p.reals("s", 2)
        m = p.reals("e", 1)
        cal = dict(states=v, exogenous=m)
        v0, m0 = v.copy(), m.copy()
        c = CD(dict(states=["a", "b"], exogenous=["z"]), cal)
        v[0] = v[0] + 1
        m[0] = m[0] * 2 + 3
        p.eq(c["states"], v0, "calls leave: a calibration does not follow the arrays of the caller")
        p.eq(c["exogenous"], m0, "calls leave: a calibration does not follow the arrays of the caller")
        p.eq([c["a"], c["b"], c["z"]], [v0[0], v0[1], m0[0]], "calls leave: a calibration does not follow the arrays of the caller")
    else:
        TE = w.get("dolo.numeric.taylor_expansion:TaylorExpansion")
        s, x, xs = p.reals("s", 2), p.reals("x", 2), p.reals("J", (2, 2))
        t = TE([s, x, xs])
        one = t[[0]]
        pt = p.reals("q", (1, 2))
        y0 = t.eval_s(pt)
        one.X_bar[0] = one.X_bar[0] + 1
        one.X_s[0, 0] = one.X_s[0, 0] + 1
        one.S_bar[0] = one.S_bar[0] + 1
        p.eq(t.eval_s(pt), y0, "calls leave: a part of an expansion is a copy")


HARNESSES = [H("printing", printing, [dict(cal=0)], labels=("describing",)), H("owned", owned, [dict(what="calibration"), dict(what="taylor")])]
for s in SOURCES:
    m = importlib.import_module("checks." + s)
    for h in m.HARNESSES:
        cfgs = h.configs[:1] + (h.configs[-1:] if len(h.configs) > 1 else [])
        rest = [c for c in h.configs[1:-1]]
        HARNESSES.append(H("%s.%s" % (s, h.name), make(h), cfgs, rest, opts=h.opts, conc=h.conc, samples=2))
