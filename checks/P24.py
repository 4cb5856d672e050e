"""Model compilation: model files are read and compiled by the real `Model`/`get_factory` (and the code generator of
dolang); the generated functions are executed with symbolic values of all variables and parameters and compared with
an independent reading of the equations of the file."""
from sxh import H
import re, types, os

BOUNDS = "a fixed set of model files covering every equation type and syntax; all values of all symbols; vectors and batches of 2..3 points"
OUTSIDE = "the grammar of dolang (precedence of unary minus, chained powers); derivatives (numerical, by dolang); equations listed in another order than the symbols"
M = "dolo.compiler.model:"

# documented arguments of each type of function: (symbol group, date relative to the equation)
SIG = dict(
    arbitrage=[("exogenous", 0), ("states", 0), ("controls", 0), ("exogenous", 1), ("states", 1), ("controls", 1)],
    transition=[("exogenous", -1), ("states", -1), ("controls", -1), ("exogenous", 0)],
    value=[("exogenous", 0), ("states", 0), ("controls", 0), ("values", 0), ("exogenous", 1), ("states", 1), ("controls", 1), ("values", 1)],
    expectation=[("exogenous", 1), ("states", 1), ("controls", 1)],
    half_transition=[("exogenous", -1), ("poststates", -1), ("exogenous", 0)],
    direct_response_egm=[("exogenous", 0), ("poststates", 0), ("expectations", 0)],
    reverse_state=[("exogenous", 0), ("poststates", 0), ("controls", 0)],
    direct_response=[("exogenous", 0), ("states", 0), ("expectations", 0)],
    felicity=[("exogenous", 0), ("states", 0), ("controls", 0)],
    arbitrage_exp=[("states", 0), ("controls", 0)],
    auxiliary=[("exogenous", 0), ("states", 0), ("controls", 0)],
    arbitrage_lb=[("exogenous", 0), ("states", 0)],
    arbitrage_ub=[("exogenous", 0), ("states", 0)])
CONDITIONS = ("arbitrage", "arbitrage_exp")

SMALL = dict(
    symbols=dict(exogenous=["e"], states=["k"], controls=["i"], parameters=["p"]),
    equations=dict(arbitrage=["p*i[t+1] - k[t]*i[t] + e[t+1]*k[t+1] - e[t]"], transition=["k[t] = (1-p)*k[t-1] + i[t-1]*e[t] - e[t-1]"]))
TWO = dict(
    symbols=dict(exogenous=["e", "u"], states=["a", "b"], controls=["x", "y"], parameters=["p", "q", "r"]),
    definitions=[("c[t]", "a[t]*x[t] + e[t]"), ("d[t]", "c[t]^2 - y[t]*p"), ("f[t]", "d[t]/(1+c[t]^2) + b[t]")],
    equations=dict(
        arbitrage=["c[t+1]*p - d[t] + y[t+1]*u[t+1]  | 0 <= x[t] <= p*a[t]+e[t]", "f[t+1]/(1+p^2) - q*y[t] - b[t+1]*u[t] | -r <= y[t] <= inf"],
        transition=["a[t] = p*a[t-1] + u[t] + x[t-1]*c[t-1]", "b[t] = q*b[t-1] + e[t-1]*d[t-1] - u[t-1]"]))
ONLY = dict(TWO, definitions=[], equations=dict(
    arbitrage=["x[t+1]*p - y[t] + a[t]/(1+b[t]^2)", "p*(a[t+1]-x[t])*(b[t]-3) - q*y[t+1]  | b[t]-1 <= y[t] <= a[t]*r"],
    transition=["a[t] = p*a[t-1] + u[t] + x[t-1]", "b[t] = q*b[t-1] + e[t-1]*y[t-1] - u[t]"]))
FUNS = dict(
    symbols=dict(exogenous=["e"], states=["w", "z"], controls=["c"], parameters=["beta", "gamma"]),
    definitions=[("mu[t]", "c[t]^(-gamma)"), ("l[t]", "log(w[t]) + mu[t]")],
    equations=dict(
        arbitrage=["beta*(c[t+1]/c[t])^(-gamma)*exp(e[t+1]) - 1 + l[t+1] ⟂ 0 <= c[t] <= w[t]"],
        transition=["w[t] = exp(e[t])*(w[t-1] + c[t-1])^gamma + l[t-1]", "z[t] = sin(z[t-1]) + cos(e[t])*mu[t-1]"]))
EGM = dict(
    symbols=dict(exogenous=["r", "y"], states=["w"], expectations=["m", "n"], values=["V"], poststates=["a"], rewards=["u"], controls=["c"], parameters=["beta", "g", "cb"]),
    definitions=[("s[t]", "w[t] - c[t]*cb")],
    equations=dict(
        transition=["w[t] = r[t] + (w[t-1]-c[t-1])*y[t] + s[t-1]*r[t-1]"],
        arbitrage=["beta*c[t+1]*g*r[t+1] - c[t] + s[t+1]*s[t] | 0 <= c[t] <= w[t]"],
        value=["V[t] = c[t]*g + V[t+1]*beta - s[t]*s[t+1] + y[t+1]*w[t+1]"],
        felicity=["u[t] = c[t]*c[t] - g*s[t] + w[t]*y[t]"],
        expectation=["m[t] = beta*c[t+1] + w[t+1]*s[t+1]", "n[t] = r[t+1]*y[t+1]"],
        half_transition=["w[t] = r[t] + a[t-1]*y[t] - y[t-1]"],
        direct_response_egm=["c[t] = m[t]*g + a[t]*n[t] + r[t]"],
        direct_response=["c[t] = m[t]*g*n[t] + w[t]*y[t]"],
        reverse_state=["w[t] = a[t] + c[t]*g - y[t]*r[t]"]))
# former syntax: lists of equations, dates in parentheses, untimed symbols, mapping of definitions in any order
OLD = dict(
    style="old",
    symbols=dict(states=["W", "z"], controls=["p_f", "x"], exogenous=["e1"], parameters=["beta", "gam", "rho"]),
    definitions=[("c2", "W*gam + c1(0)*e1"), ("c1", "W - p_f*x")],
    equations=dict(
        transition=["W = rho + e1 + gam*W(-1) + c1(-1)", "z = z(-1)*rho - e1*p_f(-1) + e1(-1)"],
        arbitrage=["beta*(c1(1)*gam + c2)/2 - p_f", "p_f*x = c2(1) - z(1)*e1(1)"]))
OLDB = dict(OLD, definitions=[("c1", "W - p_f*x"), ("c2", "W*gam + c1*e1")], equations=dict(
    transition=OLD["equations"]["transition"],
    arbitrage=["beta*c1(1) - p_f*z | 0 <= p_f <= inf", "c2*x - c1(1)*gam  | -beta*W <= x <= z+e1"]))
PLAIN = dict(style="old", symbols=dict(exogenous=["e"], states=["k", "l"], controls=["i"], parameters=["p"]),
             equations=dict(arbitrage=["p*i(1) = k*i + e(1)*k(1) - e/(1+l^2)"], transition=["k = (1-p)*k(-1) + i(-1)*e", "l = e(-1)*l(-1)"],
                            arbitrage_exp=["k*i = p - l", "l*k^3 - i*p"]))
NOEXO = dict(symbols=dict(exogenous=["e"], states=["a", "b", "c"], controls=["x"], parameters=["p"]),
             definitions=[("s[t]", "a[t]+b[t]*c[t]")],
             equations=dict(arbitrage=["s[t] - s[t+1]*p - x[t]*c[t+1]"],
                            transition=["a[t] = b[t-1]", "b[t] = c[t-1] + x[t-1]", "c[t] = a[t-1]*p + e[t]*s[t-1]"]))
MODELS = dict(small=SMALL, two=TWO, only=ONLY, funs=FUNS, egm=EGM, old=OLD, oldb=OLDB, noexo=NOEXO, plain=PLAIN)


def text(m):
    """the model file"""
    out = ["name: Test", "symbols:"]
    for g, l in m["symbols"].items():
        out.append("  %s: [%s]" % (g, ", ".join(l)))
    new = m.get("style") != "old"
    if m.get("definitions"):
        out.append("definitions: |" if new else "definitions:")
        for k, v in m["definitions"]:
            out.append("    %s = %s" % (k, v) if new else "    %s: %s" % (k, v))
    out.append("equations:")
    for g, l in m["equations"].items():
        out.append("    %s: |" % g if new else "    %s:" % g)
        for e in l:
            out.append("        " + e if new else "        - " + e)
    out.append("calibration:")
    for g, l in m["symbols"].items():
        for k, s in enumerate(l):
            out.append("    %s: %s" % (s, 0.5 + 0.1 * k))
    return "\n".join(out) + "\n"


def load(w, m):
    import yaml
    data = yaml.compose(text(m))
    Model = w.get(M + "Model")
    return Model(data, check=False)


SHIFT = re.compile(r"([^\W\d]\w*)\s*(\[\s*t\s*([+-]\s*\d+)?\s*\]|\(\s*([+-]?\d+)\s*\))?")
FUN = ("exp", "log", "sin", "cos")


def read(np, m, env, expr, shift=0, targets=None):
    """value of an expression of the model file, all dates shifted"""
    groups = {s: g for g, l in m["symbols"].items() for s in l}
    defs = {re.match(r"\w+", k).group(0): v for k, v in m.get("definitions", [])}
    def sub(mt):
        nm = mt.group(1)
        if nm in FUN and not mt.group(2):
            return "np." + nm
        if nm == "inf":
            return "INF"
        t = int((mt.group(3) or mt.group(4) or "0").replace(" ", ""))
        return "V(%r,%d)" % (nm, t)
    def V(nm, t):
        if nm in defs:
            return read(np, m, env, defs[nm], shift + t)
        g = groups[nm]
        if g == "parameters":
            return env["parameters", 0][m["symbols"][g].index(nm)]
        if targets and nm in targets and (g, shift + t) not in env:
            return read(np, m, env, targets[nm], shift + t, targets)    # variable defined by a previous equation
        return env[g, shift + t][m["symbols"][g].index(nm)]
    return eval(SHIFT.sub(sub, expr).replace("^", "**"), dict(V=V, np=np, INF=float("inf")))


def bounds(m):
    out = []
    for e in m["equations"]["arbitrage"]:
        if re.search("[|⟂]", e):
            a, b, c = re.split("[|⟂]", e)[1].split("<=")
            out.append((a, c))
        else:
            out.append(("-inf", "inf"))
    return out


def contents(m):
    """(type of function, expressions)"""
    out = {}
    for g, l in m["equations"].items():
        l = [re.split("[|⟂]", e)[0] for e in l]
        if g in CONDITIONS:
            out[g] = ["(%s)-(%s)" % tuple(e.split("=")[::-1]) if "=" in e else e for e in l]
        else:
            out[g] = [e.split("=")[1] for e in l]
    if m.get("definitions"):
        out["auxiliary"] = [re.match(r"\w+", k).group(0) for k, v in m["definitions"]]
    if any(re.search("[|⟂]", e) for e in m["equations"]["arbitrage"]):
        out["arbitrage_lb"] = [b[0] for b in bounds(m)]
        out["arbitrage_ub"] = [b[1] for b in bounds(m)]
    return out


def inputs(p, m, sig, n, tag, lo, hi, flat=()):
    env, args = {}, []
    for k, (g, t) in enumerate(sig):
        d = len(m["symbols"].get(g, []))
        a = p.reals("%s_%s%d" % (tag, g[:3], t + 1), d if (n is None or k in flat) else (n, d), lo=lo, hi=hi)
        env[g, t] = a
        args.append(a)
    return env, args


def same(p, a, v, msg):
    if type(v) is float and abs(v) == float("inf"):
        p.check(isinstance(a, float) and a == v, msg)
    elif p.mode != "sym" and v != v:
        p.check(a != a, msg)    # undefined for these values, e.g. power of a negative number
    else:
        p.eq(a, v, msg)


def functions(p, w, model, n=None, flat=(), which=None):
    np = w.np
    m = MODELS[model]
    mo = load(w, m)
    want = contents(m)
    p.check(set(mo.functions.keys()) == set(want), "one function per block of equations")
    lo, hi = (1, 2) if model == "funs" else (-2, 2)
    par = p.reals("par", len(m["symbols"]["parameters"]), lo=lo, hi=hi)
    for name in want:
        if which and name not in which:
            continue
        sig = SIG[name]
        env, args = inputs(p, m, sig, n, name, lo, hi, flat)
        before = [a.copy() for a in args]
        out = mo.functions[name](*args, par)
        for a, b in zip(args, before):
            p.eq(a, b, "arguments unchanged")
        p.eq(out.shape, ((len(want[name]),) if n is None else (n, len(want[name]))), "shape")
        for r in range(n or 1):
            e = {k: (v if v.ndim == 1 else v[r]) for k, v in env.items()}
            e["parameters", 0] = par
            row = out if n is None else out[r]
            for q, ex in enumerate(want[name]):
                v = read(np, m, e, ex)
                same(p, row[q], v, "function %s evaluates its equations" % name)


def xbounds(p, w, model):
    """bounds of the controls"""
    np = w.np
    m = MODELS[model]
    mo = load(w, m)
    par = p.reals("par", len(m["symbols"]["parameters"]), lo=-2, hi=2)
    env, args = inputs(p, m, SIG["arbitrage_lb"], None, "x", 1, 2)
    env["parameters", 0] = par
    xb = mo.x_bounds
    if not any(re.search("[|⟂]", e) for e in m["equations"]["arbitrage"]):
        p.check(xb is None, "bounds of the controls")
        return
    p.check(len(xb) == 2, "bounds of the controls")
    for k in range(2):
        out = xb[k](*args, par)
        for q, b in enumerate(bounds(m)):
            v = read(np, m, env, b[k])
            same(p, out[q], v, "bounds of the controls")


def refused(p, w, kind):
    """equations that do not match the declarations are refused"""
    import copy
    m = copy.deepcopy(TWO)
    if kind == "order":
        m["equations"]["arbitrage"][0], m["equations"]["arbitrage"][1] = m["equations"]["arbitrage"][1], m["equations"]["arbitrage"][0]
    elif kind == "date":
        m["equations"]["arbitrage"][0] = m["equations"]["arbitrage"][0].replace("<= x[t]", "<= x[t+1]")
    elif kind == "unknown":
        m["definitions"][0] = ("c[t]", "a[t]*nope[t]")
    elif kind == "parameter":
        m["definitions"][0] = ("c[t]", "a[t]*nope")
    elif kind == "variable":
        m["definitions"][0] = ("a[t]", "b[t]*x[t]")
    elif kind == "lead":
        m["definitions"][0] = ("c[t+1]", "a[t]*x[t]")
    x = p.real("dummy", 0, 1)
    try:
        mo = load(w, m)
        mo.functions
        ok = False
    except Exception as e:
        if type(e).__module__.startswith("sx"):
            raise
        ok = True
    p.check(ok, "model is refused")
    p.eq(x, x, "reached")


def plain(node):
    """python value of a part of a file"""
    import yaml
    if isinstance(node, yaml.MappingNode):
        return {plain(k): plain(v) for k, v in node.value}
    if isinstance(node, yaml.SequenceNode):
        return [plain(v) for v in node.value]
    return node.value


def example(fname):
    """description of a model file of the package"""
    import yaml
    d = plain(yaml.compose(open(fname, encoding="utf-8").read()))
    def lines(x):
        x = x.split("\n") if isinstance(x, str) else x
        return [e.split("#")[0].strip() for e in x if e.split("#")[0].strip()]
    defs = d.get("definitions", {})
    if isinstance(defs, str):
        defs = {l.split("=")[0]: l.split("=")[1] for l in lines(defs)}
    return dict(symbols=d["symbols"], definitions=[(k.strip(), v) for k, v in defs.items()], equations={k: lines(v) for k, v in d["equations"].items()})


def examples(p, w, name):
    """model files of the package"""
    np = w.np
    fname = os.path.join(os.environ.get("SX_REPO", "/repo"), "examples", name + ".yaml")
    if not os.path.exists(fname):
        return p.check(True, "function arbitrage")
    m = example(fname)
    mo = w.get("dolo.compiler.model_import:yaml_import")(fname, check=False)
    for g, l in m["symbols"].items():
        p.check(list(mo.symbols[g]) == list(l), "declared symbols")
    want = contents(m)
    p.check(set(mo.functions.keys()) == set(want), "one function per block of equations")
    par = p.reals("par", len(m["symbols"]["parameters"]), lo=0.25, hi=0.75)
    for fn in want:
        sig = SIG[fn]
        env, args = inputs(p, m, sig, None, fn, 1, 2)
        out = mo.functions[fn](*args, par)
        env["parameters", 0] = par
        p.eq(out.shape, (len(want[fn]),), "shape")
        target = None
        if fn not in CONDITIONS and fn in m["equations"]:
            target = dict(zip([e.split("=")[0].strip().split("[")[0].split("(")[0].strip() for e in m["equations"][fn]], want[fn]))
        for q, ex in enumerate(want[fn]):
            same(p, out[q], read(np, m, env, ex, targets=target), "function %s evaluates its equations" % fn)


HARNESSES = [
    H("functions", functions, [dict(model=k) for k in MODELS], [], labels=("function arbitrage", "function transition")),
    H("batches", functions, [dict(model="two", n=2), dict(model="egm", n=2, flat=(0, 4)), dict(model="oldb", n=2, flat=(1, 3)), dict(model="small", n=3, flat=(0, 1))], [dict(model=k, n=3) for k in MODELS], labels=("function arbitrage",)),
    H("bounds", xbounds, [dict(model=k) for k in ("small", "two", "only", "egm", "oldb", "old")], [], labels=("bounds of",)),
    H("examples", examples, [dict(name="models/" + k) for k in ("rbc", "rbc_iid", "rbc_ar1", "rbc_mc", "consumption_savings_iid", "rmt3_ch11")]
      + [dict(name="models_/" + k) for k in ("Figv4_1191", "NK_dsge", "capital", "open_economy", "open_economy_1d", "rbc_taxes", "sudden_stop", "rbc_condition")],
      [dict(name="models_/" + k) for k in ("rbc", "rbc2", "rbc_iid_ar1")], labels=("function arbitrage",)),
    H("refused", refused, [dict(kind=k) for k in ("order", "date", "unknown", "parameter", "variable", "lead")], [], labels=("reached",)),
]
