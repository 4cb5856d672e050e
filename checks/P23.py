"""First order perturbation: the real `perturb`, `get_derivatives`, `approximate_1st_order`, `qzordered` and
`BivariateTaylor` are executed with symbolic derivatives, steady states and eigenvalues.  The QZ decomposition of
scipy is replaced by its contract; the rule obtained must solve the linear model exactly."""
from sxh import H
import sys, os, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from P19 import names, Obj

BOUNDS = "1..2 exogenous variables, states and controls; real eigenvalues in the solution harness, arbitrary complex ones in the ordering harness"
OUTSIDE = "the numerical QZ decomposition (LAPACK); equal eigenvalues; processes other than iid and VAR1 (refused)"
PE = "dolo.algos.perturbation:"
QZ = "dolo.numeric.extern.qz"


def lin(np, sizes, J, point, val):
    """affine function with value `val` at `point` and jacobian J (list of rows)"""
    J = np.array(J)

    def fun(*args, diff=False):
        blocks = [np.asarray(a) for a in args[:len(sizes)]]
        if all(b.ndim == 1 for b in blocks):
            row = [e for b in blocks for e in b]
            out = np.array([val[q] + sum(J[q, k] * (row[k] - point[k]) for k in range(len(row))) for q in range(J.shape[0])])
            if not diff:
                return out
            # derivatives change away from the point
            off = sum((0.5 + 0.25 * k) * (row[k] - point[k]) for k in range(len(row)))
            res, k = [out], 0
            for m in sizes:
                res.append(J[:, k:k + m] + off)
                k += m
            return res
        B = [np.atleast_2d(b) for b in blocks]
        N = max(b.shape[0] for b in B)
        return np.array([fun(*([b[t if b.shape[0] > 1 else 0] for b in B] + list(args[len(sizes):]))) for t in range(N)])
    return fun


def build(p, w, n_m, n_s, n_x, kind, JF, JG):
    np = w.np
    mo = Obj()
    m, s, x = p.reals("mb", n_m, lo=-1, hi=1), p.reals("sb", n_s, lo=-1, hi=1), p.reals("xb", n_x, lo=-1, hi=1)
    f = lin(np, [n_m, n_s, n_x] * 2, JF, list(m) + list(s) + list(x) + list(m) + list(s) + list(x), [0] * n_x)
    g = lin(np, [n_m, n_s, n_x, n_m], JG, list(m) + list(s) + list(x) + list(m), list(s))
    mo.functions = dict(arbitrage=f, transition=g)
    mo.symbols = {k: list(v[:dict(exogenous=n_m, states=n_s, controls=n_x).get(k, 1)]) for k, v in names.items()}
    mo.calibration = dict(exogenous=m, states=s, controls=x, parameters=np.array([1.0]))
    R = None
    if kind == "var1":
        R = p.reals("rho", (n_m, n_m), lo=-1, hi=1)
        S = np.array([[1.0, 0.5], [0.5, 2.0]])[:n_m, :n_m]
        mo.exogenous = w.get("dolo.numeric.processes:VAR1")(ρ=R, Σ=S, μ=m)
    elif kind == "scalar":
        r = p.real("rho", -1, 1)
        R = r * np.eye(n_m)
        S = np.array([[1.0, 0.5], [0.5, 2.0]])[:n_m, :n_m]
        mo.exogenous = w.get("dolo.numeric.processes:VAR1")(ρ=r, Σ=S, μ=m)
    elif kind == "normal":
        mo.exogenous = w.get("dolo.numeric.distribution:Normal")(Σ=np.eye(n_m))
    else:
        mo.exogenous = w.get("dolo.numeric.distribution:UNormal")(σ=1.0, μ=0.0)
    return mo, f, g, m, s, x, R


def derivs(p, w, n_m, n_s, n_x, kind, steady):
    np = w.np
    JF = p.reals("F", (n_x, 2 * (n_m + n_s + n_x)), lo=-2, hi=2)
    JG = p.reals("G", (n_s, 2 * n_m + n_s + n_x), lo=-2, hi=2)
    mo, f, g, m, s, x, R = build(p, w, n_m, n_s, n_x, kind, JF, JG)
    kw = {}
    par = mo.calibration["parameters"]
    if steady:
        kw["steady_state"] = mo.calibration
        mo.calibration = None
    G_s, G_x, G_e, F_s, F_x, F_S, F_X = w.get(PE + "get_derivatives")(mo, **kw)
    dm, ds, dx, e = p.reals("dm", n_m), p.reals("ds", n_s), p.reals("dx", n_x), p.reals("e", n_m)
    dM, dS, dX = p.reals("dM", n_m), p.reals("dS", n_s), p.reals("dX", n_x)
    exo = R is not None
    z = np.concatenate([dm, ds]) if exo else ds
    Z = np.concatenate([dM, dS]) if exo else dS
    got = G_s @ z + G_x @ dx + G_e @ e
    nm = R @ dm + e if exo else e
    S = g(m + dm if exo else m, s + ds, x + dx, m + nm, par) - s
    p.eq(got, np.concatenate([nm, S]) if exo else S, "derivatives of the transitions of all the states")
    got = F_s @ z + F_x @ dx + F_S @ Z + F_X @ dX
    p.eq(got, f(m + dm if exo else m, s + ds, x + dx, m + dM if exo else m, s + dS, x + dX, par), "derivatives of the optimality conditions")


class qzstub:
    """scipy.linalg.ordqz by contract, for pencils with known eigenvectors: lam[i] such that A v = lam B v"""

    def __init__(self, p, w, vecs, n_s, orthogonal=False):
        self.p, self.w, self.vecs, self.n_s, self.orthogonal = p, w, vecs, n_s, orthogonal
        self.calls = 0

    def __enter__(self):
        m = self.w.mod(QZ)
        self.m, self.saved = m, m.ordqz
        if self.p.mode == "sym":
            m.ordqz = self.run
        return self

    def __exit__(self, *a):
        self.m.ordqz = self.saved

    def run(self, A, B, sort=None, output="real", **k):
        p, np = self.p, self.w.np
        n = len(self.vecs)
        al, be = [], []
        self.calls += 1
        for i, (v, lam) in enumerate(self.vecs):
            a, b = A @ v, B @ v
            ok = p.eq(a, lam * b, "eigenvectors of the linear system")
            # scaling of each pair is arbitrary
            sc = [0.5, 2.0, 1.0][i % 3]
            al.append(lam * sc)
            be.append(sc)
        # input order is arbitrary: worst first
        order = list(range(n))[::-1]
        al, be = np.array([al[i] for i in order]), np.array([be[i] for i in order])
        sel = sort(al, be)
        take = [q for q in range(n) if bool(sel[q])]
        rest = [q for q in range(n) if q not in take]
        perm = take + rest
        Z = np.array([[self.vecs[order[q]][0][r] for q in perm] for r in range(n)])
        if self.orthogonal:    # columns of the right factor are orthogonal
            cols = [Z[:, j] for j in range(n)]
            for j in range(n):
                for i in range(j):
                    cols[j] = cols[j] - (cols[i] @ cols[j]) / (cols[i] @ cols[i]) * cols[i]
            Z = np.array([[c[r] for c in cols] for r in range(n)])
        S, T = np.diag(al[perm]), np.diag(be[perm])
        return S, T, al[perm], be[perm], np.eye(n), Z


def solve(p, w, n_s, n_x, where, bk="any"):
    """pencils built from their eigenvectors [1; c] and growth rates: the biggest n_s values of 1/growth are selected"""
    np = w.np
    n = n_s + n_x
    # growth rates mu, all different; the solution must use the n_s smallest ones
    mus = []
    for i in range(n):
        if where == "ok":
            mu = p.real("mu%d" % i, 0.1, 0.9) if i < n_s else p.real("mu%d" % i, 1.1, 3)
        elif where == "multiple":
            mu = p.real("mu%d" % i, 0.1, 0.9)
        elif where == "explosive":
            mu = p.real("mu%d" % i, 1.1, 3)
        else:
            mu = p.real("mu%d" % i, 0.1, 3)
            p.assume((mu < 0.99) | (mu > 1.01))
        mus.append(mu)
    for i in range(n_s):
        for j in range(n_s, n):
            p.assume(mus[i] + 0.05 < mus[j])
    for i in range(n):
        for j in range(i):
            p.assume((mus[i] - mus[j] > 0.02) | (mus[j] - mus[i] > 0.02))
    C = [[0.5, -0.25, 1.5], [-0.75, 0.375, 0.5], [0.25, 1.0, -0.5]]
    if n_s == 1:
        # eigenvectors [1; c_i]
        cs = p.reals("c", (n, n_x), lo=-2, hi=2) if n == 2 else np.array([C[i][:n_x] for i in range(n)])
        if n == 2:
            p.assume((cs[0, 0] - cs[1, 0] > 0.1) | (cs[1, 0] - cs[0, 0] > 0.1))
        vecs = [np.array([1.0] + list(cs[i])) for i in range(n)]
    else:
        cs = p.reals("c", n_x, lo=-2, hi=2)
        base = [[1.0, 0.25], [-0.5, 0.75], [0.75, 0.5]]
        vecs = [np.array(base[i][:n_s] + [[cs[0], 0.5, -1.5][i]]) for i in range(n)]
    V = np.array([[v[r] for v in vecs] for r in range(n)])
    inv = np.linalg.inv
    # growth matrix on all variables: M = V diag(mu) V^-1, today -> tomorrow
    M = V @ np.diag(np.array(mus)) @ inv(V)
    gs, gx = M[:n_s, :n_s], M[:n_s, n_s:]
    fS, fX = np.array([[0.5, -0.25], [0.125, 0.75]])[:n_x, :n_s], np.array([[1.0, 0.25], [-0.5, 1.5]])[:n_x, :n_x]
    low = -(np.concatenate([fS, fX], axis=1) @ M)
    fs, fx = low[:, :n_s], low[:, n_s:]
    Vs = V[:, :n_s]
    good = V[n_s:, :n_s] @ inv(V[:n_s, :n_s])
    st = qzstub(p, w, [(v, 1 / mu) for v, mu in zip(vecs, mus)], n_s)
    with st, warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        out, eig = w.get(PE + "approximate_1st_order")(gs, gx, np.zeros((n_s, 1)), fs, fx, fS, fX)
    tol = 1e-6 if p.mode != "sym" else 0
    p.eq(out, good, "rule on the saddle path of the smallest growth rates", tol=tol)
    P = gs + gx @ out
    p.eq(fs + fx @ out + fS @ P + fX @ out @ P, np.zeros((n_x, n_s)), "rule solves the linear model", tol=tol)
    stable = sum([1 if bool(mu < 1) else 0 for mu in mus])
    if stable == n_s:
        p.check(not any("olution" in str(e.message) for e in ws), "no warning when there is one stable solution")
    else:
        msg = " ".join(str(e.message) for e in ws)
        p.check(("not convergent" in msg) if stable < n_s else ("multiple" in msg), "warning when the stable solution is not unique or does not exist")


def full(p, w, kind, n_m, n_x, where, details=True):
    """complete models with one endogenous state: the rule satisfies all the equations around the steady state"""
    np = w.np
    exo = kind in ("var1", "scalar")
    n_s = 1
    # endogenous part as in `solve`
    mu0 = p.real("mu0", 0.2, 0.8)
    mu1 = p.real("mu1", 1.2, 2) if where == "ok" else p.real("mu1", 0.85, 0.95)
    c0, c1 = p.real("c0", -1, -0.25), 0.5
    fS, fX = 0.5, 1.25
    gx = (mu0 - mu1) / (c0 - c1)
    gs = mu0 - gx * c0
    # fs + fx c + (fS + fX c) mu = 0 for both
    r0, r1 = -(fS + fX * c0) * mu0, -(fS + fX * c1) * mu1
    fx = (r0 - r1) / (c0 - c1)
    fs = r0 - fx * c0
    # exogenous part
    gm, gM = 0.25, 0.5
    if exo:
        rho = p.real("rho", -0.7, 0.15) if where == "ok" else 0.1
        fm, fM = 0.375, -0.5
    else:
        fm, fM = 0, 0
    JF = [[fm, fs, fx, fM, fS, fX]]
    JG = [[gm if exo else 0, gs, gx, gM]]
    mo = Obj()
    m, s, x = p.reals("mb", 1, lo=-1, hi=1), p.reals("sb", 1, lo=-1, hi=1), p.reals("xb", 1, lo=-1, hi=1)
    f = lin(np, [1, 1, 1] * 2, JF, [m[0], s[0], x[0]] * 2, [0])
    g = lin(np, [1, 1, 1, 1], JG, [m[0], s[0], x[0], m[0]], [s[0]])
    mo.functions = dict(arbitrage=f, transition=g)
    mo.symbols = {k: list(v[:1]) for k, v in names.items()}
    mo.calibration = dict(exogenous=m, states=s, controls=x, parameters=np.array([1.0]))
    if exo:
        mo.exogenous = w.get("dolo.numeric.processes:VAR1")(ρ=rho, Σ=np.array([[1.0]]), μ=m)
        # rule x = a dm + c0 ds; coefficients of the exogenous deviation by undetermined coefficients
        gmm = gm + gM * rho
        k = fS + fX * c0
        a = -(fm + fM * rho + k * gmm) / (fx + k * gx + fX * rho)
        p.assume((fx + k * gx + fX * rho > 0.05) | (fx + k * gx + fX * rho < -0.05))
        # eigenvector of growth rate rho in (m, s, x): s-component 0 or not
        # dm=1: ds' = gmm + gs ds + gx x, x = a + c0 ds ; growth rho: ds = (gmm + gx a) / (rho - mu0)
        d = (gmm + gx * a) / (rho - mu0)
        vecs = [(np.array([1.0, d, a + c0 * d]), rho), (np.array([0.0, 1.0, c0]), mu0), (np.array([0.0, 1.0, c1]), mu1)]
        p.assume((rho > 0.05) | (rho < -0.05))
        vecs = [(v, 1 / q) for v, q in vecs]
    else:
        mo.exogenous = w.get("dolo.numeric.distribution:UNormal")(σ=1.0, μ=0.0)
        vecs = [(np.array([1.0, c0]), 1 / mu0), (np.array([1.0, c1]), 1 / mu1)]
    with qzstub(p, w, vecs, n_s) as st, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = w.get(PE + "perturb")(mo, verbose=False, details=details)
    tol = 1e-6 if p.mode != "sym" else 0
    dr = res.dr if details else res
    par = mo.calibration["parameters"]
    dm, ds = p.reals("dm", 1, lo=-1, hi=1), p.reals("ds", 1, lo=-1, hi=1)
    M0 = m + dm if exo else m
    X0 = dr(M0, s + ds)
    p.eq(dr.endo_grid.point, s, "grid of the rule")
    if exo:
        p.eq(dr.exo_grid.point, m, "grid of the rule")
    p.eq(dr(m, s), x, "rule goes through the steady state", tol=tol)
    two = dr(np.array([M0, m]), np.array([s + ds, s]))
    p.eq(two[0], X0, "same values for several points", tol=tol)
    p.eq(two[1], x, "same values for several points", tol=tol)
    p.eq(dr.eval_ms(M0, np.array([s + ds, s]))[0], X0, "same values for several points", tol=tol)
    if not exo:
        p.eq(dr(s + ds), X0, "same values without exogenous argument", tol=tol)
        p.eq(dr.eval_s(s + ds), X0, "same values without exogenous argument", tol=tol)
        p.eq(dr.eval_s(np.array([s, s + ds]))[1], X0, "same values without exogenous argument", tol=tol)
    # expectations: tomorrow's shock is zero on average, everything is linear
    M1 = m + rho * dm if exo else m
    S1 = g(M0, s + ds, X0, M1, par)
    X1 = dr(M1, S1)
    p.eq(f(M0, s + ds, X0, M1, S1, X1, par), 0 * x, "rule satisfies the optimality conditions", tol=tol)
    if not exo or True:
        # deviations vanish at the smallest growth rate
        p.eq(S1 - s if not exo else (g(m, s + ds, dr(m, s + ds), m, par) - s), mu0 * ds, "states follow the smallest growth rate", tol=tol)
    if details:
        p.check(bool(res.stable), "solution is stable")
        p.check(bool(res.unique) == (where == "ok"), "uniqueness of the stable solution is reported")
        e = sorted([1 / abs(q) for q in ([rho] if exo else []) + [mu0, mu1]], key=lambda z: float(z)) if p.mode != "sym" else None
        if e is not None:
            p.eq(np.array(res.generalized_eigenvalues), np.array(e), "reported eigenvalues", tol=1e-6)


class Cx:
    """complex number with symbolic parts"""
    __array_priority__ = 1000

    def __init__(self, np, a, b):
        self.np, self.re, self.im = np, a, b

    def __mul__(self, o):
        if isinstance(o, Cx):
            return Cx(self.np, self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
        return Cx(self.np, self.re * o, self.im * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Cx(self.np, self.re / o, self.im / o)

    def __pow__(self, k):
        assert k == 2
        return self * self

    def __abs__(self):
        return self.np.sqrt(self.re * self.re + self.im * self.im)

    def absolute(self):
        return abs(self)

    def conjugate(self):
        return Cx(self.np, self.re, -self.im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __gt__(self, o):
        # order of numpy: real parts, then imaginary parts
        a, b = (o.re, o.im) if isinstance(o, Cx) else (o, 0)
        return (self.re > a) | ((self.re == a) & (self.im > b))

    def __lt__(self, o):
        a, b = (o.re, o.im) if isinstance(o, Cx) else (o, 0)
        return (self.re < a) | ((self.re == a) & (self.im < b))


def ordering(p, w, crit):
    """the selection handed to the QZ decomposition takes the eigenvalues with modulus above the criterion"""
    np = w.np
    a, b = p.real("re", -3, 3), p.real("im", -3, 3)
    be = p.real("beta", 0.1, 2)
    c = p.real("crit", 0.2, 2) if crit == "any" else crit
    q = w.mod(QZ)
    import numpy
    rec = {}

    def ordqz(A, B, sort=None, **k):
        if p.mode == "sym":
            al = numpy.empty(2, dtype=object)
            al[:] = [Cx(np, a, b), Cx(np, a, -b)]
        else:
            al = numpy.array([complex(a, b), complex(a, -b)])
        r = sort(al, np.array([be, be]))
        rec["sel"] = [bool(e) for e in numpy.ravel(r)]
        rec["al"] = al
        return np.eye(2), np.eye(2), al, np.array([be, be]), np.eye(2), np.eye(2)
    saved = q.ordqz
    q.ordqz = ordqz
    try:
        out = w.get(QZ + ":qzordered")(np.eye(2), np.eye(2), c)
    finally:
        q.ordqz = saved
    mod2 = a * a + b * b
    p.assume((mod2 > 1.0001 * c * c * be * be) | (mod2 < 0.9999 * c * c * be * be))
    for e in rec["sel"]:
        p.check((mod2 > c * c * be * be) if e else (mod2 <= c * c * be * be), "eigenvalues are selected by modulus")
    ev = np.asarray(out[4])
    for k in range(2):
        p.eq(ev[k] * ev[k] * be * be, mod2, "modulus of the eigenvalues")


def second_order(p, w, n):
    """FF P P + GG P + HH = 0 with the n smallest roots of the polynomial"""
    np = w.np
    if n == 1:
        P = np.array([[p.real("stable", -0.95, 0.95)]])
        Q = np.array([[p.real("explosive", 1.05, 4)]])
        F = np.array([[p.real("F", 0.1, 3)]])
        p.assume((P[0, 0] > 0.01) | (P[0, 0] < -0.01))
        vecs = [(np.array([m, 1.0]), 1 / m) for m in (P[0, 0], Q[0, 0])]
    else:
        r = p.real("stable", 0.1, 0.4)
        V, W = np.array([[1.0, 0.5], [-0.25, 1.0]]), np.array([[1.0, -1.0], [0.5, 2.0]])
        inv = np.linalg.inv
        P = V @ np.diag(np.array([r, -0.5])) @ inv(V)
        Q = W @ np.diag(np.array([1.5, -4.0])) @ inv(W)
        F = p.reals("F", (2, 2), lo=-2, hi=2)
        d = F[0, 0] * F[1, 1] - F[0, 1] * F[1, 0]
        p.assume((d > 0.25) | (d < -0.25))
        vecs = [(np.array([m * V[0, j], m * V[1, j], V[0, j], V[1, j]]), 1 / m) for j, m in enumerate((r, -0.5))]
        # explosive roots: (m^2 - m (Q + P) + Q P) v = 0
        for m, j in ((1.5, 0), (-4.0, 1)):
            u = np.linalg.solve(m * np.eye(2) - P, W[:, j])
            vecs.append((np.array([m * u[0], m * u[1], u[0], u[1]]), 1 / m))
    G, Hm = -F @ (Q + P), F @ Q @ P
    F0, G0, H0 = F.copy(), G.copy(), Hm.copy()
    tol = 0 if p.mode == "sym" else 1e-6
    with qzstub(p, w, vecs, n, orthogonal=True):
        ev, X = w.get("dolo.numeric.matrix_equations:second_order_solver")(F, G, Hm)
    p.eq(F0 @ X @ X + G0 @ X + H0, np.zeros((n, n)), "quadratic matrix equation", tol=tol)
    p.eq(X, P, "solution with the stable roots", tol=tol)
    for i in range(2 * n):
        e = ev[i]
        p.check(any(bool((e - abs(l) < 1e-6) & (abs(l) - e < 1e-6)) for v, l in vecs), "roots of the polynomial")
    p.eq(F, F0, "matrices unchanged"); p.eq(G, G0, "matrices unchanged"); p.eq(Hm, H0, "matrices unchanged")


HARNESSES = [
    H("derivatives", derivs, [dict(n_m=1, n_s=1, n_x=1, kind="var1", steady=False), dict(n_m=2, n_s=2, n_x=1, kind="var1", steady=True), dict(n_m=2, n_s=1, n_x=2, kind="scalar", steady=False), dict(n_m=1, n_s=2, n_x=2, kind="unormal", steady=False), dict(n_m=2, n_s=1, n_x=1, kind="normal", steady=True)],
      labels=("derivatives of the transitions",)),
    H("solve", solve, [dict(n_s=1, n_x=1, where="any"), dict(n_s=1, n_x=2, where="ok"), dict(n_s=2, n_x=1, where="ok"), dict(n_s=2, n_x=1, where="multiple"), dict(n_s=2, n_x=1, where="any"), dict(n_s=1, n_x=2, where="explosive")], labels=("rule on the saddle",)),
    H("model", full, [dict(kind="unormal", n_m=1, n_x=1, where="ok"), dict(kind="var1", n_m=1, n_x=1, where="ok"), dict(kind="unormal", n_m=1, n_x=1, where="multiple"), dict(kind="unormal", n_m=1, n_x=1, where="ok", details=False), dict(kind="var1", n_m=1, n_x=1, where="multiple")], labels=("rule satisfies",)),
    H("second_order", second_order, [dict(n=1), dict(n=2)], labels=("quadratic matrix", "solution with the stable")),
    H("ordering", ordering, [dict(crit="any"), dict(crit=1.0)], labels=("eigenvalues are selected",)),
]
