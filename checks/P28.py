"""Filters: the real HP and band-pass filters are executed on symbolic series (and, for the HP filter, a symbolic
smoothing parameter).  The trend must satisfy the first-order conditions of the documented minimisation problem; the
band-pass filter must be the symmetric moving average of Baxter and King."""
from sxh import H

BOUNDS = "4..6 observations with a symbolic smoothing parameter, up to 9 with fixed ones; 1..3 series; band-pass filters of order 1..3"
OUTSIDE = "fewer than 4 observations (refused by the code); rounding inside sparse solves and FFT convolution"
F = "dolo.numeric.filters:"


def foc(p, w, Y, lam, T, C, tol):
    """T minimises sum (Y-T)^2 + lam sum (second differences of T)^2"""
    np = w.np
    n = len(Y)
    p.check(np.asarray(T).shape == (n,) and np.asarray(C).shape == (n,), "one trend value per observation")
    d = [T[i + 1] - 2 * T[i] + T[i - 1] for i in range(1, n - 1)]    # second difference centred at i = 1..n-2
    for t in range(n):
        s = 0
        for c, m in ((t - 1, 1), (t, -2), (t + 1, 1)):
            if 1 <= c <= n - 2:
                s = s + m * d[c - 1]
        p.eq(T[t] - Y[t] + lam * s, 0, "first-order condition of the trend", tol=tol)
        p.eq(C[t], Y[t] - T[t], "cycle is the deviation from the trend", tol=tol)


def hp(p, w, n, lam, form="array"):
    np = w.np
    Y = p.reals("Y", n, lo=-10, hi=10)
    l = p.real("lam", 0, 50) if lam == "sym" else (1600 if lam == "default" else lam)
    tol = 0 if p.mode == "sym" else 1e-6
    f = w.get(F + "hp_filter")
    data = list(Y) if form == "list" else Y
    Y0 = [y for y in Y]
    T, C = f(data) if lam == "default" else (f(data, lam=l) if form == "kw" else f(data, l))
    foc(p, w, Y0, l, T, C, tol)
    p.eq(np.array(list(data)), np.array(Y0), "data unchanged")


def trend(p, w, n):
    """straight lines are their own trend, whatever the smoothing; the mean of the cycle is zero"""
    np = w.np
    a, b, l = p.real("a", -5, 5), p.real("b", -2, 2), p.real("lam", 0, 50)
    e = p.reals("e", n, lo=-1, hi=1)
    f = w.get(F + "hp_filter")
    tol = 0 if p.mode == "sym" else 1e-6
    T, C = f(np.array([a + b * i for i in range(n)]), l)
    for i in range(n):
        p.eq(T[i], a + b * i, "straight lines are their own trend", tol=tol)
    T2, C2 = f(np.array([e[i] for i in range(n)]), l)
    p.eq(sum(C2[i] for i in range(n)), 0, "zero mean of the cycle", tol=tol)


def series(p, w, k, n, lam):
    np = w.np
    Y = p.reals("Y", (k, n), lo=-10, hi=10)
    l = p.real("lam", 0, 50) if lam == "sym" else lam
    tol = 0 if p.mode == "sym" else 1e-6
    r = w.get(F + "hp_filter")(Y, lam=l)
    p.check(len(r) == 2, "trends and cycles")
    T, C = r
    p.check(np.asarray(T).shape == (k, n) and np.asarray(C).shape == (k, n), "one trend per series")
    for j in range(k):
        foc(p, w, Y[j], l, T[j], C[j], tol)
    try:
        w.get(F + "hp_filter")(np.zeros((2, 2, 5)))
        ok = False
    except Exception:
        ok = True
    p.check(ok, "three-dimensional data is refused")


def band(p, w, n, k, band=None):
    np = w.np
    sin = np.sin
    tol = 0 if p.mode == "sym" else 1e-8
    Y = p.reals("Y", n, lo=-10, hi=10)
    if band is None:
        w1 = p.real("w1", 1.5, 6)
        w2 = w1 + p.real("width", 1, 30)
    else:
        w1, w2 = band
    r = w.get(F + "bandpass_filter")(Y, k, w1, w2)
    # ideal filter for frequencies between 2pi/w2 and 2pi/w1
    hi, lo = np.pi * 2 / w1, np.pi * 2 / w2
    b = [(hi - lo) / np.pi if j == 0 else (sin(hi * j) - sin(lo * j)) / (np.pi * j) for j in range(k + 1)]
    full = [b[abs(j)] for j in range(-k, k + 1)]
    m = sum(full) / len(full)
    p.check(np.asarray(r).shape == (n - 2 * k,), "one value where the moving average is defined")
    for t in range(n - 2 * k):
        p.eq(r[t], sum((full[j] - m) * Y[t + j] for j in range(2 * k + 1)), "symmetric moving average", tol=tol)
    c = p.real("c", -10, 10)
    d = p.real("d", -1, 1)
    for v in w.get(F + "bandpass_filter")(np.array([c + d * i for i in range(n)]), k, w1, w2):
        p.eq(v, 0, "trends are removed", tol=tol)


HARNESSES = [
    H("hp", hp, [dict(n=4, lam="sym"), dict(n=5, lam="sym", form="kw"), dict(n=7, lam="default"), dict(n=6, lam=6.25, form="list"), dict(n=6, lam=0)],
      [dict(n=6, lam="sym"), dict(n=12, lam="default")], labels=("first-order condition", "cycle is")),
    H("trend", trend, [dict(n=4), dict(n=5)], [dict(n=6)], labels=("straight lines", "zero mean")),
    H("series", series, [dict(k=2, n=4, lam="sym"), dict(k=3, n=6, lam=10), dict(k=5, n=4, lam=2.5)], [dict(k=3, n=5, lam="sym")], labels=("first-order condition",)),
    H("band", band, [dict(n=4, k=1), dict(n=5, k=2), dict(n=6, k=2), dict(n=8, k=3)],
      [dict(n=7, k=2, band=(6, 32)), dict(n=10, k=4)], labels=("symmetric moving", "trends are removed")),
]
