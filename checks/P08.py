"""Markov chain simulation: the random generator is replaced by a stream of arbitrary uniform numbers in
[0,1), transition probabilities and node values are symbolic.  From state i the simulated chain moves to state
j exactly when the number falls between the cumulated probabilities of row i up to j-1 and up to j, so that
each transition has its tabulated probability; paths start at the requested state, always stay in the state
space, and the values returned are the values of the visited states."""
from sxh import H
from sx.rand import Stream

BOUNDS = "2..3 states, 1..2 simulations, 2..3 dates (thorough: up to 4 states, 4 dates)"
OUTSIDE = "the uniform generator itself; longer horizons (each step is the same code)"
M = "dolo.numeric.processes:"


def trans(p, w, n):
    np = w.np
    P = np.zeros((n, n))
    for i in range(n):
        P[i] = p.simplex("P%d" % i, n)
    return P


def check_moves(p, w, P, inds, us, i0):
    """uniforms are consumed one per move; which one is used where is not prescribed beyond that"""
    n = P.shape[0]
    T, N = inds.shape
    for k in range(N):
        p.eq(inds[0, k], i0[k], "starts at the requested state")
    p.check(len(us) >= (T - 1) * N, "one draw per move")
    orders = []
    for first in (1, 0):
        if len(us) == (T - first) * N or first == 1:
            orders.append([(t, k) for k in range(N) for t in range(first, T)])
            orders.append([(t, k) for t in range(first, T) for k in range(N)])
    return orders


def ok_move(p, w, P, i, j, u):
    lo = sum([P[i, q] for q in range(j)], 0)
    hi = lo + P[i, j]
    return (u >= lo) & (u <= hi)


def walk(p, w, n, N, T, how):
    np = w.np
    P = trans(p, w, n)
    V = p.reals("V", (n, 2))
    start = p.int("start", 0, n - 1)
    start = int(start)
    i0 = [start] * N
    values = None
    with Stream(p, w) as st:
        if how == "indices":
            inds = w.get(M + "simulate_markov_chain")(V, P, N, T, i0=start)
        elif how == "array":
            i0 = [(start + k) % n for k in range(N)]
            import numpy
            inds = w.get(M + "simulate_markov_chain")(V, P, N, T, i0=numpy.array(i0))
        elif how == "default":
            i0 = [0] * N
            inds = w.get(M + "simulate_markov_chain")(V, P, N, T)
        elif how == "values":
            inds, values = w.get(M + "simulate_markov_chain")(V, P, N, T, i0=start, return_values=True)
        elif how == "process":
            # distinct values so that states can be recognized
            for i in range(n):
                V[i, 0] = i * 1.0
            mc = w.get(M + "MarkovChain")(P, V)
            with Stream(p, w, uniforms=lambda k: [0.25, 0.75, 0.5][k % 3]):
                mc.simulate(N, T, i0=n - 1 - start)     # an earlier walk does not matter
            values = mc.simulate(N, T, i0=start)
            import numpy
            inds = numpy.array([[int(values[t, k, 0]) for k in range(N)] for t in range(T)])
    p.eq(inds.shape, (T, N), "dates by simulations")
    orders = check_moves(p, w, P, inds, st.us, i0)
    for t in range(T):
        for k in range(N):
            p.check(0 <= int(inds[t, k]) < n, "state exists")
    # independent draws: either simulation by simulation or date by date
    def cond(order):
        c = True
        for (t, k), u in zip(order, st.us):
            if t > 0:
                c = ok_move(p, w, P, int(inds[t - 1, k]), int(inds[t, k]), u) & c
        return c
    ok = cond(orders[0])
    for o in orders[1:]:
        if o != orders[0]:
            ok = ok | cond(o)
    p.check(ok, "moves follow the tabulated probabilities")
    if values is not None:
        p.eq(values.shape, (T, N, 2), "values: dates, simulations, variables")
        for t in range(T):
            for k in range(N):
                p.eq(values[t, k], V[int(inds[t, k])], "values of the visited states")


def rounding(p, w, n):
    """cumulated probabilities may end slightly below one"""
    np = w.np
    P = p.reals("P", (n, n), lo=0, hi=1)
    for i in range(n):
        P[i, n - 1] = 1 - P[i, :n - 1].sum() - p.real("gap%d" % i, 0, 1e-9)
        p.assume(P[i, n - 1] >= 0)
    V = p.reals("V", (n, 1))
    with Stream(p, w) as st:
        inds = w.get(M + "simulate_markov_chain")(V, P, 1, 2, i0=0)
    p.check(0 <= int(inds[1, 0]) < n, "state exists whatever the rounding")


def frozen(p, w, n, N, T):
    np = w.np
    P = trans(p, w, n)
    V = p.reals("V", (n, 2))
    start = int(p.int("start", 0, n - 1))
    mc = w.get(M + "MarkovChain")(P, V)
    sim = mc.simulate(N, T, i0=start, stochastic=False)
    for t in range(T):
        for k in range(N):
            p.eq(sim[t, k], V[start], "without shocks the chain stays where it starts")


O = dict(max_paths=3000)
HARNESSES = [
    H("walk", walk, [dict(n=2, N=1, T=3, how="indices"), dict(n=3, N=1, T=3, how="indices"), dict(n=2, N=2, T=2, how="array"), dict(n=2, N=2, T=3, how="default"), dict(n=3, N=1, T=2, how="values"),
                     dict(n=2, N=2, T=2, how="values"), dict(n=3, N=1, T=3, how="process"), dict(n=2, N=2, T=2, how="process")],
      [dict(n=4, N=1, T=3, how="indices"), dict(n=2, N=1, T=5, how="process"), dict(n=3, N=2, T=2, how="process")], labels=("moves follow",), opts=O),
    H("rounding", rounding, [dict(n=2), dict(n=3)], labels=("state exists",)),
    H("frozen", frozen, [dict(n=2, N=2, T=3), dict(n=3, N=1, T=2)]),
]
