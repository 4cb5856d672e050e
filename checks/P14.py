"""Linear solves and multilinear products: Gaussian elimination kernels (single and serial, in-place and not),
serial products, tensor-matrix products and the Sylvester solver are executed on symbolic matrices.  Every pivot
order that the symbolic entries allow is explored; each result is required to satisfy its defining equation."""
from sxh import H
import itertools

BOUNDS = "systems of size 1..2 with all entries symbolic, size 3 with symbolic right-hand sides; 1..2 observations; tensors with 2..4 indices of size 1..2"
OUTSIDE = "singular systems; the slycot variant of the Sylvester solver; larger systems (same loops)"


def system(p, w, N, n, name="A", const=False):
    np = w.np
    if const:
        base = [[[2, -1, 0.5], [4, 3, -1], [-1, 2.5, 1]], [[0, 2, 1], [1, 0, -3], [2, 1, 1]]]
        A = np.array([np.array(base[k % 2])[:n, :n] for k in range(N)])
        # one symbolic entry per matrix keeps the pivot order open
        for k in range(N):
            A[k, n - 1, 0] = p.real("%s%d" % (name, k), 0.6, 6)
        return A
    A = p.reals(name, (N, n, n))
    for k in range(N):
        d = A[k, 0, 0] if n == 1 else A[k, 0, 0] * A[k, 1, 1] - A[k, 0, 1] * A[k, 1, 0]
        p.assume((d > 1e-3) | (d < -1e-3))
    return A


def serial(p, w, N, n, mod, const=False):
    np = w.np
    A = system(p, w, N, n, const=const)
    B = p.reals("B", (N, n))
    f = w.get(mod + ":serial_solve")
    A0, B0 = A.copy(), B.copy()
    for kw in ({}, dict(diagnose=True), dict(diagnose=False)):
        x = f(A, B, **kw)
        for k in range(N):
            p.eq(A0[k] @ x[k], B0[k], "solution of each system %s" % (kw or ""))
        p.eq(A, A0, "matrix unchanged")
        p.eq(B, B0, "right-hand side unchanged")


def gauss(p, w, n, mod, const=False):
    np = w.np
    A = system(p, w, 1, n, const=const)[0]
    b = p.reals("b", n)
    M = np.concatenate([A, b[:, None]], axis=1)
    sol = np.zeros(n)
    w.py(w.get(mod + ":solve"))(M, sol)
    p.eq(A @ sol, b, "elimination solves the system")


def inv(p, w, n, kind, cols=2, const=False):
    np = w.np
    A = system(p, w, 1, n, const=const)[0]
    A0 = A.copy()
    I = w.mod("dolo.algos.invert")
    if kind == "matrix":
        B = p.reals("B", (n, cols))
        B0 = B.copy()
        I.invert(A, B)
        p.eq(A0 @ B, B0, "in-place solution")
    elif kind == "vector":
        B = p.reals("B", n)
        B0 = B.copy()
        I.invert(A, B)
        p.eq(A0 @ B, B0, "in-place solution")
    elif kind == "tensor":
        B = p.reals("B", (n, cols, 2))
        B0 = B.copy()
        I.invert(A, B)
        for k in range(2):
            p.eq(A0 @ B[:, :, k], B0[:, :, k], "in-place solution")
    p.eq(A, np.eye(n), "matrix is reduced to the identity")


def invgu(p, w, N, n, const=False):
    np = w.np
    A = system(p, w, N, n, const=const)
    A0 = A.copy()
    I = w.mod("dolo.algos.invert")
    X = I.invert_gu(A)
    for k in range(N):
        p.eq(A0[k] @ X[k], np.eye(n), "inverse")
    b = p.reals("b", (N, n))
    b0 = b.copy()
    x = I.serial_solve(A0, b)
    for k in range(N):
        p.eq(A0[k] @ x[k], b0[k], "serial solution")


def tensor(p, w, n_m, N, n, q=None):
    """solve_tensor and mult_AB: premultiply jacobian blocks by the inverse of the diagonal blocks"""
    np = w.np
    I = w.mod("dolo.algos.invert")
    A = np.zeros((n_m, N, n, n))
    for i in range(n_m):
        A[i] = system(p, w, N, n, name="A%d" % i)
    V = p.reals("V", (n_m, N, n, 2))
    A0, V0 = A.copy(), V.copy()
    I.solve_tensor(A, V)
    for i in range(n_m):
        for k in range(N):
            p.eq(A0[i, k] @ V[i, k], V0[i, k], "serial in-place solution")
    J = p.reals("J", (n_m, N, n, n_m, n))
    R = I.mult_AB(A0, J)
    for i in range(n_m):
        for k in range(N):
            for j in range(n_m):
                p.eq(A0[i, k] @ R[i, k, :, j, :], J[i, k, :, j, :], "blocks multiplied by inverse")


def smul(p, w, N, I, J, K):
    np = w.np
    f = w.get("dolo.numeric.serial_operations:serial_multiplication")
    A = p.reals("A", (N, I, J))
    B = p.reals("B", (N, J, K))
    C = f(A, B)
    p.eq(C.shape, (N, I, K), "shape")
    for n in range(N):
        p.eq(C[n], A[n] @ B[n], "product of each pair of matrices")
    if I > 1:
        p.eq(f(A[0], B[0]), A[0] @ B[0], "product of two matrices")


def tens(p, w, out, dims):
    """M[..., X1..Xk] with matrices or vectors in the last k positions"""
    np = w.np
    n = [2, 1, 2, 2]
    k = len(dims)
    M = p.reals("M", tuple(out) + tuple(n[:k]))
    C = [p.reals("C%d" % i, (n[i],) + ((d,) if d else ())) for i, d in enumerate(dims)]
    R = w.get("dolo.numeric.tensor:mdot")(M, *C)
    shp = tuple(out) + tuple(d for d in dims if d)
    p.eq(R.shape, shp, "shape")
    for ix in itertools.product(*[range(s) for s in shp]):
        o, rest = ix[:len(out)], list(ix[len(out):])
        q = [rest.pop(0) if d else None for d in dims]
        v = 0
        for jx in itertools.product(*[range(n[i]) for i in range(k)]):
            t = M[tuple(o) + jx]
            for i in range(k):
                t = t * (C[i][jx[i], q[i]] if dims[i] else C[i][jx[i]])
            v = v + t
        p.eq(R[ix] if ix else R, v, "tensor times matrices")
    if k == 1 and dims[0]:
        p.eq(w.get("dolo.numeric.tensor:sdot")(M, C[0]), R, "product over last and first index")
    if all(dims):
        p.eq(w.get("dolo.numeric.tensor:multidot_old")(M, C), R, "both implementations agree")


def sylv(p, w, n_c, n_v, n_d, const=False):
    np = w.np
    A = p.reals("A", (n_c, n_c))
    B = p.reals("B", (n_c, n_c))
    C = p.reals("C", (n_v, n_v))
    if const:
        for i in range(n_v):
            for j in range(n_v):
                C[i, j] = [[0.5, 0.25], [-1.0, 0.75]][i][j]
    if n_c > 1 and const:
        B = np.array([[1.0, 2.0], [0.5, -1.0]]) * p.real("b", 0.5, 2)
    D = p.reals("D", (n_c,) + (n_v,) * n_d)
    X = w.get("dolo.numeric.matrix_equations:solve_sylvester")(A, B, C, D)
    p.eq(X.shape, D.shape, "shape of solution")
    for i in range(n_c):
        for ix in itertools.product(range(n_v), repeat=n_d):
            v = D[(i,) + ix]
            for k in range(n_c):
                v = v + A[i, k] * X[(k,) + ix]
                for jx in itertools.product(range(n_v), repeat=n_d):
                    t = B[i, k] * X[(k,) + jx]
                    for a, b in zip(jx, ix):
                        t = t * C[a, b]
                    v = v + t
            p.eq(v, 0, "A X + B X[C..C] + D = 0", tol=1e-6 if p.mode == "conc" else 0)


NW = "dolo.numeric.optimize.newton"
SO = "dolo.numeric.serial_operations"
HARNESSES = [
    H("serial_solve", serial, [dict(N=1, n=1, mod=NW), dict(N=2, n=1, mod=SO), dict(N=1, n=2, mod=NW), dict(N=1, n=2, mod=SO), dict(N=1, n=3, mod=NW, const=True), dict(N=1, n=3, mod=SO, const=True), dict(N=2, n=2, mod=NW, const=True)], [dict(N=2, n=2, mod=NW)], labels=("solution of each",), opts=dict(strict_div=True)),
    H("elimination", gauss, [dict(n=2, mod=NW), dict(n=2, mod=SO), dict(n=3, mod=NW, const=True), dict(n=3, mod=SO, const=True)], opts=dict(strict_div=True)),
    H("invert", inv, [dict(n=1, kind="matrix"), dict(n=2, kind="matrix", cols=1), dict(n=2, kind="matrix", cols=3), dict(n=2, kind="vector"), dict(n=2, kind="tensor"), dict(n=3, kind="matrix", cols=2, const=True), dict(n=3, kind="vector", const=True)], opts=dict(strict_div=True)),
    H("invert_gu", invgu, [dict(N=1, n=2), dict(N=2, n=2, const=True), dict(N=2, n=3, const=True)], opts=dict(strict_div=True)),
    H("solve_tensor", tensor, [dict(n_m=1, N=1, n=2), dict(n_m=2, N=2, n=1)], [dict(n_m=2, N=1, n=2)], opts=dict(strict_div=True)),
    H("serial_multiplication", smul, [dict(N=1, I=2, J=2, K=2), dict(N=2, I=2, J=3, K=1), dict(N=2, I=1, J=2, K=3)]),
    H("mdot", tens, [dict(out=(2,), dims=(2,)), dict(out=(2,), dims=(0,)), dict(out=(2,), dims=(2, 3)), dict(out=(2, 2), dims=(2, 2)), dict(out=(1,), dims=(2, 0)), dict(out=(2,), dims=(2, 1, 2)), dict(out=(), dims=(2, 2))]),
    H("sylvester", sylv, [dict(n_c=1, n_v=1, n_d=1), dict(n_c=1, n_v=1, n_d=2), dict(n_c=1, n_v=2, n_d=1), dict(n_c=2, n_v=1, n_d=2), dict(n_c=2, n_v=2, n_d=1, const=True), dict(n_c=1, n_v=2, n_d=2, const=True), dict(n_c=1, n_v=2, n_d=3, const=True)]),
]
