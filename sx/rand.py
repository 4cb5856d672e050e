"""A random source shared by both worlds: uniforms are inputs of the harness (arbitrary values of
[0,1)), standard normals are chosen by the harness, every library generator is expressed through them."""
import numpy as _np


class Stream:
    def __init__(self, p, w, normals=None, prefix="u", uniforms=None):
        self.p, self.w, self.normals, self.prefix, self.uniforms = p, w, normals, prefix, uniforms
        self.us, self.nz = [], 0
        self.saved = []

    # ---- primitives
    def u(self):
        if self.uniforms is not None:
            x = self.uniforms(len(self.us))
        else:
            x = self.p.real("%s%d" % (self.prefix, len(self.us)), 0, 1, hi_open=True)
        self.us.append(x)
        return x

    def z(self):
        k = self.nz
        self.nz += 1
        return self.normals(k) if self.normals is not None else 0

    # ---- library generators
    def _shape(self, size):
        return () if size is None else ((int(size),) if _np.ndim(size) == 0 else tuple(int(s) for s in size))

    def _fill(self, size, f):
        sh = self._shape(size)
        if sh == ():
            return f()
        n = int(_np.prod(sh))
        return self.w.np.array([f() for _ in range(n)]).reshape(sh)

    def random(self, size=None):
        return self._fill(size, self.u)

    def rand(self, *sh):
        return self._fill(sh or None, self.u)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(size, lambda: low + (high - low) * self.u())

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        def one():
            if self.uniforms is not None:
                k = int(low) + int(self.uniforms(len(self.us)) * (int(high) - int(low)))
            else:
                k = self.p.int("%s%d" % (self.prefix, len(self.us)), int(low), int(high) - 1)
            self.us.append(k)
            return int(k)
        sh = self._shape(size)
        if sh == ():
            return one()
        return _np.array([one() for _ in range(int(_np.prod(sh)))], dtype=int).reshape(sh)

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, _np.integer)):
            vals = list(range(int(a)))
        else:
            vals = [e for e in a]
        n = len(vals)
        p = [1 / n] * n if p is None else [e for e in p]
        if len(p) != n:
            raise ValueError("'a' and 'p' must have same size")
        def one():
            u = self.u()
            c = 0
            for i in range(n - 1):
                c = c + p[i]
                if u < c:
                    return vals[i]
            return vals[n - 1]
        sh = self._shape(size)
        if sh == ():
            return one()
        l = [one() for _ in range(int(_np.prod(sh)))]
        r = _np.array([int(x) for x in l]) if all(isinstance(v, (int, _np.integer)) for v in vals) else self.w.np.array(l)
        return r.reshape(sh)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda: loc + scale * self.z())

    def standard_normal(self, size=None):
        return self._fill(size, self.z)

    def randn(self, *sh):
        return self._fill(sh or None, self.z)

    def multivariate_normal(self, mean, cov, size=None, **k):
        np = self.w.np
        mean, cov = np.atleast_1d(np.asarray(mean)), np.atleast_2d(np.asarray(cov))
        d = mean.shape[0]
        L = np.linalg.cholesky(cov)
        sh = self._shape(size)
        n = int(_np.prod(sh)) if sh else 1
        rows = [mean + L @ np.array([self.z() for _ in range(d)]) for _ in range(n)]
        r = np.concatenate([x[None, :] for x in rows], axis=0)
        return r.reshape(sh + (d,))

    def seed(self, *a):
        return None

    NAMES = ("random", "rand", "uniform", "randint", "choice", "normal", "standard_normal", "randn", "multivariate_normal", "seed")

    # ---- installation
    def __enter__(self):
        if self.p.mode == "sym":
            from . import arr
            self.saved = dict(arr.RANDOM_HOOK)
            for n in self.NAMES:
                arr.RANDOM_HOOK[n] = getattr(self, n)
            arr.RANDOM_HOOK["random_sample"] = self.random
            arr.RANDOM_HOOK["py_random"] = self.u
            arr.RANDOM_HOOK["py_uniform"] = lambda a, b: a + (b - a) * self.u()
            arr.RANDOM_HOOK["py_gauss"] = lambda m=0.0, s=1.0: m + s * self.z()
            arr.RANDOM_HOOK["py_seed"] = lambda *a: None
            return self
        import random, numpy.random, scipy.stats
        import dolo.numeric.processes as pr
        self.saved = []
        def put(o, n, v):
            self.saved.append((o, n, getattr(o, n)))
            setattr(o, n, v)
        for n in self.NAMES:
            put(numpy.random, n, getattr(self, n))
        put(random, "random", self.u)
        # compiled functions run as their python source, on the same stream
        for mod in (pr,):
            for n, v in list(vars(mod).items()):
                if hasattr(v, "py_func"):
                    put(mod, n, v.py_func)
                elif getattr(v, "__name__", None) == "random" and getattr(v, "__self__", None) is not None and type(v.__self__).__name__ == "Random":
                    put(mod, n, self.u)
        G = type(scipy.stats.multivariate_normal)
        st = self
        def rvs(self_, mean=None, cov=1, size=1, random_state=None):
            r = st.multivariate_normal(mean, cov, size).squeeze()
            return r if r.ndim else r[()]
        put(G, "rvs", rvs)
        F = scipy.stats._multivariate.multivariate_normal_frozen
        def frvs(self_, size=1, random_state=None):
            cov = getattr(self_, "cov_object", None)
            c = cov.covariance if cov is not None else self_.cov
            r = st.multivariate_normal(self_.mean, c, size).squeeze()
            return r if r.ndim else r[()]
        put(F, "rvs", frvs)
        return self

    def __exit__(self, *a):
        if self.p.mode == "sym":
            from . import arr
            arr.RANDOM_HOOK.clear()
            arr.RANDOM_HOOK.update(self.saved)
            return
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)
