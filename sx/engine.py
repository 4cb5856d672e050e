"""Path exploration, goals, counterexamples."""
import sys, math, time, traceback, random, os, signal
from fractions import Fraction
from . import core
from .core import z3, R, B, PathAbort, Unsupported, zc, zb

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.goals = 0
        self.goals_simplifier = 0
        self.goals_concrete = 0
        self.paths = 0
        self.witnessed = 0
        self.decisions = 0
        self.defined = 0
        self.dead = 0
        self.unknown_prune = 0

    def merge(self, o):
        for k, v in o.items():
            setattr(self, k, getattr(self, k) + v)


def solve(constraints, stats, timeout=20000, want_model=True):
    """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
    t0 = time.time()
    stats.queries += 1
    try:
        cs = []
        for c in constraints:
            s = z3.simplify(c)
            if z3.is_false(s):
                stats.unsat += 1
                return "unsat", None
            if not z3.is_true(s):
                cs.append(s)
        if not cs:
            stats.sat += 1
            s = z3.Solver()
            s.check()
            return "sat", s.model()
        plans = [("auto", min(3000, timeout)), ("nra", timeout), ("auto", timeout)]
        for kind, to in plans:
            try:
                if kind == "auto":
                    s = z3.Solver()
                else:
                    s = z3.Then("simplify", "solve-eqs", "propagate-values", "qfnra-nlsat").solver() \
                        if False else z3.SolverFor("QF_NRA")
                s.set("timeout", to)
                s.add(cs)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                stats.unsat += 1
                return "unsat", None
            if r == z3.sat:
                stats.sat += 1
                return "sat", s.model()
        stats.unknown += 1
        return "unknown", None
    finally:
        stats.solver_s += time.time() - t0


# ---------------------------------------------------------------- rational normal form
def numden(t, cache):
    """z3 real term -> (num, den) division free (den None = 1); divisors are assumed nonzero"""
    k = t.get_id()
    r = cache.get(k)
    if r is not None:
        return r[0]
    r = _numden(t, cache)
    cache[k] = (r, t)  # keep t alive so that ids are not reused
    return r


def _m(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a * b


def _numden(t, cache):
    d = t.decl().kind() if z3.is_app(t) else None
    if d == z3.Z3_OP_ADD:
        n, dd = None, None
        for c in t.children():
            a, b = numden(c, cache)
            if n is None:
                n, dd = a, b
            elif b is None and dd is None:
                n = n + a
            elif b is not None and dd is not None and b.eq(dd):
                n = n + a
            else:
                n = _m(n, b) + _m(a, dd)
                dd = _m(dd, b)
        return n, dd
    if d == z3.Z3_OP_SUB:
        cs = t.children()
        n, dd = numden(cs[0], cache)
        for c in cs[1:]:
            a, b = numden(c, cache)
            if (b is None and dd is None) or (b is not None and dd is not None and b.eq(dd)):
                n = n - a
            else:
                n = _m(n, b) - _m(a, dd)
                dd = _m(dd, b)
        return n, dd
    if d == z3.Z3_OP_UMINUS:
        a, b = numden(t.arg(0), cache)
        return -a, b
    if d == z3.Z3_OP_MUL:
        n, dd = None, None
        for c in t.children():
            a, b = numden(c, cache)
            n, dd = _m(n, a), _m(dd, b)
        return n, dd
    if d == z3.Z3_OP_DIV:
        a, b = numden(t.arg(0), cache)
        c, e = numden(t.arg(1), cache)
        if z3.is_rational_value(c) and e is None:
            return a * z3.Q(c.denominator_as_long(), c.numerator_as_long()), b
        return _m(a, e), _m(b, c)
    if d == z3.Z3_OP_ITE:
        a, b = numden(t.arg(1), cache)
        c, e = numden(t.arg(2), cache)
        if b is None and e is None:
            return z3.If(t.arg(0), a, c), None
        one = z3.RealVal(1)
        return z3.If(t.arg(0), a, c), z3.If(t.arg(0), b if b is not None else one, e if e is not None else one)
    if d == z3.Z3_OP_POWER:
        return t, None
    return t, None


def eq_formula(a, b, cache):
    """a == b with denominators cleared"""
    an, ad = numden(a, cache)
    bn, bd = numden(b, cache)
    return _m(an, bd) == _m(bn, ad)


# som normal form in python (fast path that only *prepares* the query given to z3)
def som_zero(e, budget=60000):
    try:
        return z3.simplify(e, som=True, som_blowup=10000, max_steps=2000000)
    except z3.Z3Exception:
        return e


class CandidateViolation(Exception):
    pass


def num(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return v.numerator_as_long() / v.denominator_as_long() if z3.is_rational_value(v) else 0.0


class Path:
    """one symbolic execution"""
    mode = "sym"

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.conds = []
        self.axioms = []
        self.stats = stats
        self.opts = opts
        self.inputs = {}
        self.order = []
        self.apps = {}
        self.sqrts = {}
        self.tables = {}
        self.known = {}
        self.tried = {}
        self.nonzero = {}
        self.violations = []
        self.inconclusive = []
        self.notes = []
        self.cache = {}
        self.nfresh = 0
        self.positive = []
        self.goal_labels = {}
        self._feas = None
        self.keep = []

    # -- inputs ------------------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, pos=False):
        assert name not in self.inputs, name
        x = z3.Real(name)
        self.inputs[name] = (x, lo, hi)
        self.order.append(name)
        if pos:
            lo, lo_open = 0, True
        if lo is not None:
            self.conds.append(x > zc(core.frac(lo)) if lo_open else x >= zc(core.frac(lo)))
        if hi is not None:
            self.conds.append(x < zc(core.frac(hi)) if hi_open else x <= zc(core.frac(hi)))
        if lo is not None and lo >= 0:
            self.positive.append(x)
        return R(x)

    def int(self, name, lo, hi):
        assert name not in self.inputs, name
        x = z3.Int(name)
        self.inputs[name] = (x, lo, hi)
        self.order.append(name)
        self.conds += [x >= lo, x <= hi]
        return R(x)

    def boolean(self, name):
        x = z3.Bool(name)
        self.inputs[name] = (x, None, None)
        self.order.append(name)
        return B(x)

    def reals(self, name, shape, **kw):
        import numpy as np
        from .arr import SArr
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.real(name + "_" + "_".join(map(str, i)), **kw)
        return a.view(SArr)

    def simplex(self, name, n):
        """n nonnegative numbers summing to one"""
        x = self.reals(name, n, lo=0, hi=1)
        x[n - 1] = 1 - x[:n - 1].sum() if n > 1 else 1
        self.assume(x[n - 1] >= 0)
        return x

    def fresh(self, name="t", sort="real"):
        self.nfresh += 1
        n = "!%s%d" % (name, self.nfresh)
        return z3.Real(n) if sort == "real" else z3.Int(n)

    def ufun(self, name, nin, lo=None, hi=None, table=False):
        """arbitrary real function (with values in [lo, hi]); with `table`, its values in a model are replayed"""
        f = z3.Function(name, *([z3.RealSort()] * (nin + 1)))
        def g(*args):
            zs = []
            for a in args:
                l = core.lift(a)
                if l is None or type(l) is float:
                    raise Unsupported("non finite argument of " + name)
                t = l.z
                zs.append(z3.ToReal(t) if t.is_int() else z3.simplify(t, som=True))
            t = f(*zs)
            v = R(t)
            if table:
                self.tables.setdefault(name, []).append((zs, t))
            if lo is not None:
                self.assume(v >= lo)
            if hi is not None:
                self.assume(v <= hi)
            return v
        return g

    # -- path conditions ---------------------------------------------------------
    def assume(self, b, check=False):
        if not core.isB(b) and not core.isR(b):
            if not b:
                raise PathAbort()
            return
        self.conds.append(zb(b))
        self._feas = None

    def base(self):
        return self.conds + self.axioms

    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.known:
            return self.known[k]
        self.keep.append(c)
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            if i > self.opts.get("max_depth", 400):
                raise Unsupported("decision depth bound exceeded")
            self.stats.decisions += 1
            to = self.opts.get("branch_timeout", 5000)
            r1, _ = solve(self.base() + [c], self.stats, to)
            if r1 == "unsat":
                v = False
            else:
                r2, _ = solve(self.base() + [z3.Not(c)], self.stats, to)
                v = True
                if r2 != "unsat":
                    self.alts.append(tuple(self.taken) + (False,))
        self.taken.append(v)
        cc = c if v else z3.Not(c)
        self.conds.append(cc)
        self.known[k] = v
        nk = z3.simplify(z3.Not(c))
        self.keep.append(nk)
        self.known[nk.get_id()] = not v
        return v

    def implied(self, cond):
        """True/False when the path condition settles cond (cheap attempt), else None"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.known:
            return self.known[k]
        n = len(self.conds)
        if k in self.tried and self.tried[k] == n:
            return None
        self.keep.append(c)
        to = self.opts.get("prune_timeout", 250)
        for q, v in ((c, False), (z3.Not(c), True)):
            t0 = time.time()
            s = z3.Solver()
            s.set("timeout", to)
            s.add(self.base())
            s.add(q)
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t0
            if r == z3.unsat:
                self.stats.unsat += 1
                self.known[k] = v
                return v
            if r == z3.sat:
                self.stats.sat += 1
            else:
                self.stats.unknown_prune += 1
        self.tried[k] = n
        return None

    def concretize(self, r):
        t = r.v
        while True:
            res, m = solve(self.base(), self.stats, 5000)
            if res != "sat":
                raise PathAbort() if res == "unsat" else Unsupported("cannot concretize index")
            v = m.eval(t, model_completion=True)
            n = v.as_long()
            # enumerate in increasing order for determinism
            lo = n
            r2, m2 = solve(self.base() + [t < n], self.stats, 5000)
            while r2 == "sat":
                lo = m2.eval(t, model_completion=True).as_long()
                r2, m2 = solve(self.base() + [t < lo], self.stats, 5000)
            if self.decide(t == lo):
                return lo

    def require_nonzero(self, t):
        k = t.get_id()
        if k in self.nonzero:
            return None
        self.nonzero[k] = t
        s = z3.simplify(t)
        if z3.is_rational_value(s):
            return None if s.numerator_as_long() != 0 else True
        if self.opts.get("strict_div"):
            if self.decide(t == 0):
                return True
            return None
        self.stats.defined += 1
        self.conds.append(t != 0)
        return None

    def div_zero(self, a):
        if core.isR(a) and a.const:
            return math.nan if a.v == 0 else (math.inf if a.v > 0 else -math.inf)
        return math.nan

    def sqrt(self, a):
        z = z3.simplify(a.z, som=True, som_blowup=300)
        k = z.get_id()
        if k in self.sqrts:
            return self.sqrts[k][0]
        self.keep.append(z)
        for r0, z0 in list(self.sqrts.values())[-16:]:
            if z3.is_true(z3.simplify(z == z0, som=True, som_blowup=300)):
                self.sqrts[k] = (r0, z)
                return r0
        # perfect square of a known nonnegative symbol / product?
        n, d = numden(z, self.cache)
        for cand, term in list(self._root_candidates()):
            f = n == (term * term if d is None else term * term * d)
            if z3.is_true(z3.simplify(f, som=True)):
                self.sqrts[k] = (R(cand), z)
                return self.sqrts[k][0]
        r = self.fresh("sqrt")
        self.axioms += [r >= 0, r * r == z]
        if not a.const:
            self.conds.append(z >= 0)
            self.stats.defined += 1
        self.positive.append(r)
        self.sqrts[k] = (R(r), z)
        return self.sqrts[k][0]

    def _root_candidates(self):
        ps = self.positive
        for p in ps:
            yield p, p
        for i, p in enumerate(ps):
            for q in ps[i + 1:]:
                yield p * q, p * q

    def app(self, name, *args):
        zs = [z3.simplify(a.z, som=True) for a in args]
        key = (name,) + tuple(z.get_id() for z in zs)
        if key in self.apps:
            return R(self.apps[key][0])
        self.keep += zs
        if name == "exp":
            for kk, (v, aa) in self.apps.items():
                if kk[0] == "log" and v.eq(zs[0]):
                    return R(aa[0])
        if name == "log":
            for kk, (v, aa) in self.apps.items():
                if kk[0] == "exp" and v.eq(zs[0]):
                    return R(aa[0])
            self.conds.append(zs[0] > 0)
            self.stats.defined += 1
        v = self.fresh(name)
        self.apps[key] = (v, zs)
        if name == "exp":
            self.axioms.append(v > 0)
            self.axioms.append(v >= 1 + zs[0])
        elif name == "log":
            self.axioms.append(v <= zs[0] - 1)
        elif name == "pow":
            self.axioms.append(z3.Implies(zs[0] > 0, v > 0))
            self.axioms.append(z3.Implies(zs[1] == 1, v == zs[0]))
            self.axioms.append(z3.Implies(zs[1] == 0, v == 1))
        elif name in ("sin", "cos", "tanh"):
            self.axioms += [v <= 1, v >= -1]
        elif name.startswith("cdf"):
            self.axioms += [v <= 1, v >= 0]
        return R(v)

    MONOTONE = ("exp", "log", "tanh", "arctan", "sinh", "cdf", "ppf")

    def congruence(self):
        out = []
        by = {}
        for k, (v, zs) in self.apps.items():
            by.setdefault(k[0], []).append((v, zs))
        for n, l in by.items():
            mono = n.startswith(self.MONOTONE)
            for i in range(len(l)):
                for j in range(i):
                    (v, a), (w, b) = l[i], l[j]
                    out.append(z3.Implies(z3.And([x == y for x, y in zip(a, b)]), v == w))
                    if mono and len(a) == 1:
                        if n.startswith(("cdf", "ppf")):
                            out.append(z3.Implies(a[0] <= b[0], v <= w))
                            out.append(z3.Implies(b[0] <= a[0], w <= v))
                        else:
                            out.append(z3.Implies(a[0] < b[0], v < w))
                            out.append(z3.Implies(b[0] < a[0], w < v))
                    elif mono and len(a) > 1:
                        # first argument monotone, rest equal
                        same = [x == y for x, y in zip(a[1:], b[1:])]
                        out.append(z3.Implies(z3.And(same + [a[0] <= b[0]]), v <= w))
                        out.append(z3.Implies(z3.And(same + [b[0] <= a[0]]), w <= v))
        return out

    # -- goals --------------------------------------------------------------------
    def check(self, b, label):
        """assert a boolean on every path"""
        self.stats.goals += 1
        self.goal_labels[label] = self.goal_labels.get(label, 0) + 1
        if not core.isB(b) and not core.isR(b):
            self.stats.goals_concrete += 1
            if b:
                return True
            return self._report(label, [])
        c = z3.simplify(zb(b))
        if z3.is_true(c):
            self.stats.goals_simplifier += 1
            return True
        return self._prove(z3.Not(c), label, None)

    def eq(self, a, b, label, tol=0):
        """elementwise equality of arrays / scalars"""
        import numpy as np
        self.goal_labels[label] = self.goal_labels.get(label, 0) + 1
        A, Bb = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if A.shape != Bb.shape:
            self.stats.goals += 1
            self.stats.goals_concrete += 1
            return self._report(label + ": shape %s != %s" % (A.shape, Bb.shape), [])
        diffs, robust = [], []
        for x, y in zip(A.ravel(), Bb.ravel()):
            self.stats.goals += 1
            x0, y0 = x, y
            x, y = core.lift(x), core.lift(y)
            if x is None or y is None:
                self.stats.goals_concrete += 1
                if x0 is y0 or (not isinstance(x0, np.ndarray) and bool(x0 == y0)):
                    continue
                return self._report(label + ": %r != %r" % (x0, y0), [])
            if type(x) is float or type(y) is float:
                self.stats.goals_concrete += 1
                if type(x) is float and type(y) is float and (x == y):
                    continue
                return self._report(label + ": %r != %r" % (x, y), [])
            if x.const and y.const:
                self.stats.goals_concrete += 1
                if abs(x.v - y.v) <= max(core.frac(tol), Fraction(1, 10**11) * max(1, abs(x.v))):
                    continue
                return self._report(label + ": %s != %s" % (float(x.v), float(y.v)), [])
            xz, yz = x.z, y.z
            if xz.eq(yz):
                self.stats.goals_simplifier += 1
                continue
            f = eq_formula(xz, yz, self.cache)
            s = som_zero(f)
            if z3.is_true(s):
                self.stats.goals_simplifier += 1
                continue
            if tol:
                d = xz - yz
                t = zc(core.frac(tol))
                diffs.append(z3.Or(d > t, d < -t))
            else:
                diffs.append(z3.Not(f))
            robust.append((xz, yz))
        if not diffs:
            return True
        return self._prove(z3.Or(diffs), label, robust)

    def le(self, a, b, label):
        import numpy as np
        A, Bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        ok = True
        for x, y in zip(A.ravel(), Bb.ravel()):
            ok = self.check(core.le(x, y), label) and ok
        return ok

    def lt(self, a, b, label):
        import numpy as np
        A, Bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        ok = True
        for x, y in zip(A.ravel(), Bb.ravel()):
            ok = self.check(core.lt(x, y), label) and ok
        return ok

    def zero_iff(self, v, r, label):
        """v vanishes exactly where r does"""
        self.goal_labels[label] = self.goal_labels.get(label, 0) + 1
        self.stats.goals += 1
        v, r = core.lift(v), core.lift(r)
        if type(v) is float or type(r) is float:
            return self._report(label + ": not a number", [])
        v, r = v.z, r.z
        out = lambda t, g: z3.Or(t > g, t < -g) if g is not None else t != 0
        one = lambda g: z3.Or(z3.And(v == 0, out(r, g)), z3.And(r == 0, out(v, g)))
        base = self.base()
        res, m = solve(base + [one(None)], self.stats, self.opts.get("timeout", 20000))
        if res == "unsat":
            return True
        if res == "unknown":
            self.inconclusive.append(label)
            self._report(label, [], model=None, sure=False)
            return False
        for g in (z3.Q(1, 2), z3.Q(1, 20)):
            r2, m2 = solve(base + [one(g)] + self._nice()[:16], self.stats, 5000)
            if r2 == "sat":
                m = m2
                break
        return self._report(label, [], model=m)

    def _prove(self, neg, label, robust):
        to = self.opts.get("timeout", 20000)
        base = self.base()
        r, m = solve(base + [neg], self.stats, to)
        cong = []
        if r != "unsat" and self.apps:
            cong = self.congruence()
            if cong:
                r, m = solve(base + cong + [neg], self.stats, to)
        if r == "unsat":
            return True
        if r == "unknown":
            self.inconclusive.append(label)
            # a model of the path may still expose the failure when replayed
            self._report(label, cong, model=None, sure=False)
            return False
        if robust is not None:
            # the difference must exceed what floating point constants can produce
            eps = z3.Q(1, 10**9)
            rob = z3.Or([z3.Or(x - y > eps, y - x > eps) for x, y in robust])
            r2, m2 = solve(base + cong + [rob], self.stats, to)
            if r2 == "unsat":
                self.notes.append("equal up to 1e-9: " + label)
                return True
            if r2 == "sat":
                m = m2
            big = z3.Q(1, 50)
            rob2 = z3.Or([z3.Or(x - y > big, y - x > big) for x, y in robust])
            r3, m3 = solve(base + cong + [rob2] + self._nice(), self.stats, 5000)
            if r3 == "sat":
                m = m3
        else:
            r3, m3 = solve(base + cong + [neg] + self._nice(), self.stats, 5000)
            if r3 == "sat":
                m = m3
        return self._report(label, cong, model=m)

    def _nice(self):
        """prefer generic, moderate values"""
        out = []
        xs = [x for (x, lo, hi) in self.inputs.values() if not z3.is_bool(x) and x.is_real()]
        for x in xs:
            out += [x <= 8, x >= -8]
        xs = xs[:8]
        for i in range(len(xs)):
            out.append(z3.Or(xs[i] > z3.Q(1, 10), xs[i] < -z3.Q(1, 10)))
            for j in range(i):
                out.append(z3.Or(xs[i] - xs[j] > z3.Q(1, 20), xs[j] - xs[i] > z3.Q(1, 20)))
        return out

    def _report(self, label, cong, model=None, sure=True):
        if model is None:
            base = self.base()
            r, model = solve(base + (cong or self.congruence()) + self._nice(), self.stats, 5000)
            if r != "sat":
                r, model = solve(base + (cong or self.congruence()), self.stats, 10000)
            if r == "unsat":
                return True  # unreachable path
            if r == "unknown":
                self.inconclusive.append(label)
                model = None
        vals = self.model_values(model) if model is not None else {}
        self.violations.append(dict(label=label, values=vals, sure=sure))
        return False

    def model_values(self, m):
        out = {}
        for n in self.order:
            x = self.inputs[n][0]
            v = m.eval(x, model_completion=True)
            if z3.is_bool(x):
                out[n] = bool(z3.is_true(v))
            elif z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = v.numerator_as_long() / v.denominator_as_long()
            elif z3.is_algebraic_value(v):
                a = v.approx(20)
                out[n] = a.numerator_as_long() / a.denominator_as_long()
            else:
                out[n] = 0.0
        for n, rows in self.tables.items():
            out["ufun:" + n] = [[num(m.eval(x, model_completion=True)) for x in zs] + [num(m.eval(t, model_completion=True))] for zs, t in rows]
        return out

    def feasible(self):
        r, m = solve(self.base(), self.stats, 10000)
        return r, m


class ConcPath:
    """the same harness on plain floats and the real package"""
    mode = "conc"

    def __init__(self, values, seed=0, tol=1e-6, observe=False):
        self.values = values
        self.rng = random.Random(seed)
        self.failures = []
        self.checked = 0
        self.tol = tol
        self.used = {}
        self.notes = []
        self.opts = {}

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, pos=False):
        if pos:
            lo, lo_open = 0, True
        if name in self.values:
            v = float(self.values[name])
        else:
            a = -2.0 if lo is None else float(lo)
            b = (a + 3.0 if lo is not None else 2.0) if hi is None else float(hi)
            if lo is None and hi is not None:
                a = b - 3.0
            v = a + (b - a) * (0.08 + 0.84 * self.rng.random())
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        v = int(self.values[name]) if name in self.values else self.rng.randint(lo, hi)
        self.used[name] = v
        return v

    def boolean(self, name):
        v = bool(self.values[name]) if name in self.values else self.rng.random() < .5
        self.used[name] = v
        return v

    def reals(self, name, shape, **kw):
        import numpy as np
        if isinstance(shape, int):
            shape = (shape,)
        a = np.zeros(shape)
        for i in np.ndindex(*shape):
            a[i] = self.real(name + "_" + "_".join(map(str, i)), **kw)
        return a

    def simplex(self, name, n):
        import numpy as np
        raw = [self.rng.expovariate(1) + 0.02 for _ in range(n)]
        x = np.zeros(n)
        for i in range(n):
            k = "%s_%d" % (name, i)
            x[i] = float(self.values[k]) if k in self.values else raw[i] / sum(raw)
            self.used[k] = float(x[i])
        x[n - 1] = 1 - x[:n - 1].sum() if n > 1 else 1
        self.assume(x[n - 1] >= 0)
        return x

    def ufun(self, name, nin, lo=None, hi=None, table=False):
        rng = random.Random("uf" + name)
        c = [rng.uniform(-1, 1) for _ in range(nin)]
        q = [[rng.uniform(-.2, .2) for _ in range(nin)] for _ in range(nin)]
        s = [rng.uniform(-1, 1) for _ in range(nin)]
        k = rng.uniform(-1, 1)
        rows = self.values.get("ufun:" + name, []) if table else []
        if rows:
            self.used["ufun:" + name] = rows
        def g(*args):
            for row in rows:
                if all(abs(x - y) < 1e-7 for x, y in zip(row, args)):
                    return row[-1]
            r = k
            for i in range(nin):
                r = r + c[i] * args[i] + s[i] * math.sin(1.3 * args[i] + i)
                for j in range(nin):
                    r = r + q[i][j] * args[i] * args[j]
            if lo is not None and hi is not None:
                r = lo + (hi - lo) * (0.5 + 0.45 * math.sin(r))
            return r
        return g

    def assume(self, b, check=False):
        if not b:
            raise PathAbort()

    def check(self, b, label):
        self.checked += 1
        if not bool(b):
            self.failures.append(label)
            return False
        return True

    def eq(self, a, b, label, tol=0):
        import numpy as np
        self.checked += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.failures.append("%s: shape %s != %s" % (label, a.shape, b.shape))
            return False
        if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
            try:
                a, b = a.astype(float), b.astype(float)
            except Exception:
                ok = all(x == y for x, y in zip(a.ravel(), b.ravel()))
                if not ok:
                    self.failures.append(label)
                return ok
        if a.dtype.kind == "b" or b.dtype.kind == "b":
            a, b = a.astype(float), b.astype(float)
        t = max(self.tol, tol)
        ok = bool(np.all((a == b) | (np.abs(a - b) <= t * (1 + np.abs(b)))))
        if not ok:
            i = int(np.argmax(~((a == b) | (np.abs(a - b) <= t * (1 + np.abs(b)))).ravel()))
            self.failures.append("%s: got %r, expected %r (element %d)" % (label, a.ravel()[i].item(), b.ravel()[i].item(), i))
        return ok

    def zero_iff(self, v, r, label):
        self.checked += 1
        v, r = abs(float(v)), abs(float(r))
        if not (v < 1e300 and r < 1e300) or (v <= 1e-9 and r > 1e-3) or (r <= 1e-12 and v > 1e-3):
            self.failures.append("%s: %r and %r" % (label, v, r))
            return False
        return True

    def le(self, a, b, label):
        import numpy as np
        self.checked += 1
        a, b = np.asarray(a, float), np.asarray(b, float)
        ok = bool(np.all(a <= b + 1e-9 * (1 + np.abs(np.where(np.isfinite(b), b, 0)))))
        if not ok:
            self.failures.append(label)
        return ok

    def lt(self, a, b, label):
        import numpy as np
        self.checked += 1
        ok = bool(np.all(np.asarray(a, float) < np.asarray(b, float)))
        if not ok:
            self.failures.append(label)
        return ok


class WarmPath(Path):
    """an execution with constants, before the symbolic ones: what the package keeps from it (caches, tables, module
    state) must not show in later calls.  Nothing is decided here."""

    def __init__(self, opts):
        super().__init__((), Stats(), dict(opts, timeout=200, branch_timeout=100))
        self.conc = ConcPath({}, seed=4242)
        self.left = 300

    def const(self, v):
        return core.lift(Fraction(v).limit_denominator(1000))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, pos=False):
        return self.const(self.conc.real(name, lo, hi, lo_open, hi_open, pos))

    def int(self, name, lo, hi):
        return self.conc.int(name, lo, hi)

    def boolean(self, name):
        return self.conc.boolean(name)

    def simplex(self, name, n):
        v = [Fraction(float(e)).limit_denominator(1000) for e in self.conc.simplex(name, n)]
        v[n - 1] = 1 - sum(v[:n - 1], Fraction(0))
        x = self.reals(name, n, lo=0, hi=1)
        for i in range(n):
            x[i] = core.lift(v[i])
        return x

    def ufun(self, name, nin, lo=None, hi=None, table=False):
        g = self.conc.ufun(name, nin, lo, hi)
        def f(*args):
            try:
                return self.const(g(*[float(core.lift(a).v) for a in args]))
            except (TypeError, AttributeError, OverflowError, ValueError):
                return self.const(0.5)
        return f

    def assume(self, b, check=False):
        if not core.isB(b) and not core.isR(b) and not b:
            raise PathAbort()

    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_false(c):
            return False
        self.left -= 1
        if self.left < 0:
            raise PathAbort()
        return True

    def check(self, b, label):
        return True

    def eq(self, a, b, label, tol=0):
        return True

    def zero_iff(self, v, r, label):
        return True


def warm(fn, world, opts, seconds=5):
    def late(*a):
        raise PathAbort()
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        core.CUR = WarmPath(opts)
        fn(core.CUR, world)
    except (Exception, PathAbort):
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        core.CUR = None


def explore(fn, world, stats, opts):
    """run fn(path, world) over all feasible paths"""
    if opts.get("warm", True) and os.environ.get("SX_WARM", "1") == "1":
        warm(fn, world, opts)
    work = [()]
    result = dict(violations=[], inconclusive=[], unsupported=[], notes=[], labels={}, witnesses=[])
    maxp = opts.get("max_paths", 400)
    t0 = time.time()
    budget = opts.get("budget_s", 600)
    while work:
        if stats.paths >= maxp or time.time() - t0 > budget:
            result["inconclusive"].append("path bound exceeded (%d paths)" % stats.paths)
            break
        prefix = work.pop()
        p = Path(prefix, stats, opts)
        core.CUR = p
        stats.paths += 1
        status = "done"
        try:
            fn(p, world)
        except PathAbort:
            status = "aborted"
        except Unsupported as e:
            status = "unsupported"
            result["unsupported"].append("%s\n%s" % (e, "".join(traceback.format_exc().splitlines(True)[-12:])))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ""
            for fr in reversed(tb):
                if "/repo/" in fr.filename:
                    where = " at %s:%d" % (fr.filename.replace("/repo/", ""), fr.lineno)
                    break
            status = "exception"
            p._report("exception %s: %s%s" % (type(e).__name__, str(e)[:200], where), None)
            if p.violations:
                p.violations[-1]["tb"] = "".join(traceback.format_exception(e)[-14:])
        work += p.alts
        if status == "done" or status == "exception":
            r, m = p.feasible()
            if r == "sat":
                stats.witnessed += 1
                if len(result["witnesses"]) < opts.get("max_witnesses", 3):
                    result["witnesses"].append(p.model_values(m))
            elif r == "unsat":
                stats.dead += 1
            if r != "unsat":
                for k, v in p.goal_labels.items():
                    result["labels"][k] = result["labels"].get(k, 0) + v
        for v in p.violations:
            if len(result["violations"]) < 12:
                result["violations"].append(v)
        result["inconclusive"] += p.inconclusive[:5]
        result["notes"] += p.notes[:5]
        core.CUR = None
    return result
