"""Numeric evaluation of terms at random points: finds counterexamples to a
claimed equality (never used to accept one)."""
import random
import hashlib
from fractions import Fraction
import mpmath
from . import terms as T
from . import solver as S

mp = mpmath.mp.clone() if hasattr(mpmath.mp, "clone") else mpmath.mp
mp.dps = 40


class Undef(Exception):
    """evaluation hits an undefined or unknown value"""


EXACT = {"floor": lambda v: int(mp.floor(v)), "ceil": lambda v: int(mp.ceil(v)), "float": lambda v: v,
         "factorial": lambda n: __import__("math").factorial(n)}


class Point(object):
    """a random valuation of variables and uninterpreted functions"""
    def __init__(self, seed, fixed=None, imax=4, lits=()):
        self.seed = seed
        self.rng = random.Random(seed)
        self.vals = dict(fixed or {})
        self.fvals = {}
        self.memo = {}
        self.imax = imax
        self.scope = {}
        self.lits = list(lits)
        self.steps = 0

    def rnd(self, sort, key):
        h = int(hashlib.md5(("%s|%s|%s" % (self.seed, key, sort)).encode()).hexdigest(), 16)
        r = random.Random(h)
        if sort == "I":
            return r.randint(0, self.imax) if r.random() < .85 else r.randint(-self.imax, 2 * self.imax)
        if sort == "R":
            k = r.random()
            if k < .1:
                return mp.mpf(r.randint(-2, 2))
            return mp.mpf(r.randint(-3000, 3000)) / mp.mpf(r.choice([701, 1000, 1013, 2003]))
        if sort == "B":
            return r.random() < .5
        if self.lits and r.random() < .5:
            return ("str", r.choice(self.lits))
        return ("opaque", r.randint(0, 6))

    def ev(self, t):
        m = self.memo.get(t)
        if m is not None and not self.scope:
            return m
        self.steps += 1
        if self.steps > 400000:
            raise Undef("too large")
        if self.scope:
            bound = T.fv(t) & set(self.scope)
            if not bound:
                m = self.memo.get(t)
                if m is not None:
                    return m
                sc, self.scope = self.scope, {}
                try:
                    return self.ev(t)
                finally:
                    self.scope = sc
        v = self._ev(t)
        if not self.scope:
            self.memo[t] = v
        return v

    def key(self, v):
        if isinstance(v, mp.mpf):
            # rounding noise must not separate the arguments of an uninterpreted function
            if abs(v) < 1e-22:
                return "0"
            if abs(v) < 1e9 and v == int(v):
                return repr(int(v))         # equal numbers are equal arguments, whatever their sort
            return mpmath.nstr(v, 23)
        return repr(v)

    def _ev(self, t):
        op = t.op
        ev = self.ev
        if op == "num":
            v = t.args[0]
            if t.sort == "I" and v.denominator == 1:
                return int(v)
            return mp.mpf(v.numerator) / v.denominator
        if op == "var":
            if t in self.scope:
                return self.scope[t]
            if t not in self.vals:
                self.vals[t] = self.rnd(t.sort, t.args[0])
            return self.vals[t]
        if op == "pi":
            return +mp.pi
        if op == "inf":
            return mp.inf
        if op == "ninf":
            return -mp.inf
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "str":
            return ("str", t.args[0])
        if op == "none":
            return ("none",)
        if op == "add":
            r = t.args[1]
            acc = int(r) if r.denominator == 1 else mp.mpf(r.numerator) / r.denominator
            for c, x in t.args[0]:
                v = ev(x)
                if isinstance(v, bool):
                    v = int(v)
                cc = int(c) if c.denominator == 1 else mp.mpf(c.numerator) / c.denominator
                acc += cc * v
            return acc
        if op == "mul":
            c = t.args[0]
            acc = int(c) if c.denominator == 1 else mp.mpf(c.numerator) / c.denominator
            for x, e in t.args[1]:
                v = ev(x)
                if isinstance(v, bool):
                    v = int(v)
                if e < 0:
                    if v == 0:
                        raise Undef("division by zero")
                    acc = acc * mp.mpf(v) ** e
                else:
                    acc = acc * v ** e
            return acc
        if op == "ite":
            return ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
        if op == "lt":
            v = ev(t.args[0])
            return bool(v < -mp.mpf(10) ** -30) if isinstance(v, mp.mpf) else bool(v < 0)
        if op == "eq":
            v = ev(t.args[0])
            return bool(v == 0) if not isinstance(v, mp.mpf) else bool(abs(v) < mp.mpf(10) ** -30)
        if op == "eqs":
            return ev(t.args[0]) == ev(t.args[1])
        if op == "not":
            return not ev(t.args[0])
        if op == "and":
            return all(ev(x) for x in t.args)
        if op in ("sum", "forall"):
            k, lo, hi, b = t.args
            lo, hi = int(ev(lo)), int(ev(hi))
            if hi - lo > 60:
                raise Undef("range too large")
            old = self.scope
            acc = 0
            ok = True
            try:
                for i in range(lo, hi):
                    self.scope = dict(old)
                    self.scope[k] = i
                    v = ev(b)
                    if op == "sum":
                        acc += v
                    else:
                        ok = ok and v
            finally:
                self.scope = old
            return acc if op == "sum" else ok
        if op == "fn" and t.args[0] in EXACT:
            try:
                return EXACT[t.args[0]](*[ev(x) for x in t.args[1:]])
            except (ValueError, TypeError, OverflowError):
                raise Undef(t.args[0])
        if op == "fn":
            a = tuple(self.key(ev(x)) for x in t.args[1:])
            k = (t.args[0], a)
            if k not in self.fvals:
                self.fvals[k] = self.rnd(t.sort, "%s%r" % k)
            return self.fvals[k]
        if op == "floordiv":
            b = ev(t.args[1])
            if b == 0:
                raise Undef("division by zero")
            v = ev(t.args[0])
            return v // b if isinstance(v, int) and isinstance(b, int) else mp.floor(mp.mpf(v) / b)
        if op == "mod":
            b = ev(t.args[1])
            if b == 0:
                raise Undef("division by zero")
            v = ev(t.args[0])
            return v % b if isinstance(v, int) and isinstance(b, int) else v - b * mp.floor(mp.mpf(v) / b)
        if op == "sqrt":
            v = ev(t.args[0])
            if abs(v) < mp.mpf(10) ** -30:
                return mp.mpf(0)
            if v < 0:
                raise Undef("sqrt of a negative number")
            return mp.sqrt(v)
        if op == "abs":
            return abs(ev(t.args[0]))
        if op == "atan2":
            a, b = ev(t.args[0]), ev(t.args[1])
            if a == 0 and b == 0:
                return mp.mpf(0)
            return mp.atan2(a, b)
        if op in ("sin", "cos", "tan", "exp", "atan", "sinh", "cosh", "asinh"):
            v = ev(t.args[0])
            if op == "exp" and abs(v) > 500:
                raise Undef("overflow")
            return getattr(mp, op)(v)
        if op in ("asin", "acos", "log", "acosh"):
            v = getattr(mp, op)(mp.mpf(ev(t.args[0])))
            if isinstance(v, mp.mpc):
                raise Undef("domain")
            return v
        if op == "pows":
            b, e = ev(t.args[0]), ev(t.args[1])
            if b == 0 and e < 0:
                raise Undef("division by zero")
            v = mp.power(b, e) if not (isinstance(b, int) and isinstance(e, int) and e >= 0) else b ** e
            if isinstance(v, mp.mpc):
                raise Undef("domain")
            return v
        if op == "max":
            return max(ev(x) for x in t.args)
        if op == "min":
            return min(ev(x) for x in t.args)
        if op == "trunc":
            return int(ev(t.args[0]))
        if op == "floor":
            return int(mp.floor(ev(t.args[0])))
        raise Undef("cannot evaluate %s" % op)


def literals(ts):
    out = set()
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "str":
            out.add(x.args[0])
        st.extend(T.children(x))
    return sorted(out)


def fixed_from_model(pc, vars_):
    """values of the variables from a z3 model of the path condition"""
    m = S.model(pc)
    if m is None:
        return None
    model, c = m
    out = {}
    import z3
    for v in vars_:
        if v.op != "var" or v.sort not in "IRB":
            continue
        e = model.eval(c.tr(v), model_completion=False)
        if z3.is_int_value(e):
            out[v] = e.as_long()
        elif z3.is_rational_value(e):
            out[v] = mp.mpf(e.numerator_as_long()) / e.denominator_as_long()
        elif z3.is_true(e):
            out[v] = True
        elif z3.is_false(e):
            out[v] = False
    return out


def points(pc, extra, seed, want=6, tries=400):
    """up to `want` random points satisfying every condition of pc"""
    pc = [c for c in pc if c is not T.TRUE]
    lits = literals(list(pc) + list(extra))
    vs = set()
    for t in list(pc) + list(extra):
        vs |= {v for v in T.fv(t) if isinstance(v, T.Term)}
    n = 0
    order = sorted(pc, key=lambda c: len(T.fv(c)))
    fails = 0
    fixed = None
    for i in range(tries):
        if i == tries // 3 and n == 0:
            fixed = fixed_from_model(pc, vs)
            if fixed is None:
                return
        pvals = None
        if fixed is not None:
            # keep the model's values for a shrinking random subset
            r = random.Random(seed * 7919 + i)
            keep = 1.0 if i < tries // 2 else .8
            pvals = {k: v for k, v in fixed.items() if r.random() < keep}
        p = Point("%s-%d" % (seed, i), pvals, imax=2 + i % 4, lits=lits)
        try:
            if all(p.ev(c) for c in order):
                yield p
                n += 1
                if n >= want:
                    return
        except (Undef, ZeroDivisionError, OverflowError, TypeError, ValueError):
            continue


def differ(a, b, p, tol=mp.mpf(10) ** -12):
    """True when the values of a and b at p are definitely different"""
    x, y = p.ev(a), p.ev(b)
    if isinstance(x, tuple) or isinstance(y, tuple):
        return x != y
    if isinstance(x, bool) and isinstance(y, bool):
        return x != y
    x, y = mp.mpf(x), mp.mpf(y)
    if mp.isnan(x) or mp.isnan(y):
        raise Undef("nan")
    return abs(x - y) > tol * (1 + abs(x) + abs(y))
