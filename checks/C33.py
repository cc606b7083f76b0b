"""C33: VoltageDerivativeConstraint."""
from checks.systems import *
from pyvc import cvx
from math import comb

INFO = {"build": True}
PC = "electrode.pattern_constraints"
F = [PC + ".VoltageDerivativeConstraint." + n for n in ("__init__", "get", "coef", "objective", "constraints")]
ORDERS = range(0, 7)


def comp(I, n, f):
    return I.alloc(ListRec((("comp", n, lambda i: T.TRUE, lambda i: (("one", f(i)),)),)), List)


def world(c):
    I, m = load(c, PC)
    L, N, d = T.var("L", "I"), T.var("Ne", "I"), T.var("d", "I")
    I.assume(T.and_(T.le(0, L), T.lt(0, N), T.le(1, d)))
    vs = comp(I, L, lambda l: cvx.Expr(N, lambda i: T.fn("v", (T.lift(l), T.lift(i))), "aff"))
    return I, m, L, N, d, vs


def diff(k, d, i, e):
    """sum_j (-1)^(k-j) C(k,j) v[i+j d] / d^k"""
    tot = T.num(0, "R")
    for j in range(k + 1):
        tot = T.add(tot, T.mul(T.num((-1) ** (k - j) * comb(k, j), "R"), T.fn("v", (T.add(i, T.mul(j, d)), e))))
    return T.div(tot, T.power(T.toreal(d), k)) if k else tot


def count(L, k, d):
    n = T.sub(L, T.mul(k, d))
    return T.ite(T.lt(n, 0), T.num(0), n)


def norm(nm, f, n):
    """the cvxopt contract of sum / max of a vector"""
    if nm == "one":
        e = T.fresh("e", "I")
        return T.summ(e, 0, n, f(e))
    return T.fn("vmax", (T.toreal(n), f(T.var("gmax", "I"))))


def mkget(k):
    @ob("differences of order %d" % k, F)
    def g(c):
        I, m, L, N, d, vs = world(c)
        cls = I.modget(m, "VoltageDerivativeConstraint")
        o = I.call(cls, [k], dict(delta=d))
        n = 0
        for p in c.paths(lambda: I.call(I.getattr(o, "get"), [None, vs])):
            if p.kind == "raise":
                c.fail("get", "raises %s" % (p.value,))
                continue
            n += 1
            c.eq("values", Seq(I.parts(p.value)), Seq((("comp", count(L, k, d), lambda i: T.TRUE,
                 lambda i: (("one", cvx.Expr(N, lambda e: diff(k, d, i, e), "aff")),)),)))
        c.true("returns", n > 0)


def mkuse(k, nm, absolute):
    @ob("objective and bounds, order %d, %s norm, abs=%s" % (k, nm, absolute), F)
    def g(c):
        I, m, L, N, d, vs = world(c)
        cls = I.modget(m, "VoltageDerivativeConstraint")
        w, lo, hi = T.var("w"), T.var("lo"), T.var("hi")
        f = (lambda i: lambda e: T.absv(diff(k, d, i, e))) if absolute else (lambda i: lambda e: diff(k, d, i, e))
        curv = "cvx" if absolute or nm == "inf" else "aff"
        val = lambda i: cvx.Expr(1, lambda e: norm(nm, f(i), N), curv)

        def seq(g):
            return ("comp", count(L, k, d), lambda i: T.TRUE, lambda i: (("one", g(i)),))
        o = I.call(cls, [k], dict(delta=d, weight=w, norm=nm, abs=absolute))
        seen = set()
        for p in c.paths(lambda: Seq(I.parts(I.call(I.getattr(o, "objective"), [None, vs])))):
            if p.kind == "raise":
                c.fail("objective", "raises %s" % (p.value,))
                continue
            zero = I.entails(T.eq(w, 0))
            seen.add(zero)
            if zero:
                c.eq("no objective without weight", p.value, Seq(()))
            else:
                c.eq("objective", p.value, Seq((seq(lambda i: (val(i), w)),)))
        c.true("both cases of the weight", seen == {True, False})
        c.eq("no bounds", c.one("constraints", lambda: Seq(I.parts(I.call(I.getattr(o, "constraints"), [None, vs])))), Seq(()))
        for kw in (dict(max=hi), dict(min=lo), dict(min=lo, max=hi), dict(max=0, min=T.num(0, "R"))):
            o = I.call(cls, [k], dict(delta=d, norm=nm, abs=absolute, **kw))
            want = []
            if "max" in kw:
                want.append(seq(lambda i: con(I, "<=", val(i), kw["max"])))
            if "min" in kw:
                if curv == "cvx":
                    continue                    # not convex: the library refuses
                want.append(seq(lambda i: con(I, ">=", val(i), kw["min"])))
            for v in c.run("constraints", lambda: Seq(I.parts(I.call(I.getattr(o, "constraints"), [None, vs])))):
                c.eq("bounds %s" % sorted(kw), v, Seq(tuple(want)))
            c.eq("no objective by default", c.one("objective", lambda: Seq(I.parts(I.call(I.getattr(o, "objective"), [None, vs])))), Seq(()))


def con(I, op, e, b):
    b = T.toreal(T.lift(b))
    if op == "<=":
        return cvx.Con("<", cvx.Expr(1, lambda i: T.sub(e.f(i), b), e.curv))
    return cvx.Con("<", cvx.Expr(1, lambda i: T.sub(b, e.f(i)), e.curv))


for _k in ORDERS:
    mkget(_k)
for _n in ("one", "inf"):
    for _a in (True, False):
        for _k in (0, 1, 2):
            mkuse(_k, _n, _a)
