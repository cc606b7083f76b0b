import itertools
from lib import *
from bsys import change, system
import cvxopt, cvxopt.modeling
from electrode.pattern_constraints import (PotentialObjective, MultiPotentialObjective, SingleValueConstraint,
                                           PatternRangeConstraint)

NAMES = [[""], "x y z".split(), "xx xy xz yy yz".split(), "xxy xxz yyz xyy xzz yzz xyz".split(),
         "xxxy xxxz xxyy xxzz xyyy xzzz yyyz yyzz yzzz".split(), "xxxyy xxxyz xxxzz xxyyy xxyyz xxyzz xxzzz xyyyz xyyzz yyyzz yyzzz".split()]


def comp(c, order, t):
    """component t of the harmonic tensor with reduced components c (least squares over the trace equations)"""
    return full(c, order)[tuple(t)]


def full(c, order):
    keys = [k for k in itertools.combinations_with_replacement(range(3), order)]
    pos = {k: i for i, k in enumerate(keys)}
    A, B = [], []
    for i, n in enumerate(NAMES[order]):
        r = np.zeros(len(keys))
        r[pos[tuple(sorted("xyz".index(q) for q in n))]] = 1
        A.append(r)
        B.append(c[..., i])
    if order >= 2:
        for t in itertools.combinations_with_replacement(range(3), order - 2):
            r = np.zeros(len(keys))
            for a in range(3):
                r[pos[tuple(sorted(t + (a, a)))]] += 1
            A.append(r)
            B.append(0 * c[..., 0])
    v = np.linalg.lstsq(np.array(A), np.array(B), rcond=None)[0]
    out = np.zeros((3,) * order + v.shape[1:])
    for t in itertools.product(range(3), repeat=order):
        out[t] = v[pos[tuple(sorted(t))]]
    return out


def rot(rng):
    """orthogonal matrices: general, within 1e-1..1e-6 of the identity, signed permutations"""
    k = rng.randint(4)
    if k == 0:
        a = rng.randn(3) * 10.**-rng.uniform(1, 6)
        A = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
        return np.linalg.inv(np.identity(3) - A).dot(np.identity(3) + A)
    if k == 1:
        return (np.identity(3) * rng.choice([-1., 1.], 3))[rng.permutation(3)]
    q, _ = np.linalg.qr(rng.randn(3, 3))
    return q


def want(s, x, d, R):
    order = len(d)
    c = np.array([np.asarray(e.potential(np.array([x]), order, 1.))[0] for e in s]).reshape(len(s), 2 * order + 1)
    f = full(c, order)
    if R is not None:
        for k in range(order):
            f = np.moveaxis(np.tensordot(f, R, axes=(k, 0)), -1, k)
    return f[tuple("xyz".index(q) for q in d)]


@case("named derivative in the frame", 12)
def f(rng):
    s = system(rng, rng.randint(1, 5))
    x = rng.randn(3)
    x[2] = abs(x[2]) + .6
    for order in range(6):
        ds = ["".join(t) for t in itertools.product("xyz", repeat=order)]
        for d in ds if order < 4 else [ds[k] for k in rng.permutation(len(ds))[:40]]:
            for R in (None, rot(rng)):
                g = PotentialObjective(x=list(x), derivative=d, rotation=R).get(s, None)
                close(g, want(s, x, d, R), 1e-8, "%s %s" % (d, R is not None), 1e-3)


def val(v, expr):
    return np.array(expr.value()).ravel()


@case("bounds", 12)
def f(rng):
    s = system(rng, rng.randint(1, 5))
    x = rng.randn(3)
    x[2] = abs(x[2]) + .6
    d = ["z", "xx", "zz", "xyz", ""][rng.randint(5)]
    R = rot(rng) if rng.rand() < .5 else None
    kw = {}
    for k in ("value", "min", "max", "offset"):
        if rng.rand() < .6:
            kw[k] = [rng.randn(), 0., 0][rng.randint(3)]
    o = PotentialObjective(x, d, rotation=R, **kw)
    v = cvxopt.modeling.variable(len(s))
    u = rng.randn(len(s))
    v.value = cvxopt.matrix(u)
    w = want(s, x, d, R)
    ob = list(o.objective(s, v))
    if kw.get("value") is None:
        same(len(ob), 0)
    else:
        close(ob[0][0], w, 1e-8, "objective", 1e-3)
        same(ob[0][1], float(kw["value"]))
    con = [(q.type(), np.array(q.value()).ravel()) for q in o.constraints(s, v)]
    exp = []
    if "offset" in kw:
        exp.append(("=", w.dot(u) - kw["offset"]))
    if "min" in kw:
        exp.append(("<", kw["min"] - w.dot(u)))
    if "max" in kw:
        exp.append(("<", w.dot(u) - kw["max"]))
    same(sorted(c[0] for c in con), sorted(e[0] for e in exp), "kinds")
    for t in "=<":
        a, b = sorted(c[1][0] for c in con if c[0] == t), sorted(e[1] for e in exp if e[0] == t)
        if t == "=":
            a, b = np.abs(a), np.abs(b)
        close(a, b, 1e-8, t, 1e-2)


@case("multi", 12)
def f(rng):
    s = system(rng, rng.randint(1, 5))
    x = rng.randn(3)
    x[2] = abs(x[2]) + .6
    ks = [(["z", "xx", "zz", "xyz", ""][rng.randint(5)], [rng.randn(), None, 0.][rng.randint(3)], rot(rng)) for i in range(rng.randint(0, 4))]
    m = MultiPotentialObjective(components=[PotentialObjective(x, d, rotation=R, value=v) for d, v, R in ks], value=1.3)
    w = np.zeros(len(s))
    for d, v, R in ks:
        if v is not None:
            w = w + v * want(s, x, d, R)
    g = m.get(s, None)
    close(np.zeros(len(s)) + g, w, 1e-8, "sum", 1e-3)
    (c, b), = m.objective(s, None)
    close(np.zeros(len(s)) + c, w, 1e-8, "objective", 1e-3)
    same(b, 1.3)


@case("range", 24)
def f(rng):
    n = rng.randint(1, 6)
    v = cvxopt.modeling.variable(n)
    lo, hi = [None, 0., -rng.rand()][rng.randint(3)], [None, 0., rng.rand()][rng.randint(3)]
    idx = None if rng.rand() < .5 else int(rng.randint(n))
    cs = list(PatternRangeConstraint(min=lo, max=hi, index=idx).constraints(None, v))
    for k in range(30):
        u = rng.randint(-2, 3, n) * .5 * (0 if k == 0 else 1) + (rng.randn(n) * .3 if k % 2 else 0)
        v.value = cvxopt.matrix(u.astype(float))
        ok = all(np.all(np.array(c.value()) == 0) if c.type() == "=" else np.all(np.array(c.value()) <= 0) for c in cs)
        sel = u if idx is None else u[idx:idx + 1]
        same(bool(ok), bool((lo is None or np.all(sel >= lo)) and (hi is None or np.all(sel <= hi))), "range")
    same(list(PatternRangeConstraint(min=lo, max=hi).objective(None, v)), [])


@case("after changes of the system", 8)
def f(rng):
    s = system(rng, rng.randint(1, 5))
    x = rng.randn(3)
    x[2] = abs(x[2]) + .6
    d = ["z", "xx", "zz", "xyz", ""][rng.randint(5)]
    R = rot(rng) if rng.rand() < .5 else None
    o = PotentialObjective(x, d, rotation=R, value=1.2)
    m = MultiPotentialObjective(components=[o], value=1.)
    for k in range(8):
        w = want(s, x, d, R)
        g = o.get(s, None)
        close(g, w, 1e-8, d, 1e-3)
        (c, b), = m.objective(s, None)
        close(np.zeros(len(s)) + c, 1.2 * w, 1e-8, "multi", 1e-3)
        change(rng, s)
        if k == 5:
            s = system(rng, len(s))


main()
