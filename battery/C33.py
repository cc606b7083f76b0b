from lib import *
from math import comb
import cvxopt, cvxopt.modeling as cm
from electrode.pattern_constraints import VoltageDerivativeConstraint as VDC


def setup(rng):
    L, n, k, d = rng.randint(0, 12), rng.randint(1, 4), rng.randint(0, 6), rng.randint(1, 4)
    vs = [cm.variable(n) for i in range(L)]
    u = rng.randn(L, n)
    for v, w in zip(vs, u):
        v.value = cvxopt.matrix(w)
    want = [sum((-1.) ** (k - j) * comb(k, j) * u[i + j * d] for j in range(k + 1)) / float(d) ** k for i in range(max(0, L - k * d))]
    return L, n, k, d, vs, u, want


def val(f):
    return np.array(f.value()).ravel() if callable(f.value) else np.array(f.value).ravel()


@case("finite differences", 60)
def f(rng):
    L, n, k, d, vs, u, want = setup(rng)
    got = VDC(k, delta=d).get(None, vs)
    same(len(got), len(want), "number of differences")
    for g, w in zip(got, want):
        close(val(g), w, 1e-9, "difference", 1)


@case("objective and bounds", 60)
def f(rng):
    L, n, k, d, vs, u, want = setup(rng)
    nm, ab = ["one", "inf"][rng.randint(2)], bool(rng.randint(2))
    w = [0, rng.rand() + .1][rng.randint(2)]
    hi = [None, 0., rng.rand() * 3][rng.randint(3)]
    lo = [None, 0., -rng.rand()][rng.randint(3)] if nm == "one" and not ab else None
    c = VDC(k, weight=w, delta=d, norm=nm, abs=ab, max=hi, min=lo)
    a = [np.abs(x) if ab else x for x in want]
    a = [x.sum() if nm == "one" else x.max() for x in a]
    ob = list(c.objective(None, vs))
    same(len(ob), len(a) if w else 0)
    for (e, ww), x in zip(ob, a):
        close(val(e), np.array([x]), 1e-9, "objective", 1)
        same(ww, float(w))
    con = list(c.constraints(None, vs))
    exp = ([x - hi for x in a] if hi is not None else []) + ([lo - x for x in a] if lo is not None else [])
    same(len(con), len(exp))
    same([q.type() for q in con], ["<"] * len(con))
    close(np.array([np.array(q.value()).max() for q in con]), np.array(exp), 1e-9, "bounds", 1)


@case("unknown norm", 3)
def f(rng):
    vs = [cm.variable(2) for i in range(5)]
    raises(ValueError, lambda: list(VDC(1, weight=1, norm="two").objective(None, vs)))


main()
