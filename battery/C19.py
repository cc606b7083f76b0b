from lib import *
from bsys import system
import cvxopt.modeling as cm
from scipy.optimize import linprog
from electrode.pattern_constraints import Constraint, PotentialObjective, PatternRangeConstraint


class Row(Constraint):
    """one requested value of a linear functional"""
    def __init__(self, c, v):
        self.c, self.v = c, v

    def objective(self, system, v):
        yield self.c, self.v


class Rows(Constraint):
    def __init__(self, cs, vs):
        self.cs, self.vs = cs, vs

    def objective(self, system, v):
        for c, b in zip(self.cs, self.vs):
            yield c, b

    def constraints(self, system, v):
        yield v <= 5.


@case("objectives are realised, the strength is maximal", 40)
def f(rng):
    n = rng.randint(1, 7)
    s = system(rng, n)
    k = rng.randint(1, n + 1)
    B = rng.randn(k, n) * 10. ** rng.uniform(-2, 2)
    b = rng.randn(k)
    b[rng.rand(k) < .3] = 0
    if not b.any():
        b[rng.randint(k)] = rng.randn() + 2
    big = rng.choice([0, 0, -3, 2])      # the solver's own tolerances are absolute: only the ratios are compared then
    b *= 10. ** big
    lo, hi = -rng.uniform(.2, 2, n), rng.uniform(.2, 2, n)
    cons = [PatternRangeConstraint(float(lo[i]), float(hi[i]), index=i) for i in range(n)]
    j = rng.randint(k + 1)
    cons[rng.randint(n + 1):0] = [Rows(B[:j], b[:j])]
    for i in range(j, k):
        cons.insert(rng.randint(len(cons), len(cons) + 1), Row(B[i], b[i]))
    dc = [e.dc for e in s]
    p, c = s.optimize(cons, verbose=False)
    same(p.shape, (n,))
    same([e.dc for e in s], dc)
    sc = np.abs(B).max()
    close(B.dot(p) / sc, c * b / sc, 1e-6, "objectives", 1)
    c, b = c * np.abs(b).max(), b / np.abs(b).max()
    assert np.all(p >= lo - 1e-6) and np.all(p <= hi + 1e-6), "constraint violated"
    # largest c with B p = c b
    r = linprog(np.r_[np.zeros(n), -1.], A_eq=np.c_[B, -b] / sc, b_eq=np.zeros(k), bounds=[(lo[i], hi[i]) for i in range(n)] + [(None, None)], method="highs")
    assert r.status == 0
    if not big:
        close(np.array(c), np.array(r.x[-1]), 1e-4, "strength", 1e-3)


@case("potential objectives", 12)
def f(rng):
    n = rng.randint(4, 7)
    s = system(rng, n)
    x = np.r_[rng.randn(2) * .3, rng.uniform(.6, 1.2)]
    ds = [["x", "y", "z", "xx", "xy", "zz"][q] for q in rng.permutation(6)[:3]]
    os = [PotentialObjective(x=x, derivative=d, value=v) for d, v in zip(ds, [1., 0., -.5])]
    lo = PatternRangeConstraint(-1, 1)
    p, c = s.optimize([lo] + os, verbose=False)
    B = np.array([o.get(s, None) for o in os])
    sc = np.abs(B).max()
    close(B.dot(p) / sc, c * np.array([1., 0., -.5]) / sc, 1e-6, "objectives", 1e-2)
    assert np.abs(p).max() <= 1 + 1e-6 and c > 0


@case("infeasible problems raise", 6)
def f(rng):
    n = rng.randint(2, 5)
    s = system(rng, n)
    c = [PatternRangeConstraint(1., 2.), Row(np.ones(n), 0.), Row(np.eye(n)[0], 1.)]
    raises(ValueError, s.optimize, c, verbose=False)


main()
