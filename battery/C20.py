from lib import *
from bsys import system
import cvxopt, cvxopt.modeling as cm
from scipy.optimize import linprog
from electrode.pattern_constraints import Constraint, PatternRangeConstraint, VoltageDerivativeConstraint


class Lin(Constraint):
    """weighted linear objectives and linear bounds on one vector"""
    def __init__(self, terms, bounds):
        self.terms, self.bounds = terms, bounds

    def objective(self, system, v):
        for c, w in self.terms:
            yield cm.dot(cvxopt.matrix(c), v), w

    def constraints(self, system, v):
        for c, b in self.bounds:
            yield cm.dot(cvxopt.matrix(c), v) <= b


class GLin(Constraint):
    def __init__(self, terms, bounds):
        self.terms, self.bounds = terms, bounds

    def objective(self, system, vs):
        for cs, w in self.terms:
            yield sum(cm.dot(cvxopt.matrix(c), v) for c, v in zip(cs, vs)), w

    def constraints(self, system, vs):
        for cs, b in self.bounds:
            yield sum(cm.dot(cvxopt.matrix(c), v) for c, v in zip(cs, vs)) <= b


def n_of(rng):
    return [0, 1, 1, 2][rng.randint(4)]


@case("minimum of the sum", 24)
def f(rng):
    n, L = rng.randint(1, 5), rng.randint(1, 4)
    s = system(rng, n)
    sets, glob = [], []
    A, b = [], []
    c = np.zeros((L, n))
    for l in range(L):
        cs = [PatternRangeConstraint(-1. - l, 2.)]
        for k in range(n_of(rng) + 1):
            t = [(rng.randn(n), rng.randn()) for q in range(n_of(rng))]
            bd = [(rng.randn(n), rng.rand() * .3) for q in range(n_of(rng))]
            for d, w in t:
                c[l] += d * w
            for d, e in bd:
                r = np.zeros((L, n))
                r[l] = d
                A.append(r.ravel())
                b.append(e)
            cs.insert(rng.randint(len(cs) + 1), Lin(t, bd))
        sets.append(cs)
    for k in range(n_of(rng)):
        t = [(rng.randn(L, n), rng.randn()) for q in range(n_of(rng))]
        bd = [(rng.randn(L, n), rng.rand() * .3) for q in range(n_of(rng))]
        for d, w in t:
            c += d * w
        for d, e in bd:
            A.append(d.ravel())
            b.append(e)
        glob.append(GLin(t, bd))
    if not c.any():
        c[0, 0] = 1.
        sets[0].append(Lin([(np.eye(n)[0], 1.)], []))
    dc = [e.dc for e in s]
    u, o = s.solve(sets, glob, verbose=False)
    same(u.shape, (L, n))
    r = linprog(c.ravel(), A_ub=np.array(A) if A else None, b_ub=b if A else None,
                bounds=[(-1. - l, 2.) for l in range(L) for q in range(n)], method="highs")
    assert r.status == 0
    ov = o[0] if not isinstance(o, float) else o
    close(np.array(ov), np.array(r.fun), 1e-5, "objective", 1)
    close(np.array((c * u).sum()), np.array(ov), 1e-5, "objective of the voltages", 1)
    if A:
        assert np.all(np.array(A).dot(u.ravel()) <= np.array(b) + 1e-5), "constraint violated"
    for l in range(L):
        assert u[l].min() >= -1 - l - 1e-5 and u[l].max() <= 2 + 1e-5, "range violated"
    same([e.dc for e in s], dc)


@case("infeasible problems raise", 6)
def f(rng):
    n = rng.randint(1, 4)
    s = system(rng, n)
    sets = [[PatternRangeConstraint(-1., 1.), Lin([(np.ones(n), 1.)], [])] for l in range(2)]
    bad = GLin([], [([np.ones(n)] * 2, -2. * n - 1)])
    raises(ValueError, s.solve, sets, [bad], verbose=False)
    sets[1].append(Lin([], [(np.ones(n), -n - .5)]))
    raises(ValueError, s.solve, sets, [], verbose=False)


@case("ramp", 6)
def f(rng):
    n = rng.randint(1, 4)
    L = 5
    s = system(rng, n)
    t = rng.randn(n)
    w = 2.
    sets = [[PatternRangeConstraint(-1., 1.)] for l in range(L)]
    sets[0] = [PatternRangeConstraint(-.3, -.3)]
    sets[-1] = [PatternRangeConstraint(.5, .5)]
    u, o = s.solve(sets, [VoltageDerivativeConstraint(1, weight=w)], verbose=False)
    close(u[0], -.3 * np.ones(n), 1e-5)
    close(u[-1], .5 * np.ones(n), 1e-5)
    close(np.array(o[0] if not isinstance(o, float) else o), np.array(w * .8 * n), 1e-5)


main()
