from lib import *
from bsys import system
from electrode.pattern_constraints import Constraint, PotentialObjective, MultiPotentialObjective, PatternRangeConstraint
from scipy.optimize import linprog


class Row(Constraint):
    def __init__(self, c, value=None):
        self.c, self.value = c, value

    def objective(self, system, v):
        if self.value is not None:
            yield self.c, float(self.value)


def rot(rng):
    q, _ = np.linalg.qr(rng.randn(3, 3))
    return q


@case("one unit response per objective", 16)
def f(rng):
    n = rng.randint(5, 8)
    s = system(rng, n)
    x = np.r_[rng.randn(2) * .3, rng.uniform(.6, 1.2)]
    ds = [["x", "y", "z", "xx", "xy", "zz"][q] for q in rng.permutation(6)[:rng.randint(1, 4)]]
    xcd = [(x, rot(rng) if rng.rand() < .4 else None, d) for d in ds]
    extra = [Row(rng.randn(n), [None, 0, 1., rng.randn()][rng.randint(4)]) for i in range(rng.randint(0, 3))]
    if rng.rand() < .3:
        extra.append(MultiPotentialObjective(components=[PotentialObjective(x, "yy", value=1.), PotentialObjective(x, "yz", value=-.5)]))
    cons, lo, hi = None, -1., 1.
    if rng.rand() < .5:
        lo, hi = -rng.uniform(.5, 2), rng.uniform(.5, 2)
        cons = [PatternRangeConstraint(lo, hi)]
    B = np.array([PotentialObjective(x=y, derivative=d, rotation=R).get(s, None) for y, R, d in xcd] +
                 [o.c if isinstance(o, Row) else np.zeros(n) + o.get(s, None) for o in extra])
    if len(B) > n or np.linalg.cond(B) > 1e4:
        raise Skip
    v = s.shims(xcd, extra, cons) if extra or rng.rand() < .5 else s.shims(xcd, constraints=cons)
    same(v.shape, (len(B), n))
    for o in extra:
        same(o.value, 0, "value afterwards")
    for i in range(len(B)):
        e = np.eye(len(B))[i]
        close(B.dot(v[i]), e, 1e-4, "response %d" % i, 1)
        r = linprog(np.r_[np.zeros(n), -1.], A_eq=np.c_[B, -e], b_eq=np.zeros(len(B)), bounds=[(lo, hi)] * n + [(None, None)], method="highs")
        assert v[i].max() * r.x[-1] <= hi + 1e-4 and v[i].min() * r.x[-1] >= lo - 1e-4, "not the strongest pattern"
    same(len(s.shims(xcd)), len(xcd))


main()
