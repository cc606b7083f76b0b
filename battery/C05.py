from lib import *
from bsys import system, pts, change
import itertools


def field(s, x, n):
    return s.electrical_potential(x, n, "rf", expand=True)


def oracle(s, x, k, d):
    t = [None] + [field(s, x, i) for i in range(1, d + 2)]
    r = np.zeros((len(x),) + (3,) * d)
    for j in range(len(x)):
        for idx in itertools.product(range(3), repeat=d):
            v = 0.
            for a in range(3):
                for sel in itertools.product((0, 1), repeat=d):
                    p = (j, a) + tuple(i for i, z in zip(idx, sel) if z)
                    q = (j, a) + tuple(i for i, z in zip(idx, sel) if not z)
                    v += t[len(p) - 1][p] * t[len(q) - 1][q]
            r[(j,) + idx] = k ** 2 * v
    return r


@case("pseudo potential", 6)
def f(rng):
    s = system(rng, rng.randint(1, 4))
    x = pts(rng, 2)
    m, q, l, o = rng.rand(4) + .3
    k = s.rf_scale(m, q, l, o)
    close(k, np.sqrt(q / m) / (2 * l * o), 1e-12)
    same(k, s.rf_coeff)
    for d in range(5):
        p = oracle(s, x, k, d)
        e = s.electrical_potential(x, d, "dc", expand=True)
        close(s.pseudo_potential(x, d), p, 1e-8, "order %d" % d, 1e-3)
        close(s.potential(x, d), p + e, 1e-8, "tot", 1e-3)
        close(s.potential(x, d, "rf"), p, 1e-8, "rf", 1e-3)
        close(s.potential(x, d, "dc"), e, 1e-8, "dc", 1e-3)
        close(s.potential(x[0], d), (p + e)[:1], 1e-8, "one", 1e-3)


@case("not implemented", 2)
def g(rng):
    s = system(rng, 2)
    s.rf_coeff = 1.
    raises(ValueError, s.pseudo_potential, pts(rng), 5)
    raises(ValueError, s.potential, pts(rng), 1, "ac")


@case("after changes of the system", 6)
def h(rng):
    s = system(rng, rng.randint(1, 4))
    x = pts(rng, 2)
    s.rf_coeff = 1.
    d = rng.randint(4)
    for k in range(8):
        p = oracle(s, x, s.rf_coeff, d)
        r = s.pseudo_potential(x, d)
        r0 = r.copy()
        close(r, p, 1e-8, "order %d" % d, 1e-3)
        close(s.potential(x, d, "rf"), p, 1e-8, "rf", 1e-3)
        close(s.potential(x, d), p + s.electrical_potential(x, d, "dc", expand=True), 1e-8, "tot", 1e-3)
        s.pseudo_potential(x + 1, d) if rng.rand() < .3 else None
        close(r, r0, 0, "result kept")
        k = rng.randint(3)
        if k == 0:
            s.rf_coeff = rng.rand() + .5
        elif k == 1:
            s.rf_scale(*(rng.rand(4) + .3))
        else:
            change(rng, s)


main()
