from lib import *
from electrode import expressions as P
from electrode import cexpressions as C


def pts(rng, n):
    x = rng.randn(n, 3) * 10 ** rng.uniform(-1, 1)
    x[:, 2] = np.abs(x[:, 2]) + .3
    if rng.rand() < .3:
        x[::2, 2] *= -1
    return x


def both(rng, name, args, n):
    x = pts(rng, n)
    for o in range(6):
        K, h = int(rng.randint(0, 4)), rng.uniform(15, 90)
        for given in (0, 1):
            outs = [None, None]
            if given:
                a = rng.randn(n, 2 * o + 1)
                outs = [a.copy(), a.copy()]
            r = getattr(C, name)(x.copy(), *(args + [o, K, h, outs[0]]))
            s = getattr(P, name)(x.copy(), *(args + [o, K, h, outs[1]]))
            same(np.asarray(r).shape, (n, 2 * o + 1), "shape")
            close(np.asarray(r), s, 1e-7, "%s order %d nmax %d out %s" % (name, o, K, given), 1e-3 if o < 4 else 1e-1)
            if given:
                close(outs[0], outs[1], 1e-7, "out in place", 1e-3 if o < 4 else 1e-1)


@case("points", 8)
def f(rng):
    n = rng.randint(0, 6)
    both(rng, "point_potential", [rng.randn(n, 2), rng.randn(n), rng.randn()], rng.randint(1, 5))


@case("polygons", 8)
def f(rng):
    both(rng, "polygon_potential", [[rng.randn(rng.randint(1, 7), 2) for i in range(rng.randint(0, 4))], rng.randn()], rng.randint(1, 5))


@case("mesh", 8)
def f(rng):
    n, m, q = rng.randint(2, 6), rng.randint(0, 8), rng.randint(1, 4)
    ed = np.array([rng.choice(n, 2, replace=False) for i in range(m)], dtype=np.intc).reshape(m, 2)
    both(rng, "mesh_potential", [rng.randn(n, 2), ed, rng.randint(0, q, m).astype(np.intc), rng.randn(q)], rng.randint(1, 5))


main()
