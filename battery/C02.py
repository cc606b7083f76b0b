from lib import *
from electrode import expressions as P
from electrode import cexpressions as C
from electrode import PointPixelElectrode, PolygonPixelElectrode
from bsys import poly

G, GW = np.polynomial.legendre.leggauss(40)


def solid(x, p):
    """V = 1: integral of z/(2 pi r^3) over the signed area, by triangles from the first vertex and Gauss quadrature"""
    s = 0.
    u, w = (G + 1) / 2, GW / 2
    for k in range(1, len(p) - 1):
        a, b, c = p[0], p[k], p[k + 1]
        J = (b - a)[0] * (c - a)[1] - (b - a)[1] * (c - a)[0]
        U, V = np.meshgrid(u, u, indexing="ij")
        W = np.outer(w, w) * U * J
        q = a + U[..., None] * (1 - V[..., None]) * (b - a) + U[..., None] * V[..., None] * (c - a)
        r = np.sqrt(((x[:2] - q)**2).sum(-1) + x[2]**2)
        s += (W * x[2] / (2 * np.pi * r**3)).sum()
    return s


def images(f, x, K, h):
    return sum(f(x + [0, 0, 2 * k * h]) for k in range(-K, K + 1))


def check(rng, pot, one, K, h, V, tag):
    n = rng.randint(1, 5)
    x = rng.randn(n, 3)
    x[:, 2] = (np.abs(x[:, 2]) + .7) * (1 if rng.rand() < .8 else -1)
    want = np.array([[V * images(one, xi, K, h)] for xi in x])
    close(pot(x, V, 0, None), want, 1e-6, tag, 1e-3)
    for o in range(6):
        a = rng.randn(n, 2 * o + 1)
        b = a.copy()
        r = pot(x, V, o, None)
        same(np.shape(r), (n, 2 * o + 1), tag + " shape")
        q = pot(x, V, o, b)
        assert q is b, tag + ": out is not returned"
        close(b, a + r, 1e-8, tag + " accumulates", 1)
        close(pot(x, 3 * V, o, None), 3 * np.asarray(r), 1e-9, tag + " linear", 1e-6)
        for j in range(n):
            close(pot(x[j:j + 1], V, o, None)[0], r[j], 1e-12, tag + " pointwise", 1e-9)


@case("points", 8)
def f(rng):
    n = rng.randint(0, 6)
    p, a, K, h = rng.randn(n, 2), rng.rand(n), int(rng.randint(0, 4)), rng.uniform(5, 20)
    one = lambda x: sum(ai * x[2] / (2 * np.pi * (((x[:2] - q)**2).sum() + x[2]**2)**1.5) for q, ai in zip(p, a))
    V = rng.randn()
    for m in (C, P):
        check(rng, lambda x, V, o, out: m.point_potential(x, p, a, V, o, K, h, out), one, K, h, V, m.__name__)
    e = PointPixelElectrode(points=p, areas=a, cover_nmax=K, cover_height=h)
    check(rng, lambda x, V, o, out: e.potential(x, o, V, out), one, K, h, V, "electrode")


@case("polygons", 8)
def f(rng):
    p = [poly(rng) for i in range(rng.randint(0, 4))]
    K, h, V = int(rng.randint(0, 4)), rng.uniform(5, 20), rng.randn()
    one = lambda x: sum(solid(x, q) for q in p)
    for m in (C, P):
        check(rng, lambda x, V, o, out: m.polygon_potential(x, p, V, o, K, h, out), one, K, h, V, m.__name__)
    e = PolygonPixelElectrode(paths=p, cover_nmax=K, cover_height=h)
    check(rng, lambda x, V, o, out: e.potential(x, o, V, out), one, K, h, V, "electrode")


main()
