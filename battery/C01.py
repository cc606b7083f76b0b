from lib import *
from electrode import expressions as P
from electrode import cexpressions as C
from electrode import utils as U
from electrode import PointPixelElectrode, PolygonPixelElectrode, MeshPixelElectrode, System
from bsys import electrode, poly


def cheb(f, n=9, h=.15):
    """derivative at 0 of f on [-h, h] by interpolation in Chebyshev points"""
    k = np.arange(n)
    t = np.cos(np.pi * (k + .5) / n)
    y = np.array([f(h * ti) for ti in t])
    c = np.polynomial.chebyshev.chebfit(t, y.reshape(n, -1), n - 1)
    d = np.array([np.polynomial.chebyshev.chebval(0, np.polynomial.chebyshev.chebder(c[:, i])) for i in range(c.shape[1])]) / h
    return d.reshape(y.shape[1:])


def consistent(pot, x, tag):
    ts = []
    for o in range(6):
        t = np.asarray(pot(x[None], o))
        same(t.shape, (1, 2 * o + 1), tag + " shape")
        ts.append(np.asarray(U.expand_tensor(t, o)).reshape((3,) * o))
    for o in range(5):
        for a in range(3):
            def g(s):
                y = x.copy()
                y[a] += s
                return np.asarray(U.expand_tensor(np.asarray(pot(y[None], o)), o)).reshape((3,) * o)
            close(cheb(g, h=.06 * abs(x[2])), ts[o + 1][..., a], 1e-5, "%s d/d%s order %d" % (tag, "xyz"[a], o), 1e-2 * max(1e-3, np.abs(ts[o + 1]).max()))
        if o > 1:
            assert abs(np.trace(ts[o])).max() < 1e-9 * max(1, np.abs(ts[o]).max()), tag + " trace"


def point(rng):
    x = rng.randn(3)
    x[2] = (abs(x[2]) + .4) * (1 if rng.rand() < .8 else -1)
    return x


@case("points", 6)
def f(rng):
    n = rng.randint(1, 6)
    a = [rng.randn(n, 2), rng.randn(n), rng.randn()]
    K, h = int(rng.randint(0, 3)), rng.uniform(3, 12)
    x = point(rng)
    for m in (C, P):
        consistent(lambda x, o: m.point_potential(x, a[0], a[1], a[2], o, K, h, None), x, m.__name__)


@case("polygons", 6)
def f(rng):
    p = [poly(rng) for i in range(rng.randint(1, 3))]
    if rng.rand() < .3:
        p[0] = np.repeat(p[0], rng.randint(1, 3, len(p[0])), 0)
    K, h, V = int(rng.randint(0, 3)), rng.uniform(3, 12), rng.randn()
    x = point(rng)
    for m in (C, P):
        consistent(lambda x, o: m.polygon_potential(x, p, V, o, K, h, None), x, m.__name__)


@case("electrodes", 6)
def f(rng):
    e = electrode(rng)
    x = point(rng)
    V = rng.randn()
    consistent(lambda x, o: e.potential(x, o, V), x, type(e).__name__)
    n = rng.randint(3, 6)
    m = MeshPixelElectrode(points=poly(rng, n), edges=[(i, (i + 1) % n) for i in range(n)], polygons=[0] * n, potentials=[rng.randn()], cover_nmax=1, cover_height=20.)
    consistent(lambda x, o: m.potential(x, o, V), x, "mesh")
    x[2] = abs(x[2])
    cover = dict(cover_nmax=int(rng.randint(1, 4)), cover_height=x[2] * rng.uniform(1.5, 3))      # the images count
    p = PolygonPixelElectrode(paths=[poly(rng)], **cover)
    consistent(lambda x, o: p.potential(x, o, V), x, "polygon under a cover")
    p = PointPixelElectrode(points=rng.randn(3, 2), areas=rng.randn(3), **cover)
    consistent(lambda x, o: p.potential(x, o, V), x, "points under a cover")


main()
