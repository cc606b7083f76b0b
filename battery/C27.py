from lib import *
from electrode.grid import Grid
import itertools


def mk(rng):
    d = rng.randint(1, 5)
    c, s, h = rng.randn(d) * 10, rng.uniform(.1, 2, d) * rng.choice([-1, 1], d), rng.randint(1, 6, d)
    k = rng.randint(0, 3)
    if k == 1:
        c, s = rng.randint(-5, 5, d), rng.randint(1, 5, d)
    return (Grid(tuple(c), tuple(s), tuple(h)) if k == 2 else Grid(c, s, h)), np.array(c), np.array(s), np.array(h)


@case("indices and coordinates", 60)
def f(rng):
    g, c, s, h = mk(rng)
    d = len(c)
    want = lambda i: c + s * (np.asarray(i) - (h - 1) / 2.)
    i = rng.randn(d) * 5
    close(g.indices_to_coordinates(i), want(i), 1e-12, "coordinates", 1)
    close(g.coordinates_to_indices(want(i)), i, 1e-9, "indices", 1)
    close(g.indices_to_coordinates(g.coordinates_to_indices(i)), i, 1e-9, "forth and back", 1)
    close(g.indices_to_coordinates(np.zeros(d, int)), g.get_origin(), 1e-12, "origin", 1)
    close(g.get_origin(), want(0 * i), 1e-12, "origin", 1)


@case("enumerations", 60)
def e(rng):
    g, c, s, h = mk(rng)
    d = len(c)
    ax = [c[k] + s[k] * (np.arange(h[k]) - (h[k] - 1) / 2.) for k in range(d)]
    x = g.to_xyz()
    same(len(x), d)
    for k in range(d):
        close(x[k], ax[k], 1e-12, "to_xyz", 1)
    pts = np.array(list(itertools.product(*ax)))
    close(g.to_points(), pts, 1e-12, "to_points", 1)
    m = g.to_mgrid()
    same(m.shape, (d,) + tuple(h))
    for i in itertools.product(*[range(n) for n in h]):
        close(m[(slice(None),) + i], [ax[k][i[k]] for k in range(d)], 1e-12, "to_mgrid", 1)


main()
