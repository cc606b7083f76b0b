from lib import *
from bsys import poly
from electrode import PolygonPixelElectrode, PointPixelElectrode


def shoelace(p):
    q = np.roll(p, -1, 0)
    c = p[:, 0] * q[:, 1] - q[:, 0] * p[:, 1]
    a = c.sum() / 2
    return a, ((p + q) * c[:, None]).sum(0) / (6 * a)


@case("to_points", 40)
def f(rng):
    paths = [poly(rng) for i in range(rng.randint(1, 6))]
    kw = dict(name="e%d" % rng.randint(9), dc=rng.randn() if rng.rand() < .7 else 0., rf=rng.randn(), cover_nmax=int(rng.randint(0, 4)),
              cover_height=rng.uniform(1, 60))
    for k in range(rng.randint(0, 3)):
        i = rng.randint(len(paths))
        a, c = shoelace(paths[i])
        paths.insert(i + rng.randint(2), c + (paths[i][::1 - 2 * rng.randint(2)] - c) * (rng.rand() + .5))
    e = PolygonPixelElectrode(paths=[p.copy() for p in paths], **kw)
    p = e.to_points()
    same(type(p), PointPixelElectrode)
    for k, v in kw.items():
        same(getattr(p, k), v, k)
        same(getattr(e, k), v, k)
    s = [shoelace(q) for q in paths]
    close(p.areas, np.array([a for a, c in s]), 1e-9, "areas")
    close(p.points, np.array([c for a, c in s]), 1e-9, "centroids", 1)
    same(list(e.orientations()), [1. if a > 0 else -1. for a, c in s], "orientations")
    same(list(p.orientations()), [1.] * len(paths), "point orientations")
    same(len(e.paths), len(paths))
    for q, r in zip(e.paths, paths):
        close(q, r, 0, "paths unchanged")


main()
