from lib import *
from shapely import geometry
from electrode.polygons import Polygons, square_pads


def ring(rng, cx, cy, r, n, dim, ccw):
    a = np.sort(rng.rand(n)) * 2 * np.pi
    a = 2 * np.pi * (np.arange(n) + .8 * rng.rand(n)) / n
    p = np.c_[cx + r * np.cos(a), cy + r * np.sin(a)]
    if dim == 3:
        p = np.c_[p, rng.randn(n)]
    p = np.roll(p, rng.randint(n), 0)
    return p if ccw else p[::-1]


def poly(rng, cx, dim):
    if rng.rand() < .15:
        return geometry.Polygon()
    if rng.rand() < .15:
        return geometry.Polygon([(cx, 0), (cx + 1, 1), (cx + 1, 0), (cx, 1)])      # a bow tie
    r = 10. ** rng.uniform(-4, 1)
    holes = [ring(rng, cx + d * r, 0, .15 * r, rng.randint(3, 7), dim, rng.rand() < .5) for d in (-.3, 0, .3)[:rng.randint(0, 4)]]
    return geometry.Polygon(ring(rng, cx, 0, r, rng.randint(8, 14), dim, rng.rand() < .5), holes)


def area(p):
    x, y = p.T
    return .5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)


def wanted(p):
    out = []
    if p.is_valid and p.area > 0:
        for r, s in [(p.exterior, 1)] + [(i, -1) for i in p.interiors]:
            xy = np.array(r.coords)[:-1, :2]
            out.append((xy, s))
    return out


@case("to_system", 25)
def c1(rng):
    P = Polygons()
    ref = []
    for k in range(rng.randint(0, 6)):
        dim = rng.randint(2, 4)
        if rng.rand() < .5:
            ps = [poly(rng, 0., dim)]
            g = ps[0]
        else:
            ps = [poly(rng, 50. * j, dim) for j in range(rng.randint(0, 4))]
            g = geometry.MultiPolygon(ps)
            ps = list(g.geoms)
        nm = "e%i" % rng.randint(3)
        P.append((nm, g))
        ref.append((nm, sum([wanted(p) for p in ps], [])))
    s = P.to_system()
    assert type(s).__name__ == "System" and len(s) == len(ref), (len(s), len(ref))
    for e, (nm, w) in zip(s, ref):
        assert e.name == nm, (e.name, nm)
        assert len(e.paths) == len(w), (nm, len(e.paths), len(w))
        for p, (xy, sgn) in zip(e.paths, w):
            p = np.asarray(p)
            assert p.shape == xy.shape, (p.shape, xy.shape)
            assert np.sign(area(p)) == sgn, ("orientation", nm)
            # the same ring, from any corner
            q = xy if np.sign(area(xy)) == sgn else xy[::-1]
            assert any(np.array_equal(np.roll(q, k, 0), p) for k in range(len(q))), (nm, p, q)


@case("square_pads", 40)
def c2(rng):
    step = 10. ** rng.uniform(-2, 2)
    n = rng.randint(1, 12)
    edge = step * (n + rng.uniform(.05, .95))
    odd = bool(rng.randint(2))
    c = rng.randint(4)
    r = square_pads(step, edge, odd, c)
    if odd:
        n += n % 2 + 1
    p = (np.arange(n) - (n - 1) / 2.) * step
    q = np.full(n, (edge - step) / 2)
    sides = [np.c_[-q, -p], np.c_[p, -q], np.c_[q, p], np.c_[-p, q]]
    close(r, np.concatenate(sides[c:] + sides[:c]))


main()
