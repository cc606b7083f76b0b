from lib import *
from electrode.utils import area_centroid


def tri(p):
    """fan triangulation from the origin"""
    a, m = 0., np.zeros(2)
    for i in range(len(p)):
        q, r = p[i], p[(i + 1) % len(p)]
        t = (q[0] * r[1] - q[1] * r[0]) / 2
        a += t
        m += t * (q + r) / 3
    return a, m / a


@case("area and centroid", 40)
def f(rng):
    n = rng.randint(3, 12)
    ang = np.sort(rng.rand(n) * 2 * np.pi)
    if n < 5:
        ang = 2 * np.pi * (np.arange(n) + .4 * rng.rand(n)) / n
    rad = .3 + rng.rand(n)
    p = np.c_[rad * np.cos(ang), rad * np.sin(ang)] * 10 ** rng.uniform(-2, 2) + rng.randn(2) * 3
    a, c = area_centroid(p)
    A, C = tri(p - p.mean(0))
    close(a, A, 1e-7, "area")
    close(c, C + p.mean(0), 1e-6, "centroid")
    k = rng.randint(n)
    a2, c2 = area_centroid(np.roll(p, k, 0))
    close(a2, a, 1e-7)
    close(c2, c, 1e-6)
    a2, c2 = area_centroid(p[::-1])
    close(a2, -a, 1e-7)
    close(c2, c, 1e-6)
    t = rng.randn(2)
    a2, c2 = area_centroid(p + t)
    close(a2, a, 1e-7)
    close(c2, c + t, 1e-6)


main()
