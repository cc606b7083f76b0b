from lib import *
from electrode import spherical_harmonics as sh


def ang(rng, s):
    return rng.uniform(.1, 3, s), rng.uniform(.05, np.pi - .05, s), rng.uniform(-np.pi + .01, np.pi, s)


@case("spherical to cartesian and back", 60)
def f(rng):
    s = [(), (4,), (3, 5)][rng.randint(3)]
    r, t, p = ang(rng, s)
    x, y, z = sh.spherical_to_cartesian(r, t, p)
    close(x, r * np.sin(t) * np.cos(p), 1e-12, "x", 1)
    close(y, r * np.sin(t) * np.sin(p), 1e-12, "y", 1)
    close(z, r * np.cos(t), 1e-12, "z", 1)
    for u, v in zip(sh.cartesian_to_spherical(x, y, z), (r, t, p)):
        close(u, v, 1e-9, "back", 1)


@case("cartesian to spherical and back", 60)
def g(rng):
    x, y, z = rng.randn(3, *[(), (4,), (3, 5)][rng.randint(3)])
    s = sh.cartesian_to_spherical(x, y, z)
    close(s[0], np.sqrt(x * x + y * y + z * z), 1e-12, "r", 1)
    for u, v in zip(sh.spherical_to_cartesian(*s), (x, y, z)):
        close(u, v, 1e-9, "back", 1)


@case("derivatives undo each other", 60)
def d(rng):
    s = (rng.randint(1, 5), rng.randint(1, 5))
    r, t, p = ang(rng, s)
    d = rng.randn(3, *s)
    if rng.rand() < .5:
        r = r * 10. ** rng.randint(-5, 4)
        t = np.where(rng.rand(*s) < .5, t, [1e-3, np.pi - 1e-3][rng.randint(2)])
    for a, b in (("to_spherical", "to_cartesian"), ("to_cartesian", "to_spherical")):
        e = sh.derivatives_spherical_cartesian(sh.derivatives_spherical_cartesian(d, r, t, p, a), r, t, p, b)
        close(np.array(e), d, 1e-8, a, 1)


@case("index packing", 12)
def k(rng):
    N = rng.randint(1, 15)
    s = sh.SphericalHarmonics(N) if N < 10 else sh.SphericalHarmonics.__new__(sh.SphericalHarmonics)
    s.nmax = N
    l = list(s.indices())
    same(sorted((n, m) for n, m, p, q in l), [(n, m) for n in range(N) for m in range(-n, n + 1)])
    same(sorted((p, q) for n, m, p, q in l), [(p, q) for p in range(N) for q in range(N)])
    for n, m, p, q in l:
        same((p, q), (m, n) if m >= 0 else (N + m, N - 1 - n))
        if N < 10:
            same((s.n[p, q], s.m[p, q]), (n, m))


main()
