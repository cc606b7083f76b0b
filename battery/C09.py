from lib import *
from electrode import utils as U
from math import factorial


def legendre(l, k, u):
    """d^k P_l/du^k"""
    p = np.polynomial.legendre.Legendre.basis(l).convert(kind=np.polynomial.Polynomial)
    return (p.deriv(k) if k else p)(u)


def solid(l, m, x):
    k = abs(m)
    r = np.sqrt((x**2).sum())
    f = np.sqrt((2 * l + 1) / 4 / np.pi * factorial(l - k) / factorial(l + k) * (2 if k else 1)) * (-1)**k
    az = (x[0] + 1j * x[1])**k
    return f * legendre(l, k, x[2] / r) * r**(l - k) * (az.real if m >= 0 else az.imag)


def derivs(f, l):
    """order l derivatives at 0 of a homogeneous polynomial of degree l: fit its coefficients"""
    mons = [(i, j, l - i - j) for i in range(l + 1) for j in range(l + 1 - i)]
    rng = np.random.RandomState(0)
    p = rng.randn(4 * len(mons) + 8, 3)
    A = np.array([[q[0]**i * q[1]**j * q[2]**k for i, j, k in mons] for q in p])
    c = np.linalg.lstsq(A, np.array([f(q) for q in p]), rcond=None)[0]
    d = dict(zip(mons, c))
    out = []
    for i in range(2 * l + 1):
        s = U.deriv_to_name(l, i) if hasattr(U, "deriv_to_name") else U._derivative_names[l][i]
        e = tuple(s.count(ch) for ch in "xyz")
        out.append(d[e] * np.prod([factorial(v) for v in e]))
    return np.array(out)


@case("projections", 6)
def f(rng):
    for l in range(6):
        n = rng.randint(1, 4)
        a = rng.randn(2 * l + 1, n)
        d = np.array([derivs(lambda x: solid(l, m, x), l) for m in range(-l, l + 1)]).T
        c = d.dot(a)
        close(U.cartesian_to_spherical_harmonics(c.copy()), a, 1e-8, "order %d" % l, 1)
        k = rng.randint(-9, 10, (2 * l + 1, n))
        close(U.cartesian_to_spherical_harmonics(k), np.linalg.solve(d, k.astype(float)), 1e-8, "integers, order %d" % l, 1)
        close(U.cartesian_to_spherical_harmonics(c[:, 0].copy()), a[:, 0], 1e-8, "order %d, one point" % l, 1)


main()
