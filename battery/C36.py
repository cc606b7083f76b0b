import warnings
warnings.simplefilter("ignore")
from lib import *
from scipy import special
from electrode.spherical_harmonics import SphericalHarmonics
S = {}


def sh(N):
    if N not in S:
        S[N] = SphericalHarmonics(N)
    return S[N]


def Y(s, n, m):
    return special.sph_harm(m, n, s.phi, s.theta)


@case("analysis inverts synthesis", 40)
def f(rng):
    N = rng.randint(1, 12)
    a = rng.randn(N, N) + (1j * rng.randn(N, N) if rng.randint(2) else 0)
    close(sh(N).analysis(sh(N).synthesis(a)), a, 1e-8, "coefficients", 1)


@case("large analysis inverts synthesis", 2)
def fl(rng):
    N = [61, 30][rng.randint(2)]
    a = rng.randn(N, N) + 1j * rng.randn(N, N)
    close(sh(N).analysis(sh(N).synthesis(a)), a, 1e-7, "coefficients", 1)


@case("synthesis of one coefficient", 60)
def g(rng):
    N = rng.randint(1, 12)
    s = sh(N)
    n = rng.randint(0, N)
    m = rng.randint(-n, n + 1)
    a = np.zeros((N, N))
    a[(m, n) if m >= 0 else (N + m, N - 1 - n)] = 1
    close(s.synthesis(a), Y(s, n, m), 1e-9, "Y(%d,%d), nmax=%d" % (n, m, N), 1)


@case("analysis of one harmonic", 40)
def h(rng):
    N = rng.randint(1, 12)
    s = sh(N)
    n = rng.randint(0, N)
    m = rng.randint(-n, n + 1)
    a = np.zeros((N, N))
    a[(m, n) if m >= 0 else (N + m, N - 1 - n)] = 1
    close(s.analysis(Y(s, n, m)), a, 1e-8, "Y(%d,%d), nmax=%d" % (n, m, N), 1)


@case("grid", 20)
def k(rng):
    N = [61, 122, rng.randint(1, 30)][rng.randint(3)] if rng.randint(4) == 0 else rng.randint(1, 30)
    if N == 122:
        N = 61
    s = sh(N)
    x, w = np.polynomial.legendre.leggauss(N)
    same(s.theta.shape, (N, 1))
    same(s.phi.shape, (1, 2 * N))
    close(np.sort(np.cos(s.theta[:, 0])), x, 1e-9, "theta", 1)
    close(s.phi[0], np.arange(2 * N) * np.pi / N, 1e-9, "phi", 1)


main()
