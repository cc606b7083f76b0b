from lib import *
from bsys import system, pts
from electrode import utils


def floquet(r, a):
    n = a[0].shape[0]
    h = 2 * r + 1
    m = np.zeros((h, 2, n, h, 2, n), complex)
    for l in range(h):
        for i in range(n):
            m[l, 0, i, l, 0, i] = m[l, 1, i, l, 1, i] = 2j * (l - r)
            m[l, 0, i, l, 1, i] = 1
        for k, ak in enumerate(a):
            for q in {l - k, l + k}:
                if 0 <= q < h:
                    m[l, 1, :, q, 0, :] = -ak
    return m.reshape(2 * n * h, -1)


@case("eigenpairs of the truncated Floquet matrix", 40)
def f(rng):
    n, r, k = rng.randint(1, 4), rng.randint(0, 4), rng.randint(1, 4)
    a = [rng.randn(n, n) * .3 for i in range(k)]
    mu, b = utils.mathieu(r, *a)
    M = floquet(r, a)
    s = 2 * n * (2 * r + 1)
    same(mu.shape, (s,))
    same(b.shape, (s, s))
    close(M.dot(b), b * mu, 1e-8, "eigenpairs", 1)
    close(np.sort_complex(np.round(mu, 6)), np.sort_complex(np.round(np.linalg.eigvals(M), 6)), 1e-4, "spectrum", 1)


@case("System.mathieu", 40)
def g(rng):
    s = system(rng, rng.randint(1, 5))
    x = pts(rng, 1)[0]
    sc = rng.uniform(.1, 1.5)
    r = int(rng.randint(0, 4))
    a = sc**2 * 16 * s.electrical_potential(x[None], 2, "dc", expand=True)[0]
    q = sc**2 * 8 * s.electrical_potential(x[None], 2, "rf", expand=True)[0]
    M = floquet(r, [a, q])
    S = 6 * (2 * r + 1)
    mu, b = s.mathieu(x, sc, r=r, sorted=False)
    same(mu.shape, (S,))
    close(M.dot(b), b * (2 * mu), 1e-8, "eigenpairs", 1)
    nu, c = s.mathieu(x, sc, r=r)
    keep = mu.imag >= 0
    same(nu.shape, (keep.sum(),))
    same(c.shape, (S, keep.sum()))
    close(M.dot(c), c * (2 * nu), 1e-8, "sorted eigenpairs", 1)
    assert np.all(np.diff(nu.imag) >= 0) and np.all(nu.imag >= 0), "order"
    close(nu.imag, np.sort(mu.imag[keep]), 1e-8, "frequencies", 1)
    if r == 2:
        close(s.mathieu(x, sc)[0], nu, 1e-10, "default cutoff", 1)


main()
