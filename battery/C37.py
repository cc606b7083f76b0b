from lib import *
from electrode import System
import electrode.system as es


class Trap(System):
    """an anharmonic well in place of electrodes: U = x'Ax/2 + c.x + k sum x_a^4"""
    def well(self, A, c, k):
        self.w = A, c, k
        return self

    def potential(self, x, derivative=0, typ="tot"):
        A, c, k = self.w
        x = np.asarray(x, float).reshape(-1, 3)
        if derivative == 0:
            return .5 * np.einsum("ni,ij,nj->n", x, A, x) + x.dot(c) + k * (x**4).sum(1)
        if derivative == 1:
            return x.dot(A) + c + 4 * k * x**3
        if derivative == 2:
            return A + np.einsum("na,ab->nab", 12 * k * x**2, np.identity(3))
        raise ValueError(derivative)


def energy(s, x, q):
    e = s.potential(x, 0).sum()
    for i in range(len(x)):
        for j in range(i):
            e += q[i] * q[j] / np.linalg.norm(x[i] - x[j])
    return e


def grad(s, x, q):
    g = s.potential(x, 1).copy()
    for i in range(len(x)):
        for j in range(len(x)):
            if i != j:
                d = x[j] - x[i]
                g[i] += q[i] * q[j] * d / np.linalg.norm(d)**3
    return g.ravel()


def hess(s, x, q):
    n = len(x)
    h = np.zeros((n, 3, n, 3))
    p = s.potential(x, 2)
    for i in range(n):
        h[i, :, i, :] += p[i]
        for j in range(n):
            if i != j:
                d = x[j] - x[i]
                r = np.linalg.norm(d)
                k = q[i] * q[j] * (3 * np.outer(d, d) - r**2 * np.identity(3)) / r**5
                h[i, :, i, :] += k
                h[i, :, j, :] -= k
    return h.reshape(3 * n, 3 * n)


def setup(rng):
    B = rng.randn(3, 3) * .3
    A = np.diag(rng.uniform(1, 6, 3)) + B + B.T
    A += np.identity(3) * max(0, .5 - np.linalg.eigvalsh(A)[0])
    s = Trap().well(A, rng.randn(3), rng.choice([0., .1]))
    n = rng.randint(1, 6)
    q = [np.ones(n), rng.uniform(.5, 2, n)][rng.randint(2)]
    return s, n, q, rng.randn(n, 3) * 2


@case("modes are eigenpairs of the Hessian at the returned point", 25)
def f(rng):
    s, n, q, x0 = setup(rng)
    x, ew, ev = s.ions(x0.copy(), q.copy())
    x = np.asarray(x)
    same(x.shape, (n, 3), "shape")
    h = hess(s, x, q)
    ew, ev = np.asarray(ew), np.asarray(ev).reshape(3 * n, 3 * n)
    sc = np.abs(h).max()
    assert (np.diff(ew) >= 0).all(), "not ascending"
    close(h.dot(ev) / sc, ev * ew / sc, 1e-7, "eigenpairs", 1.)
    close(ev.T.dot(ev), np.identity(3 * n), 1e-8, "orthonormal", 1.)


@case("the search gets the energy and its derivatives", 25)
def f(rng):
    s, n, q, x0 = setup(rng)
    got = []
    old = es.optimize.fmin_ncg

    def ncg(f, x0, fprime, fhess_p=None, fhess=None, args=(), **kw):
        got.append((np.array(x0), f, fprime, fhess))
        return np.array(x0)
    es.optimize.fmin_ncg = ncg
    q = q * rng.choice([-1, 1], n)
    try:
        s.ions(x0.copy(), q.copy())
    finally:
        es.optimize.fmin_ncg = old
    for z, f, g, h in got:
        close(z, x0.ravel(), 1e-12, "start", 1.)
        for k in range(3):
            y = rng.randn(n, 3) * 1.5
            e = energy(s, y, q)
            close(float(f(y.ravel())), e, 1e-9, "energy", abs(e) + 1)
            w = grad(s, y, q)
            close(np.asarray(g(y.ravel())), w, 1e-9, "gradient", np.abs(w).max())
            if h is not None:
                w = hess(s, y, q)
                close(np.asarray(h(y.ravel())), w, 1e-9, "Hessian", np.abs(w).max())


@case("equilibrium", 15)
def f(rng):
    """known crystals: one ion at the minimum, two and three ions along the weakest axis of a harmonic well"""
    k = np.array([1., rng.uniform(7, 9), rng.uniform(10, 12)])
    s = Trap().well(np.diag(k), np.zeros(3), 0.)
    for n, want in ((1, [0.]), (2, [-4**(-1 / 3.), 4**(-1 / 3.)]), (3, [-1.25**(1 / 3.), 0, 1.25**(1 / 3.)])):
        x0 = np.zeros((n, 3))
        x0[:, 0] = np.array(want) * rng.uniform(.8, 1.3) + rng.uniform(-.2, .2)
        x0[:, 1:] = rng.randn(n, 2) * .05
        x, ew, ev = s.ions(x0, np.ones(n))
        x = np.asarray(x)[np.argsort(np.asarray(x)[:, 0])]
        close(x[:, 0], np.array(want), 1e-3, "positions, %d ions" % n, 1.)
        close(x[:, 1:], 0 * x[:, 1:], 1e-3, "off axis, %d ions" % n, 1.)
        close(np.asarray(ew)[0], 1., 1e-3, "centre of mass mode", 1.)
        if n > 1:
            close(np.asarray(ew)[1], 3., 1e-2, "breathing mode", 3.)


main()
