from lib import *
from bsys import system, pts


@case("eigenpairs of the curvature", 40)
def f(rng):
    s = system(rng, rng.randint(1, 5))
    s.rf_scale(1., 2., 1., 3.)
    x = pts(rng, 1)[0]
    h = s.potential(x, 2)[0]
    for kw in (dict(), dict(sorted=True), dict(sorted=False)):
        w, v = s.modes(x, **kw)
        same(np.shape(w), (3,))
        same(np.shape(v), (3, 3))
        sc = max(np.abs(h).max(), 1e-3)
        close(h.dot(v), v * w, 1e-9, "eigenpairs", sc)
        close(v.T.dot(v), np.eye(3), 1e-9, "orthonormal", 1)
        if kw.get("sorted", True):
            assert np.all(np.diff(w) >= 0), "not ascending: %s" % w


@case("all signs of the curvature", 24)
def g(rng):
    from electrode import System
    q = np.linalg.qr(rng.randn(3, 3))[0]
    w0 = np.sort(rng.rand(3) * 3 + .1) * [[1, 1, 1], [-1, -1, -1], [-1, 1, 1], [-1, -1, 1], [0, 1, 1], [0, -1, 1]][rng.randint(6)]
    h = (q * w0).dot(q.T)
    s = System()
    s.potential = lambda x, derivative=0, typ="tot": {2: h[None]}[derivative]
    for kw in (dict(), dict(sorted=True)):
        w, v = s.modes(np.zeros(3), **kw)
        close(w, np.sort(w0), 1e-9, "eigenvalues", 1)
        close(h.dot(v), v * w, 1e-9, "eigenpairs", 1)


main()
