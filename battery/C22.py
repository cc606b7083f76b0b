from lib import *
from bsys import system
import itertools
from electrode import system as sysmod
from scipy import optimize

AX = [a for k in (1, 2, 3) for a in itertools.permutations(range(3), k)]


class Res(dict):
    __getattr__ = dict.__getitem__


def setup(rng):
    s = system(rng, rng.randint(1, 5))
    s.rf_scale(1., 2., 1., 3.)
    axis = AX[rng.randint(len(AX))]
    q, _ = np.linalg.qr(rng.randn(3, 3))
    coord = None if rng.rand() < .3 else (q if rng.rand() < .7 else rng.randn(3, 3) * .3 + np.eye(3))
    M = np.eye(3) if coord is None else coord
    kind = rng.randint(3)
    y0 = np.r_[rng.randn(2) * .4, rng.uniform(.7, 1.5)]
    x0 = np.linalg.solve(M, y0)
    if kind == 0:
        x0 = [int(v) for v in np.round(x0)]
        if abs(M.dot(x0)[2]) < .3:
            raise Skip
    elif kind == 1:
        x0 = list(x0)
    kw = {} if coord is None else dict(coord=coord)
    if axis != (0, 1, 2) or rng.rand() < .5:
        kw["axis"] = axis
    return s, axis, M, x0, kw


def ref(s, M, x):
    """value, gradient and Hessian by finite differences of the value in the frame"""
    U = lambda z: float(np.asarray(s.potential(M.dot(z), 0)).ravel()[0])
    h = 1e-4
    E = np.eye(3) * h
    g = np.array([(8 * (U(x + e) - U(x - e)) - (U(x + 2 * e) - U(x - 2 * e))) / (12 * h) for e in E])
    h = 2e-3
    E = np.eye(3) * h
    H = np.array([[(U(x + e + f) - U(x + e - f) - U(x - e + f) + U(x - e - f)) / (4 * h * h) for f in E] for e in E])
    return U(x), g, H


def probe(rng, s, M, x0, axis, fun, jac, hess):
    for k in range(3):
        xi = np.array([float(x0[a]) for a in axis]) + rng.randn(len(axis)) * .05
        z = np.array(x0, float)
        z[list(axis)] = xi
        u, g, H = ref(s, M, z)
        ax = list(axis)
        sc = max(abs(u), np.abs(g).max(), np.abs(H).max(), 1e-3)
        close(np.asarray(fun(xi)).ravel(), np.array([u]), 1e-9, "function", sc)
        close(jac(xi), g[ax], 1e-5, "gradient", sc)
        if hess is not None:
            close(hess(xi), H[ax][:, ax], 1e-3, "Hessian", sc)
        close(jac(xi), g[ax], 1e-5, "gradient again", sc)


@case("minimum: what the optimiser gets", 40)
def f(rng):
    s, axis, M, x0, kw = setup(rng)
    rec = {}
    ok = rng.rand() < .7
    end = rng.randn(len(axis))

    def fake(fun, x0, args=(), method=None, jac=None, hess=None, **k):
        rec.update(fun=fun, jac=jac, hess=hess, x0=np.array(x0))
        probe(rng, s, M, arg, axis, fun, jac, hess)
        return Res(success=ok, message="m", x=end)
    arg = x0
    keep = np.array(x0, float)
    orig = optimize.minimize
    optimize.minimize = fake
    try:
        if not ok:
            raises(ValueError, s.minimum, x0, **kw)
            return
        x = s.minimum(x0, **kw)
    finally:
        optimize.minimize = orig
    assert rec, "optimiser not used"
    close(np.array(x0, float), keep, 0, "x0 unchanged")
    close(rec["x0"].astype(float), keep[list(axis)], 1e-12, "start", 1)
    keep[list(axis)] = end
    close(x, keep, 1e-12, "point", 1)


@case("saddle: what the optimiser gets", 40)
def f(rng):
    s, axis, M, x0, kw = setup(rng)
    ret = ["xtol", "ftol", "iter", "xtol"][rng.randint(4)]
    end = np.array([float(x0[a]) for a in axis]) + rng.randn(len(axis)) * .05
    keep = np.array(x0, float)
    rec = {}

    def fake(fun, grad, start, args=(), h=None, **k):
        rec.update(x0=np.array(start), h=np.array(h), k=k)
        probe(rng, s, M, keep, axis, fun, grad, None)
        fv = fun(end)
        grad(end)
        return end, fv, ret
    orig = sysmod.rfo
    sysmod.rfo = fake
    try:
        if ret == "iter":
            raises(ValueError, s.saddle, x0, **kw)
            return
        x, p = s.saddle(x0, **kw)
    finally:
        sysmod.rfo = orig
    u, g, H = ref(s, M, keep)
    ax = list(axis)
    close(rec["x0"].astype(float), keep[ax], 1e-12, "start", 1)
    close(rec["h"], H[ax][:, ax], 1e-3, "Hessian", max(np.abs(H).max(), 1e-2))
    keep[ax] = end
    close(x, keep, 1e-12, "point", 1)
    close(np.asarray(p).ravel(), np.array([ref(s, M, keep)[0]]), 1e-9, "value", 1e-3)


@case("minimum found", 3)
def f(rng):
    from electrode import System, PolygonPixelElectrode
    a = 1.
    rf = [PolygonPixelElectrode(name="r", rf=1., paths=[[[-4, .5], [-4, 1.6], [4, 1.6], [4, .5]][::-1], [[-4, -.5], [-4, -1.6], [4, -1.6], [4, -.5]]])]
    s = System(rf)
    s.rf_scale(1., 1., 1., 1.)
    q, _ = np.linalg.qr(rng.randn(3, 3))
    y0 = np.array([0., .1, .9])
    x = s.minimum(q.T.dot(y0), coord=q)
    g = s.potential(q.dot(x), 1)[0]
    close(g, np.zeros(3), 1e-5, "gradient at the minimum", 1)
    x = s.minimum((0, 0, 1), axis=(1, 2))
    g = s.potential(x, 1)[0]
    close(g[1:], np.zeros(2), 1e-5, "gradient at the minimum", 1)
    same(x[0], 0.)


main()
