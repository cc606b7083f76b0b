from lib import *
from electrode.saddle import rfo


def problem(rng, n):
    a = rng.randn(n, n)
    a = a + a.T
    b = rng.randn(n)
    q = .3 * rng.rand()
    k = rng.randn(n)

    def f(x):
        return .5 * x.dot(a).dot(x) + b.dot(x) + q * np.sum(np.cos(k * x))

    def g(x):
        return a.dot(x) + b - q * k * np.sin(k * x)
    return f, g, a


def follow(f, g, x0, h=None, **kw):
    tr = []
    r = rfo(f, g, x0, h=h, cb=lambda x, fx, gx, hx: tr.append([np.array(x, float).ravel(), float(fx), np.array(gx, float).ravel(), np.array(hx, float)]), **kw)
    dx, xtol, ftol, mi = [kw.get(k, d) for k, d in (("dx_max", 1.), ("xtol", 1e-4), ("ftol", 1e-4), ("maxiter", 200))]
    for j, (x, fx, gx, hx) in enumerate(tr):
        sc = 1 + abs(x).max()
        ref = abs(np.array(g(x))).max() + abs(f(x)) + sc
        assert np.all(np.isfinite(hx)), "Hessian not finite"
        assert abs(fx - f(x)) <= 1e-8 * ref, "f is not the function at x: %r %r" % (fx, f(x))
        assert abs(gx - np.array(g(x))).max() <= 1e-8 * ref, "g is not the gradient at x"
        assert abs(hx - hx.T).max() <= 1e-8 * (1 + abs(hx).max()), "Hessian not symmetric"
        if j:
            px, pf, pg, ph = tr[j - 1]
            s = x - px
            assert np.linalg.norm(s) <= dx * (1 + 1e-9) + 1e-12 * sc, "step of length %r" % np.linalg.norm(s)
            if np.linalg.norm(s) > 1e-6:
                e = hx.dot(s) - (gx - pg)
                t = abs(hx).max() * np.linalg.norm(s) + abs(ph).max() * np.linalg.norm(s) + abs(gx - pg).max()
                assert abs(e).max() <= 1e-6 * t + 1e-9 * ref, "secant condition off by %g" % abs(e).max()
    x, fx, why = r
    same(np.shape(x), np.shape(tr[-1][0]), "shape")
    close(x, tr[-1][0], 1e-12)
    n = len(tr) - 1

    def met(j, why):
        (px, pf, _, _), (qx, qf, _, _) = tr[j], tr[j + 1]
        if why == "xtol":
            return 2 * np.linalg.norm(qx - px) - xtol * (np.linalg.norm(qx) + np.linalg.norm(px) + 1e-20)
        if why == "ftol":
            return 2 * abs(qf - pf) - ftol * (abs(qf) + abs(pf) + 1e-20)
        return 1 if not (mi > 0 and j + 1 > mi) else -1
    assert why in ("xtol", "ftol", "iter"), why
    assert met(n - 1, why) <= 1e-9, "stopped with %s although its criterion is not met" % why
    for j in range(n - 1):
        for w in ("xtol", "ftol", "iter"):
            assert met(j, w) > -1e-6 * (1 + abs(met(j, w))), "went on although the %s criterion was met" % w


@case("random functions", 12)
def c1(rng):
    n = rng.randint(1, 5)
    f, g, a = problem(rng, n)
    x0 = rng.randn(n)
    kw = [dict(), dict(dx_max=.3), dict(xtol=1e-8, ftol=0., maxiter=5), dict(xtol=0., ftol=1e-6, maxiter=rng.randint(1, 8)), dict(maxiter=1)][rng.randint(5)]
    h = [None, a, np.diag(rng.randn(n)), a + .1 * np.diag(rng.randn(n))][rng.randint(4)]
    x1, h1 = x0.copy(), None if h is None else h.copy()
    follow(f, g, x0, h, **dict(dict(maxiter=12), **kw))
    close(x0, x1, 1e-15, "start changed")
    if h is not None:
        close(h, h1, 1e-15, "Hessian argument changed")


@case("integers, exact and flat Hessians", 2)
def c2(rng):
    f, g = lambda x: x[0]**2 - x[1]**2, lambda x: [2*x[0], -2*x[1]]
    for x0 in ([1, 2], [1., 2.], [0, 0], [0., 1.]):
        for h in (None, [[2, 0], [0, -2]], [[2., 0], [0, -2.]], [[1, 0], [0, 1]], [[0, 0], [0, 0]], [[0, 0], [0, 2.]]):
            follow(f, g, x0, h, maxiter=6)
    f, g = lambda x: x[0]**2 + 0*x[1], lambda x: [2*x[0], 0.]
    follow(f, g, [1., 2.], [[0, 0], [0, 2]], maxiter=6)


main()
