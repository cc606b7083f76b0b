from lib import *
from electrode import System, PolygonPixelElectrode
from bsys import system


def leap(ddx, nsteps, t, p, q, t1, *args, **kw):
    """velocity Verlet, in place"""
    h = (t1 - t) / nsteps
    f = np.empty_like(q)
    for k in range(nsteps):
        ddx(t + k * h, q, f)
        p += h / 2 * f
        q += h * p
        ddx(t + (k + 1) * h, q, f)
        p += h / 2 * f


def force(s, x, t):
    n = np.array(x, float)[None]
    g = np.zeros(3)
    for e in s:
        v = e.dc + np.cos(t) * e.rf
        g -= v * np.asarray(e.potential(n, 1, 1.))[0]
    return g


@case("equation of motion and reports", 20)
def f(rng):
    s = system(rng, rng.randint(1, 4))
    x0 = rng.randn(3) * .3
    x0[2] = abs(x0[2]) + 1.
    v0 = rng.randn(3) * .1
    axis = [(0, 1, 2), (1, 2), (2,), (2, 0)][rng.randint(4)]
    t0, dt, n = rng.uniform(0, 3), rng.uniform(.01, .1), rng.randint(1, 3)
    steps = rng.randint(1, 6)
    seen = []

    def integ(ddx, nsteps, t, p, q, t1, *args, **kw):
        seen.append((nsteps, t, t1, args, kw))
        leap(ddx, nsteps, t, p, q, t1)
    a, b = x0.copy(), v0.copy()
    kind = rng.randint(3)
    xs, vs = (x0, v0) if kind else (list(x0), tuple(v0))
    if kind == 1:
        x0, v0 = np.array([0, 1, 2]), np.array([0, 0, 1]) * rng.randint(0, 2)
        xs, vs = x0, v0
        a, b = x0.copy(), v0.copy()
    out = list(s.trajectory(xs, vs, axis, t0=t0, dt=dt, t1=t0 + (steps - .5) * dt, nsteps=n, integ=integ, tag=5))
    same(len(out), steps, "reports")
    same(a.tolist(), np.asarray(x0).tolist(), "x0 changed")
    same(b.tolist(), np.asarray(v0).tolist(), "v0 changed")
    x, v, t = np.array(a, float), np.array(b, float), t0
    ax = list(axis)
    for k in range(steps):
        h = dt / n
        for j in range(n):
            v[ax] += h / 2 * force(s, x, t + j * h)[ax]
            x[ax] += h * v[ax]
            v[ax] += h / 2 * force(s, x, t + (j + 1) * h)[ax]
        t += dt
        close(out[k][0], t, 1e-9, "time", 1.)
        close(np.asarray(out[k][1]), x[ax], 1e-9, "position", 1.)
        close(np.asarray(out[k][2]), v[ax], 1e-9, "speed", 1.)
        same((seen[k][0], seen[k][3], seen[k][4]), (n, (), dict(tag=5)), "arguments of the integrator")


@case("an ion in a static well is pulled back", 6)
def f(rng):
    ring = lambda r: [[r * np.cos(a), r * np.sin(a)] for a in np.linspace(0, 2 * np.pi, 30)[:-1]]
    s = System([PolygonPixelElectrode(paths=[ring(1.)], dc=1.), PolygonPixelElectrode(paths=[ring(2.5)], dc=-1.5 * rng.uniform(.9, 1.1))])
    z = s.minimum([0, 0, 1.2], axis=(2,), method="Nelder-Mead")[2] if 0 else None
    zs = np.linspace(.2, 5, 400)
    u = np.array([s.electrical_potential([0, 0, q], 0, "dc")[0, 0] for q in zs])
    k = u.argmin()
    if k in (0, 399):
        raise Skip()
    z0 = zs[k] + .1
    e = []
    for t, x, v in s.trajectory(np.array([0, 0, z0]), np.zeros(3), (2,), dt=.05, t1=20., integ=leap):
        e.append(v[0]**2 / 2 + s.electrical_potential([0, 0, x[0]], 0, "dc")[0, 0])
        assert abs(x[0] - zs[k]) < .3, "leaves the well"
    close(np.array(e), np.full(len(e), e[0]), 1e-3, "energy", abs(e[0]))


main()
