from lib import *
from electrode.mathieu import Mathieu


def par(rng):
    return rng.uniform(.01, .2), rng.uniform(.05, .7) * rng.choice([-1, 1])


def frac(g, k, n):
    r = 1 / g(n)
    for j in range(n - 1, k - 1, -1):
        r = 1 / (g(j) - r)
    return r


@case("recurrence", 40)
def f(rng):
    a, q = rng.uniform(-1, 3), rng.uniform(.05, 3) * rng.choice([-1, 1])
    nu = rng.uniform(.05, .95) + rng.randint(-1, 2)
    nc, ng = rng.randint(1, 9), rng.randint(0, 7)
    M = Mathieu()
    g = lambda n: (a - (nu + 2 * n) ** 2) / q
    n = np.arange(-nc, nc + 1)
    rn, rp = M.coeff_ratio(a, q, nu, nc, ng)
    same((len(rn), len(rp)), (nc, nc), "ratios")
    wp = [frac(g, k, nc + ng) for k in range(1, nc + 1)]
    wn = [frac(lambda j: g(-j), k, nc + ng) for k in range(nc, 0, -1)]
    if max(map(abs, wp + wn)) > 1e5:
        raise Skip
    close(rp, wp, 1e-7, "positive ratios")
    close(rn, wn, 1e-7, "negative ratios")
    C = M.coeff_Cn(a, q, nu, nc, ng)
    ref = np.concatenate([np.cumprod(wn[::-1])[::-1], [1.], np.cumprod(wp)])
    close(C[2], ref, 1e-7, "coefficients")
    for A in C:
        same(A.shape, (2 * nc + 1,))
        for m in range(-nc + 1, nc):
            if m:
                s = abs(g(m) * A[m + nc]) + abs(A[m - 1 + nc]) + abs(A[m + 1 + nc])
                close(g(m) * A[m + nc] / s, (A[m - 1 + nc] + A[m + 1 + nc]) / s, 1e-6, "recurrence at %d" % m, 1.)
    s1, s2 = ref.sum(), (ref * (nu + 2 * n)).sum()
    if abs(s1) > 1e-4 * abs(ref).sum() and abs(s2) > 1e-4 * abs(ref * (nu + 2 * n)).sum():
        close(C[0], ref / s1, 1e-5, "even")
        close(C[1], ref / s2, 1e-5, "odd")


@case("solutions", 12)
def f(rng):
    a, q = par(rng)
    M = Mathieu()
    nc = rng.randint(6, 12)
    M.init_sol(a, q, nc=nc, ng=rng.randint(2, 8), tol_nu=1e-9)
    n = np.arange(-nc, nc + 1)
    w = M.nu + 2 * n
    for y, C, v0, s in ((M.sol_y1, M.Cn[0], (1., 0.), 0.), (M.sol_y2, M.Cn[1], (0., 1.), -np.pi / 2)):
        for t in (0., rng.uniform(-4, 4), rng.uniform(0, 30)):
            for d in range(9):
                r = (C * w ** d * np.cos(w * t + s + d * np.pi / 2)).sum()
                close(y(t, d), r, 1e-9, "order %d at %g" % (d, t), max(1., abs(C * w ** d).max()))
            close(y(t), y(t, 0), 1e-14)
            close(y(t, 2), -(a - 2 * q * np.cos(2 * t)) * y(t), 1e-4, "equation of motion", 1.)
        close([y(0.), y(0., 1)], v0, 1e-6, "start", 1.)
        ts = rng.uniform(-3, 3, 5)
        close(y(ts, 1), [y(t, 1) for t in ts], 1e-9, "many times", 1e-3)


@case("initial values", 16)
def f(rng):
    a, q = par(rng)
    M = Mathieu()
    M.init_sol(a, q, nc=8)
    y0 = rng.randn(2)
    for t0 in (0., rng.uniform(-3, 3), rng.uniform(0, 20), 1e-3, -1e-3):
        A, B = M.init_value(tuple(y0), t0)
        for d in range(2):
            close(A * M.sol_y1(t0, d) + B * M.sol_y2(t0, d), y0[d], 1e-6, "order %d at t0=%g" % (d, t0), 1.)
    close(M.init_value(), [0., 1.], 1e-12)


@case("initialisation", 6)
def f(rng):
    a, q = par(rng)
    nus = []
    for mode in ("det", "ivp"):
        M = Mathieu()
        nc, ng = rng.randint(4, 9), rng.randint(2, 6)
        M.init_sol(a, q, nc=nc, ng=ng, tol_nu=1e-9, mode=mode)
        C = M.coeff_Cn(a, q, M.nu, nc, ng)
        close(M.Cn[0], C[0], 1e-12)
        close(M.Cn[1], C[1], 1e-12)
        nus.append(M.nu)
    close(nus[0], nus[1], 1e-2, "exponents")
    M = Mathieu()
    M.init_sol(a, q)
    same(M.Cn[0].shape[0] % 2, 1)
    raises(ValueError, M.init_sol, a, q, mode="none")


main()
