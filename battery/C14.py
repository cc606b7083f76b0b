from lib import *
from electrode import GridElectrode
from electrode.utils import deriv_to_name


def lin(a, p):
    """linear interpolation at fractional voxel p (inside the grid)"""
    lo = [min(int(np.floor(q)), n - 2) for q, n in zip(p, a.shape)]
    f = [q - l for q, l in zip(p, lo)]
    r = 0.
    for c in np.ndindex(2, 2, 2):
        w = np.prod([f[k] if c[k] else 1 - f[k] for k in range(3)])
        r += w * a[tuple(l + d for l, d in zip(lo, c))]
    return r


def make(rng, orders):
    sh = tuple(rng.randint(2, 7, 3))
    o, h = rng.randn(3) * 4, rng.uniform(.2, 3, 3)
    dat = [rng.randn(*(sh + (2 * n + 1,))) for n in range(orders + 1)]
    return sh, o, h, dat, GridElectrode(data=[d.copy() for d in dat], origin=list(o), spacing=tuple(h), name="g", dc=1.5, rf=.5)


@case("potential", 30)
def f(rng):
    sh, o, h, dat, e = make(rng, 4)
    n = rng.randint(1, 7)
    fr = rng.rand(n, 3) * (np.array(sh) - 1)
    x = o + fr * h
    x0 = x.copy()
    v = rng.randn()
    for d in range(5):
        want = v * np.array([[lin(dat[d][..., c], p) for c in range(2 * d + 1)] for p in fr])
        close(e.potential(x, d, v), want, 1e-9, "order %d" % d)
        close(e.potential(x, d), want / v, 1e-9, "order %d, default" % d)
        out = rng.randn(*want.shape)
        ref = out + want
        r = e.potential(x, d, potential=v, out=out)
        close(out, ref, 1e-9, "accumulates %d" % d)
        close(r, ref, 1e-9, "returns %d" % d)
    close(x, x0, 0, "x")
    same(len(e.data), 5)
    for a, b in zip(e.data, dat):
        close(a, b, 0, "data")


@case("generate", 30)
def f(rng):
    have = int(rng.randint(0, 4))
    sh, o, h, dat, e = make(rng, have)
    md = int(rng.randint(1, 6))
    e.generate(md)
    same(len(e.data), max(have + 1, md))
    for n in range(len(e.data)):
        same(e.data[n].shape, sh + (2 * n + 1,))
        if n <= have:
            close(e.data[n], dat[n], 0, "order %d kept" % n)
            continue
        for i in range(2 * n + 1):
            ok = False
            cand = []
            for j in range(2 * n - 1):
                for k in range(3):
                    if "".join(sorted(deriv_to_name(n - 1, j) + "xyz"[k])) == deriv_to_name(n, i):
                        g = np.gradient(e.data[n - 1][..., j], h[k], axis=k)
                        cand.append(np.abs(g - e.data[n][..., i]).max() / (1e-30 + np.abs(g).max()))
            assert min(cand) < 1e-9, "order %d component %d: %s" % (n, i, cand)
    close(e.origin, o, 0)
    close(e.spacing, h, 0)


main()
