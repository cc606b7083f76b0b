from lib import *
from electrode import CoverElectrode


@case("cover", 30)
def f(rng):
    h, v = rng.uniform(.5, 80), rng.randn()
    e = CoverElectrode(height=h, name="c", dc=2., rf=3.)
    n = rng.randint(1, 6)
    x = rng.randn(n, 3)
    x0 = x.copy()
    for d in range(7):
        want = np.zeros((n, 2 * d + 1))
        if d == 0:
            want[:, 0] = v * x[:, 2] / h
        if d == 1:
            want[:, 2] = v / h
        close(e.potential(x, d, v), want, 1e-12, "order %d" % d)
        close(e.potential(x, d), want / v, 1e-12, "order %d default" % d)
        o = rng.randn(n, 2 * d + 1)
        o2 = o.copy()
        r = e.potential(x, d, potential=v, out=o2)
        close(o2, o + want, 1e-12, "accumulated %d" % d)
        close(r, o + want, 1e-12, "returned %d" % d)
    close(x, x0, 0, "x")
    same((e.height, e.name, e.dc, e.rf), (h, "c", 2., 3.))


main()
