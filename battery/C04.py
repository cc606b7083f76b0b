from lib import *
from bsys import system, pts, change
from electrode.utils import expand_tensor


def sup(s, x, d, typ):
    r = np.zeros((len(x), 2 * d + 1))
    for e in list.__iter__(s):
        r = r + getattr(e, typ) * np.asarray(e.potential(x, d))
    return r


@case("superposition", 16)
def f(rng):
    s = system(rng)
    x = pts(rng)
    for d in range(6):
        for typ in ("dc", "rf"):
            r = sup(s, x, d, typ)
            close(s.electrical_potential(x, d, typ), r, 1e-9, typ, 1e-3)
            close(s.electrical_potential(x, d, typ, expand=True), expand_tensor(r), 1e-9, typ + " expanded", 1e-3)
            close(s.electrical_potential(list(x[0]), d, typ), r[:1], 1e-9, "one point", 1e-3)
        t = rng.randn() * 3
        close(s.time_potential(x, d, t), sup(s, x, d, "dc") + np.cos(t) * sup(s, x, d, "rf"), 1e-9, "time", 1e-3)
        close(s.time_potential(x, d, t, expand=True), expand_tensor(sup(s, x, d, "dc") + np.cos(t) * sup(s, x, d, "rf")), 1e-9, "time", 1e-3)


@case("magnitudes", 8)
def f(rng):
    s = system(rng)
    x = pts(rng)
    for k in (1e-20, 1e-12, 1e-7, 1e-3, 1e6):
        for typ in ("dc", "rf"):
            old = [getattr(e, typ) for e in s]
            for e in s:
                setattr(e, typ, k * rng.randn())
            for d in (0, 1, 2):
                r = sup(s, x, d, typ) / k
                close(s.electrical_potential(x, d, typ) / k, r, 1e-9, "%s about %g V" % (typ, k), 1e-3)
            for e, o in zip(s, old):
                setattr(e, typ, o)


@case("individual", 16)
def f(rng):
    s = system(rng)
    x = pts(rng)
    v = [(e.dc, e.rf) for e in s]
    for d in range(6):
        r = s.individual_potential(x, d)
        same(r.shape, (len(s), len(x), 2 * d + 1))
        for i, e in enumerate(s):
            close(r[i], np.asarray(e.potential(x, d, 1.)), 1e-9, "electrode %d" % i, 1e-3)
    same(v, [(e.dc, e.rf) for e in s], "voltages kept")


@case("after changes of the system", 8)
def f(rng):
    s = system(rng, rng.randint(1, 4))
    x = pts(rng)
    d, t = rng.randint(6), rng.randn()
    for k in range(8):
        for typ in ("dc", "rf"):
            a = s.electrical_potential(x, d, typ)
            a0 = a.copy()
            s.electrical_potential(x + 1, d, typ) if rng.rand() < .3 else None
            close(a, a0, 0, "result kept")
            close(a, sup(s, x, d, typ), 1e-9, typ, 1e-3)
        close(s.time_potential(x, d, t), sup(s, x, d, "dc") + np.cos(t) * sup(s, x, d, "rf"), 1e-9, "time", 1e-3)
        r = s.individual_potential(x, d)
        for i, e in enumerate(list.__iter__(s)):
            close(r[i], np.asarray(e.potential(x, d, 1.)), 1e-9, "electrode %d" % i, 1e-3)
        change(rng, s)


main()
