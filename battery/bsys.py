"""random systems for the batteries"""
import numpy as np
from electrode import System, PolygonPixelElectrode, PointPixelElectrode, CoverElectrode


def poly(rng, n=None):
    n = n or rng.randint(3, 7)
    ang = np.sort(rng.rand(n)) * 2 * np.pi
    r = .4 + rng.rand(n)
    p = np.c_[r * np.cos(ang), r * np.sin(ang)] + rng.randn(2) * 2
    return p if rng.rand() < .7 else p[::-1]


def electrode(rng, k=0):
    kw = dict(name="e%d" % k, dc=rng.randn() if rng.rand() < .8 else 0., rf=rng.randn() if rng.rand() < .6 else 0.,
              cover_height=rng.uniform(20, 60), cover_nmax=int(rng.randint(0, 3)))
    if rng.rand() < .6:
        return PolygonPixelElectrode(paths=[poly(rng) for i in range(rng.randint(1, 4))], **kw)
    n = rng.randint(1, 5)
    return PointPixelElectrode(points=rng.randn(n, 2), areas=rng.rand(n), **kw)


def system(rng, n=None, polygons=False):
    out = []
    for k in range(rng.randint(0, 6) if n is None else n):
        e = electrode(rng, k)
        while polygons and not isinstance(e, PolygonPixelElectrode):
            e = electrode(rng, k)
        out.append(e)
    return System(out)


def pts(rng, n=None):
    x = rng.randn(rng.randint(1, 5) if n is None else n, 3)
    x[:, 2] = np.abs(x[:, 2]) + .5
    return x


def change(rng, s, polygons=False):
    """one change of a system that is in use"""
    k, n = rng.randint(7), len(s)
    i = rng.randint(n) if n else 0
    if k == 0 and n:
        list.__getitem__(s, i).dc = rng.randn()
    elif k == 1 and n:
        list.__getitem__(s, i).rf = rng.randn()
    elif k == 2 and n:
        e = list.__getitem__(s, i)
        if hasattr(e, "paths"):
            e.paths = [p + rng.randn(2) for p in e.paths]
        else:
            e.points = e.points + rng.randn(2)
    elif k == 3 and n:
        e = electrode(rng, 40)
        s[i] = e if not polygons or hasattr(e, "paths") else PolygonPixelElectrode(paths=[poly(rng)], dc=1.3, rf=.4)
    elif k == 4 and n > 1:
        s.append(list.pop(s, i))
    elif k == 5 and n:
        s.append(list.__getitem__(s, i))
    elif n:
        s.dcs, s.rfs = rng.randn(n), rng.randn(n)
