"""Contracts of the shapely geometries polygons.py works with."""
from checks.systems import *
from pyvc.values import *

POL = "electrode.polygons"


class Coords(object):
    """coordinate sequence of a closed ring: n + 1 points, the last one the first again; row(i, c)"""
    def __init__(self, n, row, dim):
        self.n, self.row, self.dim = n, row, dim

    def np_asarray(self, I):
        return I.new_arr((T.add(self.n, 1), self.dim), lambda i: self.row(T.ite(T.lt(i[0], self.n), i[0], T.num(0)), i[1]), "R")

    def np_len(self, I):
        return T.add(self.n, 1)

    def np_parts(self, I):
        a = self.np_asarray(I)
        return (("comp", T.add(self.n, 1), lambda i: T.TRUE, lambda i: (("one", tuple(I.elem(a, (T.lift(i), T.num(k))) for k in range(self.dim))),)),)

    def np_getitem(self, I, k):
        if isinstance(k, SliceV):
            return I.getitem(self.np_asarray(I), k)
        k2 = I.py(k)
        a = self.np_asarray(I)
        k = T.add(self.n, 1 + k2) if isinstance(k2, int) and k2 < 0 else T.lift(k)
        return tuple(I.elem(a, (k, T.num(c))) for c in range(self.dim))

    def np_getattr(self, I, name):
        if name == "xy":
            a = self.np_asarray(I)
            return tuple(I.getitem(a, (SliceV(None, None, None), k)) for k in range(2))
        raise Unsupported("coords.%s" % name)


class Ring(object):
    def __init__(self, coords, ccw):
        self.coords, self.ccw = coords, ccw

    def isinst(self, nm):
        return nm.split(".")[-1] in ("LinearRing", "LineString")

    def np_getattr(self, I, name):
        if name == "coords":
            return self.coords
        if name == "is_ccw":
            return self.ccw
        if name in ("is_ring", "is_closed"):
            return True
        if name == "__len__":
            raise PyExc(I.builtins["AttributeError"], (name,))
        raise Unsupported("LinearRing.%s" % name)


class Poly(object):
    def __init__(self, valid, area, ext, ints):
        self.valid, self.area, self.ext, self.ints = valid, area, ext, ints   # ints: collection of rings

    def isinst(self, nm):
        return nm.split(".")[-1] == "Polygon"

    def np_getattr(self, I, name):
        if name == "is_valid":
            return self.valid
        if name == "area":
            return self.area
        if name == "is_empty":
            # a valid polygon has no area exactly if it is empty
            return T.eq(self.area, 0)
        if name == "exterior":
            return self.ext
        if name == "interiors":
            return self.ints
        if name in ("geom_type", "type"):
            return "Polygon"
        if name == "geoms":
            raise PyExc(I.builtins["AttributeError"], (name,))
        raise Unsupported("Polygon.%s" % name)


class Multi(object):
    def __init__(self, l):
        self.l = l

    def isinst(self, nm):
        return nm.split(".")[-1] in ("MultiPolygon", "BaseMultipartGeometry")

    def np_parts(self, I):
        return self.l.np_parts(I)

    def for_hook(self, I, s, fr):
        return self.l.for_hook(I, s, fr)

    def np_len(self, I):
        return self.l.n

    def np_getattr(self, I, name):
        if name == "geoms":
            return self.l
        if name in ("geom_type", "type"):
            return "MultiPolygon"
        raise Unsupported("MultiPolygon.%s" % name)


def load_polygons(c):
    I = c.interp()
    pyx.install(I)
    return I, I.load(POL)
