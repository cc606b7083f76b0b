"""C03: compiled and pure-Python kernels agree."""
from pyvc.harness import *
from checks import kernels as K

INFO = {"build": True}
from checks.leaves import *


def structure(name, f, impl):
    for lo in (0, 2, 4):
        @ob("%s: loop structure over the leaf contract, %s, orders %d and %d" % (name, impl.split(".")[1], lo, lo + 1), FUNCS(name), timeout=300)
        def g(c, lo=lo):
            f(c, impl, range(lo, lo + 2))


for _n, _f in (("point_potential", K.point_structure), ("polygon_potential", K.polygon_structure), ("mesh_potential", K.mesh_structure)):
    for _i in (K.CY, K.PYM):
        structure(_n, _f, _i)


def leaves(kind, order):
    @ob("%s leaf, order %d" % (kind, order), FUNCS(K.FN[kind]))
    def g(c):
        pre = []
        if kind == "edge" and order == 0:
            pre = [lambda v: T.not_(T.eq(v["z"], 0))]
        v, a = K.leaf(c, K.CY, kind, order, pre)
        v, b = K.leaf(c, K.PYM, kind, order, pre)
        for k, (s, t) in enumerate(zip(a, b)):
            if kind == "edge" and order == 0:
                facts, lab = edge_facts(c, v)
                s, t = to_atan(c, s, facts), to_atan(c, t, facts)
                c.eq("d[%d]" % k, s, t, pc=facts)
            else:
                c.eq("d[%d]" % k, s, t)


for _o in range(6):
    for _k in ("point", "edge"):
        leaves(_k, _o)
