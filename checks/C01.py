"""C01: every derivative order of a surface electrode is the gradient of the order below."""
import itertools
from pyvc.harness import *
from checks import kernels as K, edge_algebra as EA
from checks.leaves import *

INFO = {"build": True}


# ---------------------------------------------------------------- loop structure over the leaf contract
def structure(name, f, impl):
    for lo in (0, 2, 4):
        @ob("%s: loop structure over the leaf contract, %s, orders %d and %d" % (name, impl.split(".")[1], lo, lo + 1), FUNCS(name), timeout=300)
        def g(c, lo=lo):
            f(c, impl, range(lo, lo + 2))


for _n, _f in (("point_potential", K.point_structure), ("polygon_potential", K.polygon_structure), ("mesh_potential", K.mesh_structure)):
    for _i in (K.CY, K.PYM):
        structure(_n, _f, _i)


# ---------------------------------------------------------------- leaves
def leaf(impl, kind, order):
    @ob("%s leaf, order %d -> %d, %s" % (kind, order, order + 1, impl.split(".")[1]), FUNCS(K.FN[kind]) + [U + ".expand_tensor"], timeout=600)
    def g(c):
        try:
            a = expanded(c, impl, kind, order)
            b = expanded(c, impl, kind, order + 1)
            dd = {}
            for i in a:
                for ax in range(3):
                    j = tuple(sorted(i)) + (ax,)
                    if j not in dd:
                        dd[j] = EA.D(a[tuple(sorted(i))], ax)
                    name = lambda q: "".join("xyz"[k] for k in q) or "value"
                    if i == tuple(sorted(i)):
                        ring(c, "d/d%s of %s" % ("xyz"[ax], name(i)), closes(kind, order, dd[j] - b[i + (ax,)]), "component %s is not the derivative of %s" % (name(i + (ax,)), name(i)))
                    else:
                        k = tuple(sorted(i))
                        ring(c, "d/d%s of %s" % ("xyz"[ax], name(i)), (a[i] - a[k]).zero() and (b[i + (ax,)] - b[k + (ax,)]).zero(), "expanded tensor is not symmetric")
        except Unsupported as e:
            c.fail("gradient", "outside the verified subset: %s" % e, status="undecided")

    if kind == "edge":
        @ob("repeated vertex contributes nothing, order %d, %s" % (order + 1, impl.split(".")[1]), FUNCS(K.FN[kind]))
        def h(c):
            v, t = K.leaf(c, impl, kind, order + 1)
            for k, x in enumerate(t):
                x = T.subst(x, {v["x2"]: v["x1"], v["y2"]: v["y1"], v["r2"]: v["r1"], v["l2"]: T.num(0, "R")})
                c.eq("d[%d]" % k, x, T.num(0, "R"), pc=[T.lt(0, v["r1"])])


for _i in (K.CY, K.PYM):
    for _o in range(5):
        leaf(_i, "point", _o)
        if _o:
            leaf(_i, "edge", _o)


# ---------------------------------------------------------------- edges, order 0 -> 1
def vertex_term(which, axis):
    """R of a vertex: what the order 0 potential of an edge has in excess of the integral of its order 1 derivative"""
    r, x, y = ((EA.R1, EA.X1, EA.Y1) if which == 1 else (EA.R2, EA.X2, EA.Y2))
    num = [-y, x, EA.R(0)][axis] * EA.SG * EA.A
    return EA.Fr(EA.red(num), (1, 1 if which == 1 else 0, 1 if which == 2 else 0, 1, 0)), EA.Fr(2 * (r + EA.SG * EA.Z))


def edge0(impl):
    @ob("edge leaf, order 0 -> 1 up to vertex terms, %s" % impl.split(".")[1], FUNCS(K.FN["edge"]))
    def g(c):
        try:
            v, pref, n, d = angle(c, impl)
            b = expanded(c, impl, "edge", 1)
            for ax in range(3):
                dn, dd = EA.D(n, ax), EA.D(d, ax)
                num = pref * (dn * d - n * dd)
                den = n * n + d * d
                n1, m1 = vertex_term(1, ax)
                n2, m2 = vertex_term(2, ax)
                # num/den - b = n2/m2 - n1/m1
                lhs = num * m1 * m2
                rhs = den * (b[(ax,)] * m1 * m2 + n2 * m1 - n1 * m2)
                ring(c, "d/d%s" % "xyz"[ax], (lhs - rhs).zero(), "the order 1 derivative of an edge is not the gradient of its potential")
        except Unsupported as e:
            c.fail("gradient", "outside the verified subset: %s" % e, status="undecided")

for _i in (K.CY, K.PYM):
    edge0(_i)
    smooth(_i)


@ob("vertex terms cancel round every polygon", FUNCS("polygon_potential"))
def telescope(c):
    c.interp()
    n, e = T.var("n", "I"), T.var("e", "I")
    prev = T.ite(T.eq(e, 0), T.sub(n, 1), T.sub(e, 1))
    Rv = lambda i: T.fn("Rv", (i,))
    pc = [T.le(1, n)]
    mid = T.add(Rv(T.sub(n, 1)), T.summ(e, 0, T.sub(n, 1), Rv(e)))
    c.eq("sum over first vertices of the edges", T.summ(e, 0, n, Rv(prev)), mid, pc=pc)
    c.eq("sum over second vertices of the edges", T.summ(e, 0, n, Rv(e)), mid, pc=pc)


# ---------------------------------------------------------------- the electrodes hand everything on
K.electrode_obligations(("point", "polygon", "mesh"))
