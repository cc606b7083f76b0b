"""C02: the order 0 potential is the gapless-plane solution."""
from pyvc.harness import *
from checks import kernels as K, edge_algebra as EA
from checks.leaves import *
from fractions import Fraction

INFO = {"build": True}
NOTE = ("that the line integral of omega round a closed polygon is the integral of d(omega) over its signed area (Stokes) is a "
        "mathematical fact used, not proved here")


def structure(name, f, impl):
    for lo in (0, 2, 4):
        @ob("%s: sum over the geometry and the images, %s, orders %d and %d" % (name, impl.split(".")[1], lo, lo + 1), FUNCS(name), timeout=300)
        def g(c, lo=lo):
            f(c, impl, range(lo, lo + 2))


for _n, _f in (("point_potential", K.point_structure), ("polygon_potential", K.polygon_structure)):
    for _i in (K.CY, K.PYM):
        structure(_n, _f, _i)


for _i in (K.CY, K.PYM):
    for _o in range(6):
        for _k in ("point", "edge"):
            linear(_i, _k, _o)


def pixel(impl):
    @ob("pixel potential, %s" % impl.split(".")[1], FUNCS(K.FN["point"]))
    def g(c):
        v, t = K.leaf(c, impl, "point", 0)
        c.eq("value", t[0], T.div(T.mul(v["a"], v["z"]), T.mul(2, T.mk("pi", (), "R"), T.power(v["r"], 3))), pc=[T.lt(0, v["r"])])


def second_vertex(e):
    """change of e when the second vertex moves away from the first in the direction of the edge: v2 = v1 - d, d -> (1 + t) d"""
    p, dn = e.p, e.d
    if dn[4]:
        raise Unsupported("angle of another form")
    A = EA
    r2 = A.Fr(A.L2 - A.U, (0, 0, 1, 0, 0))                  # dr2/dt = -(v2.d)/r2 = (l2 - u)/r2
    r = A.Fr(p.diff(A.R2)) * r2 + A.Fr(A.red(p.diff(A.DX) * A.DX + p.diff(A.DY) * A.DY + p.diff(A.W) * A.W + 2 * p.diff(A.L2) * A.L2))
    if dn[3]:
        r = r - A.Fr(p).scale(Fraction(2 * dn[3]))
    if dn[2]:
        r = r - (A.Fr(p) * r2 * A.Fr(A.R(1), (0, 0, 1, 0, 0))).scale(Fraction(dn[2]))
    return A.Fr(r.p, tuple(a + b for a, b in zip(r.d, dn)))


def segment(impl):
    @ob("edge potential is the integral of omega along the edge, %s" % impl.split(".")[1], FUNCS(K.FN["edge"]))
    def g(c):
        A = EA
        try:
            # the ring and its two derivations are consistent with the relations
            ring(c, "lemma: the derivation respects v2 = v1 - d", all((second_vertex(A.COORD[k]) + q).zero() for k, q in (("x2", A.Fr(A.DX)), ("y2", A.Fr(A.DY)))))
            ring(c, "lemma: the derivation keeps v1", all(second_vertex(A.COORD[k]).zero() for k in ("x1", "y1", "z", "r1")))
            v, pref, n, d = angle(c, impl)
            num = pref * (second_vertex(n) * d - n * second_vertex(d))
            den = n * n + d * d
            # omega(v2).(v2 - v1) = s a/(2 pi) (x2 (-dy) - y2 (-dx))/(r2 (r2 + |z|))
            on = A.Fr(A.red((A.Y2 * A.DX - A.X2 * A.DY) * A.SG * A.A), (1, 0, 1, 1, 0))
            om = A.Fr(2 * (A.R2 + A.SG * A.Z))
            ring(c, "derivative along the edge is omega", (num * om - den * on).zero(), "the order 0 potential of an edge is not the line integral of the gapless-plane form")
        except Unsupported as e:
            c.fail("derivative along the edge is omega", "outside the verified subset: %s" % e, status="undecided")
        v, t = K.leaf(c, impl, "edge", 0, [lambda v: T.not_(T.eq(v["z"], 0))])
        facts, _ = edge_facts(c, v)
        x = T.subst(to_atan(c, t[0], facts), {v["x2"]: v["x1"], v["y2"]: v["y1"], v["r2"]: v["r1"], v["l2"]: T.num(0, "R")})
        c.eq("an edge of no length contributes nothing", x, T.num(0, "R"), pc=[T.lt(0, v["r1"]), T.not_(T.eq(v["z"], 0))])

    smooth(impl)


for _i in (K.CY, K.PYM):
    pixel(_i)
    segment(_i)


@ob("lemma: d(omega) is the gapless-plane density", [])
def density(c):
    A = EA
    # omega = f (X dY - Y dX), f = s a/(2 pi r (r + s z)); d(omega) = (2 f + X f_X + Y f_Y) dX dY with X f_X + Y f_Y = f' (r^2 - z^2)/r
    r, s, z = A.R1, A.SG, A.Z
    q = r + s * z
    # times 2 pi r^3 q^2 / a: 2 s r^2 q - s (2 r + s z)(r^2 - z^2) = z q^2
    ring(c, "density", not A.red(2 * s * r**2 * q - s * (2 * r + s * z) * (r**2 - z**2) - z * q**2))


K.electrode_obligations(("point", "polygon"))
