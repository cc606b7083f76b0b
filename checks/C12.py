"""C12: mesh electrodes and the polygon systems they are built from."""
from pyvc.harness import *
from pyvc.values import FamRec
from pyvc import flat
from checks import kernels as K
from checks.leaves import FUNCS, linear, smooth

INFO = {"build": True}
MESH = K.ELE + ".MeshPixelElectrode"


def structure(name, f, impl):
    for lo in (0, 2, 4):
        @ob("%s: loop structure over the leaf contract, %s, orders %d and %d" % (name, impl.split(".")[1], lo, lo + 1), FUNCS(name), timeout=300)
        def g(c, lo=lo):
            f(c, impl, range(lo, lo + 2))


for _i in (K.CY, K.PYM):
    structure("mesh_potential", K.mesh_structure, _i)
    structure("polygon_potential", K.polygon_structure, _i)
    for _o in range(6):
        linear(_i, "edge", _o)
K.electrode_obligations(("mesh", "polygon"))


def world(c):
    I, m = K.load(c, "electrode.system")
    N = T.var("Ne", "I")
    I.assume(T.le(0, N))
    e = I.load(K.ELE)
    cls = I.modget(e, "PolygonPixelElectrode")

    def paths(i):
        Q = T.fn("np", (i,), "I")
        I.literals.add(T.le(0, Q))

        def poly(k):
            n = T.fn("nv", (i, k), "I")
            I.literals.add(T.le(1, n))
            return I.new_arr((n, 2), lambda ix: T.fn("pp", (i, k) + tuple(ix)), "R")
        return I.alloc(ListRec((("comp", Q, lambda k: T.TRUE, lambda k: (("one", poly(k)),)),)), List)
    fam = FamRec("electrodes", cls, dict(paths=paths, dc=lambda i: T.fn("dc", (i,)), rf=lambda i: T.fn("rf", (i,)), name=lambda i: T.fn("name", (i,), "S"),
                                         cover_nmax=lambda i: T.fn("K", (i,), "I"), cover_height=lambda i: T.fn("h", (i,))), {})
    fid = I.alloc(fam)
    s = I.call(I.modget(m, "System"), [])
    lst = I.rec(s).attrs["__list__"]
    I.rec(lst).parts = (("comp", N, lambda i: T.TRUE, lambda i: (("one", SymObj(fid, i)),)),)
    return I, e, s, N


def nested(N, leaf, depth=3):
    """leaf for every vertex of every path of every electrode, in order"""
    NP = lambda i: T.fn("np", (i,), "I")
    NV = lambda i, k: T.fn("nv", (i, k), "I")
    return (("comp", N, lambda i: T.TRUE, lambda i: (("comp", NP(i), lambda k: T.TRUE, lambda k, i=i: (
        ("comp", NV(i, k), lambda v: T.TRUE, lambda v, k=k, i=i: (("one", leaf(i, k, v)),)),)),)),)


@ob("from_polygon_system: vertices, edges, polygons and potentials", [MESH + ".from_polygon_system", MESH + ".__init__"])
def build(c):
    I, m, s, N = world(c)
    q, r = T.var("q_", "I"), T.var("r_", "I")
    NP = lambda i: T.fn("np", (i,), "I")
    NV = lambda i, k: T.fn("nv", (i, k), "I")

    def off(i, k):
        """number of vertices before path k of electrode i"""
        return T.add(T.summ(q, 0, i, T.summ(r, 0, NP(q), NV(q, r))), T.summ(r, 0, k, NV(i, r)))
    a, b = T.var("a_", "I"), T.var("b_", "I")
    # polygons have at least one vertex
    I.assume(T.forall(a, 0, N, T.and_(T.le(0, NP(a)), T.forall(b, 0, NP(a), T.le(1, NV(a, b))))))
    cls = I.modget(m, "MeshPixelElectrode")
    n = 0
    for e in c.run("from_polygon_system", lambda: I.call(I.getattr(cls, "from_polygon_system"), [s])):
        n += 1
        at = I.rec(e).attrs
        c.true("a MeshPixelElectrode", I.rec(e).cls is cls)
        c.eq("dc", T.toreal(T.lift(at["dc"])), T.num(1, "R"))
        c.eq("without cover", T.lift(at["cover_nmax"]), T.num(0))
        c.eq("vertices", Seq(flat.flat_of(I, at["points"]) or ()), Seq(nested(N, lambda i, k, v: I.new_arr((2,), lambda x: T.fn("pp", (i, k, v, x[0])), "R"))))
        prev = lambda i, k, v: T.ite(T.eq(v, 0), T.sub(NV(i, k), 1), T.sub(v, 1))
        c.eq("edges", Seq(flat.flat_of(I, at["edges"]) or ()), Seq(nested(N, lambda i, k, v: I.new_arr((2,), lambda x: T.add(off(i, k), T.ite(T.eq(x[0], 0), prev(i, k, v), v)), "I"))))
        c.eq("polygon of each edge", Seq(flat.flat_of(I, at["polygons"]) or ()), Seq(nested(N, lambda i, k, v: i)))
        c.eq("potentials", at["potentials"], I.new_arr((N,), lambda i: T.fn("dc", i), "R"))
    c.true("returns", n > 0)


@ob("sum over the mesh is the dc superposition of the polygons", [])
def compose(c):
    """with points[off(i, k) + v] = vertex v of path k of electrode i (enumeration lemma) and the leaf linear in the voltage"""
    c.interp()
    N, i, k, v = T.var("Ne", "I"), T.var("i_", "I"), T.var("k_", "I"), T.var("v_", "I")
    NP, NV = T.fn("np", (i,), "I"), T.fn("nv", (i, k), "I")
    E = T.fn("E", (i, k, v))           # contribution of edge v of path k of electrode i at unit voltage
    dc = T.fn("dc", (i,))
    mesh = T.summ(i, 0, N, T.summ(k, 0, NP, T.summ(v, 0, NV, T.mul(dc, E))))
    c.eq("superposition", mesh, T.summ(i, 0, N, T.mul(dc, T.summ(k, 0, NP, T.summ(v, 0, NV, E)))))
