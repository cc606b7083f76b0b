"""C11: to_points and orientations."""
from checks.systems import *

INFO = {"build": True}
F = ["electrode.electrode.PolygonPixelElectrode." + n for n in ("__init__", "to_points", "orientations")] + \
    ["electrode.electrode.PointPixelElectrode." + n for n in ("__init__", "orientations")] + \
    ["electrode.electrode.SurfaceElectrode.__init__", "electrode.electrode.Electrode.__init__"]
ATTR = ("dc", "rf", "cover_height")


def identify(I, arr):
    """the polygon q an array is, by its entries pp(q, vertex, coordinate)"""
    i = T.var("vtx", "I")
    got = [I.elem(arr, (i, T.num(k))) for k in range(2)]
    for k, g in enumerate(got):
        if g.op != "fn" or g.args[0] != "pp" or len(g.args) != 4 or g.args[2] is not i or g.args[3] is not T.num(k) or \
                g.args[1] is not got[0].args[1]:
            raise Unsupported("area_centroid of an array that is not one of the polygons")
    return got[0].args[1]


def world(c):
    I, m = load(c, ELE)

    def area_centroid(I, f, args, kw):
        """contract (C10): signed area A(q) and centroid C(q, .) of polygon q"""
        b = I.bind_args(f, args, kw)
        q = identify(I, I.as_arr(list(b.values())[0]))
        return (T.fn("A", (q,)), I.new_arr((2,), lambda k: T.fn("C", (q,) + tuple(k)), "R"))
    I.contracts["electrode.utils:area_centroid"] = area_centroid
    Q = T.var("Q", "I")
    I.assume(T.le(0, Q))

    def poly(i):
        nv = T.fn("nv", (i,), "I")
        I.literals.add(T.le(1, nv))
        return I.new_arr((nv, 2), lambda ix: T.fn("pp", (i,) + tuple(ix)), "R")
    polys = I.alloc(ListRec((("comp", Q, lambda i: T.TRUE, lambda i: (("one", poly(i)),)),)), List)
    kw = dict((a, T.var(a)) for a in ATTR)
    kw.update(name=T.var("nm", "S"), cover_nmax=T.var("cn", "I"), paths=polys)
    el = c.one("constructor", lambda: I.call(I.modget(m, "PolygonPixelElectrode"), [], kw))
    return I, m, Q, el, kw


@ob("to_points", F)
def to_points(c):
    I, m, Q, el, kw = world(c)
    r = c.one("call", lambda: I.call(I.getattr(el, "to_points"), []))
    c.true("class", I.rec(r).cls is I.modget(m, "PointPixelElectrode"))
    for a in ATTR + ("name", "cover_nmax"):
        c.eq(a, I.getattr(r, a), kw[a])
        c.eq("source " + a, I.getattr(el, a), kw[a])
    c.eq("areas", I.getattr(r, "areas"), I.new_arr((Q,), lambda i: T.fn("A", i), "R"))
    # with no polygon at all the array of points is empty
    pts = I.as_arr(I.getattr(r, "points"))
    c.eq("points", pts, I.new_arr((Q, 2), lambda i: T.fn("C", i), "R"), pc=[T.le(1, Q)])


@ob("orientations of polygons", F)
def orient(c):
    I, m, Q, el, kw = world(c)
    r = I.as_arr(c.one("call", lambda: I.call(I.getattr(el, "orientations"), [])))
    i = T.var("i", "I")
    A = T.fn("A", (i,))
    c.true("one per polygon", T.and_(r.ndim == 1, T.eq(r.shape[0], Q)) if r.ndim == 1 else False)
    rng = [T.le(0, i), T.lt(i, Q)]
    v = T.toreal(I.elem(r, (i,)))
    c.true("counter-clockwise", T.eq(v, T.num(1, "R")), pc=rng + [T.lt(0, A)])
    c.true("clockwise", T.eq(v, T.num(-1, "R")), pc=rng + [T.lt(A, 0)])


@ob("orientations of points", F)
def ones(c):
    I, m = load(c, ELE)
    n = T.var("n", "I")
    I.assume(T.le(0, n))
    ar = I.new_arr((n,), lambda i: T.fn("ar", i), "R")
    p = I.new_arr((n, 2), lambda i: T.fn("p", i), "R")
    el = c.one("constructor", lambda: I.call(I.modget(m, "PointPixelElectrode"), [], dict(points=p, areas=ar)))
    r = c.one("call", lambda: I.call(I.getattr(el, "orientations"), []))
    c.eq("ones", r, I.new_arr((n,), lambda i: T.num(1, "R"), "R"))
