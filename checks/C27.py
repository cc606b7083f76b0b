"""C27: Grid: indices and coordinates."""
from pyvc.harness import *

M = "electrode.grid"
F = [M + ".Grid." + n for n in ("__init__", "get_origin", "to_slices", "to_mgrid", "to_points", "to_xyz", "indices_to_coordinates", "coordinates_to_indices")]


def world(c, d, kind, ints=False):
    I = c.interp()
    m = I.load(M)
    so = "I" if ints else "R"
    ce = [T.var("c%d" % k, so) for k in range(d)]
    st = [T.var("s%d" % k, so) for k in range(d)]
    h = [T.var("h%d" % k, "I") for k in range(d)]
    for s, n in zip(st, h):
        I.assume(T.not_(T.eq(s, 0)))
        I.assume(T.le(1, n))
    if kind == "array":
        cv, sv, hv = [I.new_arr((d,), lambda i, v=v: pick(i[0], v), v[0].sort) for v in (ce, st, h)]
    elif kind == "list":
        cv, sv, hv = [I.newlist(list(v)) for v in (ce, st, h)]
    else:
        cv, sv, hv = tuple(ce), tuple(st), tuple(h)
    if kind == "list":
        cv, sv = I.as_arr(cv), I.as_arr(sv)
    g = I.call(I.modget(m, "Grid"), [], dict(center=cv, step=sv, shape=hv))
    return I, g, [T.toreal(v) for v in ce], [T.toreal(v) for v in st], h


def pick(i, v):
    r = v[-1]
    for k in range(len(v) - 2, -1, -1):
        r = T.ite(T.eq(i, k), v[k], r)
    return r


def mk(d, kind, ints=False):
    tag = "%d dimensions, %s%s" % (d, kind, " of integers" if ints else "")

    def coord(ce, st, h, k, i):
        return T.add(ce[k], T.mul(st[k], T.sub(T.toreal(i), T.div(T.toreal(T.sub(h[k], 1)), 2))))

    @ob("grid: " + tag, F)
    def g(c):
        I, g, ce, st, h = world(c, d, kind, ints)
        do = lambda nm, *a: I.call(I.getattr(g, nm), list(a))
        xs = [T.var("i%d" % k) for k in range(d)]
        ix = I.new_arr((d,), lambda i: pick(i[0], xs), "R")
        ref = lambda v, dt="R": I.new_arr((d,), lambda i: pick(i[0], v), dt)
        n = 0

        def run():
            out = {}
            out["origin"] = do("get_origin")
            z = I.new_arr((d,), lambda i: T.num(0), "I")
            out["zero"] = do("indices_to_coordinates", z)
            out["middle"] = do("indices_to_coordinates", ref([T.div(T.toreal(T.sub(k, 1)), 2) for k in h]))
            out["x"] = do("indices_to_coordinates", ix)
            out["back"] = do("coordinates_to_indices", out["x"])
            y = I.new_arr((d,), lambda i: pick(i[0], xs), "R")
            out["i"] = do("coordinates_to_indices", y)
            out["forth"] = do("indices_to_coordinates", out["i"])
            out["xyz"] = tuple(I.as_arr(v) for v in I.concrete_list(do("to_xyz")))
            out["mgrid"] = do("to_mgrid")
            out["points"] = do("to_points")
            return out
        for p in c.paths(run):
            if p.kind == "raise":
                c.fail("grid", "raises %s" % (p.value,))
                continue
            n += 1
            o = p.value
            first = [coord(ce, st, h, k, T.num(0)) for k in range(d)]
            c.eq("get_origin", o["origin"], ref(first))
            c.eq("index 0 is the origin", o["zero"], ref(first))
            c.eq("the middle index is the centre", o["middle"], ref(ce))
            c.eq("coordinates", o["x"], ref([coord(ce, st, h, k, xs[k]) for k in range(d)]))
            c.eq("indices invert coordinates", o["back"], ref(xs))
            c.eq("coordinates invert indices", o["forth"], ref(xs))
            c.eq("to_xyz axes", len(o["xyz"]), d)
            for k in range(min(d, len(o["xyz"]))):
                c.eq("to_xyz", o["xyz"][k], I.new_arr((h[k],), lambda i, k=k: coord(ce, st, h, k, i[0]), "R"))
            W = I.new_arr((d,) + tuple(h), lambda i: pick(i[0], [coord(ce, st, h, k, i[1 + k]) for k in range(d)]), "R")
            c.eq("to_mgrid", o["mgrid"], W)
            c.eq("to_points", o["points"], I.getattr(I.call(I.getattr(W, "reshape"), [d, -1]), "T"))
        c.true("returns", n > 0)


for d in (1, 2, 3, 4):
    mk(d, "array")
mk(3, "tuple")
mk(3, "list")
mk(3, "array", True)
mk(2, "tuple", True)
