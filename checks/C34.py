"""C34: export of polygons to a system; square pads."""
from checks.shapes import *
from pyvc.append import AppendLoop, again

INFO = {"build": True}
F = [POL + ".Polygons.to_system"]
NOTE = "shapely geometries by contract: validity, area, rings with closed coordinate sequences and orientation flags"


def ring(tag, idx, dim):
    ix = [T.lift(x) for x in idx]
    n = T.fn("n" + tag, ix, "I")
    return Ring(Coords(n, lambda i, c: T.fn("xy" + tag, ix + [T.lift(i), T.lift(c)]), dim), T.fn("ccw" + tag, ix, "B"))


def size(I, r):
    I.assume(T.le(3, r.coords.n))
    return r


def open_(I, r, ccw):
    """the ring without the closing point, x and y only, traversed as asked for"""
    n = r.coords.n
    keep = r.ccw if ccw else T.not_(r.ccw)
    # reversed: last point first; the closing point is dropped from the end
    return I.new_arr((n, 2), lambda i: T.ite(keep, r.coords.row(i[0], i[1]), T.ite(T.eq(i[0], 0), r.coords.row(T.num(0), i[1]), r.coords.row(T.sub(n, i[0]), i[1]))), "R")


def loop(I, c, label, n, elem, spec, idx):
    """a collection whose elements each add spec(j) to the paths; behind the loop, what the loop added is a sequence
    of which nothing is known but the collection it stems from"""
    ix = [T.lift(x) for x in idx]
    tag = label.replace(" ", ".")
    m = T.fn(tag + ".len", ix, "I")
    I.assume(T.le(0, m))

    def check(ps, j):
        want = spec(j)
        c.eq(label + ": paths added", I.alloc(ListRec(ps), List), I.alloc(ListRec(want), List)) if want or ps else c.ok(label + ": no path added")
    return AppendLoop(c, label, n, elem, check, (("comp", m, lambda k: T.TRUE, lambda k: (("one", T.fn(tag, ix + [T.lift(k)], "S")),)),))


def rings(I, p):
    """paths of a polygon that is valid and not empty"""
    return (("one", open_(I, p.ext, True)),) + tuple(p.ints.after)


def mk(kind, dim):
    @ob("one electrode per entry: %s, %d coordinates" % (kind, dim), F, timeout=300)
    @again
    def g(c):
        I, m = load_polygons(c)
        N = T.var("N", "I")
        I.assume(T.le(0, N))
        ELEC = I.modget(I.load(ELE), "PolygonPixelElectrode")

        def poly(e, j):
            ix = [T.lift(e), T.lift(j)]
            nh = T.fn("holes", ix, "I")
            I.assume(T.le(0, nh))
            inner = lambda k: size(I, ring("int", ix + [T.lift(k)], dim))
            ints = loop(I, c, "interior rings", nh, inner, lambda k: (("one", open_(I, inner(k), False)),), ix)
            I.assume(T.le(0, T.fn("area", ix)))
            return Poly(T.fn("valid", ix, "B"), T.fn("area", ix), size(I, ring("ext", ix, dim)), ints)

        def path_spec(p):
            v = T.and_(p.valid, T.not_(T.eq(p.area, 0)))
            return rings(I, p) if I.decide(v) else ()

        def geom(i):
            if kind == "polygons":
                return poly(i, 0)
            n = T.fn("parts", (T.lift(i),), "I")
            I.assume(T.le(0, n))
            part = lambda j: poly(i, j)
            l = loop(I, c, "parts", n, part, lambda j: path_spec(part(j)), (i,))
            return Multi(l)

        def check(ps, i):
            c.true("one electrode per entry", len(ps) == 1 and ps[0][0] == "one" and isinstance(ps[0][1], Obj))
            el = ps[0][1]
            c.true("polygon electrode", I.rec(el).cls is ELEC)
            c.eq("name", I.getattr(el, "name"), T.fn("name", (T.lift(i),), "S"))
            g = geom(i)
            want = path_spec(g) if kind == "polygons" else g.l.after
            got = I.getattr(el, "paths")
            if want == () or I.rec(got).parts == ():
                c.true("no path", I.rec(got).parts == () and want == ())
            else:
                c.eq("paths", got, I.alloc(ListRec(want), List))
            for a, v in (("dc", 0), ("rf", 0)):
                c.eq("no voltage", I.getattr(el, a), T.num(v))
        P = I.call(I.modget(m, "Polygons"), [])
        outer = AppendLoop(c, "entries", N, lambda i: (T.fn("name", (T.lift(i),), "S"), geom(i)), check, (("comp", N, lambda i: T.TRUE, lambda i: (("one", T.fn("electrode", (T.lift(i),), "S")),)),))
        I.rec(P).attrs["__list__"] = outer
        done = 0
        for r in c.run("to_system", lambda: I.call(I.getattr(P, "to_system"), [])):
            c.true("a System", I.rec(r).cls is I.modget(I.load(SYS), "System"))
            c.eq("all electrodes in order", I.rec(r).attrs["__list__"], I.alloc(ListRec(outer.after), List))
            done += 1
        c.true("returns", done > 0)


for _k in ("polygons", "multipolygons"):
    for _d in (2, 3):
        mk(_k, _d)


SP = [POL + ".square_pads"]


def pads(corner, odd):
    @ob("square_pads: %s, from corner %d" % ("a pad in the centre" if odd else "as many as fit", corner), SP, timeout=200)
    def g(c):
        I, m = load_polygons(c)
        step, edge = T.var("step"), T.var("edge")
        I.assume(T.lt(0, step))
        I.assume(T.le(step, edge))
        n0 = T.fn("floor", (T.div(edge, step),), "I")
        I.assume(T.le(1, n0))        # floor(edge/step), step <= edge
        for r in c.run("square_pads", lambda: I.call(I.modget(m, "square_pads"), [step, edge], {"odd": odd, "start_corner": corner})):
            n = n0
            if odd:
                # the next odd number
                n = T.add(n0, T.add(T.mod(n0, 2), 1))
            h = T.div(T.sub(edge, step), 2)
            c.eq("number", r.shape[0], T.mul(4, n))
            c.eq("coordinates", r.shape[1], 2)
            for s in range(4):
                k = T.fresh("k", "I")
                side = (s + corner) % 4

                def cond(x):
                    I.assume(T.le(0, k))
                    I.assume(T.lt(k, n))
                p = T.mul(T.sub(T.add(k, T.div(1, 2)), T.div(n, 2)), step)
                xy = [(T.neg(h), T.neg(p)), (p, T.neg(h)), (h, p), (T.neg(p), h)][side]
                cond(0)
                for a in range(2):
                    c.eq("side %d, %s of pad k" % (s, "xy"[a]), I.elem(r, (T.add(T.mul(s, n), k), T.num(a))), xy[a])


for _s in range(4):
    for _o in (False, True):
        pads(_s, _o)
