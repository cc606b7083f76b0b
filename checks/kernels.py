"""Contracts of the potential kernels: the loop structure of point_/polygon_/mesh_potential over an abstract
leaf (the leaf's contract), and the leaves themselves as symbolic terms.  Shared by C01, C02, C03, C12."""
from pyvc.harness import *
from pyvc import pyx

CY, PYM = "electrode.cexpressions", "electrode.expressions"
FN = {"point": "point_potential_expr", "edge": "edge_potential_expr"}
PARAMS = {"point": ["x", "y", "z", "r", "a"], "edge": ["x1", "x2", "y1", "y2", "r1", "r2", "l2", "z", "a"]}


def load(c, impl):
    I = c.interp()
    pyx.install(I)
    return I, I.load(impl)


def leaf(c, impl, kind, order, pre=()):
    """the increments of d[0..2n] as terms of the leaf's own parameters (all independent variables)"""
    I, m = load(c, impl)
    v = {n: T.var(n) for n in PARAMS[kind]}
    for p in pre:
        I.assume(p(v))
    d = I.new_arr((2 * order + 1,), lambda i: T.fn("d0", i), "R")
    f = I.modget(m, FN[kind])
    kw = dict(v)
    kw["derivative"] = order
    kw["d"] = d
    r = c.one("%s order %d" % (FN[kind], order), lambda: I.call(f, [], kw))
    out = []
    for k in range(2 * order + 1):
        t = T.sub(I.elem(d, (k,)), T.fn("d0", (T.num(k),)))
        if "d0" in T.fv(t):
            n = NFsimpl(t)
            t = n if n is not None else t
        c.true("%s order %d adds to d[%d]" % (FN[kind], order, k), "d0" not in T.fv(t))
        out.append(t)
    return v, out


def NFsimpl(t):
    from pyvc.nf import NF
    N = NF()
    try:
        return N.to_term(N.poly(t))
    except Exception:
        return None


def abstract(I, impl, kind):
    """callers are checked against this contract of the leaf: d[c] += E(order, c, arguments) for every column c"""
    names = PARAMS[kind]

    def contract(I, f, args, kw):
        b = I.bind_args(f, args, kw)
        d = b["d"]
        n = d.shape[0]
        if not isinstance(n, int):
            raise Unsupported("leaf called with a row of symbolic length")
        for k in range(n):
            val = T.fn("E" + kind, [T.lift(b["derivative"]), T.num(k)] + [real(b[x]) for x in names])
            I.setitem(d, k, I.binop("+", I.getitem(d, k), val))
        return None
    I.contracts["%s:%s" % (impl, FN[kind])] = contract


def real(v):
    if isinstance(v, Arr):
        raise Unsupported("array passed to the leaf")
    return T.toreal(T.lift(v))


def E(kind, order, col, *args):
    return T.fn("E" + kind, [T.num(order), T.num(col)] + [T.toreal(T.lift(a)) for a in args])


def world(c, impl, kind):
    I, m = load(c, impl)
    abstract(I, impl, kind)
    N, K = T.var("N", "I"), T.var("K", "I")
    h, V = T.var("h"), T.var("V")
    I.assume(T.le(0, N))
    I.assume(T.le(0, K))
    x = I.new_arr((N, 3), lambda i: T.fn("x", i), "R")
    return I, m, N, K, h, V, x


def cover_sum(K, h, z, f):
    k = T.var("kc", "I")
    return T.summ(k, T.neg(K), T.add(K, 1), f(T.add(z, T.mul(2, k, h))))


def r3(x, y, z):
    return T.sqrt(T.add(T.mul(x, x), T.mul(y, y), T.mul(z, z)))


def X(j, k):
    return T.fn("x", (T.lift(j), T.num(k)))


def run(c, I, m, name, x, args, order, N, given, spec, note=""):
    """out is None: a fresh zero array; out given: added in place and returned"""
    out = I.new_arr((N, 2 * order + 1), lambda i: T.fn("o", i), "R") if given else None
    tag = "%s(order=%d, out %s)%s" % (name, order, "given" if given else "None", note)
    r = c.one(tag, lambda: I.call(I.modget(m, name), [x] + args(order) + [out]))
    want = I.new_arr((N, 2 * order + 1), lambda ix: T.add(T.fn("o", ix) if given else T.num(0, "R"), spec(ix[0], int(ix[1].args[0]), order)), "R")
    c.eq(tag, r, want)
    if given:
        c.eq(tag + " in place", out, want)
    j = T.var("ix0", "I")
    c.eq(tag + " x unchanged", I.elem(x, (j, T.num(1))), X(j, 1), pc=[T.le(0, j), T.lt(j, N)])


def point_structure(c, impl, orders, givens=(False, True)):
    I, m, N, K, h, V, x = world(c, impl, "point")
    M = T.var("M", "I")
    I.assume(T.le(0, M))
    p = I.new_arr((M, 2), lambda i: T.fn("p", i), "R")
    a = I.new_arr((M,), lambda i: T.fn("ar", i), "R")
    i = T.var("ip", "I")

    def spec(j, col, order):
        def at(z):
            dx, dy = T.sub(X(j, 0), T.fn("p", (i, T.num(0)))), T.sub(X(j, 1), T.fn("p", (i, T.num(1))))
            return E("point", order, col, dx, dy, z, r3(dx, dy, z), T.mul(T.fn("ar", (i,)), V))
        return T.summ(i, 0, M, cover_sum(K, h, X(j, 2), at))
    for order in orders:
        for given in givens:
            run(c, I, m, "point_potential", x, lambda o: [p, a, V, o, K, h], order, N, given, spec)


def edge_args(j, z, p1, p2):
    x1, y1 = T.sub(X(j, 0), p1[0]), T.sub(X(j, 1), p1[1])
    x2, y2 = T.sub(X(j, 0), p2[0]), T.sub(X(j, 1), p2[1])
    l2 = T.add(T.power(T.sub(x1, x2), 2), T.power(T.sub(y1, y2), 2))
    return [x1, x2, y1, y2, r3(x1, y1, z), r3(x2, y2, z), l2, z]


def polygon_structure(c, impl, orders, givens=(False, True)):
    """a list of any number of polygons with any number of vertices each"""
    I, m, N, K, h, V, x = world(c, impl, "edge")
    Q = T.var("Q", "I")
    I.assume(T.le(0, Q))
    q = T.var("iq", "I")
    nv = lambda i: T.fn("nv", (i,), "I")
    I.assume(T.forall(q, 0, Q, T.le(1, nv(q))))

    def poly(i):
        I.literals.add(T.le(1, nv(i)))
        return I.new_arr((nv(i), 2), lambda ix: T.fn("pp", (i,) + tuple(ix)), "R")
    polys = I.alloc(ListRec((("comp", Q, lambda i: T.TRUE, lambda i: (("one", poly(i)),)),)), List)
    e = T.var("ie", "I")

    def spec(j, col, order):
        pt = lambda v: [T.fn("pp", (q, T.lift(v), T.num(k))) for k in range(2)]
        prev = T.ite(T.eq(e, 0), T.sub(nv(q), 1), T.sub(e, 1))
        at = lambda z: T.summ(e, 0, nv(q), E("edge", order, col, *(edge_args(j, z, pt(prev), pt(e)) + [V])))
        return T.summ(q, 0, Q, cover_sum(K, h, X(j, 2), at))
    for order in orders:
        for given in givens:
            run(c, I, m, "polygon_potential", x, lambda o: [polys, V, o, K, h], order, N, given, spec)


def mesh_structure(c, impl, orders, givens=(False, True)):
    I, m, N, K, h, V, x = world(c, impl, "edge")
    P, M, Q = T.var("P", "I"), T.var("M", "I"), T.var("Q", "I")
    for v in (P, M, Q):
        I.assume(T.le(0, v))
    pts = I.new_arr((P, 2), lambda i: T.fn("p", i), "R")
    ed = I.new_arr((M, 2), lambda i: T.fn("ed", i, "I"), "I")
    po = I.new_arr((M,), lambda i: T.fn("po", i, "I"), "I")
    pot = I.new_arr((Q,), lambda i: T.fn("pot", i), "R")
    e = T.var("ie", "I")
    # edges and polygon associations are valid indices
    for k in range(2):
        I.assume(T.forall(e, 0, M, T.and_(T.le(0, T.fn("ed", (e, T.num(k)), "I")), T.lt(T.fn("ed", (e, T.num(k)), "I"), P))))
    I.assume(T.forall(e, 0, M, T.and_(T.le(0, T.fn("po", (e,), "I")), T.lt(T.fn("po", (e,), "I"), Q))))

    def spec(j, col, order):
        vx = lambda k: [T.fn("p", (T.fn("ed", (e, T.num(k)), "I"), T.num(d))) for d in range(2)]
        at = lambda z: E("edge", order, col, *(edge_args(j, z, vx(0), vx(1)) + [T.fn("pot", (T.fn("po", (e,), "I"),))]))
        return T.summ(e, 0, M, cover_sum(K, h, X(j, 2), at))
    for order in orders:
        for given in givens:
            run(c, I, m, "mesh_potential", x, lambda o: [pts, ed, po, pot, o, K, h], order, N, given, spec)


# ------------------------------------------------------------------ the electrode classes over the kernels' contract
ELE = "electrode.electrode"
CLS = {"point": "PointPixelElectrode", "polygon": "PolygonPixelElectrode", "mesh": "MeshPixelElectrode"}


def electrode_obligations(kinds):
    for kind in kinds:
        electrode_one(kind)


def geometry(I, kind, tag=""):
    """constructor arguments of an electrode of any size, and the geometry the kernel has to be given"""
    M, P, Q = T.var("M" + tag, "I"), T.var("P" + tag, "I"), T.var("Q" + tag, "I")
    for v in (M, P, Q):
        I.assume(T.le(0, v))
    if kind == "point":
        return dict(points=I.new_arr((M, 2), lambda i: T.fn("p" + tag, i), "R"), areas=I.new_arr((M,), lambda i: T.fn("ar" + tag, i), "R"))
    if kind == "polygon":
        def poly(i):
            n = T.fn("nv" + tag, (i,), "I")
            I.literals.add(T.le(1, n))
            return I.new_arr((n, 2), lambda ix: T.fn("pp" + tag, (i,) + tuple(ix)), "R")
        return dict(paths=I.alloc(ListRec((("comp", Q, lambda i: T.TRUE, lambda i: (("one", poly(i)),)),)), List))
    return dict(points=I.new_arr((P, 2), lambda i: T.fn("p" + tag, i), "R"), edges=I.new_arr((M, 2), lambda i: T.fn("ed" + tag, i, "I"), "I"),
                polygons=I.new_arr((M,), lambda i: T.fn("po" + tag, i, "I"), "I"), potentials=I.new_arr((Q,), lambda i: T.fn("pot" + tag, i), "R"))


def electrode_one(kind):
    kernel = kind + "_potential"

    @ob("%s hands geometry, voltage, order, cover and out to %s" % (CLS[kind], kernel), ["%s.%s.%s" % (ELE, CLS[kind], n) for n in ("__init__", "potential")])
    def g(c):
        I, m = load(c, ELE)
        calls = []

        def contract(I, f, args, kw):
            b = I.bind_args(f, args, kw)
            calls.append((b, {k: dump(I, v) for k, v in b.items()}))
            return b["out"] if b["out"] is not None else ("fresh", len(calls))
        for impl in (CY, PYM):
            I.contracts["%s:%s" % (impl, kernel)] = contract
        N, K, h, V = T.var("N", "I"), T.var("K", "I"), T.var("h"), T.var("V")
        I.assume(T.le(0, N))
        I.assume(T.le(0, K))
        cls = I.modget(m, CLS[kind])

        def case(tag, args, kw, order, V, given, ctor=True):
            geo = {}

            def run():
                del calls[:]
                x = I.new_arr((N, 3), lambda i: T.fn("x", i), "R")
                out = I.new_arr((N, 2 * order + 1), lambda i: T.fn("o", i), "R") if given else None
                geo.update(geometry(I, kind))
                k2 = dict(geo)
                if ctor:
                    k2.update(cover_nmax=K, cover_height=h, dc=T.var("dc"), rf=T.var("rf"), name=T.var("name", "S"))
                e = I.call(cls, [], k2)
                a, k = list(args), dict(kw)
                if given:
                    k["out"] = out
                r = I.call(I.getattr(e, "potential"), [x] + a, k)
                return r, out, x
            for r, out, x in c.run(tag, run):
                if len(calls) != 1:
                    c.fail(tag + ": one kernel call", "%d calls" % len(calls))
                    continue
                b, d = calls[0]
                c.true(tag + ": result is that of the kernel", r == ("fresh", 1) if not given else r is out)
                c.true(tag + ": out", b["out"] is out)
                c.eq(tag + ": order", T.lift(b["derivative"]), T.num(order))
                c.eq(tag + ": cover_nmax", T.lift(b["cover_nmax"]), K if ctor else T.num(0))
                c.eq(tag + ": cover_height", T.toreal(T.lift(b["cover_height"])), h if ctor else T.num(50, "R"))
                if kind == "mesh":
                    Q, f = dump(I, geo["potentials"])
                    eqd(c, tag + ": potentials", d["potentials"], (Q, lambda i: T.mul(T.toreal(T.lift(V)), f(i))))
                    rest = ("points", "edges", "polygons")
                else:
                    c.eq(tag + ": potential", T.toreal(T.lift(b["potential"])), T.toreal(T.lift(V)))
                    rest = ("points", "areas") if kind == "point" else ("polygons",)
                for k in rest:
                    w = geo["paths"] if kind == "polygon" else geo[k]
                    eqd(c, tag + ": " + k, d[k], dump(I, w))
                eqd(c, tag + ": x", d["x"], dump(I, x))
        case("defaults", [], {}, 0, T.num(1, "R"), False)
        case("default cover", [], {}, 0, T.num(1, "R"), False, ctor=False)
        for o in range(6):
            for given in (False, True):
                case("order %d, out %s" % (o, given), [o, V], {}, o, V, given)
        case("keywords", [], dict(potential=V, derivative=2), 2, V, True)


def dump(I, v):
    """shape and entries of an array (list of arrays: number, shape and entries), independent of the heap"""
    if isinstance(v, Arr):
        f = I.freeze_arr(v)
        return (tuple(T.lift(s) for s in v.shape), lambda i: I.scalar(f(tuple(T.lift(k) for k in i))))
    if isinstance(v, List):
        ps = I.parts(v)
        if len(ps) == 1 and ps[0][0] == "comp":
            q = T.var("lq", "I")
            inner = ps[0][3](q)
            if ps[0][2](q) is T.TRUE and len(inner) == 1 and inner[0][0] == "one":
                sh, f = dump(I, I.as_arr(inner[0][1]))
                return ((T.lift(ps[0][1]),) + tuple(sh), lambda i: T.subst(f(i[1:]), {q: T.lift(i[0])}))
        raise Unsupported("list of another form")
    return v


def eqd(c, label, a, b):
    if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2 and callable(a[1]) and callable(b[1])):
        c.fail(label, "not an array")
        return
    if len(a[0]) != len(b[0]):
        c.fail(label, "dimensions differ")
        return
    for k, (s, t) in enumerate(zip(a[0], b[0])):
        c.eq("%s shape[%d]" % (label, k), s, t)
    nd = len(a[0])
    idx = [T.var("e%d" % k, "I") for k in range(nd)]
    pc = [T.and_(T.le(0, i), T.lt(i, s)) for i, s in zip(idx, b[0])]
    try:
        c.eq(label, a[1](idx), b[1](idx), pc=pc)
    except Unsupported as e:
        c.fail(label, "outside the verified subset: %s" % e, status="undecided")
