"""C28: spherical coordinates and the index packing of the harmonics."""
from checks.trig import *
from pyvc.harness import *

M = "electrode.spherical_harmonics"
F = [M + "." + n for n in ("spherical_to_cartesian", "cartesian_to_spherical")]


def shapes(I, kind, names):
    """arguments and their entries at an arbitrary index"""
    if kind == "numbers":
        v = [T.var(n, "R") for n in names]
        return v, v, ()
    p, q = T.var("p", "I"), T.var("q", "I")
    I.assume(T.and_(T.le(1, p), T.le(1, q)))
    i, j = T.var("i", "I"), T.var("j", "I")
    I.assume(T.and_(T.le(0, i), T.lt(i, p)))
    I.assume(T.and_(T.le(0, j), T.lt(j, q)))
    if kind == "arrays":
        v = [I.new_arr((p, q), lambda k, n=n: T.fn(n, k), "R") for n in names]
        return v, [T.fn(n, (i, j)) for n in names], (i, j)
    v = [T.var(names[0], "R"), I.new_arr((p, 1), lambda k: T.fn(names[1], (k[0],)), "R"),
         I.new_arr((1, q), lambda k: T.fn(names[2], (k[1],)), "R")]
    return v, [v[0], T.fn(names[1], (i,)), T.fn(names[2], (j,))], (i, j)


def at(I, v, idx):
    if isinstance(v, Arr):
        if v.ndim != len(idx):
            raise Unsupported("result of %d dimensions" % v.ndim)
        return I.elem(v, idx)
    return T.lift(v)


def mk(kind):
    @ob("from spherical coordinates and back: " + kind, F)
    def g(c):
        I = c.interp()
        m = I.load(M)
        a, (r, th, ph), idx = shapes(I, kind, ("r", "theta", "phi"))
        facts = [T.lt(0, r), T.lt(0, th), T.lt(th, T.PI), T.lt(T.neg(T.PI), ph), T.le(ph, T.PI), T.lt(0, sin(th))]
        for f in facts:
            I.assume(f)
        n = 0
        for p in c.paths(lambda: (lambda xyz: (xyz, I.concrete_list(I.call(I.modget(m, "cartesian_to_spherical"), list(xyz)))))(
                tuple(I.concrete_list(I.call(I.modget(m, "spherical_to_cartesian"), list(a)))))):
            if p.kind == "raise":
                c.fail("there and back", "raises %s" % (p.value,))
                continue
            n += 1
            xyz, back = p.value
            c.eq("three coordinates", (len(xyz), len(back)), (3, 3))
            for nm, v, w in zip("xyz", xyz, (T.mul(r, sin(th), cos(ph)), T.mul(r, sin(th), sin(ph)), T.mul(r, cos(th)))):
                c.eq(nm, at(I, v, idx), w)
            rs = T.mul(r, sin(th))
            t = Trig(I.pc, [r, rs, sin(th)], [th, ph], [r, rs, T.num(1, "R"), sin(th)])
            for nm, v, w in zip(("r", "theta", "phi"), back, (r, th, ph)):
                c.eq(nm + " again", t(at(I, v, idx)), w)
        c.true("returns", n > 0)

    @ob("from cartesian coordinates and back: " + kind, F)
    def h(c):
        I = c.interp()
        m = I.load(M)
        a, (x, y, z), idx = shapes(I, kind, ("x", "y", "z"))
        I.assume(T.lt(0, T.add(square(x), square(y))))
        n = 0
        for p in c.paths(lambda: (lambda s: (s, I.concrete_list(I.call(I.modget(m, "spherical_to_cartesian"), list(s)))))(
                tuple(I.concrete_list(I.call(I.modget(m, "cartesian_to_spherical"), list(a)))))):
            if p.kind == "raise":
                c.fail("there and back", "raises %s" % (p.value,))
                continue
            n += 1
            s, back = p.value
            c.eq("three coordinates", (len(s), len(back)), (3, 3))
            t = Trig(I.pc)
            rr = at(I, s[0], idx)
            c.eq("r", rr, T.sqrt(T.add(square(x), square(y), square(z))))
            for nm, v, w in zip("xyz", back, (x, y, z)):
                c.eq(nm + " again", t(at(I, v, idx)), w)
        c.true("returns", n > 0)


for k in ("numbers", "arrays", "grid"):
    mk(k)


def mkd(kind, first, second):
    @ob("derivatives %s then %s: %s" % (first, second, kind), [M + ".derivatives_spherical_cartesian"])
    def g(c):
        I = c.interp()
        m = I.load(M)
        p, q = T.var("p", "I"), T.var("q", "I")
        I.assume(T.and_(T.le(1, p), T.le(1, q)))
        arr = lambda n: I.new_arr((p, q), lambda k: T.fn(n, k), "R")
        if kind == "list":
            d = I.newlist([arr("d%d" % k) for k in range(3)])
            ref = [T.fn("d%d" % k, (T.var("i", "I"), T.var("j", "I"))) for k in range(3)]
        else:
            d = I.new_arr((3, p, q), lambda k: T.fn("d", k), "R")
            ref = [T.fn("d", (T.num(k), T.var("i", "I"), T.var("j", "I"))) for k in range(3)]
        i, j = T.var("i", "I"), T.var("j", "I")
        I.assume(T.and_(T.le(0, i), T.lt(i, p), T.le(0, j), T.lt(j, q)))
        r, th, ph = arr("r"), arr("theta"), arr("phi")
        I.assume(T.lt(0, T.fn("r", (i, j))))
        I.assume(T.not_(T.eq(sin(T.fn("theta", (i, j))), 0)))
        n = 0
        f = I.modget(m, "derivatives_spherical_cartesian")
        for pa in c.paths(lambda: I.concrete_list(I.call(f, [I.call(f, [d, r, th, ph], dict(direction=first)), r, th, ph], dict(direction=second)))):
            if pa.kind == "raise":
                c.fail("there and back", "raises %s" % (pa.value,))
                continue
            n += 1
            c.eq("components", len(pa.value), 3)
            for k, v in enumerate(pa.value):
                c.eq("component %d again" % k, at(I, v, (i, j)), ref[k])
        c.true("returns", n > 0)


for k in ("list", "array"):
    mkd(k, "to_spherical", "to_cartesian")
    mkd(k, "to_cartesian", "to_spherical")


@ob("index packing, any nmax", [M + ".SphericalHarmonics.indices"])
def packing(c):
    I = c.interp()
    m = I.load(M)
    N = T.var("N", "I")
    I.assume(T.le(1, N))
    cls = I.modget(m, "SphericalHarmonics")
    o = I.alloc(ObjRec(cls, {"nmax": N}), Obj)
    n = 0
    for pa in c.paths(lambda: I.parts(I.call(I.builtins["list"], [I.call(I.getattr(o, "indices"), [])]))):
        if pa.kind == "raise":
            c.fail("indices", "raises %s" % (pa.value,))
            continue
        n += 1
        one = lambda *v: (("one", tuple(v)),)

        def row(k):
            return (("comp", k, lambda j: T.TRUE, lambda j: one(k, T.sub(j, k), T.sub(T.add(N, j), k), T.sub(T.sub(N, k), 1))),
                    ("comp", T.add(k, 1), lambda j: T.TRUE, lambda j: one(k, j, j, k)))
        c.eq("order, degree and position", Seq(pa.value), Seq((("comp", N, lambda k: T.TRUE, row),)))
    c.true("returns", n > 0)
    # the positions listed above are a bijection onto the square
    p, q = T.var("p", "I"), T.var("q", "I")
    inside = [T.le(1, N), T.le(0, p), T.lt(p, N), T.le(0, q), T.lt(q, N)]
    up = T.le(p, q)
    om = T.ite(up, p, T.sub(p, N))
    on = T.ite(up, q, T.sub(T.sub(N, 1), q))
    c.true("onto: every position holds an order and degree", T.and_(T.le(0, on), T.lt(on, N), T.le(T.neg(on), om), T.le(om, on)), pc=inside)
    pos = lambda n, m: (T.ite(T.le(0, m), m, T.add(N, m)), T.ite(T.le(0, m), n, T.sub(T.sub(N, 1), n)))
    c.eq("onto: which is packed there", pos(on, om), (p, q), pc=inside)
    n_, m_ = T.var("n", "I"), T.var("m", "I")
    legal = [T.le(1, N), T.le(0, n_), T.lt(n_, N), T.le(T.neg(n_), m_), T.le(m_, n_)]
    P, Q = pos(n_, m_)
    c.true("into the square", T.and_(T.le(0, P), T.lt(P, N), T.le(0, Q), T.lt(Q, N)), pc=legal)
    c.eq("one to one", (T.ite(T.le(P, Q), P, T.sub(P, N)), T.ite(T.le(P, Q), Q, T.sub(T.sub(N, 1), Q))), (m_, n_), pc=legal)
