"""C17: group."""
from checks.systems import *

INFO = {"build": True}
F = ["electrode.system.System.group", "electrode.system.System.__init__", "electrode.electrode.PolygonPixelElectrode.__init__"]


def world(c):
    I, m = load(c)

    def paths(i):
        np_ = T.fn("np", (i,), "I")
        I.literals.add(T.le(0, np_))

        def poly(k):
            nv = T.fn("nv", (i, k), "I")
            I.literals.add(T.le(1, nv))
            return I.new_arr((nv, 2), lambda ix: T.fn("pp", (i, k) + tuple(ix)), "R")
        return I.alloc(ListRec((("comp", np_, lambda k: T.TRUE, lambda k: (("one", poly(k)),)),)), List)
    s, N, fid = system(c, I, m, dict(paths=paths))
    q = T.var("qa", "I")
    I.assume(T.forall(q, 0, N, T.le(0, T.fn("np", (q,), "I"))))
    return I, m, s, N, fid, paths


def mk(nt, volts, form="array"):
    sym = nt is None
    @ob("group(%s thresholds as %s, voltages %s)" % ("any number of" if sym else nt, form, "given" if volts else "default"), F)
    def g(c):
        I, m, s, N, fid, paths = world(c)
        vn = "gv" if volts else "dc"
        v = I.new_arr((N,), lambda i: T.fn("gv", i), "R")
        if sym:
            nth = T.var("nt", "I")
            I.assume(T.le(0, nth))
        else:
            nth = nt
        t = lambda i: T.fn("th", (T.lift(i),))
        a_, b_ = T.var("sa", "I"), T.var("sb", "I")
        I.assume(T.forall(a_, 0, nth, T.forall(b_, a_, nth, T.le(t(a_), t(b_)))))
        if form == "array":
            th = I.new_arr((nth,), lambda i: T.fn("th", i), "R")
        elif sym:
            th = I.alloc(ListRec((("comp", nth, lambda i: T.TRUE, lambda i: (("one", t(i)),)),)), List)
        else:
            th = I.newlist([t(i) for i in range(nt)]) if form == "list" else tuple(t(i) for i in range(nt))
        args = [th] + ([v] if volts else [])
        if form == "default":
            args, nth, t = [], 1, lambda i: T.num(0, "R")
        r = c.one("call", lambda: I.call(I.getattr(s, "group"), args))
        c.true("a System", I.rec(r).cls is I.modget(m, "System"))
        c.eq("number of groups", I.length(r), T.add(nth, 1))
        vv = lambda j: T.fn(vn, (j,))

        def inside(g, j):
            return T.and_(T.or_(T.eq(g, 0), T.le(t(T.sub(g, 1)), vv(j))), T.or_(T.eq(g, nth), T.lt(vv(j), t(g))))
        gs = [T.var("g", "I")] if sym else [T.num(k) for k in range(nth + 1)]
        for g in gs:
            rng = [T.le(0, g), T.le(g, nth)]
            el = c.one("group", lambda: I.call(I.getattr(s_get(I, r), "__getitem__"), [I.py(g)]), rng)
            old = I.pc
            I.pc = list(I.pc) + rng
            tag = "group %s: " % (g,)
            c.true(tag + "class", I.rec(el).cls is I.modget(I.load(ELE), "PolygonPixelElectrode"))
            want = I.alloc(ListRec((("comp", N, lambda j: inside(g, j), lambda j: I.parts(paths(j))),)), List)
            c.eq(tag + "paths", I.getattr(el, "paths"), want)
            j = T.var("js", "I")
            cnt = T.summ(j, 0, N, T.ite(inside(g, j), T.num(1), T.num(0)))
            for f in ("dc", "rf"):
                tot = T.summ(j, 0, N, T.ite(inside(g, j), T.fn(f, (j,)), T.num(0, "R")))
                c.eq(tag + f, I.getattr(el, f), T.div(tot, cnt), pc=[T.lt(0, cnt)])
            I.pc = old
        if sym:
            # each electrode lands in exactly one group (induction over the thresholds)
            j, g, h = T.var("je", "I"), T.var("g", "I"), T.var("h", "I")
            rj = [T.le(0, j), T.lt(j, N)]
            both = [T.le(0, g), T.lt(g, h), T.le(h, nth), T.le(t(g), t(T.sub(h, 1)))]
            c.true("at most one group", T.not_(T.and_(inside(g, j), inside(h, j))), pc=rj + both)
            c.true("first group or above its bound", T.or_(inside(T.num(0), j), T.le(t(0), vv(j))), pc=rj + [T.lt(0, nth)])
            c.true("next group or above its bound", T.or_(inside(g, j), T.le(t(g), vv(j))), pc=rj + [T.lt(0, g), T.lt(g, nth), T.le(t(T.sub(g, 1)), vv(j))])
            c.true("last group", inside(nth, j), pc=rj + [T.lt(0, nth), T.le(t(T.sub(nth, 1)), vv(j))])
            c.true("no thresholds: one group", inside(T.num(0), j), pc=rj + [T.eq(nth, 0)])
        i = T.var("ie", "I")
        for f in ("dc", "rf"):
            c.eq("system %s unchanged" % f, I.heap[fid].fields[f](i), T.fn(f, (i,)))


def s_get(I, r):
    return r


for _v in (True, False):
    for _f in ("array", "list"):
        mk(None, _v, _f)
    mk(0, _v)
    mk(1, _v, "list")
    mk(2, _v, "tuple")
    mk(3, _v)
mk(1, False, "default")
