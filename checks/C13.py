"""C13: CoverElectrode."""
from checks.systems import *

INFO = {"build": True}
F = ["electrode.electrode.CoverElectrode.potential", "electrode.electrode.CoverElectrode.__init__",
     "electrode.electrode.Electrode.__init__"]


def spec(order, z, col, V, h):
    if order == 0:
        return T.div(T.mul(V, z), h)
    if order == 1 and col == 2:
        return T.div(V, h)
    return T.num(0, "R")


def mk(order, given, defaults=False):
    @ob("potential order %d, out %s%s" % (order, "given" if given else "None", ", default potential" if defaults else ""), F)
    def g(c):
        I, m = load(c, ELE)
        h, V = T.var("h"), T.num(1, "R") if defaults else T.var("V")
        I.assume(T.not_(T.eq(h, 0)))
        el = I.call(I.modget(m, "CoverElectrode"), [], dict(height=h, name="c", dc=T.var("dc"), rf=T.var("rf")))
        n, x = points(I)
        out = I.new_arr((n, 2 * order + 1), lambda i: T.fn("o", i), "R") if given else None
        kw = {}
        if not defaults:
            kw["potential"] = V
        if given:
            kw["out"] = out
        r = c.one("call", lambda: I.call(I.getattr(el, "potential"), [x, order], kw))
        want = I.new_arr((n, 2 * order + 1), lambda i: T.add(T.fn("o", i) if given else T.num(0, "R"),
                                                             spec(order, xj(i[0])[2], int(i[1].args[0]), V, h)), "R")
        c.eq("value", r, want)
        if given:
            c.eq("in place", out, want)
        j = T.var("ix0", "I")
        c.eq("x unchanged", I.elem(x, (j, T.num(2))), xj(j)[2], pc=[T.le(0, j), T.lt(j, n)])
        for a, v in (("dc", T.var("dc")), ("rf", T.var("rf")), ("height", h), ("name", "c")):
            c.eq("attribute " + a, I.getattr(el, a), v)


for _o in range(7):
    for _g in (False, True):
        mk(_o, _g)
    mk(_o, False, True)
