"""C04: superposition."""
from checks.systems import *

F = ["electrode.system.System." + n for n in ("electrical_potential", "individual_potential", "time_potential")]
KINDS = ("points", "one point")


def world(c, kind):
    I, m = load(c)
    s, N, fid = system(c, I, m)
    if kind == "points":
        n, x = points(I)
        row = lambda j: xj(j)
    else:
        n, x = 1, I.new_arr((3,), lambda i: T.fn("x", i), "R")
        row = lambda j: [T.fn("x", (T.num(k),)) for k in range(3)]
    return I, m, s, N, n, x, row


def total(N, typ, order, col, row):
    e = T.var("e", "I")
    return T.summ(e, 0, N, T.mul(T.fn(typ, (e,)), phi(e, order, col, row)))




def mk(order, typ, kind):
    @ob("electrical_potential(%s) order %d, %s" % (typ, order, kind), F[:1])
    def g(c):
        I, m, s, N, n, x, row = world(c, kind)
        r = c.one("call", lambda: I.call(I.getattr(s, "electrical_potential"), [x, order, typ]))
        want = I.new_arr((n, 2 * order + 1), lambda i: total(N, typ, order, i[1], row(i[0])), "R")
        c.eq("sum over the electrodes", r, want)
        # expanded form: the contract of expand_tensor (C06) applied to the reduced form
        r2 = c.one("expand", lambda: I.call(I.getattr(s, "electrical_potential"), [x, order, typ], dict(expand=True)))
        U = I.load("electrode.utils")
        w2 = c.one("expand_tensor", lambda: I.call(I.modget(U, "expand_tensor"), [want]))
        c.eq("expanded", r2, w2)


def ind(order, kind):
    @ob("individual_potential order %d, %s" % (order, kind), F[1:2])
    def g(c):
        I, m, s, N, n, x, row = world(c, kind)
        r = c.one("call", lambda: I.call(I.getattr(s, "individual_potential"), [x, order]))
        want = I.new_arr((N, n, 2 * order + 1), lambda i: phi(i[0], order, i[2], row(i[1])), "R")
        c.eq("unit contributions", r, want)


def tim(order, expand):
    @ob("time_potential order %d, expand=%s" % (order, expand), F[2:])
    def g(c):
        I, m, s, N, n, x, row = world(c, "points")
        t = T.var("t")
        r = c.one("call", lambda: I.call(I.getattr(s, "time_potential"), [x, order, t, expand]))
        want = I.new_arr((n, 2 * order + 1), lambda i: T.add(total(N, "dc", order, i[1], row(i[0])),
                                                             T.mul(T.unary("cos", t), total(N, "rf", order, i[1], row(i[0])))), "R")
        if expand:
            U = I.load("electrode.utils")
            want = c.one("expand_tensor", lambda: I.call(I.modget(U, "expand_tensor"), [want]))
        c.eq("dc + cos(t) rf", r, want)


@ob("no side effects", F)
def frame(c):
    I, m, s, N, n, x, row = world(c, "points")
    for meth, args in (("electrical_potential", [x, 1, "dc"]), ("individual_potential", [x, 1]), ("time_potential", [x, 1, T.var("t")])):
        c.one(meth, lambda: I.call(I.getattr(s, meth), args))
        i = T.var("i0", "I")
        el = c.one("element", lambda: I.call(I.getattr(s, "__getitem__"), [i]), [T.le(0, i), T.lt(i, N)])
        for a in ("dc", "rf"):
            c.eq("%s keeps %s" % (meth, a), I.getattr(el, a), T.fn(a, (i,)))


for _o in range(6):
    for _k in KINDS:
        for _t in ("dc", "rf"):
            mk(_o, _t, _k)
        ind(_o, _k)
    for _e in (False, True):
        tim(_o, _e)

INFO = {"build": True}
