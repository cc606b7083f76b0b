"""C14: GridElectrode."""
from checks.systems import *

INFO = {"build": True}
F = ["electrode.electrode.GridElectrode." + n for n in ("__init__", "potential", "generate", "derive")]
DIM = [T.var("n%s" % a, "I") for a in "xyz"]


def data(I, n):
    return I.new_arr(tuple(DIM) + (2 * n + 1,), lambda ix: T.fn("D%d" % n, ix), "R")


def world(c, orders):
    I, m = load(c, ELE)
    for d in DIM:
        I.assume(T.le(2, d))
    o = [T.fn("org", (T.num(k),)) for k in range(3)]
    h = [T.fn("spc", (T.num(k),)) for k in range(3)]
    for s in h:
        I.assume(T.not_(T.eq(s, 0)))
    dat = [data(I, n) for n in orders]
    el = c.one("constructor", lambda: I.call(I.modget(m, "GridElectrode"), [], dict(
        data=I.newlist(dat), origin=I.new_arr((3,), lambda i: T.fn("org", i), "R"), spacing=I.new_arr((3,), lambda i: T.fn("spc", i), "R"),
        name="g", dc=T.var("dc"), rf=T.var("rf"))))
    return I, m, el, o, h, dat


def mk(order, given, default=False):
    @ob("potential order %d, out %s%s" % (order, "given" if given else "None", ", default scale" if default else ""), F[:2])
    def g(c):
        I, m, el, o, h, dat = world(c, range(order + 1))
        n, x = points(I)
        V = T.num(1, "R") if default else T.var("V")
        out = I.new_arr((n, 2 * order + 1), lambda i: T.fn("o", i), "R") if given else None
        kw = {} if default else dict(potential=V)
        if given:
            kw["out"] = out
        r = c.one("call", lambda: I.call(I.getattr(el, "potential"), [x, order], kw))
        gen = [T.var("grid%d" % k, "I") for k in range(3)]

        def spec(j, col):
            at = [T.div(T.sub(xj(j)[k], o[k]), h[k]) for k in range(3)]
            v = T.fn("interp_1_nearest", [T.fn("D%d" % order, gen + [col])] + [T.toreal(d) for d in DIM] + at)
            return T.mul(V, v)
        want = I.new_arr((n, 2 * order + 1), lambda i: T.add(T.fn("o", i) if given else T.num(0, "R"), spec(i[0], i[1])), "R")
        c.eq("value", r, want)
        if given:
            c.eq("in place", out, want)
        j = T.var("ix0", "I")
        for k in range(3):
            c.eq("x unchanged %d" % k, I.elem(x, (j, T.num(k))), xj(j)[k], pc=[T.le(0, j), T.lt(j, n)])
        i4 = tuple(T.var("d%d" % k, "I") for k in range(3))
        for q in range(order + 1):
            for k in range(2 * q + 1):
                c.eq("data unchanged %d %d" % (q, k), I.elem(dat[q], i4 + (T.num(k),)), T.fn("D%d" % q, i4 + (T.num(k),)))


def grad(f, idx, ax, h):
    n, i = DIM[ax], idx[ax]
    v = lambda j: f(idx[:ax] + (j,) + idx[ax + 1:])
    mid = T.div(T.sub(v(T.add(i, 1)), v(T.sub(i, 1))), T.mul(2, h))
    lo = T.div(T.sub(v(T.num(1)), v(T.num(0))), h)
    hi = T.div(T.sub(v(T.sub(n, 1)), v(T.sub(n, 2))), h)
    return T.ite(T.eq(i, 0), lo, T.ite(T.eq(i, T.sub(n, 1)), hi, mid))


def gen(have, maxderiv):
    @ob("generate(%d) from orders 0..%d" % (maxderiv, have), F[:1] + F[2:])
    def g(c):
        I, m, el, o, h, dat = world(c, range(have + 1))
        U = I.load("electrode.utils")
        name = lambda n, i: I.call(I.modget(U, "deriv_to_name"), [n, i])
        c.one("call", lambda: I.call(I.getattr(el, "generate"), [maxderiv]))
        lst = I.concrete_list(I.getattr(el, "data"))
        c.true("orders present", len(lst) == max(have + 1, maxderiv))
        idx = tuple(T.var("ix%d" % k, "I") for k in range(3))
        rng = [x for i, d in zip(idx, DIM) for x in (T.le(0, i), T.lt(i, d))]
        for n in range(len(lst)):
            c.eq("order %d shape" % n, tuple(lst[n].shape), tuple(DIM) + (2 * n + 1,))
            for i in range(2 * n + 1):
                old = I.pc
                I.pc = list(I.pc) + rng
                got = I.elem(lst[n], idx + (T.num(i),))
                I.pc = old
                if n <= have:
                    c.eq("order %d component %d untouched" % (n, i), got, T.fn("D%d" % n, idx + (T.num(i),)), pc=rng)
                    continue
                low = lst[n - 1]
                cands = [(j, k) for j in range(2 * n - 1) for k in range(3) if "".join(sorted(name(n - 1, j) + "xyz"[k])) == name(n, i)]
                best = None
                for j, k in cands:
                    lowf = lambda ix, j=j: I.elem(low, ix + (T.num(j),))
                    r = P.eq_term(got, grad(lowf, idx, k, h[k]), list(I.pc) + rng, c.seed)
                    if r.status == "proved":
                        best = r
                        break
                    best = best or r
                c.record("order %d component %d is a gradient of the right component" % (n, i), best or P.Res("undecided", "names", "no lower component"))
        i4 = tuple(T.var("d%d" % k, "I") for k in range(3))
        for k, (a, b) in enumerate(zip(o, h)):
            c.eq("origin", I.elem(I.getattr(el, "origin"), (k,)), a)
            c.eq("spacing", I.elem(I.getattr(el, "spacing"), (k,)), b)


from pyvc import prover as P
for _o in range(5):
    for _g in (False, True):
        mk(_o, _g)
    mk(_o, False, True)
for _h in range(3):
    for _m in range(1, 6):
        gen(_h, _m)
