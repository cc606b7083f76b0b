"""C25: Floquet matrix."""
from checks.systems import *

INFO = {"build": True}
U = "electrode.utils"


def want6(I, r, n, k):
    """[harmonic, harmonic', derivative, derivative', i, j]"""
    two = lambda l: T.mul(2, T.sub(l, r))

    def f(ix):
        l, m, d, e, i, j = ix
        same = T.and_(T.eq(l, m), T.eq(i, j))
        re, im = T.num(0, "R"), T.num(0, "R")
        diag = T.and_(T.eq(d, e), same)
        im = T.ite(diag, T.toreal(two(l)), im)
        re = T.ite(T.and_(T.eq(d, 0), T.eq(e, 1), same), T.num(1, "R"), re)
        for q in range(k):
            re = T.ite(T.and_(T.eq(d, 1), T.eq(e, 0), T.or_(T.eq(T.sub(l, m), q), T.eq(T.sub(m, l), q))), T.neg(T.fn("a%d" % q, (i, j))), re)
        return Cx(re, im)
    h = T.add(T.mul(2, r), 1)
    return I.new_arr((h, h, 2, 2, n, n), f, "C")


def mk(n, k):
    tag = "%s dimensions, %d coefficients" % ("any number of" if n is None else n, k)

    @ob("mathieu: any cutoff, " + tag, [U + ".mathieu"])
    def g(c):
        I, m = load(c, U)
        r = T.var("r", "I")
        I.assume(T.le(0, r))
        N = n
        if n is None:
            N = T.var("n", "I")
            I.assume(T.lt(0, N))
        a = [I.new_arr((N, N), lambda i, q=q: T.fn("a%d" % q, i), "R") for q in range(k)]

        def run():
            I.events[:] = []
            v = I.call(I.modget(m, "mathieu"), [r] + a)
            return v, list(I.events)
        cnt = 0
        for v, ev in c.run("mathieu", run):
            cnt += 1
            if len(ev) != 1 or ev[0][0] != "eig":
                c.fail("mathieu", "one eigenvalue problem expected")
                continue
            _, M, w, b, nm = ev[0]
            h = T.add(T.mul(2, r), 1)
            W = want6(I, r, N, k)
            W = I.call(I.getattr(W, "transpose"), [(0, 2, 4, 1, 3, 5)])
            s = I.binop("*", I.binop("*", h, 2), N)
            W = I.call(I.getattr(W, "reshape"), [s, s])
            c.eq("Floquet matrix", M, W)
            c.eq("eigenvalues", v[0], w)
            c.eq("eigenvectors", v[1], b)
        c.true("returns", cnt > 0)


for _n in (1, 2, 3, None):
    for _k in (1, 2, 3):
        mk(_n, _k)


# ------------------------------------------------------------------ System.mathieu
def electrical(I, f, args, kw):
    """contract of System.electrical_potential (C05): the fully expanded derivative tensor of one kind of potential"""
    b = I.bind_args(f, args, kw)
    d, typ, ex = I.py(b["derivative"]), b["typ"], I.py(b["expand"])
    x = I.as_arr(b["x"], "R")
    if typ not in ("dc", "rf") or d != 2 or ex is not True or x.ndim != 1:
        raise Unsupported("electrical_potential(%r, %r, expand=%r)" % (d, typ, ex))
    xf = I.freeze_arr(x)
    return I.new_arr((1,) + (3,) * d, lambda i: D(typ, [xf((T.num(k),)) for k in range(3)], [int(k.args[0]) for k in i[1:]]), "R")


def floquet(r, size):
    """contract of utils.mathieu (first part)"""
    def g(I, f, a, kw):
        if kw or len(a) != 3:
            raise Unsupported("call of mathieu with %d coefficients" % (len(a) - 1))
        A, Q = [I.as_arr(v, "R") for v in a[1:]]
        if tuple(map(str, A.shape)) != ("3", "3") or tuple(map(str, Q.shape)) != ("3", "3"):
            raise Unsupported("coefficients of other shapes")
        I.events.append(("mathieu", T.lift(a[0]), [I.elem(A, (i, j)) for i in range(3) for j in range(3)], [I.elem(Q, (i, j)) for i in range(3) for j in range(3)]))
        w = I.new_arr((size,), lambda i: Cx(T.fn("mu_re", i), T.fn("mu_im", i)), "C")
        b = I.new_arr((size, size), lambda i: Cx(T.fn("b_re", i), T.fn("b_im", i)), "C")
        return w, b
    return g


def eta(f, k):
    return T.lift(f((k,)))


def mks(how, rgiven):
    @ob("System.mathieu: %s, %s" % (how, "given cutoff" if rgiven else "cutoff omitted"), [SYS + ".System.mathieu"])
    def g(c):
        I, m = load(c)
        s = I.call(I.modget(m, "System"), [])
        r = T.var("r", "I") if rgiven else T.num(2)
        if rgiven:
            I.assume(T.le(0, r))
        size = T.mul(6, T.add(T.mul(2, r), 1)) if rgiven else T.var("size", "I")
        if not rgiven:
            I.assume(T.lt(0, size))
        I.contracts[SYS + ":System.electrical_potential"] = electrical
        I.contracts[U + ":mathieu"] = floquet(r, size)
        scale = T.var("s", "R")
        kw = {}
        if rgiven:
            kw["r"] = r
        if how == "sorted=True":
            kw["sorted"] = True
        elif how == "sorted=False":
            kw["sorted"] = False
        x = [T.fn("x", (T.num(k),)) for k in range(3)]
        xa = I.new_arr((3,), lambda i: T.fn("x", i), "R")

        def run():
            I.events[:] = []
            v = I.call(I.getattr(s, "mathieu"), [xa, scale], kw)
            return v, list(I.events)
        cnt = 0
        k, l = T.var("kq", "I"), T.var("lq", "I")
        for (mu, b), ev in c.run("mathieu", run):
            cnt += 1
            calls = [e for e in ev if e[0] == "mathieu"]
            if len(calls) != 1:
                c.fail("one Floquet problem", "%d" % len(calls))
                continue
            c.eq("cutoff", calls[0][1], r)
            for i in range(3):
                for j in range(3):
                    c.eq("a[%d,%d] = 16 s^2 dc curvature" % (i, j), calls[0][2][3 * i + j], T.mul(16, scale, scale, D("dc", x, [i, j])))
                    c.eq("a1[%d,%d] = 8 s^2 rf curvature" % (i, j), calls[0][3][3 * i + j], T.mul(8, scale, scale, D("rf", x, [i, j])))
            if how == "sorted=False":
                pos, n = (lambda q: q), size
                c.true("no selection", not [e for e in ev if e[0] in ("mask", "argsort")])
            else:
                ma = [e for e in ev if e[0] == "mask"]
                names = set(e[1] for e in ma)
                so = [e for e in ev if e[0] == "argsort"]
                if not ma or len(names) != 1 or len(so) != 1:
                    c.fail("selection and ordering", "expected one selection and one ordering: %r" % ([e[:2] for e in ev],))
                    continue
                c.true("selects exactly the branches of non-negative frequency",
                       T.eq(T.ite(T.lift(I.elem(ma[0][2], (k,))), 1, 0), T.ite(T.le(0, T.fn("mu_im", (k,))), 1, 0)))
                n = so[0][2].shape[0]
                c.eq("number of selected branches", n, T.summ(k, 0, size, T.ite(T.le(0, T.fn("mu_im", (k,))), 1, 0)))
                sel = lambda q: T.fn(ma[0][1], (q,), "I")
                c.eq("ordered by frequency", I.scalar(I.elem(so[0][2], (l,))), T.fn("mu_im", (sel(l),)))
                pos = lambda q: sel(T.fn(so[0][1], (q,), "I"))
            c.eq("exponents", mu, I.new_arr((n,), lambda i: Cx(T.div(T.fn("mu_re", (pos(i[0]),)), 2), T.div(T.fn("mu_im", (pos(i[0]),)), 2)), "C"))
            c.eq("matching eigenvectors", b, I.new_arr((size, n), lambda i: Cx(T.fn("b_re", (i[0], pos(i[1]))), T.fn("b_im", (i[0], pos(i[1])))), "C"))
        c.true("returns", cnt > 0)


for _h in ("default", "sorted=True", "sorted=False"):
    for _r in (True, False):
        mks(_h, _r)
