"""C37: System.ions: the energy handed to the search, its gradient and Hessian, and the modes."""
from checks.systems import *

INFO = {"build": True}
F = ["electrode.system.System.ions"]
NOTE = ("scipy.optimize.fmin_ncg by contract (evaluates the given functions anywhere, returns a point); System.potential by its contract (C05); "
        "numpy.ma by its documented meaning; the terms j != i of a sum over pairs are those with non-zero distance (ions at distinct positions)")


def world(c, ncg):
    I = c.interp()
    pyx.install(I)
    opt = Module("scipy.optimize", dict(fmin_ncg=Builtin("fmin_ncg", ncg)))
    I.extmods["scipy"] = Module("scipy", dict(optimize=opt, constants=Module("scipy.constants")))
    I.extmods["scipy.optimize"] = opt
    m = I.load(SYS)
    s = I.call(I.modget(m, "System"), [])
    I.contracts["electrode.system:System.potential"] = total_potential
    return I, m, s


def q(i):
    return T.fn("q", (T.lift(i),))


def pos(z, i):
    """position of ion i in the flat vector z"""
    return [T.fn(z, (T.add(T.mul(3, T.lift(i)), T.num(a)),)) for a in range(3)]


def pair(xi, xj, qi, qj):
    """energy of a pair and its first and second derivatives by the coordinates of the first ion and of both"""
    v = [[T.var("p%d%d" % (k, a)) for a in range(3)] for k in range(2)]
    r2 = T.add(*[T.mul(T.sub(v[1][a], v[0][a]), T.sub(v[1][a], v[0][a])) for a in range(3)])
    e = T.div(T.mul(T.var("pq0"), T.var("pq1")), T.unary("sqrt", r2))
    env = {v[0][a]: xi[a] for a in range(3)}
    env.update({v[1][a]: xj[a] for a in range(3)})
    env.update({T.var("pq0"): qi, T.var("pq1"): qj})
    g = [T.diff(e, v[0][a]) for a in range(3)]
    hs = [[T.diff(g[a], v[0][b]) for b in range(3)] for a in range(3)]
    hm = [[T.diff(g[a], v[1][b]) for b in range(3)] for a in range(3)]
    f = lambda t: T.subst(t, env)
    return f(e), [f(t) for t in g], [[f(t) for t in r] for r in hs], [[f(t) for t in r] for r in hm]


def dist2(z, i, j):
    a, b = pos(z, i), pos(z, j)
    return T.add(*[T.mul(T.sub(b[k], a[k]), T.sub(b[k], a[k])) for k in range(3)])


def apart(z, i, j):
    return T.not_(T.eq(dist2(z, i, j), T.num(0, "R")))


def other(z, n, i, f):
    """sum over the ions j != i"""
    k = T.fresh("k", "I")
    return T.summ(k, 0, n, T.ite(apart(z, i, k), f(k), T.num(0, "R")))


@ob("ions", F)
def g(c):
    seen = []

    def ncg(f, x0, fprime, fhess_p=None, fhess=None, args=(), avextol=None, epsilon=None, maxiter=None, full_output=0, disp=1, retall=0, callback=None, **kw):
        if fhess_p is not None or fhess is None or I.length(args) != 0 or I.py(full_output) or I.py(retall):
            raise Unsupported("fmin_ncg called in another way")
        N = T.mul(3, n)
        x0 = I.as_arr(x0)
        fz = I.freeze_arr(x0)
        za = I.new_arr((N,), lambda i: T.fn("za", i), "R")
        zb = I.new_arr((N,), lambda i: T.fn("zb", i), "R")
        h1, f1, g1 = I.call(fhess, [za]), I.call(f, [za]), I.call(fprime, [za])
        g2, f2, h2 = I.call(fprime, [zb]), I.call(f, [zb]), I.call(fhess, [zb])
        fr = lambda a: (a.shape, I.freeze_arr(a))
        seen.append(((x0.shape, fz), ("za", T.lift(I.py(f1)), fr(I.as_arr(g1)), fr(I.as_arr(h1))), ("zb", T.lift(I.py(f2)), fr(I.as_arr(g2)), fr(I.as_arr(h2)))))
        I.events[:] = []
        return I.new_arr((N,), lambda i: T.fn("zr", i), "R")
    I, m, s = world(c, ncg)
    n = T.var("n", "I")
    I.assume(T.le(1, n))
    x0 = I.new_arr((n, 3), lambda i: T.fn("x0", (T.add(T.mul(3, i[0]), i[1]),)), "R")
    qa = I.new_arr((n,), lambda i: T.fn("q", i), "R")
    res = None

    def run():
        r = I.call(I.getattr(s, "ions"), [x0, qa])
        return r, list(I.events)
    for p in c.run("ions", run):
        (x, ew, ev), events = p
        x, ew, ev = I.as_arr(x), I.as_arr(ew), I.as_arr(ev)
        N = T.mul(3, n)
        c.eq("positions", x, I.new_arr((n, 3), lambda i: T.fn("zr", (T.add(T.mul(3, i[0]), i[1]),)), "R"))
        eig = [e for e in events if e[0] == "eigh"]
        if len(eig) != 1:
            c.fail("modes", "one symmetric eigenvalue problem is expected, found %d" % len(eig))
            continue
        _, a, w, v, nm = eig[0]
        hessian(c, I, "matrix of the modes", "zr", n, (a.shape, I.freeze_arr(a)))
        so = [e for e in events if e[0] == "argsort"]
        pm = (lambda k: T.fn(so[0][1], (T.lift(k),), "I")) if so else (lambda k: T.lift(k))
        if so:
            c.eq("sorted by the eigenvalues", so[0][2], w)
        c.eq("eigenvalues", ew, I.new_arr((N,), lambda i: I.elem(w, (pm(i[0]),)), "R"))
        c.eq("mode k belongs to eigenvalue k", ev, I.new_arr((n, 3, N), lambda i: I.elem(v, (T.add(T.mul(3, i[0]), i[1]), pm(i[2]))), "R"))
    c.true("search is used", len(seen) > 0)
    I.pc = [T.le(1, n)]
    for (sh, fz), *ats in seen[:1]:
        c.eq("start", I.new_arr(sh, fz, "R"), I.new_arr((T.mul(3, n),), lambda i: T.fn("x0", i), "R"))
        for z, f, gr, h in ats:
            k = T.fresh("k", "I")
            tot = T.summ(k, 0, n, T.add(D("tot", pos(z, k), []), other(z, n, k, lambda j: T.mul(T.div(T.num(1, "R"), T.num(2, "R")), pair(pos(z, k), pos(z, j), q(k), q(j))[0]))))
            c.eq("energy", f, tot)
            i, a = T.var("i", "I"), None
            rng = [T.le(0, i), T.lt(i, n)]
            c.true("shape of the gradient", len(gr[0]) == 1)
            for a in range(3):
                want = T.add(D("tot", pos(z, i), [a]), other(z, n, i, lambda j: pair(pos(z, i), pos(z, j), q(i), q(j))[1][a]))
                c.eq("gradient %s" % "xyz"[a], T.lift(gr[1]((T.add(T.mul(3, i), T.num(a)),))), want, rng)
            hessian(c, I, "Hessian", z, n, h)


def second(z, i, j, a, b):
    """second derivative of a pair by the coordinates a, b of one of its ions (lemma 'pair' below), over the common denominator"""
    x, y = pos(z, i), pos(z, j)
    d = [T.sub(y[k], x[k]) for k in range(3)]
    r2 = dist2(z, i, j)
    num = T.sub(T.mul(3, d[a], d[b]), r2) if a == b else T.mul(3, d[a], d[b])
    return T.mul(q(i), q(j), num, T.power(T.unary("sqrt", r2), -5))


@ob("pair", F)
def g2(c):
    c.interp()
    i, j = T.var("i", "I"), T.var("j", "I")
    for a in range(3):
        for b in range(3):
            _, _, hs, hm = pair(pos("z", i), pos("z", j), q(i), q(j))
            c.eq("second derivative %s%s" % ("xyz"[a], "xyz"[b]), second("z", i, j, a, b), hs[a][b], [apart("z", i, j)])
            c.eq("mixed derivative %s%s" % ("xyz"[a], "xyz"[b]), hm[a][b], T.neg(hs[a][b]), [apart("z", i, j)])


def hessian(c, I, label, z, n, h):
    sh, f = h
    i, j = T.var("i", "I"), T.var("j", "I")
    rng = [T.le(0, i), T.lt(i, n), T.le(0, j), T.lt(j, n)]
    c.true(label + ": square", len(sh) == 2)
    for a in range(3):
        for b in range(3):
            row = T.add(T.mul(3, i), T.num(a))
            c.eq("%s between ions, %s%s" % (label, "xyz"[a], "xyz"[b]), T.lift(f((row, T.add(T.mul(3, j), T.num(b))))),
                 pair(pos(z, i), pos(z, j), q(i), q(j))[3][a][b], rng + [T.not_(T.eq(i, j)), apart(z, i, j)])
            want = T.add(D("tot", pos(z, i), [a, b]), other(z, n, i, lambda k: second(z, i, k, a, b)))
            c.eq("%s of one ion, %s%s" % (label, "xyz"[a], "xyz"[b]), T.lift(f((row, T.add(T.mul(3, i), T.num(b))))), want, rng)
